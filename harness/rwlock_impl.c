/* the lock of the header, compiled as code under test */
#include "rwlock.h"
void vl_init(struct rwlock* l) { rwlock_init(l); }
void vl_destroy(struct rwlock* l) { rwlock_destroy(l); }
void vl_rl(struct rwlock* l) { rwlock_r_lock(l); }
void vl_ru(struct rwlock* l) { rwlock_r_unlock(l); }
void vl_wl(struct rwlock* l) { rwlock_w_lock(l); }
void vl_wu(struct rwlock* l) { rwlock_w_unlock(l); }
