#ifndef H_STRUCT_H
#define H_STRUCT_H
/* after every op: the value of every slot, the answer of the op, what is allocated, whether memory is in two places */
void hs_run(void);                 /* provided by the program */
void hs_begin(int op);
void hs_answers(void);
void hs_ans(long);
void hs_own(const void*);
void hs_end(void);
void dF(const char*, ...);
#endif
