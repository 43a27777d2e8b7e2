"""Configurations of System.tla, the design of the library as a whole, per property and tier."""
from vlib import *

# clients, those with datagrams, workers, what clients do, operations per client, may leave, application may stop the server,
# broadcasts and addressed events of the application
Q = {
    "P01": [(2, "", 1, "r", 1, 0, 0, 0, 0), (1, "", 2, "ru", 2, 0, 0, 0, 0), (1, "", 0, "rd", 3, 0, 0, 0, 0)],
    "P02": [(1, "", 2, "rdu", 2, 0, 0, 0, 0), (2, "", 1, "rd", 1, 0, 0, 0, 0)],
    "P04": [(1, "", 1, "ru", 3, 0, 0, 0, 0), (2, "2", 0, "ru", 1, 1, 0, 0, 0)],
    "P05": [(1, "", 0, "b-+", 2, 0, 0, 1, 1), (2, "", 0, "-", 1, 1, 0, 1, 0)],
    "P06": [(2, "", 0, "r", 1, 1, 0, 0, 0), (1, "", 1, "rd", 2, 1, 0, 0, 1)],
    "P13": [(1, "", 1, "rdbs", 1, 1, 1, 0, 0, "Ends Stops"), (1, "", 2, "rs", 2, 0, 1, 0, 0)],
    "P17": [(2, "", 0, "d", 1, 1, 0, 0, 0), (1, "", 1, "dr", 2, 1, 0, 0, 0)],
    "P18": [(1, "1", 0, "r+x-", 2, 0, 0, 1, 0), (1, "1", 1, "r+xu", 2, 1, 1, 1, 0)],
}
T = {
    "P01": [(2, "", 2, "r", 2, 0, 0, 0, 0), (2, "", 0, "r", 2, 0, 0, 0, 0), (1, "", 1, "rub", 3, 0, 0, 0, 0)],
    "P02": [(2, "", 1, "rdu", 1, 1, 0, 0, 0), (1, "", 2, "rdub", 3, 0, 0, 0, 0)],
    "P04": [(2, "2", 1, "ru", 2, 0, 0, 0, 0)],
    "P05": [(2, "", 0, "b-+", 1, 1, 0, 1, 0), (2, "", 0, "-", 1, 1, 0, 0, 1), (2, "2", 1, "-+", 1, 1, 0, 1, 0)],
    "P06": [(2, "", 1, "r", 1, 1, 1, 0, 0), (2, "", 1, "rd", 1, 1, 0, 0, 0)],
    "P13": [(2, "", 0, "r", 1, 0, 1, 0, 0, "Ends Stops"), (2, "", 1, "ru", 1, 1, 1, 0, 0), (1, "", 2, "rdbs-", 2, 1, 0, 1, 0)],
    "P17": [(2, "", 1, "d", 1, 1, 0, 0, 0), (2, "", 0, "dr", 1, 1, 0, 0, 1)],
    "P18": [(2, "2", 1, "r+", 1, 1, 0, 0, 1), (2, "12", 0, "r+x", 1, 1, 0, 1, 0), (1, "1", 1, "r+xud", 3, 0, 0, 1, 0)],
}
B = {0: "FALSE", 1: "TRUE"}


def check(ctx):
    for n, c in enumerate(Q[ctx.prop] + (T[ctx.prop] if ctx.thorough else [])):
        nc, dg, nw, kinds, ops, leave, stop, casts, targets = c[:9]
        cfg = ctx.path("cfg", "System-%d.cfg" % n)
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n CHECK <- NoneP\n NC = %d\n DG = {%s}\n NW = %d\n NH = 2\n Kinds = {%s}\n MaxOps = %d\n Leave = %s\n AppShut = %s\n"
                    " Casts = %d\n Targets = %d\nINVARIANT SysInv\n%s" % (nc, ", ".join(dg), nw, ", ".join('"%s"' % k for k in kinds), ops, B[leave], B[stop],
                                                                        casts, targets, "PROPERTIES %s\n" % c[9] if len(c) > 9 else ""))
        model_check(ctx, "System.tla", cfg, "the design keeps the guards of Rpc (%d clients%s, %d workers, operations %s x %d%s%s%s)" % (
            nc, ", datagrams: " + dg if dg else "", nw, kinds, ops, ", leaving" if leave else "", ", shutdown" if stop else "", ", liveness" if len(c) > 9 else ""),
            workers=8, heap="12g")


TECH = "System.tla (loop, workers, table of clients with its lock, connections, clients) keeps every guard of Rpc.tla, checked exhaustively with TLC"
NOTE = "the modelled design exhaustively for one or two clients, up to two workers and a few operations each; the real code: "
