"""Service descriptions that TLC generated: their text (.gr) and a C program that uses the code made from them."""
import os, random, re

CTYPE = {"uint8": "uint8_t", "int8": "int8_t", "uint16": "uint16_t", "int16": "int16_t", "uint32": "uint32_t", "int32": "int32_t",
         "uint64": "uint64_t", "int64": "int64_t", "uint": "unsigned int", "int": "int", "long": "long", "ulong": "size_t", "bool": "uint8_t",
         "float": "float", "double": "double", "uint32_t": "uint32_t", "int16_t": "int16_t"}


class Desc:
    """Names: enumeration n is En<n>, structure n is St<n>, member k of structure n is m<n>_<k>, entry j of a variant e<j>."""

    def __init__(self, d, seed=0):
        self.d, self.rnd, self.ns = d, random.Random(seed), "ns"
        self.case = self.rnd.random() < 0.3
        # the namespaces of enumerations and of structures: those of the library are defined in an imported file
        self.ens, self.sns = self.rnd.choice([("ns", "ns"), ("ns", "ns"), ("lib", "ns"), ("lib", "lib")])

    # ---- names
    def ename(self, i): return "En%d" % i
    def sname(self, i): return "St%d" % i
    def cstruct(self, i): return "%s_st%d" % (self.sns, i)
    def cenum(self, i): return "%s_en%d" % (self.ens, i)
    def svc(self, i): return ("alpha", "beta", "gamma")[i]
    def pre(self, i): return "%s_%s" % (self.ns, self.svc(i))

    def tref(self, t):
        """the type as a description refers to it"""
        n = {"s": lambda: t["n"], "str": lambda: "string", "e": lambda: self.ename(t["i"]), "t": lambda: self.sname(t["i"])}[t["k"]]()
        return n

    def anycase(self, n):
        return "".join(c.upper() if self.rnd.random() < 0.5 else c.lower() for c in n) if self.case else n

    def ty(self, t):
        if t["k"] == "a":
            return self.tyname(t["of"]) + "[]"
        return self.tyname(t)

    def tyname(self, t):
        n = self.tref(t)
        return self.anycase(n) if t["k"] in "et" else n

    def ctype(self, t):
        return {"s": lambda: CTYPE[t["n"]], "str": lambda: "char*", "e": lambda: "enum " + self.cenum(t["i"]),
                "t": lambda: "struct " + self.cstruct(t["i"]), "a": lambda: self.ctype(t["of"]) + "*"}[t["k"]]()

    def members(self, i):
        """flattened: [(name, type, index of the structure that declares it)]"""
        out = []
        for k, m in enumerate(self.d["structs"][i - 1]):
            if m["k"] == "x":
                out += self.members(m["i"])
            else:
                out.append(("m%d_%d" % (i, k + 1), m))
        return out

    # ---- text
    def num(self, n):
        if n >= 0 and self.rnd.random() < 0.4:
            return "0x%X" % n if self.rnd.random() < 0.5 else "0x%x" % n
        return str(n)

    def pad(self):
        return self.rnd.choice([" ", " ", "  ", "\n", "\t", " /* c */ ", " // x\n"])

    def gr(self):
        """-> {file: text}"""
        p, lib, root = self.pad, ["namespace%slib\n" % self.pad()], []
        root.append("namespace%s%s\n" % (p(), self.ns))
        if self.ens == "lib":
            root.append(self.rnd.choice(['import "sub/types.gr"\n', 'import"sub/types"\n']))
            root += ["namespace%s%s\n" % (p(), self.ns)] if self.rnd.random() < 0.3 else []
        (lib if self.ens == "lib" else root).append('define uint32_t from "stdint.h"\ndefine int16_t from "stdint.h"\n')
        o = lib if self.ens == "lib" else root
        for i, e in enumerate(self.d["enums"], 1):
            o.append("enum %s {%s\n}\n" % (self.ename(i), ",".join("\n    V%d%s" % (k, " =%s%s" % (p(), self.num(v["v"])) if v["x"] else "") for k, v in enumerate(e, 1))))
        o = lib if self.sns == "lib" else root
        for i in self.order():
            s = self.d["structs"][i - 1]
            b = ""
            for k, m in enumerate(s, 1):
                if m["k"] == "x":
                    b += "    %s;\n" % self.anycase(self.sname(m["i"]))
                elif m["k"] == "v":
                    b += "    variant m%d_%d {\n%s    }\n" % (i, k, "".join("        %s e%d;\n" % (self.tref(x), j) for j, x in enumerate(m["of"], 1)))
                else:
                    b += "    %s%sm%d_%d;\n" % (self.ty(m), p(), i, k)
            o.append("struct %s {\n%s}\n" % (self.sname(i), b))
        o = root
        for i, s in enumerate(self.d["svcs"]):
            b = ""
            for k, f in enumerate(s["fs"], 1):
                b += "    func fn%d(%s) :%s(%s) = %s;\n" % (k, self.params(f["req"], "a"), p(), self.params(f["res"], "r"), self.num(f["id"]))
            for k, f in enumerate(s["es"], 1):
                if len(f["ps"]) == 1 and f["ps"][0]["k"] in ("t", "e", "str") and self.rnd.random() < 0.5:
                    b += "    event ev%d :%s%s = %s;\n" % (k, p(), self.ty(f["ps"][0]), self.num(f["id"]))
                else:
                    b += "    event ev%d :%s(%s) = %s;\n" % (k, p(), self.params(f["ps"], "a"), self.num(f["id"]))
            o.append("service %s%s(%s) {\n%s}\n" % (self.svc(i), p(), self.num(s["sid"]), b))
        return {"desc.gr": "\n".join(root), "sub/types.gr": "\n".join(lib)}

    def params(self, ps, c):
        return ", ".join("%s %s%d" % (self.ty(t), c, j) for j, t in enumerate(ps, 1))

    def order(self):
        """declaration order: a structure that is only extended may come after the one that extends it"""
        n = len(self.d["structs"])
        o = list(range(1, n + 1))
        if self.rnd.random() < 0.5:
            for i in range(1, n + 1):
                if self.rnd.random() < 0.5 and not self.used(i):
                    o.remove(i)
                    o.append(i)
        return o

    def used(self, i):
        def uses(t): return (t["k"] == "t" and t["i"] == i) or (t["k"] == "a" and uses(t["of"])) or (t["k"] == "v" and any(map(uses, t["of"])))
        def refs(i2): return [t for _, t in self.members(i2)]
        # moved to the end: nothing declared before the end may need it complete, itself aside
        return any(uses(t) for j in range(1, len(self.d["structs"]) + 1) if j != i for t in refs(j))

    # ---- C
    def lit(self, t, v):
        n = sum(b << (8 * k) for k, b in enumerate(v))
        if t["n"] == "float":
            return "f32(0x%xu)" % n
        if t["n"] == "double":
            return "f64(0x%xull)" % n
        return "(%s)0x%xull" % (CTYPE[t["n"]], n)

    def blob(self, v):
        """a static array for many bytes"""
        self.nblob = getattr(self, "nblob", 0) + 1
        return "static const char blob%d[] = \"%s\";" % (self.nblob, "".join("\\%03o" % b for b in v)), "blob%d" % self.nblob

    def fill(self, t, v, lv, out):
        """the elements of an array"""
        if t["k"] == "s" and len(v) > 200:
            decl, n = self.blob([b for x in v for b in x])
            out.append("{ %s memcpy(%s, %s, %d); }" % (decl, lv, n, len(v) * t["w"]))
        else:
            for j, x in enumerate(v):
                self.build(t, x, "%s[%d]" % (lv, j), out)

    def cstr(self, v):
        return "(char[]){%s0}" % "".join("(char)%d," % b for b in v)

    def enumlit(self, t, v):
        return "%s_V%d" % (self.cenum(t["i"]).upper(), v)

    def build(self, t, v, lv, out, heap=True):
        """statements that give the (zeroed) lvalue lv the value v, as an application would"""
        k = t["k"]
        if k == "s":
            out.append("%s = %s;" % (lv, self.lit(t, v)))
        elif k == "e":
            out.append("%s = %s;" % (lv, self.enumlit(t, v)))
        elif k == "str":
            if len(v) > 200:
                decl, n = self.blob(v)
                out.append("{ %s %s = strdup(%s); }" % (decl, lv, n))
            elif v or self.rnd.random() < 0.5:
                out.append("%s = strdup(%s);" % (lv, self.cstr(v)))
        elif k == "t":
            for (n, mt), mv in zip(self.members(t["i"]), v):
                self.build_member(t["i"], n, mt, mv, lv, out)
        else:
            raise ValueError(k)

    def build_member(self, si, n, mt, mv, lv, out):
        if mt["k"] == "a":
            out.append("%s.%s_count = %du;" % (lv, n, len(mv)))
            if mv:
                out.append("%s.%s = calloc(%d, sizeof(%s) ? sizeof(%s) : 1);" % (lv, n, len(mv), self.ctype(mt["of"]), self.ctype(mt["of"])))
                self.fill(mt["of"], mv, "%s.%s" % (lv, n), out)
        elif mt["k"] == "v":
            if mv["t"]:
                out.append("%s.%s_type = %s_%s_E%d;" % (lv, n, self.cstruct(si).upper(), n.upper(), mv["t"]))
                self.build(mt["of"][mv["t"] - 1], mv["v"], "%s.%s.e%d" % (lv, n, mv["t"]), out)
        else:
            self.build(mt, mv, "%s.%s" % (lv, n), out)

    def dump(self, t, lv, cnt=None):
        k = t["k"]
        if k == "s":
            return "dB(&(%s), %d);" % (lv, t["w"])
        if k == "e":
            return 'dF("%%d", (int)(%s));' % lv
        if k == "str":
            return "dS(%s);" % lv
        if k == "t":
            return "dump_%s(&(%s));" % (self.cstruct(t["i"]), lv)
        return 'dF("["); for (uint32_t i_ = 0; i_ < (uint32_t)(%s); i_++) { if (i_) dF(","); %s } dF("]");' % (cnt, self.dump(t["of"], "(%s)[i_]" % lv))

    def dumpers(self):
        o = []
        for i in range(1, len(self.d["structs"]) + 1):
            o.append("static void dump_%s(const struct %s* p);" % (self.cstruct(i), self.cstruct(i)))
        for i in range(1, len(self.d["structs"]) + 1):
            c = self.cstruct(i)
            b = ""
            for j, (n, t) in enumerate(self.members(i)):
                if j:
                    b += 'dF(","); '
                if t["k"] == "v":
                    b += 'dF("{\\"t\\":%%d,\\"v\\":", p->%s_type); switch (p->%s_type) { ' % (n, n)
                    for q, x in enumerate(t["of"], 1):
                        b += "case %s_%s_E%d: %s break; " % (c.upper(), n.upper(), q, self.dump(x, "p->%s.e%d" % (n, q)))
                    b += 'default: dF("[]"); } dF("}"); '
                else:
                    b += self.dump(t, "p->" + n, "p->%s_count" % n) + " "
            o.append('static void dump_%s(const struct %s* p) { (void)p; dF("["); %sdF("]"); }' % (c, c, b))
        return "\n".join(o)

    def headers(self, side):
        return "".join('#include "%s_service%s.h"\n' % (self.pre(i), side) for i in range(len(self.d["svcs"])))


SUPPORT = r'''
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
static inline float f32(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static inline double f64(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
extern void dF(const char*, ...);
static inline void dB(const void* p, int n) { dF("["); for (int i = 0; i < n; i++) dF(i ? ",%d" : "%d", ((const uint8_t*)p)[i]); dF("]"); }
static inline void dS(const char* s) { dF("["); for (int i = 0; s && s[i]; i++) dF(i ? ",%d" : "%d", (uint8_t)s[i]); dF("]"); }
'''


def codec_program(D):
    """One application that is both sides: handlers and events say what they got, op k of the description is op_k()."""
    d = D.d
    o = [SUPPORT, D.headers("_client"), D.headers("_server"), '#include "h_codec.h"\n', D.dumpers()]
    # what a handler answers: the results of the op being made
    for si, s in enumerate(d["svcs"]):
        P = D.pre(si)
        for fi, f in enumerate(s["fs"], 1):
            o.append("static void answer_%d_%d(struct gracht_message* message);" % (si, fi))
            args = "".join(", " + cparam(D, t, "a%d" % j) for j, t in enumerate(f["req"], 1))
            o.append("void %s_fn%d_invocation(struct gracht_message* message%s) {\n  hc_got(message->client, %d, %d, 0); %s hc_done();\n  answer_%d_%d(message);\n}" % (
                P, fi, args, si + 1, fi, dump_params(D, f["req"], "a"), si, fi))
        for fi, f in enumerate(s["es"], 1):
            args = "".join(", " + cparam(D, t, "a%d" % j) for j, t in enumerate(f["ps"], 1))
            o.append("void %s_event_ev%d_invocation(gracht_client_t* client%s) {\n  hc_got(0, %d, %d, 1); %s hc_done();\n}" % (P, fi, args, si + 1, fi, dump_params(D, f["ps"], "a")))
    ops = d["ops"]
    for si, s in enumerate(d["svcs"]):
        for fi, f in enumerate(s["fs"], 1):
            b = ""
            if f["res"]:
                for k, op in enumerate(ops):
                    if op["o"] == "call" and op["s"] == si + 1 and op["f"] == fi:
                        st, use, end = values(D, f["res"], op["res"], "r", response=True)
                        b += "  case %d: { %s hc_ret(%s_fn%d_response(message%s)); %s } break;\n" % (k, st, D.pre(si), fi, use, end)
            o.append("static void answer_%d_%d(struct gracht_message* message) { (void)message; switch (hc_op) {\n%s  default: break; } }" % (si, fi, b))
    o.append("void hc_run(gracht_server_t* server, gracht_client_t* client) {")
    for si, s in enumerate(d["svcs"]):
        P = D.pre(si)
        o.append("  hc_ret(gracht_server_register_protocol(server, &%s_server_protocol));" % P)
        if s["es"]:
            o.append("  hc_ret(gracht_client_register_protocol(client, &%s_client_protocol));" % P)
        o.append("  hc_sub(%d); hc_ret(%s_subscribe(client, NULL)); hc_pump();" % (si + 1, P))
    for k, op in enumerate(ops):
        o.append("  { extern void op_%d(gracht_server_t*, gracht_client_t*); hc_op = %d; op_%d(server, client); }" % (k, k, k))
    for si, s in enumerate(d["svcs"]):
        o.append("  hc_sub(-%d); hc_ret(%s_unsubscribe(client, NULL)); hc_pump();" % (si + 1, D.pre(si)))
    o.append("}")
    for k, op in enumerate(ops):
        si, fi = op["s"] - 1, op["f"]
        P = D.pre(si)
        if op["o"] == "call":
            f = d["svcs"][si]["fs"][fi - 1]
            st, use, end = values(D, f["req"], op["args"], "a")
            b = "  struct gracht_message_context ctx = { 0 };\n  %s\n  hc_begin(%d); hc_ret(%s_fn%d(client, %s%s)); hc_pump(); hc_sent();\n  %s\n" % (
                st, k, P, fi, "&ctx" if f["res"] else "NULL", use, end)
            if f["res"]:
                decl, use, dump, end = "", "", "", ""
                for j, (t, v, room) in enumerate(zip(f["res"], op["res"], op["room"]), 1):
                    n = "o%d" % j
                    if j > 1:
                        dump += ' dF(",");'
                    if t["k"] == "a":
                        c = D.ctype(t["of"])
                        m = min(room, len(v))
                        decl += "%s* %s = malloc(sizeof(%s) * %d); if (%s) memset(%s, 0x5a, sizeof(%s) * %d);\n  " % (c, n, c, room, n, n, c, room)
                        use += ", %s, %d" % (n, room)
                        dump += " " + D.dump(t, n, str(m))
                        if t["of"]["k"] == "t":
                            end += "for (int i_ = 0; i_ < %d; i_++) %s_destroy(&%s[i_]); " % (m, D.cstruct(t["of"]["i"]), n)
                        end += "free(%s); " % n
                    elif t["k"] == "str":
                        decl += "char* %s = malloc(%d); memset(%s, 0x5a, %d);\n  " % (n, room, n, room)
                        use += ", %s, %d" % (n, room)
                        dump += " dS(%s);" % n
                        end += "free(%s); " % n
                    elif t["k"] == "t":
                        c = D.cstruct(t["i"])
                        decl += "struct %s %s; memset(&%s, 0x5a, sizeof(%s));\n  " % (c, n, n, n)
                        use += ", &" + n
                        dump += " dump_%s(&%s);" % (c, n)
                        end += "%s_destroy(&%s); " % (c, n)
                    else:
                        decl += "%s %s; memset(&%s, 0x5a, sizeof(%s));\n  " % (D.ctype(t), n, n, n)
                        use += ", &" + n
                        dump += " " + D.dump(t, n)
                b += "  hc_ret(gracht_client_wait_message(client, &ctx, 0));\n  %s hc_res(%s_fn%d_result(client, &ctx%s)); if (hc_ok()) { %s }\n  hc_done(); if (hc_ok()) { %s }\n" % (
                    decl, P, fi, use, dump, end)
            o.append("void op_%d(gracht_server_t* server, gracht_client_t* client) {\n%s}" % (k, b))
        else:
            f = d["svcs"][si]["es"][fi - 1]
            st, use, end = values(D, f["ps"], op["args"], "a")
            who = "all(server" if op["all"] else "single(server, hc_conn"
            o.append("void op_%d(gracht_server_t* server, gracht_client_t* client) {\n  %s\n  hc_begin(%d); hc_ret(%s_event_ev%d_%s%s)); hc_event(client);\n  %s\n}" % (
                k, st, k, P, fi, who, use, end))
    return "\n".join(o)


def cparam(D, t, n):
    if t["k"] == "a":
        return "const %s* %s, const uint32_t %s_count" % (D.ctype(t["of"]), n, n)
    if t["k"] == "t":
        return "const %s* %s" % (D.ctype(t), n)
    return "const %s %s" % (D.ctype(t), n)


def dump_params(D, ts, c):
    out = []
    for j, t in enumerate(ts, 1):
        n = "%s%d" % (c, j)
        out.append(D.dump(t, "*" + n if t["k"] == "t" else n, n + "_count"))
    return ' dF(",");'.join(out)


def values(D, ts, vs, c, response=False):
    """-> (statements, text of the arguments, statements that release them)"""
    st, use, end = [], "", ""
    for j, (t, v) in enumerate(zip(ts, vs), 1):
        n = "%s%d" % (c, j)
        if t["k"] == "a":
            e = D.ctype(t["of"])
            st.append("%s* %s = %s;" % (e, n, "calloc(%d, sizeof(%s) ? sizeof(%s) : 1)" % (len(v), e, e) if v else "NULL"))
            D.fill(t["of"], v, n, st)
            use += ", %s, %d" % (n, len(v))
            if t["of"]["k"] == "t":
                end += "for (int i_ = 0; i_ < %d; i_++) %s_destroy(&%s[i_]); " % (len(v), D.cstruct(t["of"]["i"]), n)
            end += "free(%s); " % n
        elif t["k"] == "t":
            s = D.cstruct(t["i"])
            st.append("struct %s %s; %s_init(&%s);" % (s, n, s, n))
            D.build(t, v, n, st)
            use += ", &" + n
            end += "%s_destroy(&%s); " % (s, n)
        elif t["k"] == "str":
            st.append("char* %s = NULL;" % n)
            D.build(t, v, n, st)
            use += ", " + n
            end += "free(%s); " % n
        else:
            st.append("%s %s;" % (D.ctype(t), n))
            D.build(t, v, n, st)
            use += ", " + n
    return "\n  ".join(st), use, end


def struct_program(D):
    """Op k of the description on the slots, with the helpers where there are some and as an application would where there are none."""
    d = D.d
    n = len(d["structs"])
    o = [SUPPORT, D.headers(""), '#include "h_struct.h"\n', D.dumpers()]
    for i in range(1, n + 1):
        o.append("static void own_%s(const struct %s* p);" % (D.cstruct(i), D.cstruct(i)))
    for i in range(1, n + 1):
        o.append("static void own_%s(const struct %s* p) { (void)p; %s }" % (D.cstruct(i), D.cstruct(i), " ".join(own(D, i, m, t) for m, t in D.members(i))))
    for s in (1, 2, 3):
        for i in range(1, n + 1):
            o.append("static struct %s s%d_%d;" % (D.cstruct(i), s, i))
        sw = "".join("case %d: dump_%s(&s%d_%d); own_%s(&s%d_%d); break; " % (i, D.cstruct(i), s, i, D.cstruct(i), s, i) for i in range(1, n + 1))
        o.append("static int t%d; static void slot_%d(void) { dF(\"{\\\"t\\\":%%d,\\\"v\\\":\", t%d); switch (t%d) { %sdefault: dF(\"[]\"); } dF(\"}\"); }" % (s, s, s, s, sw))
    at = {}
    body = []
    for k, op in enumerate(d["ops"], 1):
        b, a = [], ""
        s = op["s"]
        if op["o"] == "init":
            at[s] = op["t"]
            c = D.cstruct(op["t"])
            b.append("memset(&s%d_%d, 0x5a, sizeof(struct %s)); %s_init(&s%d_%d); t%d = %d;" % (s, op["t"], c, c, s, op["t"], s, op["t"]))
        elif op["o"] == "copy":
            t, q = at[s], op["b"]
            at[q] = t
            c = D.cstruct(t)
            b.append("memset(&s%d_%d, 0x5a, sizeof(struct %s)); %s_copy(&s%d_%d, &s%d_%d); t%d = %d;" % (q, t, c, c, s, t, q, t, q, t))
        elif op["o"] == "destroy":
            t = at.pop(s)
            b.append("%s_destroy(&s%d_%d); t%d = 0;" % (D.cstruct(t), s, t, s))
        else:
            lv, ty, up, us, mem = place(D, "s%d_%d" % (s, at[s]), at[s], op["p"])
            h = "%s_%s" % (D.cstruct(us), mem) if us else ""
            if op["o"] == "set":
                if ty["k"] == "str":
                    b.append("free(%s); %s = NULL;" % (lv, lv))
                D.build(ty, op["x"][0], lv, b)
            elif op["o"] == "arr":
                b.append("free(%s); %s = NULL;" % (lv, lv))
                D.build_member(us, mem, ty, op["x"][0], up, b)
            elif op["o"] == "add":
                b.append("%s_add(&%s, %d);" % (h, up, op["n"]))
            elif op["o"] == "get":
                b.append("%s* g_ = %s_get(&%s, %d);" % (D.ctype(ty["of"]), h, up, op["n"]))
                if any(True for _ in D.members(ty["of"]["i"])):
                    a = "hs_ans(g_ - %s);" % lv
                else:
                    a = "hs_ans(g_ == &%s[%d] ? %d : -1);" % (lv, op["n"], op["n"])   # elements without size
            elif op["o"] == "choose":
                e = ty["of"][op["j"] - 1]
                st, use, end = values(D, [e], op["x"], "c")
                b.append("%s %s_set_%s(&%s%s); %s" % (st, h, D.tref(e), up, use, end))
            elif op["o"] == "clear":
                b.append("%s_clear(&%s);" % (h, up))
            elif op["o"] == "is":
                a = " ".join("if (%s_is_%s(&%s)) hs_ans(%d);" % (h, D.tref(e), up, j) for j, e in enumerate(ty["of"], 1))
            elif op["o"] == "into":
                c = D.cstruct(ty["i"])
                b.append("%s_destroy(&%s); memset(&%s, 0x5a, sizeof(struct %s)); %s_copy(&s%d_%d, &%s);" % (c, lv, lv, c, c, op["a"], at[op["a"]], lv))
            elif op["o"] == "reset":
                c = D.cstruct(ty["i"])
                b.append("%s_destroy(&%s); memset(&%s, 0x5a, sizeof(struct %s)); %s_init(&%s);" % (c, lv, lv, c, c, lv))
            else:
                raise ValueError(op["o"])
        o.append("static void op_%d(void) { %s\n  hs_begin(%d); slot_1(); dF(\",\"); slot_2(); dF(\",\"); slot_3(); hs_answers(); %s hs_end(); }" % (k, "\n  ".join(b), k, a))
        body.append("op_%d();" % k)
    o.append("void hs_run(void) { %s }" % " ".join(body))
    return "\n".join(o)


def place(D, lv, si, path):
    """-> (lvalue, its type, lvalue of the structure it is a member of, that structure, name of the member)"""
    ty, up, us, mem = {"k": "t", "i": si}, None, None, None
    for k in path:
        if ty["k"] == "t":
            m, t = D.members(ty["i"])[k - 1]
            up, us, mem, lv, ty = lv, ty["i"], m, "%s.%s" % (lv, m), t
        elif ty["k"] == "a":
            lv, ty = "%s[%d]" % (lv, k - 1), ty["of"]
        else:
            lv, ty = "%s.e%d" % (lv, k), ty["of"][k - 1]
    return lv, ty, up, us, mem


def own(D, si, m, t):
    """statements that report the memory a member owns"""
    if t["k"] == "str":
        return "hs_own(p->%s);" % m
    if t["k"] == "t":
        return "own_%s(&p->%s);" % (D.cstruct(t["i"]), m)
    if t["k"] == "a":
        deep = "for (uint32_t i_ = 0; i_ < p->%s_count; i_++) own_%s(&p->%s[i_]);" % (m, D.cstruct(t["of"]["i"]), m) if t["of"]["k"] == "t" else ""
        return "hs_own(p->%s); %s" % (m, deep)
    if t["k"] == "v":
        b = ""
        for j, e in enumerate(t["of"], 1):
            x = "hs_own(p->%s.e%d);" % (m, j) if e["k"] == "str" else "own_%s(&p->%s.e%d);" % (D.cstruct(e["i"]), m, j) if e["k"] == "t" else ""
            b += "case %s_%s_E%d: %s break; " % (D.cstruct(si).upper(), m.upper(), j, x)
        return "switch (p->%s_type) { %sdefault: break; }" % (m, b)
    return ""
