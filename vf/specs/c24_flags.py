"""C24: command line flags: each flag takes its value from its last occurrence; a missing required flag is an error."""
from ..spec import *
from .. import llparse as L
import re

H = "flags"
NAMES = ["-a", "--aa", "--bb", "-c", "--cc", "-d", "-e", "--ff", "-b", "-s", "--ss"]
FIELDS = {  # id: (names, type, required)
    0: (["-a", "--aa"], "bool", False), 1: (["--bb"], "int", True), 2: (["-c", "--cc"], "unsigned long", False),
    3: (["-d"], "bool", True), 4: (["-e"], "short", True), 5: (["--ff"], "int", False)}
ONE = {1: (["-b", "--bb"], "int", True)}
W = {"bool": 8, "int": 32, "short": 16, "unsigned long": 64}
I = z3.IntSort()


class Flags:
    def __init__(f, C, fields, default={}):
        f.C, f.fields = C, fields
        f.argv = C.region("argv", 8)
        f.argc = f.argv.n
        C.require(f.argc < (1 << 31))
        C.args(f.argc, f.argv.base)
        f.A = z3.Function("argument", I, I)          # address of the i-th argument
        f.len = z3.Function("length", I, I)          # of the string at an address
        f.eq = {n: z3.Function("is " + n, I, z3.BoolSort()) for n in NAMES}
        f.ok = {t: z3.Function("parses as " + t, I, z3.BoolSort()) for t in W}
        f.val = {t: z3.Function("parsed " + t, I, I) for t in W}
        f.last = {k: z3.Function(f"value{k} after", I, I) for k in fields}
        f.found = {k: z3.Function(f"found{k} after", I, z3.BoolSort()) for k in fields}
        C.require(*[f.last[k](0) == default.get(k, 0) for k in fields], *[z3.Not(f.found[k](0)) for k in fields])
        C.ghost("given", ())
        C.ghost("thrown", "")
        C.load_hook = f.load
        C.extern("strlen", f.strlen)
        for n in ("memcmp", "bcmp", "strcmp", "strncmp"):
            C.extern(n, f.cmp)
        for t in W:
            C.regex(rf"utl::parse_arg<{t}>\(", lambda E, st, a, t=t: f.parse(E, st, a, t))
        C.regex(r"std::runtime_error::runtime_error\(char const\*\)", f.error)
        C.regex(r"std::runtime_error::~runtime_error", lambda E, st, a: None)
        C.extern("cb_flag", f.flag)
        C.inv(f.cands)
        C.E.assumed.add("argv: argc pointers to NUL-terminated strings; parse_arg: its contract (C04); cista::for_each_field (stand-in): calls the function with every field in order")
        C.post(lambda st, r: [("post: every flag is returned", z3.BoolVal(sorted(st.gh["given"]) == sorted(fields)))] +
               [("post: no required flag is missing", f.found[k](f.argc)) for k in fields if fields[k][2]])
        C.on_throw(f.threw)

    # one more argument: definition of the ghost functions
    def unfold(f, st, i):
        i = Z(i)
        nx = f.A(i + 1)
        there = z3.And(i + 1 < f.argc, f.len(nx) > 0)
        for k, (names, t, req) in f.fields.items():
            hit = z3.Or(*[f.eq[n](f.A(i)) for n in names])
            if t == "bool":
                st.assume(f.last[k](i + 1) == z3.If(hit, 1, f.last[k](i)), f.found[k](i + 1) == z3.Or(hit, f.found[k](i)))
            elif t == "text":
                st.assume(f.last[k](i + 1) == z3.If(z3.And(hit, there), nx, f.last[k](i)), f.found[k](i + 1) == z3.If(hit, there, f.found[k](i)))
            else:
                v = z3.If(f.ok[t](nx), f.val[t](nx), 0)
                st.assume(v >= 0, v < (1 << W[t]), f.last[k](i + 1) == z3.If(z3.And(hit, there), v, f.last[k](i)), f.found[k](i + 1) == z3.If(hit, there, f.found[k](i)))
        for n in NAMES:
            st.assume(Imp(f.eq[n](f.A(i)), f.len(f.A(i)) == len(n)))
        st.assume(*[Imp(z3.And(*[f.eq[m](f.A(i)) for m in (a, b)]), z3.BoolVal(False)) for x, a in enumerate(NAMES) for b in NAMES[:x]])
        st.assume(f.A(i) >= 4096, f.len(f.A(i)) >= 0, f.A(i) < (1 << 62), f.len(f.A(i)) < (1 << 62))

    def load(f, E, st, p, ty, size):
        if ty.k != "ptr" or isinstance(p, Loc):
            return None
        E.oblige(st, "memory: an argument that exists is read", z3.And(Z(p) >= f.argv.base, Z(p) < f.argv.base + 8 * f.argc, (Z(p) - f.argv.base) % 8 == 0))
        i = E.fresh("i")
        st.assume(f.argv.base + 8 * i == Z(p), i >= 0, i < f.argc)
        f.unfold(st, i)
        return f.A(i)

    def lit(f, st, p):
        """the characters of a string literal"""
        if not isinstance(p, Loc) or not isinstance(p.f, int) or p.o not in st.objs:
            return None
        o, r, k = st.objs[p.o], "", p.f
        while True:
            c = o.cells.get(k)
            v = c[1] if c else next((b for lo, hi, b in o.fill if lo <= k < hi), None)
            if not isinstance(v, int):
                return None
            if v == 0:
                return r
            r += chr(v)
            k += 1

    def strlen(f, E, st, a):
        s = f.lit(st, a[0])
        if s is not None:
            return len(s)
        if isinstance(a[0], Loc):
            raise Unsupported("strlen of a local buffer")
        E.oblige(st, "memory: the length of a string that exists is asked for", Z(a[0]) >= 4096)
        return f.len(Z(a[0]))

    def cmp(f, E, st, a):
        x, y = f.lit(st, a[0]), f.lit(st, a[1])
        p, s = (a[1], x) if x is not None else (a[0], y)
        if s is None or isinstance(p, Loc) or s not in f.eq:
            raise Unsupported("comparison of unknown strings")
        E.oblige(st, "memory: a string that exists is compared", Z(p) >= 4096)
        r = E.fresh("cmp")
        st.assume(r >= 0, r < (1 << 32))
        if len(a) == 2:
            st.assume((r == 0) == f.eq[s](Z(p)))
        else:
            E.oblige(st, "memory: the comparison stays within the strings", z3.And(Z(a[2]) <= f.len(Z(p)) + 1, Z(a[2]) <= len(s) + 1))
            full = z3.Or(Z(a[2]) == len(s) + 1, z3.And(Z(a[2]) == len(s), f.len(Z(p)) == len(s)))
            st.assume(Imp(full, (r == 0) == f.eq[s](Z(p))), Imp(Z(a[2]) == 0, r == 0))
        return r

    def parse(f, E, st, a, t):
        w = W[t] // 8
        p, n = E.load(st, a[0], L.PTR), E.load(st, Loc(a[0].o, a[0].f + 8), L.IntTy(64))
        E.oblige(st, "value: the argument behind the flag is parsed", Z(n) == f.len(Z(p)))
        v = z3.If(f.ok[t](Z(p)), f.val[t](Z(p)), Z(a[2]))
        st.assume(f.val[t](Z(p)) >= 0, f.val[t](Z(p)) < (1 << W[t]))
        E.store(st, a[1], v, L.IntTy(W[t]))
        E.store(st, a[0], E.mod_fresh(st, "rest", 64), L.PTR)
        E.store(st, Loc(a[0].o, a[0].f + 8), E.mod_fresh(st, "restn", 64), L.IntTy(64))
        return f.ok[t](Z(p))

    def error(f, E, st, a):
        st.gh["thrown"] = f.lit(st, a[1]) or "?"

    def threw(f, st, v):
        k = next((k for k in sorted(f.fields) if f.fields[k][0][-1] == st.gh["thrown"] and f.fields[k][2]), None)
        if k is None:
            return [("post: the error names a missing required flag", z3.BoolVal(False))]
        return [("post: the error names a missing required flag", z3.Not(f.found[k](f.argc)))]

    def flag(f, E, st, a):
        k = a[0]
        st.gh["given"] = st.gh["given"] + (k,)
        t = f.fields[k][1]
        w = W[t]
        v = f.last[k](f.argc)
        if t in ("int", "short"):
            v = z3.If(v < (1 << (w - 1)), v, v + (1 << 64) - (1 << w))
        E.oblige(st, "post: each flag has the value of its last occurrence with one, else its default", Z(a[1]) == v)

    def cands(f, E, H):
        out = []
        idx = [(n, g) for n, g in H.ints if not n.startswith("cell")]
        idx = idx + [(n + "+1", lambda st, g=g: (Z(g(st)) + 1) % (1 << 32)) for n, g in idx] + [(f"argc-{n}", lambda st, g=g: f.argc - Z(g(st))) for n, g in idx] + \
            [(f"({n}-argv)/8", lambda st, g=g: (Z(g(st)) - f.argv.base) / 8) for n, g in H.pos if n in H.raw and not n.startswith("cell")]
        out += [(f"{n} is an argument's place", lambda st, g=g: z3.And((Z(g(st)) - f.argv.base) % 8 == 0, Z(g(st)) >= f.argv.base, Z(g(st)) <= f.argv.base + 8 * f.argc)) for n, g in H.pos if n in H.raw]
        vals = list(H.ints) + [(n, g) for n, g in H.pos if n.startswith(("cell", "ghost text"))] + [(n, g) for n, g, w in H.cells]
        for ni, gi in idx:
            out.append((f"{ni} in range", lambda st, gi=gi: z3.And(Z(gi(st)) >= 0, Z(gi(st)) <= f.argc)))
            for k in f.fields:
                out.append((f"{k} does not occur after {ni}", lambda st, gi=gi, k=k: z3.And(f.last[k](Z(gi(st))) == f.last[k](f.argc), f.found[k](Z(gi(st))) == f.found[k](f.argc))))
                for nv, gv in vals:
                    if nv == ni:
                        continue
                    out.append((f"{nv} is the value of {k} after {ni}", lambda st, gi=gi, gv=gv, k=k: Z(gv(st)) == f.last[k](Z(gi(st)))))
                    out.append((f"{nv} tells if {k} is found after {ni}", lambda st, gi=gi, gv=gv, k=k: Z(gv(st)) == z3.If(f.found[k](Z(gi(st))), z3.IntVal(1), z3.IntVal(0))))
                for nv, gv in H.bools:
                    out.append((f"{nv} tells if {k} is found after {ni}", lambda st, gi=gi, gv=gv, k=k: Z(gv(st)) == f.found[k](Z(gi(st)))))
        return out


@unit("C24", H, "one")
def one(C):
    """a required flag with a short and a long name"""
    Flags(C, ONE)


@unit("C24", H, "cfg")
def cfg(C):
    """six flags: bool and numbers, required and optional, short and long names"""
    Flags(C, FIELDS)


# ---------------------------------------------------------------- string-valued flags, defaults, texts
STR = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s?>::"
SS = r"^std::__cxx11::basic_(o|i|)stringstream<char, std::char_traits<char>, std::allocator<char>\s?>::"


@unit("C24", H, "txt")
def txt(C):
    """a flag whose value is a text: exactly the bytes of the argument behind its last occurrence"""
    f = Flags(C, {9: (["-s", "--ss"], "text", False)})
    C.ghost("text", z3.IntVal(-1))     # address of the argument the text was taken from; 0: empty; -1: no text yet

    def fresh(E, st, a):
        st.gh["text"] = z3.IntVal(0)

    def assign(E, st, a):
        E.oblige(st, "value: all of the argument is taken", Z(a[2]) == f.len(Z(a[1])))
        st.gh["text"] = Z(a[1])
        return a[0]
    C.regex(STR + r"basic_string\(\)", fresh)
    C.regex(STR + r"assign\(char const\*, unsigned long\)", assign)
    C.regex(STR + r"basic_string\(std::__cxx11::basic_string<.*>&&\)", lambda E, st, a: None)
    C.regex(STR + r"operator=\(std::__cxx11::basic_string<.*>&&\)", lambda E, st, a: a[0])
    C.regex(STR + r"~basic_string\(", lambda E, st, a: None)

    def out(E, st, a):
        st.gh["given"] = st.gh["given"] + (9,)
        E.oblige(st, "post: the flag has the text of its last occurrence with one, else none", Z(st.gh["text"]) == f.last[9](f.argc))
    C.extern("cb_str", out)


@unit("C24", H, "dflt")
def dflt(C):
    """flags with default values keep them if they are not given"""
    Flags(C, {1: (["--bb"], "int", False), 2: (["-c"], "unsigned long", False)}, {1: 42, 2: 7})


class Text:
    """a string stream: literal text and values, in order; padding is applied to literals"""

    def __init__(t, C):
        t.C = C
        for k, v in (("out", ()), ("width", 0), ("str", None), ("given", None)):
            C.ghost(k, v)
        C.regex(SS + r"basic_(o|i|)stringstream\(\)", t.make)
        C.regex(SS + r"~basic_(o|i|)stringstream\(\)", lambda E, st, a: None)
        C.regex(SS + r"str\(\)", lambda E, st, a: st.gh.__setitem__("str", st.gh["out"]))
        C.regex(STR + r"~basic_string\(", lambda E, st, a: None)
        C.regex(STR + r"basic_string\(std::__cxx11::basic_string<.*>&&\)", lambda E, st, a: None)
        C.regex(r"std::operator<<<.*\(std::basic_ostream<.*>&, std::_Setw\)", t.setw)
        C.regex(r"std::operator<<<.*\(std::basic_ostream<.*>&, char const\*\)", lambda E, st, a: t.put(E, st, a, t.lit(st, a[1])))
        C.regex(r"std::operator<<<.*\(std::basic_ostream<.*>&, char\)", lambda E, st, a: t.put(E, st, a, chr(a[1]) if isinstance(a[1], int) else ("char", a[1])))
        C.regex(r"^std::(basic_)?ostream(<.*>)?& std::(basic_)?ostream(<.*>)?::_M_insert<bool>", t.boolean)
        C.regex(r"^std::(basic_)?ostream(<.*>)?& std::(basic_)?ostream(<.*>)?::_M_insert<(unsigned )?long>", lambda E, st, a: t.put(E, st, a, ("value", a[1])))
        C.regex(r"^std::(basic_)?ostream(<.*>)?::operator<<\((short|int|long|unsigned int|unsigned long)\)", lambda E, st, a: t.put(E, st, a, ("value", a[1])))
        C.extern("cb_str", lambda E, st, a: st.gh.__setitem__("given", st.gh["str"]))
        C.E.assumed.add("string streams: what is written is the text, in order, with its width; cista::for_each_field (stand-in): calls the function with every field in order")

    lit = Flags.lit

    def make(t, E, st, a):
        # the stream part of the object: virtual base behind the buffer, format flags in it
        vt = t.C.object("vtable", 64, o8_8=112)
        st.objs[vt.o] = t.C.st.objs[vt.o] if vt.o not in st.objs else st.objs[vt.o]
        E.store(st, Loc(a[0].o, a[0].f + 16), Loc(vt.o, 32), L.PTR)
        E.store(st, Loc(a[0].o, a[0].f + 152), 0x1002, L.IntTy(32))

    def put(t, E, st, a, v):
        if v is None:
            raise Unsupported("unknown text")
        if st.gh["width"]:
            v = v.rjust(st.gh["width"]) if isinstance(v, str) else ("padded", v)
            st.gh["width"] = 0
        st.gh["out"] = st.gh["out"] + (v,)
        return a[0]

    def setw(t, E, st, a):
        if not isinstance(a[1], int):
            raise Unsupported("width not constant")
        st.gh["width"] = a[1]
        return a[0]

    def boolean(t, E, st, a):
        f = E.load(st, Loc(a[0].o, a[0].f + 136), L.IntTy(32))
        return t.put(E, st, a, ("word" if isinstance(f, int) and f & 1 else "number", a[1]))

    def post(t, st, want):
        """want: per line (names, required, text or value)"""
        given = st.gh["given"]
        out = [("post: the text is returned", z3.BoolVal(given is not None))]
        if given is None:
            return out
        pat = "".join(x if isinstance(x, str) else "\1" for x in given)
        vals = [x for x in given if not isinstance(x, str)]
        rx = "\n".join(r" *" + r" +".join(re.escape(n) for n in reversed(names)) + (r" +\*" if req else "") + " +" + (re.escape(x) if isinstance(x, str) else "\1") for names, req, x in want)
        exp = [x for n, q, x in want if not isinstance(x, str)]
        ok = bool(re.fullmatch(rx, pat)) and len(vals) == len(exp)
        out.append(("post: one line for each flag, in order: its names, a star exactly if it is required, its description or value", z3.BoolVal(ok)))
        if ok:
            out.append(("post: each flag is shown with its value, truth values as words", And(*[And(z3.BoolVal(v[0] == e[0]), Z(v[1]) == Z(e[1])) if not z3.is_bool(Z(e[1])) and not z3.is_bool(Z(v[1])) else And(z3.BoolVal(v[0] == e[0]), t.C.E.as_bool(v[1]) == t.C.E.as_bool(e[1])) for v, e in zip(vals, exp)])))
        return out


@unit("C24", H, "description")
def description(C):
    """the description of all flags"""
    t = Text(C)
    C.args()
    C.post(lambda st, r: t.post(st, [(FIELDS[k][0], FIELDS[k][2], d) for k, d in zip(sorted(FIELDS), "abcdef")]))


@unit("C24", H, "print")
def printed(C):
    """the values of all flags"""
    t = Text(C)
    vs = {k: C.sym("v" + str(k), 1 if FIELDS[k][1] == "bool" else W[FIELDS[k][1]]) for k in sorted(FIELDS)}
    C.args(*[vs[k] for k in sorted(FIELDS)])
    C.post(lambda st, r: t.post(st, [(FIELDS[k][0], FIELDS[k][2], ("word" if FIELDS[k][1] == "bool" else "value", vs[k])) for k in sorted(FIELDS)]))


@unit("C24", H, "access")
def _(C):
    """every access reads and writes the one value"""
    x, y, z = C.sym("x"), C.sym("y"), C.sym("z")
    C.args(x, y, z)
    C.ghost("seen", ())

    def seen(E, st, a):
        st.gh["seen"] = st.gh["seen"] + ((a[0], a[1]),)
    C.extern("cb_flag", seen)
    C.post(lambda st, r: [("post: every access delivers the value assigned last", z3.And(z3.BoolVal([k for k, v in st.gh["seen"]] == list(range(7))), *[Z(v) == (z if k == 6 else y if k == 5 else x) for k, v in st.gh["seen"]]))])
