"""C04: numbers, booleans and strings are parsed exactly."""
from ..spec import *
from .c01_cstr import sinks, expect, inside

H = "args"
PLUS, MINUS = 43, 45


def isdig(b):
    return z3.And(b >= 48, b <= 57)


def int_spec(C, s, w, signed, default, exact, check_rest=True, want_ret=True):
    C.bytes_typed()
    st0 = C.st
    e = s.base + s.n
    M = C.E.mem(st0, "m1")
    at = lambda k: SEL(M, k)
    neg = z3.And(s.n > 0, at(s.base) == MINUS) if signed else z3.BoolVal(False)
    d1 = z3.If(neg, s.base + 1, s.base)
    d0 = z3.Int("first_digit")
    C.require(d0 == z3.If(z3.And(d1 < e, at(d1) == PLUS), d1 + 1, d1))
    V = z3.Function("decimal_value", z3.IntSort(), z3.IntSort())
    C.require(V(d0) == 0, Forall(1, lambda k: Imp(z3.And(k >= d0, k < e, isdig(at(k))), V(k + 1) == 10 * V(k) + at(k) - 48), lambda k: at(k)))
    if exact:
        lim = z3.If(neg, z3.IntVal(1 << (w - 1)), z3.IntVal((1 << (w - 1)) - 1)) if signed else z3.IntVal((1 << w) - 1)
        # the value (hence every prefix of the digits) is representable
        C.require(Forall(1, lambda k: z3.And(V(k) >= 0, V(k) <= lim), lambda k: V(k)))

    def cands(E, Hd):
        out = []
        digs = lambda st, hi: Forall(1, lambda k: Imp(z3.And(k >= d0, k < hi), isdig(at(k))), lambda k: at(k))
        ptrs = [x for x in Hd.pos if x[0] in Hd.raw] + [x for x in Hd.pos if x[0] not in Hd.raw and x[0].startswith("s.")]
        for n, f in ptrs:
            P = lambda st, f=f: Z(f(st))
            out.append((f"digits before {n}", lambda st, P=P: digs(st, P(st))))
            out.append((f"{n} >= first digit", lambda st, P=P: P(st) >= d0))
            for bn, bf in Hd.bools:
                out.append((f"{bn} iff {n} > first digit", lambda st, P=P, bf=bf: Z(bf(st)) == (P(st) > d0)))
                out.append((f"not {bn} iff {n} > first digit", lambda st, P=P, bf=bf: z3.Not(Z(bf(st))) == (P(st) > d0)))
            for m, g in Hd.ints:
                if m == n:
                    continue
                Gv = lambda st, g=g: Z(g(st))
                out.append((f"{m} flags a digit before {n}", lambda st, P=P, G=Gv: G(st) == z3.If(P(st) > d0, 1, 0)))
                if exact:
                    out.append((f"{m} == value({n})", lambda st, P=P, G=Gv: G(st) == V(P(st))))
                    for ww in {w, 32, 64}:
                        out.append((f"{m} == -value({n}) mod 2^{ww}", lambda st, P=P, G=Gv, ww=ww: G(st) == z3.If(V(P(st)) == 0, 0, (1 << ww) - V(P(st)))))
        return out
    C.inv(cands)

    def oi(E, st, a):
        st.gh["val"] = a[0]
    C.ghost("val", z3.IntVal(-1))
    C.extern("out_i", oi)
    sinks(C)

    def post(st, r):
        p = Z(st.gh["r0p"]) if check_rest else None
        q = []
        M1 = lambda k: C.byte(st, k)
        if check_rest:
            n = Z(st.gh["r0n"])
            q += [inside(s, p, n), ("post: the rest extends to the end of the view", p + n == e),
                  ("post: everything consumed after sign is digits", z3.And(p >= d0, Forall(1, lambda k: Imp(z3.And(k >= d0, k < p), isdig(at(k))), lambda k: at(k)))),
                  ("post: parsing stops at the first non-digit", Or(p == e, z3.Not(isdig(at(p)))))]
            if want_ret:
                q.append(("post: true exactly if there is a number and nothing else", C.E.as_bool(r) == z3.And(p > d0, p == e)))
        else:
            p = z3.Int("number_end")
        v = Z(st.gh["val"])
        M64 = 1 << 64

        def sval(x):
            return z3.If(x >= 0, x, x + M64)
        val = z3.If(neg, -V(p), V(p))
        pre = z3.BoolVal(True) if check_rest else z3.And(p >= d0, p <= e, Forall(1, lambda k: Imp(z3.And(k >= d0, k < p), isdig(at(k))), lambda k: at(k)), Or(p == e, z3.Not(isdig(at(p)))))
        q.append(("post: without digits the default is delivered", Imp(z3.And(pre, p == d0), v == default)))
        if exact:
            q.append(("post: the delivered number is the mathematical value of the digits with its sign", Imp(z3.And(pre, p > d0), v == sval(val))))
        return q
    C.post(post)
    if not check_rest:
        C.E.externs["out_cstr"] = lambda E, st, a: None
        # name the end of the number for the postcondition: any p satisfying its definition
        C.require(z3.Int("number_end") >= 0)


TY = [("i8", 8, 1), ("u8", 8, 0), ("i16", 16, 1), ("u16", 16, 0), ("i32", 32, 1), ("u32", 32, 0), ("i64", 64, 1), ("u64", 64, 0)]


def sext64(d, w, signed):
    return z3.If(d >= (1 << (w - 1)), d - (1 << w) + (1 << 64), d) if signed and w < 64 else d


for nm, w, sg in TY:
    for ex in (True, False):
        @unit("C04", H, "parse_" + nm, name=f"parse_{nm}{'' if ex else ' (any input)'}")
        def _(C, w=w, sg=sg, ex=ex):
            s = C.view("s")
            C.args(s.base, s.n)
            int_spec(C, s, w, sg, z3.IntVal(0), ex)

    @unit("C04", H, "parse_def_" + nm)
    def _(C, w=w, sg=sg):
        s = C.view("s")
        d = C.sym("default", w)
        C.args(s.base, s.n, d)
        int_spec(C, s, w, sg, sext64(d, w, sg), True)

for nm, w, sg in (("i32", 32, 1), ("u64", 64, 0)):
    @unit("C04", H, "parse_t_" + nm)
    def _(C, w=w, sg=sg):
        s = C.view("s")
        C.args(s.base, s.n)
        int_spec(C, s, w, sg, z3.IntVal(0), True, check_rest=False)

    @unit("C04", H, "parse_t_def_" + nm)
    def _(C, w=w, sg=sg):
        s = C.view("s")
        d = C.sym("default", w)
        C.args(s.base, s.n, d)
        int_spec(C, s, w, sg, sext64(d, w, sg), True, check_rest=False)


@unit("C04", H, "shift_i32")
def _(C):
    s = C.view("s")
    C.args(s.base, s.n)
    int_spec(C, s, 32, True, z3.IntVal(0), True, want_ret=False)


def verify_contract(C):
    """utl::verify(cond, ...) returns iff cond, throws otherwise (proved for C17)"""
    def h(E, st, a):
        c = E.as_bool(a[0])
        if isinstance(c, bool):
            return [("ret", st, None)] if c else [("throw", st, (0, 1))]
        out = []
        if E.feasible(st, c):
            s1 = st.copy()
            s1.assume(c)
            out.append(("ret", s1, None))
        if E.feasible(st, z3.Not(c)):
            s2 = st.copy()
            s2.assume(z3.Not(c))
            out.append(("throw", s2, (0, 1)))
        return out
    C.regex(r"^(void |bool |auto )?utl::verify<", h)
    C.regex(r"^(void |bool |auto )?utl::verify\(", h)


@unit("C04", H, "parse_verify_i32")
def _(C):
    "parse_verify returns exactly for a complete number and throws otherwise"
    s = C.view("s")
    C.args(s.base, s.n)
    int_spec(C, s, 32, True, z3.IntVal(0), True, check_rest=False)
    verify_contract(C)
    C.regex(r"std::type_info::name", lambda E, st, a: E.fresh("name"))
    C.extern("strlen", lambda E, st, a: E.mod_fresh(st, "name_len", 62))
    e = s.base + s.n
    p = z3.Int("number_end")
    d0 = z3.Int("first_digit")
    M = C.E.mem(C.st, "m1")
    isend = z3.And(p >= d0, p <= e, Forall(1, lambda k: Imp(z3.And(k >= d0, k < p), isdig(SEL(M, k))), lambda k: SEL(M, k)), Or(p == e, z3.Not(isdig(SEL(M, p)))))
    C.post(lambda st, r: [("post: returns only for a complete number", Imp(isend, z3.And(p == e, p > d0)))])
    C.on_throw(lambda st, v: [("post: throws only if the text is not a complete number", Imp(isend, Or(p != e, p == d0)))])


def tolower(E, st, a):
    c = a[0]
    sc = E.sgn(st, c, 32)
    E.oblige(st, "libc precondition: tolower gets a char value", z3.And(Z(sc) >= -128, Z(sc) <= 255))
    return z3.If(z3.And(Z(c) >= 65, Z(c) <= 90), Z(c) + 32, Z(c))


for nm, init in (("parse_bool", True), ("parse_bool_def", False)):
    @unit("C04", H, nm)
    def _(C, init=init):
        s = C.view("s")
        x = C.boolv("x")
        C.args(s.base, s.n, x)
        C.bytes_typed()
        C.extern("tolower", tolower)
        C.ghost("b", z3.BoolVal(False))
        C.extern("out_b", lambda E, st, a: st.gh.__setitem__("b", Z(E.as_bool(a[0]))))
        sinks(C)

        def is_(st, i, ch):
            b = C.byte(st, s.base + i)
            return Or(b == ord(ch), b == ord(ch.upper()))

        def word(st, wd):
            return z3.And(s.n == len(wd), *[is_(st, i, c) for i, c in enumerate(wd)])

        def post(st, r):
            p, n = Z(st.gh["r0p"]), Z(st.gh["r0n"])
            b = st.gh["b"]
            t, f = z3.And(s.n > 0, is_(st, 0, "t")), z3.And(s.n > 0, is_(st, 0, "f"))
            dflt = z3.BoolVal(False) if init else x
            mn = lambda a, c: z3.If(a <= c, a, c)
            return [inside(s, p, n), ("post: the rest extends to the end of the view", p + n == s.base + s.n),
                    ("post: true exactly for the words true and false in any case", C.E.as_bool(r) == Or(word(st, "true"), word(st, "false"))),
                    ("post: the value is true for t..., else the default", b == Or(t, dflt)),
                    ("post: consumes the word", n == z3.If(t, s.n - mn(s.n, z3.IntVal(4)), z3.If(f, s.n - mn(s.n, z3.IntVal(5)), s.n)))]
        C.post(post)


@unit("C04", H, "parse_cstr")
def _(C):
    s = C.view("s")
    C.args(s.base, s.n)
    sinks(C, 2)
    expect(C, lambda st, p, n: [("post: the same view is delivered", z3.And(p == s.base, n == s.n))])


@unit("C04", H, "parse_string")
def _(C):
    s = C.view("s")
    v = C.sym("string")
    C.args(s.base, s.n, v)
    sinks(C, 1)
    C.ghost("assigned", z3.BoolVal(False))

    def asg(E, st, a):
        E.oblige(st, "callback: the string receives exactly the bytes of the view", z3.And(Z(a[0]) == v, Z(a[1]) == s.base, Z(a[2]) == s.n))
        st.gh["assigned"] = z3.BoolVal(True)
        return a[0]
    C.regex(r"basic_string<char.*>::assign\(char const\*, unsigned long\)", asg)
    C.post(lambda st, r: [("post: the string is assigned", st.gh["assigned"])])


@unit("C04", H, "parse_path")
def _(C):
    "a path receives exactly the bytes of the view (not the rest of the underlying buffer)"
    s = C.view("s")
    v = C.sym("path")
    C.args(s.base, s.n, v)
    sinks(C, 1)
    C.ghost("made", z3.BoolVal(False))
    C.ghost("assigned", z3.BoolVal(False))

    def ctor(E, st, a):
        p, n = E.load(st, E.gepb(a[1], 8), L.PtrTy() if hasattr(L, "PtrTy") else L.IntTy(64)), E.load(st, a[1], L.IntTy(64))
        E.oblige(st, "callback: the path is made from exactly the bytes of the view", z3.And(Z(p) == s.base, Z(n) == s.n))
        st.gh["made"] = z3.BoolVal(True)

    def asg(E, st, a):
        E.oblige(st, "callback: the made path is assigned to the result", z3.And(Z(a[0]) == v, st.gh["made"]))
        st.gh["assigned"] = z3.BoolVal(True)
        return a[0]
    C.regex(r"path::path<std::basic_string_view<char", ctor)
    C.regex(r"path::operator=\(std::filesystem::__cxx11::path&&\)", asg)
    C.regex(r"path::~path", lambda E, st, a: None)
    C.post(lambda st, r: [("post: the path is assigned", st.gh["assigned"])])


@unit("C04", H, "skip_line")
def _(C):
    s = C.view("s")
    C.args(s.base, s.n)
    C.bytes_typed()
    sinks(C)
    e = s.base + s.n
    no = lambda st, hi: Forall(1, lambda k: Imp(z3.And(k >= s.base, k < hi), C.byte(st, k) != 10), lambda k: C.byte(st, k))
    C.inv(lambda E, Hd: [(f"no newline before {n}", lambda st, f=f: no(st, Z(f(st)))) for n, f in Hd.pos])
    expect(C, lambda st, p, n: [inside(s, p, n), ("post: the rest extends to the end", p + n == e),
                                ("post: exactly the first line is skipped", Or(z3.And(p == e, no(st, e)), z3.And(p > s.base, C.byte(st, p - 1) == 10, no(st, p - 1))))])


@unit("C04", H, "expect")
def _(C):
    s = C.view("s")
    C.args(s.base, s.n)
    C.bytes_typed()
    C.require(s.n > 0, C.byte(C.st, s.base) == ord(","))
    sinks(C)
    expect(C, lambda st, p, n: [("post: exactly the expected character is consumed", z3.And(p == s.base + 1, n == s.n - 1))])


R = z3.RealSort()


def fp_spec(C, s, rest=True):
    """[-][+] digits [. digits]; over the reals (rounding is not specified)"""
    C.bytes_typed()
    C.fp_real = True
    e = s.base + s.n
    M = C.E.mem(C.st, "m1")
    at = lambda k: SEL(M, k)
    neg = z3.And(s.n > 0, at(s.base) == MINUS)
    d1 = z3.If(neg, s.base + 1, s.base)
    d0, f0 = z3.Int("first_digit"), z3.Int("first_fraction_digit")     # the latter: behind the point, or 0 if there is none
    pt = z3.Int("end_of_integer_part")
    C.require(d0 == z3.If(z3.And(d1 < e, at(d1) == PLUS), d1 + 1, d1))
    digs = lambda a, b: Forall(1, lambda k: Imp(z3.And(k >= a, k < b), isdig(at(k))), lambda k: at(k))
    C.require(pt >= d0, pt <= e, digs(d0, pt), Or(pt == e, z3.Not(isdig(at(pt)))))
    C.require(f0 == z3.If(z3.And(pt < e, at(pt) == 46), pt + 1, 0))
    V, F, W = (z3.Function(n, z3.IntSort(), R) for n in ("integer part", "fraction", "weight"))
    D = z3.Function("times", R, R, R)
    dig = lambda k: z3.ToReal(at(k)) - 48
    C.require(V(d0) == 0, Forall(1, lambda k: Imp(z3.And(k >= d0, k < e, isdig(at(k))), V(k + 1) == 10 * V(k) + dig(k)), lambda k: at(k)))
    C.require(F(f0) == 0, W(f0) == z3.RealVal("0.1"),
              Forall(1, lambda k: Imp(z3.And(f0 > 0, k >= f0, k < e, isdig(at(k))), z3.And(W(k + 1) == W(k) / 10, F(k + 1) == F(k) + D(W(k), dig(k)))), lambda k: at(k)))

    def cands(E, Hd):
        out = []
        ptrs = [x for x in Hd.pos if x[0] in Hd.raw] + [x for x in Hd.pos if x[0] not in Hd.raw and x[0].startswith("s.")]
        for n, f in ptrs:
            P = lambda st, f=f: Z(f(st))
            out += [(f"integer digits before {n}", lambda st, P=P: z3.And(P(st) >= d0, P(st) <= pt)),
                    (f"fraction digits before {n}", lambda st, P=P: z3.And(f0 > 0, P(st) >= f0, digs(f0, P(st))))]
            for m, g in Hd.reals:
                G = lambda st, g=g: g(st)
                out += [(f"{m} is the integer part before {n}", lambda st, P=P, G=G: G(st) == V(P(st))),
                        (f"{m} is the fraction before {n}", lambda st, P=P, G=G: G(st) == F(P(st))),
                        (f"{m} is the number before {n}", lambda st, P=P, G=G: G(st) == V(pt) + F(P(st))),
                        (f"{m} is the weight at {n}", lambda st, P=P, G=G: G(st) == W(P(st)))]
        return out
    C.inv(cands)
    C.ghost("val", z3.RealVal(0))
    for n in ("out_d", "out_f"):
        C.extern(n, lambda E, st, a: st.gh.__setitem__("val", a[0]))
    sinks(C)

    def post(st, r):
        v = st.gh["val"]
        q = []
        if rest:
            p, n = Z(st.gh["r0p"]), Z(st.gh["r0n"])
            q += [inside(s, p, n), ("post: the rest extends to the end of the view", p + n == e)]
            # what is left, and nothing else, is behind the number
            end = z3.And(p >= d0, z3.If(f0 == 0, p == pt, z3.And(p >= f0, digs(f0, p), Or(p == e, z3.Not(isdig(at(p)))))))
            q += [("post: exactly the number is consumed", Imp(s.n > 0, end))]
            if r is not None:
                ok = C.E.as_bool(r)
                q += [("post: true only if everything was consumed", Imp(ok, z3.And(s.n > 0, n == 0))), ("post: true if a number was read and nothing remains", Imp(z3.And(s.n > 0, n == 0, Or(pt > d0, z3.And(f0 > 0, p > f0))), ok))]
        else:
            p = z3.Int("number_end")
            end = z3.And(p >= d0, p <= e, z3.If(f0 == 0, p == pt, z3.And(p >= f0, digs(f0, p), Or(p == e, z3.Not(isdig(at(p)))))))
        fr = z3.If(f0 == 0, z3.RealVal(0), F(p))
        q.append(("post: the value is that of the digits, with the sign", Imp(end, v == z3.If(s.n == 0, z3.RealVal(0), z3.If(neg, -(V(pt) + fr), V(pt) + fr)))))
        return q
    C.post(post)
    if not rest:
        C.E.externs["out_cstr"] = lambda E, st, a: None


for nm in ("parse_double", "parse_float", "shift_double"):
    @unit("C04", H, nm)
    def _(C):
        "the number is consumed, its value is delivered (up to rounding)"
        s = C.view("s")
        C.args(s.base, s.n)
        fp_spec(C, s)


@unit("C04", H, "parse_t_double")
def _(C):
    s = C.view("s")
    C.args(s.base, s.n)
    fp_spec(C, s, rest=False)


@unit("C04", H, "parse_generic_string")
def _(C):
    "a non-owning string refers to exactly the bytes of the view"
    s = C.view("s")
    v = C.sym("string")
    C.require(s.n < (1 << 32))
    C.args(s.base, s.n, v)
    sinks(C, 1)
    C.ghost("set", 0)

    def seto(E, st, a):
        E.oblige(st, "callback: the string receives exactly the bytes of the view", z3.And(Z(a[0]) == v, Z(a[1]) == s.base, Z(a[2]) == s.n))
        st.gh["set"] = st.gh["set"] + 1
    C.regex(r"generic_string::set_non_owning", seto)
    C.post(lambda st, r: [("post: the string is set once", z3.BoolVal(st.gh["set"] == 1))])
