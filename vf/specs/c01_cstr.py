"""C01: derived views.  C02: comparisons by content."""
from ..spec import *

H = "cstr"
NL, SP, CR = 10, 32, 13


def sinks(C, n=1):
    """capture the views delivered to out_cstr"""
    C.ghost("outs", 0)
    C.res = {}

    def out(E, st, a):
        k = st.gh["outs"]
        st.gh["outs"] = k + 1
        st.gh[f"r{k}p"], st.gh[f"r{k}n"] = a[0], a[1]
        return None
    C.extern("out_cstr", out)
    C.nout = n


def expect(C, f):
    """every delivered view satisfies f(st, ptr, len) -> [(name, formula)]"""
    def post(st, ret):
        r = [("post: the operation delivers its result", z3.BoolVal(st.gh["outs"] == C.nout))]
        for k in range(st.gh["outs"]):
            p, n = Z(st.gh[f"r{k}p"]), Z(st.gh[f"r{k}n"])
            r += f(st, p, n)
        return r
    C.post(post)


def mn(a, b):
    return z3.If(a <= b, a, b)


def exact(C, p0, n0, any_if_empty=False):
    def f(st, p, n):
        return [("post: result starts where specified", Z(p) == Z(p0)),
                ("post: result has the specified length", Z(n) == Z(n0))]
    expect(C, f)


def inside(s, p, n):
    return ("post: result lies inside the original view", z3.And(p >= s.base, n >= 0, p + n <= s.base + s.n))


@unit("C01", H, "ctor_range")
def _(C):
    s = C.view("s")
    sinks(C)
    C.args(s.base, s.base + s.n)
    exact(C, s.base, s.n)


for e in ("ctor_sv", "ctor_uchar", "view", "convert_view", "assign"):
    @unit("C01", H, e)
    def _(C):
        s = C.view("s")
        sinks(C)
        C.args(s.base, s.n)
        exact(C, s.base, s.n)


@unit("C01", H, "ctor_string")
def _(C):
    """a string's bytes (libstdc++ keeps their address and number in its first two words)"""
    s = C.view("s")
    o = C.object("string", 32, o0_8=s.base, o8_8=s.n)
    sinks(C)
    C.args(o)
    exact(C, s.base, s.n)


@unit("C01", H, "to_str")
def _(C):
    """the string is made from exactly the bytes of the view"""
    s, t = C.view("s"), C.region("t", 1)
    C.args(s.base, s.n)
    sinks(C)
    C.ghost("made", 0)

    def make(E, st, a):
        E.oblige(st, "callback: the string is made from the bytes of the view", z3.And(Z(a[1]) == s.base, Z(a[2]) == s.n))
        st.gh["made"] = st.gh["made"] + 1
        E.store(st, a[0], t.base, L.PTR)
        E.store(st, Loc(a[0].o, a[0].f + 8), a[2], L.IntTy(64))
    C.regex(r"^std::__cxx11::basic_string<char, .*>::basic_string(<.*>)?\(char const\*, unsigned long", make)
    C.regex(r"^std::__cxx11::basic_string<char, .*>::~basic_string", lambda E, st, a: None)
    expect(C, lambda st, p, n: [("post: the string made is returned", z3.And(z3.BoolVal(st.gh["made"] == 1), p == t.base, n == s.n))])


@unit("C01", H, "begin_end")
def _(C):
    s = C.view("s")
    sinks(C, 4)
    C.args(s.base, s.n)
    exact(C, s.base, s.n)


for e in ("ctor_default", "ctor_nullstr"):
    @unit("C01", H, e)
    def _(C):
        sinks(C)
        exact(C, 0, 0)


@unit("C01", H, "ctor_null")
def _(C):
    sinks(C)
    n = C.sym("n")
    C.args(n)
    exact(C, 0, 0)


@unit("C01", H, "index")
def _(C):
    s = C.view("s")
    i = C.sym("i")
    C.require(i < s.n)
    C.args(s.base, s.n, i)
    C.post(lambda st, r: [("post: operator[] yields the i-th byte", Z(r) == C.byte(st, s.base + i))])


for e, pos in (("valid", True), ("bool", True), ("empty", False)):
    @unit("C01", H, e)
    def _(C, pos=pos):
        s = C.view("s")
        C.args(s.base, s.n)
        C.post(lambda st, r: [("post: reports exactly (non-)emptiness", C.E.as_bool(r) == ((s.n > 0) if pos else (s.n == 0)))])


@unit("C01", H, "preinc")
def _(C):
    s = C.view("s")
    C.require(s.n > 0)
    sinks(C, 2)
    C.args(s.base, s.n)
    exact(C, s.base + 1, s.n - 1)


for e, k in (("plus", 1), ("pluseq", 2)):
    @unit("C01", H, e)
    def _(C, k=k):
        s = C.view("s")
        i = C.sym("i")
        C.require(i <= s.n)
        sinks(C, k)
        C.args(s.base, s.n, i)
        exact(C, s.base + i, s.n - i)


@unit("C01", H, "substr_size")
def _(C):
    "substr(position, size) clamps both arguments to the view, for all 2^64 x 2^64 arguments"
    s = C.view("s")
    p, k = C.sym("p"), C.sym("k")
    sinks(C)
    C.args(s.base, s.n, p, k)
    exact(C, s.base + mn(p, s.n), mn(k, s.n - mn(p, s.n)))


@unit("C01", H, "substr_be")
def _(C):
    s = C.view("s")
    p, e = C.sym("p"), C.sym("e")
    C.require(p <= e)
    sinks(C)
    C.args(s.base, s.n, p, e)
    exact(C, s.base + mn(p, s.n), mn(e, s.n) - mn(p, s.n))


@unit("C01", H, "substr_from")
def _(C):
    s = C.view("s")
    p = C.sym("p")
    C.require(p <= s.n)
    sinks(C)
    C.args(s.base, s.n, p)
    exact(C, s.base + p, s.n - p)


@unit("C01", H, "substr_field")
def _(C):
    s = C.view("s")
    p, k = C.sym("p"), C.sym("k")
    MAX = (1 << 31) - 1
    C.require(p <= s.n)
    sinks(C)
    C.args(s.base, s.n, p, k)
    exact(C, s.base + p, z3.If(k == MAX, s.n - p, mn(k, s.n - p)))


def ws(b):
    return z3.Or(b == SP, b == NL)


def allws(C, st, lo, hi):
    return Forall(1, lambda k: Imp(z3.And(k >= lo, k < hi), ws(C.byte(st, k))), lambda k: C.byte(st, k))


def ws_inv(C, s, front, back):
    def cands(E, Hd):
        out = []
        for n, f in Hd.pos:
            if front:
                out.append((f"ws before {n}", lambda st, f=f: allws(C, st, s.base, Z(f(st)))))
            if back:
                out.append((f"ws from {n}", lambda st, f=f: allws(C, st, Z(f(st)), s.base + s.n)))
        for (n, f) in Hd.pos + Hd.const:
            for (m, g) in Hd.pos:
                if n != m and back:
                    out.append((f"ws from {n}+{m}", lambda st, f=f, g=g: allws(C, st, Z(f(st)) + Z(g(st)), s.base + s.n)))
        return out
    C.inv(cands)


def trim_spec(C, s, front, back):
    def f(st, p, n):
        r = [inside(s, p, n)]
        e = s.base + s.n
        if front:
            r.append(("post: everything cut off in front is whitespace", allws(C, st, s.base, p)))
            r.append(("post: result does not start with whitespace", Imp(n > 0, z3.Not(ws(C.byte(st, p))))))
        else:
            r.append(("post: the front is unchanged", p == s.base))
        if back:
            # an all-whitespace view trims to an empty view
            r.append(("post: everything cut off at the back is whitespace", allws(C, st, p + n, e)))
            r.append(("post: result does not end with whitespace", Imp(n > 0, z3.Not(ws(C.byte(st, p + n - 1))))))
        else:
            r.append(("post: the back is unchanged", p + n == e))
        return r
    expect(C, f)


for e, fr, bk in (("skip_front", 1, 0), ("skip_back", 0, 1), ("trim", 1, 1)):
    @unit("C01", H, e)
    def _(C, fr=fr, bk=bk):
        s = C.view("s")
        sinks(C)
        C.args(s.base, s.n)
        ws_inv(C, s, fr, bk)
        trim_spec(C, s, fr, bk)


@unit("C01", H, "is_space")
def _(C):
    c = C.sym("c", 8)
    C.args(c)
    C.post(lambda st, r: [("post: exactly blank and newline are whitespace", C.E.as_bool(r) == ws(c))])


def scan_inv(C, s, *ds):
    """loops that look for a byte: none of the places passed holds it"""
    def cands(E, Hd):
        los = [("begin", lambda st: s.base)] + [(n, f) for n, f in Hd.const if n == "ghost pos" or n.startswith("%")] + [(n, f) for n, f in Hd.pos if n == "ghost pos"]
        raw = [(n, f) for n, f in Hd.pos if n in Hd.raw or n.startswith(s.base.decl().name() + ".")]
        out = []
        for d in ds:
            for nl, fl in los:
                for n, f in raw:
                    if nl != n:
                        out.append((f"no {d} in [{nl}, {n})", lambda st, fl=fl, f=f, d=d: nobyte(C, st, Z(fl(st)), Z(f(st)), d)))
                for n, f in Hd.ints:
                    if nl != "begin":
                        out.append((f"no {d} in the {n} bytes from {nl}", lambda st, fl=fl, f=f, d=d: nobyte(C, st, Z(fl(st)), Z(fl(st)) + Z(f(st)), d)))
        return out
    C.inv(cands)


def nobyte(C, st, lo, hi, d):
    return Forall(1, lambda k: Imp(z3.And(k >= lo, k < hi), C.byte(st, k) != d), lambda k: C.byte(st, k))


def until_spec(C, s, d, st, p, n):
    return [("post: result is a prefix of the view", z3.And(p == s.base, n >= 0, n <= s.n)),
            ("post: the prefix contains no delimiter",
             Forall(1, lambda k: Imp(z3.And(k >= p, k < p + n), C.byte(st, k) != d), lambda k: C.byte(st, k))),
            ("post: the prefix ends at the first delimiter or at the end", Or(n == s.n, C.byte(st, p + n) == d))]


@unit("C01", H, "get_until")
def _(C):
    s = C.view("s")
    d = C.sym("d", 8)
    sinks(C)
    C.args(s.base, s.n, d)
    scan_inv(C, s, d)
    expect(C, lambda st, p, n: until_spec(C, s, d, st, p, n))


@unit("C01", H, "strip_cr")
def _(C):
    s = C.view("s")
    sinks(C)
    C.args(s.base, s.n)
    C.bytes_typed()
    expect(C, lambda st, p, n: [
        ("post: starts at the same place", p == s.base),
        ("post: drops exactly one trailing carriage return, if present",
         n == z3.If(z3.And(s.n > 0, C.byte(st, s.base + s.n - 1) == CR), s.n - 1, s.n))])


@unit("C01", H, "get_line")
def _(C):
    s = C.view("s")
    sinks(C)
    C.args(s.base, s.n)
    C.bytes_typed()
    scan_inv(C, s, NL)

    def f(st, p, n):
        e = z3.Int("line_end")
        # raw = first newline or end; result = raw minus one trailing CR
        raw_is = lambda m: z3.And(m >= n, m <= s.n, m <= n + 1,
                                  Or(m == s.n, C.byte(st, p + m) == NL),
                                  Forall(1, lambda k: Imp(z3.And(k >= p, k < p + m), C.byte(st, k) != NL), lambda k: C.byte(st, k)),
                                  Or(z3.And(m == n, Or(n == 0, C.byte(st, p + n - 1) != CR)), z3.And(m == n + 1, C.byte(st, p + n) == CR)))
        return [inside(s, p, n), ("post: starts at the same place", p == s.base),
                ("post: result is the first line without its terminator (LF or CRLF)", Or(raw_is(n), raw_is(n + 1)))]
    expect(C, f)
