"""C05: CSV columns."""
from ..spec import *
from .c04_args import int_spec, tolower
from .c01_cstr import sinks, expect, inside, ws
from .. import llparse as L
from .. import engine as EN

H = "csv"
QU, NL, CR = 34, 10, 13


class Col:
    """the column that starts at c inside s, by recursion on the position:
    stop(i) is where reading ends when position i is reached"""
    def __init__(k, C, s, sep, M=None):
        k.C, k.s, k.sep = C, s, sep
        k.e = s.base + s.n
        M = C.E.mem(C.st, "m1") if M is None else M
        k.at = at = lambda i: SEL(M, i)
        k.U = U = z3.Function("unquoted_stop", z3.IntSort(), z3.IntSort())
        k.Q = Q = z3.Function("quoted_stop", z3.IntSort(), z3.IntSort())
        e = k.e
        k.pair = lambda i: z3.And(at(i) == QU, i + 1 < e, at(i + 1) == QU)
        eol = lambda i: Or(at(i) == CR, at(i) == NL)
        ins = lambda i: z3.And(i >= s.base, i < e)
        k.def_u = lambda i: Imp(ins(i), U(i) == z3.If(Or(at(i) == sep, eol(i)), i, U(i + 1)))
        k.def_q = lambda i: Imp(ins(i), Q(i) == z3.If(k.pair(i), Q(i + 2), z3.If(Or(at(i) == QU, eol(i)), i, Q(i + 1))))
        C.require(U(e) == e, Q(e) == e, Forall(1, k.def_u, lambda i: at(i)), Forall(1, k.def_q, lambda i: at(i)))
        k.quoted = lambda c: at(c) == QU
        k.begin = lambda c: z3.If(k.quoted(c), c + 1, c)
        k.stop = lambda c: z3.If(k.quoted(c), Q(c + 1), U(c))
        k.rest = lambda c: z3.If(z3.And(k.stop(c) < e, Or(at(k.stop(c)) == CR, z3.And(k.quoted(c), at(k.stop(c)) == QU))), k.stop(c) + 1, k.stop(c))

        k.noeol = lambda lo, hi: Forall(1, lambda i: Imp(z3.And(lo <= i, i < hi), at(i) != NL), lambda i: at(i))

    def cands(k, E, Hd):
        out = []
        for n, f in Hd.pos:
            P = lambda st, f=f: Z(f(st))
            out.append((f"no line feed before {n}", lambda st, P=P: k.noeol(k.s.base, P(st))))
            for fn, F in (("unquoted", k.U), ("quoted", k.Q)):
                st0 = z3.If(k.quoted(k.s.base), k.s.base + 1, k.s.base)
                out.append((f"{fn} stop({n}) == stop(start)", lambda st, P=P, F=F: F(P(st)) == F(st0)))
        return out


def column(C, s, sep, strs=2):
    C.bytes_typed()
    k = Col(C, s, sep)
    C.inv(k.cands)
    return k


for nm, sep in (("column", ","), ("column_semicolon", ";"), ("column_tab", "\t")):
    @unit("C05", H, nm)
    def _(C, sep=ord(sep)):
        s = C.view("s")
        q, m = C.sym("old.ptr"), C.sym("old.len")
        C.args(s.base, s.n, q, m)
        k = column(C, s, sep)
        sinks(C, 2)
        c = s.base

        def post(st, r):
            vp, vn, p, n = (Z(st.gh[x]) for x in ("r0p", "r0n", "r1p", "r1n"))
            some = s.n > 0
            return [("post: an empty text leaves the column untouched", Imp(z3.Not(some), z3.And(vp == q, vn == m, p == c, n == 0))),
                    ("post: the content starts behind the opening quote, if any", Imp(some, vp == k.begin(c))),
                    ("post: the content ends at the closing quote, separator or end of line", Imp(some, vp + vn == k.stop(c))),
                    ("post: the closing quote (or CR) is consumed, the separator and line feed are not", Imp(some, p == k.rest(c))),
                    ("post: the rest extends to the end of the text", p + n == k.e),
                    ("post: nothing behind the end of the line is consumed", k.noeol(c, p)),
                    ("post: the content lies inside the text", Imp(some, z3.And(c <= vp, vn >= 0, vp + vn <= p))),
                    inside(s, p, n)]
        C.post(post)


@unit("C05", H, "column_string")
def _(C):
    s = C.view("s")
    v = C.sym("string")
    C.args(s.base, s.n, v)
    k = column(C, s, 44)
    sinks(C, 1)
    C.ghost("assigned", z3.IntVal(0))

    def asg(E, st, a):
        E.oblige(st, "callback: the string receives exactly the content of the column", z3.And(Z(a[0]) == v, Z(a[1]) == k.begin(s.base), Z(a[1]) + Z(a[2]) == k.stop(s.base), Z(a[2]) >= 0))
        st.gh["assigned"] = Z(st.gh["assigned"]) + 1
    C.extern("vstr_assign", asg)
    C.post(lambda st, r: [("post: the string is assigned once", Imp(s.n > 0, Z(st.gh["assigned"]) == 1)), ("post: the rest", Z(st.gh["r0p"]) == z3.If(s.n > 0, k.rest(s.base), s.base))])


@unit("C05", H, "unescape")
def _(C):
    """unescaping replaces, from left to right, each pair of quotes by one quote and changes nothing else.
    tok(i): a character of the text starts at i (i is not the second quote of a pair);
    D(i): its position in the result; W(k): the k-th character of the result"""
    C.derive = False
    a = C.region("a", 1, writable=True)
    C.require(a.n < (1 << 32), a.base > 0)
    C.args(a.base, a.n)
    C.bytes_typed()
    M0 = C.E.mem(C.st, "m1")
    e = a.base + a.n
    at = lambda i: SEL(M0, i)
    I = z3.IntSort()
    tok, D, W = z3.Function("tok", I, z3.BoolSort()), z3.Function("place", I, I), z3.Function("result", I, I)
    pair = lambda i: z3.And(at(i) == QU, i + 1 < e, at(i + 1) == QU)
    nxt = lambda i: z3.If(pair(i), i + 2, i + 1)
    step = lambda i: Imp(z3.And(tok(i), a.base <= i, i < e), z3.And(tok(nxt(i)), D(nxt(i)) == D(i) + 1, W(D(i)) == at(i)))
    C.require(tok(a.base), D(a.base) == a.base)   # and step(i) for every i; instances are named where needed
    # lemma: a run of other characters moves unchanged
    run = lambda i, j: z3.And(tok(j), D(j) - D(i) == j - i, Forall(1, lambda k: Imp(z3.And(D(i) <= k, k < D(j)), W(k) == at(k + i - D(i))), lambda k: W(k)))
    free = lambda i, j: Forall(1, lambda k: Imp(z3.And(i <= k, k < j), at(k) != QU), lambda k: at(k))
    i0, j0 = z3.Ints("lemma_i lemma_j")
    st = C.st.copy()
    st.assume(tok(i0), a.base <= i0, i0 <= j0, j0 < e, at(j0) != QU, run(i0, j0), step(j0))
    C.check(C.st, "lemma (base): the empty run", Imp(tok(i0), run(i0, i0)))
    C.check(st, "lemma (step): a run of characters other than quotes moves unchanged", run(i0, j0 + 1))

    def erase(E, st, v):
        p, n = E.load(st, v[0], L.PtrTy() if hasattr(L, "PtrTy") else L.IntTy(64)), E.load(st, E.gepb(v[0], 8), L.IntTy(64))
        k = Z(v[1])
        E.oblige(st, "callback: exactly one character inside the string is erased", z3.And(Z(p) == a.base, k >= 0, k < Z(n), Z(v[2]) == 1))
        M1 = E.mem(st, "m1")
        M2 = E.fresh("erased_m1", M1.sort())
        q = a.base + k
        st.assume(Forall(1, lambda i: SEL(M2, i) == z3.If(z3.And(q <= i, i < a.base + Z(n) - 1), SEL(M1, i + 1), SEL(M1, i)), lambda i: SEL(M2, i)),
                  Forall(1, lambda i: z3.And(Imp(z3.And(q < i, i < a.base + Z(n)), SEL(M2, i - 1) == SEL(M1, i)), Imp(i < q, SEL(M2, i) == SEL(M1, i))), lambda i: SEL(M1, i)))
        st.mem["m1"] = M2
        E.store(st, E.gepb(v[0], 8), Z(n) - 1, L.IntTy(64))
    C.extern("vstr_erase", erase)

    def memchr(E, st, v):
        """the library contract, plus the lemma for the run of characters skipped over"""
        outs = EN.c_memchr(E, st, v)
        i = e - Z(v[2])
        for _, s1, r in outs:
            j = e if isinstance(r, int) else i + (r - Z(v[0]))
            s1.assume(Imp(z3.And(tok(i), a.base <= i, i <= j, j <= e, free(i, j)), run(i, j)), step(j))
        return outs
    C.extern("memchr", memchr)
    sinks(C, 1)

    def good(st, o, n):
        """o: position up to which the text is done (absolute), n: current length"""
        M = C.E.mem(st, "m1")
        sh = a.n - n
        return z3.And(o >= a.base, o <= a.base + n, n <= a.n, n >= 0, tok(o + sh), D(o + sh) == o), \
            Forall(1, lambda k: Imp(z3.And(a.base <= k, k < o), SEL(M, k) == W(k)), lambda k: SEL(M, k)), \
            Forall(1, lambda k: Imp(z3.And(o <= k, k < a.base + n), SEL(M, k) == at(k + sh)), lambda k: SEL(M, k)), \
            Forall(1, lambda k: Imp(z3.And(o + sh <= k, k < e), SEL(M, k - sh) == at(k)), lambda k: at(k))

    def cands(E, Hd):
        out = []
        for n, f in Hd.ints:
            for m, g in Hd.ints:
                if m == n or not m.startswith("cell") or n.startswith("cell"):
                    continue
                for j in range(4):
                    out.append((f"{n},{m}: done/rest {j}", lambda st, f=f, g=g, j=j: good(st, a.base + Z(f(st)), Z(g(st)))[j]))
                    out.append((f"{n},{m}: done/rest {j} if found", lambda st, f=f, g=g, j=j: Imp(Z(f(st)) != NPOS, good(st, a.base + Z(f(st)), Z(g(st)))[j])))
                    out.append((f"{n},{m}: done {j} if not found", lambda st, f=f, g=g, j=j: Imp(Z(f(st)) == NPOS, good(st, a.base + Z(g(st)), Z(g(st)))[j])))
                out.append((f"{n},{m}: the next token behind the one found", lambda st, f=f, g=g: Imp(Z(f(st)) != NPOS, step(a.base + Z(f(st)) + a.n - Z(g(st))))))
                out.append((f"{n},{m}: a quote is found", lambda st, f=f, g=g: Imp(Z(f(st)) != NPOS, z3.And(Z(f(st)) >= 0, Z(f(st)) < Z(g(st)), C.byte(st, a.base + Z(f(st))) == QU))))
        return out
    C.inv(cands)
    NPOS = (1 << 64) - 1
    C.measures = lambda E, Hd: [(f"rest behind {n}", lambda st, f=f, g=g: z3.If(Z(f(st)) == NPOS, 0, Z(g(st)) - Z(f(st)) + 1)) for n, f in Hd.ints for m, g in Hd.ints if m != n]

    def post(st, r):
        p, n = Z(st.gh["r0p"]), Z(st.gh["r0n"])
        M = C.E.mem(st, "m1")
        return [("post: same storage", p == a.base),
                ("post: the length is the number of characters after unescaping", D(e) == a.base + n),
                ("post: the content is the unescaped text", Forall(1, lambda k: Imp(z3.And(a.base <= k, k < a.base + n), SEL(M, k) == W(k)), lambda k: SEL(M, k)))]
    C.post(post)


def trimmed(C):
    """the text behind the leading blanks, as a view of its own"""
    s = C.view("s")
    C.args(s.base, s.n)
    C.bytes_typed()
    q, e = z3.Int("first_nonblank"), s.base + s.n
    M = C.E.mem(C.st, "m1")
    C.require(s.base <= q, q <= e, Or(q == e, z3.Not(ws(SEL(M, q)))),
              Forall(1, lambda k: Imp(z3.And(s.base <= k, k < q), ws(SEL(M, k))), lambda k: SEL(M, k)))
    t = Region("trimmed", q, e - q, 1)
    t.n = e - q
    C.inv(lambda E, Hd: [(f"{n} <= first nonblank", lambda st, f=f: Z(f(st)) <= q) for n, f in Hd.pos])
    return s, t


for nm, w, sg in (("i32", 32, 1), ("u64", 64, 0), ("i8", 8, 1)):
    @unit("C05", H, "value_" + nm)
    def _(C, w=w, sg=sg):
        "numbers: leading blanks are skipped, then the number is parsed as in C04"
        s, t = trimmed(C)
        int_spec(C, t, w, sg, z3.IntVal(0), True, want_ret=False)


@unit("C05", H, "value_bool")
def _(C):
    s, t = trimmed(C)
    C.extern("tolower", tolower)
    sinks(C, 1)
    C.extern("out_i", lambda E, st, a: st.gh.__setitem__("val", Z(a[0])))
    C.ghost("val", z3.IntVal(-1))

    def post(st, r):
        tt = z3.And(t.n > 0, Or(C.byte(st, t.base) == ord("t"), C.byte(st, t.base) == ord("T")))
        return [("post: true exactly for a value that starts with t or T (behind blanks)", Z(st.gh["val"]) == z3.If(tt, 1, 0))]
    C.post(post)


for nm in ("double", "float"):
    @unit("C05", H, "value_" + nm)
    def _(C, nm=nm):
        "leading blanks are skipped, then the number is parsed as in C04 (contract of parse_fp, proved there)"
        s, t = trimmed(C)
        sinks(C, 1)
        val, used = z3.Real("value of the number"), z3.Int("length of the number")
        C.require(used >= 0, used <= t.n)
        C.ghost("parsed", 0)
        C.ghost("val", None)
        ty = L.F64 if nm == "double" else L.F32
        C.fp_real = True

        def fp(E, st, a):
            p, n = E.load(st, a[0], L.PTR), E.load(st, Loc(a[0].o, a[0].f + 8), L.IntTy(64))
            E.oblige(st, "callback: exactly the value behind the blanks is parsed, once", z3.And(Z(p) == t.base, Z(n) == t.n, z3.BoolVal(st.gh["parsed"] == 0)))
            st.gh["parsed"] += 1
            E.store(st, a[1], val, ty)
            E.store(st, a[0], t.base + used, L.PTR)
            E.store(st, Loc(a[0].o, a[0].f + 8), t.n - used, L.IntTy(64))
            return E.mod_fresh(st, "ok", 1)
        C.regex(r"(^| )utl::parse_fp<" + nm + ">", fp)
        C.extern("out_fp", lambda E, st, a: st.gh.__setitem__("val", a[0]))
        C.post(lambda st, r: [("post: the value is the one parsed", z3.BoolVal(st.gh["val"] is not None and z3.is_expr(st.gh["val"]) and z3.eq(z3.simplify(st.gh["val"]), val))),
                              ("post: the number was parsed", z3.BoolVal(st.gh["parsed"] == 1)),
                              ("post: exactly the number is consumed", z3.And(Z(st.gh["r0p"]) == t.base + used, Z(st.gh["r0n"]) == t.n - used))])


@unit("C05", H, "value_cstr")
def _(C):
    s = C.view("s")
    C.args(s.base, s.n)
    sinks(C, 2)
    expect(C, lambda st, p, n: [("post: a view column is delivered as it is", z3.And(p == s.base, n == s.n))])


@unit("C05", H, "value_string")
def _(C):
    s = C.view("s")
    v = C.sym("string")
    C.args(s.base, s.n, v)
    sinks(C, 1)
    C.ghost("assigned", 0)

    def asg(E, st, a):
        E.oblige(st, "callback: the string receives exactly the bytes of the column, then is unescaped", z3.And(Z(a[0]) == v, Z(a[1]) == s.base, Z(a[2]) == s.n, z3.BoolVal(st.gh["assigned"] == 0)))
        st.gh["assigned"] = 1
        return a[0]

    def unesc(E, st, a):
        E.oblige(st, "callback: the assigned string is unescaped, once", z3.And(Z(a[0]) == v, z3.BoolVal(st.gh["assigned"] == 1)))
        st.gh["assigned"] = 2
    C.regex(r"basic_string<char.*>::assign\(char const\*, unsigned long\)", asg)
    C.regex(r"utl::unescape_quoted_string<", unesc)
    C.post(lambda st, r: [("post: the string is assigned and unescaped", z3.BoolVal(st.gh["assigned"] == 2))])
