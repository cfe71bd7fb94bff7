"""C26: an iterator facade derives every operator from the primitives of the iterator."""
from ..spec import *

H = "facade"
I = z3.IntSort()
LO, HI = 1 << 61, 1 << 62


def pat(v, w=64):
    return z3.If(v >= 0, v, v + (1 << w))


class It:
    def __init__(s, C, kind):
        s.C = C
        s.p = C.sym("p")
        C.require(s.p >= LO, s.p < HI)
        s.REF, s.VAL, s.END, s.LEFT = z3.Function("reference", I, I), z3.Function("value", I, I), z3.Function("at end", I, z3.BoolSort()), z3.Function("left", I, I)
        C.ghost("calls", ())
        C.ghost("res", None)
        ra = kind in ("ra", "al")

        def step(name, d):
            def h(E, st, a):
                st.gh["calls"] += (name,)
                return z3.simplify(Z(a[0]) + d)
            C.extern("cb_" + name, h)
        step("increment", 1)
        step("decrement", -1)

        def adv(E, st, a):
            d = E.sgn(st, a[1], 64)
            if not ra:
                E.oblige(st, "primitives: without random access, advance is called with 1 or -1 only", z3.Or(Z(d) == 1, Z(d) == -1))
            st.gh["calls"] += ("advance",)
            return z3.simplify(Z(a[0]) + d)
        C.extern("cb_advance", adv)
        C.extern("cb_distance", lambda E, st, a: pat(Z(a[1]) - Z(a[0])))
        C.extern("cb_equal", lambda E, st, a: Z(a[0]) == Z(a[1]))
        C.extern("cb_end", lambda E, st, a: s.END(Z(a[0])))

        def fn(f, w, lo=0):
            def h(E, st, a):
                r = f(Z(a[0]))
                st.assume(r >= lo, r < (1 << w))
                return r
            return h
        C.extern("cb_left", fn(s.LEFT, 62))
        C.extern("cb_ref", fn(s.REF, 62, 4096))
        C.extern("cb_value", fn(s.VAL, 31))

        def res(E, st, a):
            st.gh["res"] = (Z(a[0]), Z(a[1]))
        C.extern("cb_res", res)
        C.E.assumed.add("the primitives increment, decrement, advance, distance_to, equal_to, at_end, dereference of the iterator: their documented meaning on positions")

    def second(s):
        q = s.C.sym("q")
        s.C.require(q >= LO, q < HI)
        return q

    def dist(s, n):
        w, sg = {"l": (64, True), "i": (32, True), "u": (32, False)}[n]
        if sg:
            b, d = s.C.sint("d", w)
            s.C.require(d > -(1 << 60), d < (1 << 60))
            return b, d
        d = s.C.sym("d", w)
        return d, d

    def result(s, r, after):
        s.C.post(lambda st, v: [("post: the result is right", z3.BoolVal(False) if st.gh["res"] is None else st.gh["res"][0] == Z(r)),
                                ("post: the iterator ends up where it should", z3.BoolVal(False) if st.gh["res"] is None else st.gh["res"][1] == Z(after))])


def returns(C, f):
    C.post(lambda st, r: [("post: the result is right", (z3.BoolVal(r) if isinstance(r, bool) else r) == f if z3.is_bool(f) and (z3.is_bool(r) or isinstance(r, bool)) else Z(r) == (z3.If(f, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(f) else Z(f)))])


def u(kind, op, f):
    @unit("C26", H, f"{kind}_{op}", name=f"{kind} {op}")
    def run(C):
        f(It(C, kind), C)
    run.__doc__ = op


def one(r, after):
    def f(s, C):
        C.args(s.p)
        s.result(r(s), after(s))
    return f


def two(g):
    def f(s, C):
        q = s.second()
        C.args(s.p, q)
        returns(C, g(s.p, q))
    return f


def num(n, r, after):
    def f(s, C):
        b, d = s.dist(n)
        C.args(s.p, b)
        s.result(r(s, d), after(s, d))
    return f


CAT = dict(ra=3, al=3, bi=2, ad=2, fw=1, sp=0, wp=3, wl=2)
for K in ("ra", "al", "bi", "ad", "fw", "sp"):
    u(K, "category", lambda s, C, K=K: (C.args(), returns(C, z3.IntVal(CAT[K]))))
    u(K, "preinc", one(lambda s: 1, lambda s: s.p + 1))
    u(K, "postinc", one((lambda s: 0) if K == "sp" else (lambda s: s.p), lambda s: s.p + 1))
    if K not in ("fw", "sp"):
        u(K, "predec", one(lambda s: 1, lambda s: s.p - 1))
        u(K, "postdec", one(lambda s: s.p, lambda s: s.p - 1))
    if K != "fw":
        u(K, "deref", one(lambda s: s.REF(s.p), lambda s: s.p))
        u(K, "arrow", one(lambda s: s.REF(s.p), lambda s: s.p))
    if K != "sp":
        u(K, "eq", two(lambda p, q: p == q))
        u(K, "ne", two(lambda p, q: p != q))
    if K in ("ra", "al"):
        u(K, "diff", two(lambda p, q: pat(p - q)))
        u(K, "lt", two(lambda p, q: p < q))
        u(K, "le", two(lambda p, q: p <= q))
        u(K, "gt", two(lambda p, q: p > q))
        u(K, "ge", two(lambda p, q: p >= q))
        for n in "liu":
            u(K, "plus_" + n, num(n, lambda s, d: s.p + d, lambda s, d: s.p))
            u(K, "rplus_" + n, num(n, lambda s, d: s.p + d, lambda s, d: s.p))
            u(K, "minus_" + n, num(n, lambda s, d: s.p - d, lambda s, d: s.p))
            u(K, "pluseq_" + n, num(n, lambda s, d: z3.IntVal(1), lambda s, d: s.p + d))
            u(K, "minuseq_" + n, num(n, lambda s, d: z3.IntVal(1), lambda s, d: s.p - d))
            u(K, "index_" + n, num(n, lambda s, d: s.REF(s.p + d), lambda s, d: s.p))
u("fw", "deref", one(lambda s: s.VAL(s.p), lambda s: s.p))
u("fw", "arrow", one(lambda s: s.VAL(s.p), lambda s: s.p))
for op, neg in (("eq", 0), ("req", 0), ("ne", 1), ("rne", 1)):
    u("sp", op, lambda s, C, neg=neg: (C.args(s.p), returns(C, z3.Not(s.END(s.p)) if neg else s.END(s.p))))
u("sp", "left", lambda s, C: (C.args(s.p), returns(C, s.LEFT(s.p))))

# the wrapper over pointers and over list iterators
W4 = 4


def wp(op, f):
    @unit("C26", H, "wp_" + op, name="wrapper of a pointer " + op)
    def run(C):
        It(C, "wp")
        r = C.region("elements", 4)
        i = C.sym("i", 60)
        C.require(i <= r.n)
        f(C, r, i)
    run.__doc__ = op


def wp_off(sign):
    def f(C, r, i):
        b, d = C.sint("d", 64)
        j = i + d if sign > 0 else i - d
        C.require(d > -(1 << 60), d < (1 << 60), j >= 0, j <= r.n)
        C.args(r.base + 4 * i, b)
        returns(C, r.base + 4 * j)
    return f


def wp_two(g):
    def f(C, r, i):
        j = C.sym("j", 60)
        C.require(j <= r.n)
        C.args(r.base + 4 * i, r.base + 4 * j)
        returns(C, g(i, j))
    return f


wp("category", lambda C, r, i: (C.args(), returns(C, z3.IntVal(3))))
wp("preinc", lambda C, r, i: (C.require(i < r.n), C.args(r.base + 4 * i), returns(C, r.base + 4 * i + 4)))
wp("predec", lambda C, r, i: (C.require(i > 0), C.args(r.base + 4 * i), returns(C, r.base + 4 * i - 4)))
wp("postinc", lambda C, r, i: (C.require(i < r.n), C.args(r.base + 4 * i), C.post(lambda st, v: [("post: the old position is returned, and left by one", z3.And(st.gh["res"][0] == r.base + 4 * i, st.gh["res"][1] == r.base + 4 * i + 4))])))
wp("plus", wp_off(1))
wp("minus", wp_off(-1))
wp("index", wp_off(1))
wp("diff", wp_two(lambda i, j: pat(i - j)))
wp("eq", wp_two(lambda i, j: i == j))
wp("ne", wp_two(lambda i, j: i != j))
wp("lt", wp_two(lambda i, j: i < j))


def wl(op, f):
    @unit("C26", H, "wl_" + op, name="wrapper of a list iterator " + op)
    def run(C):
        It(C, "wl")
        r = C.region("node", 8, count=z3.IntVal(2))
        C.require(r.base >= 4096)
        C.load_hook = lambda E, st, p, ty, size: None
        nxt, prv = z3.Int("next"), z3.Int("prev")
        C.require(nxt >= 4096, nxt < (1 << 62), prv >= 4096, prv < (1 << 62))

        def load(E, st, p, ty, size):
            E.oblige(st, "memory: only the links of the node are read", z3.Or(Z(p) == r.base, Z(p) == r.base + 8))
            return z3.If(Z(p) == r.base, nxt, prv)
        C.load_hook = load
        f(C, r.base, nxt, prv)
    run.__doc__ = op


def wl_post(C, b, x):
    C.args(b)
    C.post(lambda st, v: [("post: the old position is returned, and left by one", z3.And(st.gh["res"][0] == b, st.gh["res"][1] == x))])


wl("category", lambda C, b, n, p: (C.args(), returns(C, z3.IntVal(2))))
wl("preinc", lambda C, b, n, p: (C.args(b), returns(C, n)))
wl("predec", lambda C, b, n, p: (C.args(b), returns(C, p)))
wl("postinc", lambda C, b, n, p: wl_post(C, b, n))
wl("postdec", lambda C, b, n, p: wl_post(C, b, p))
wl("eq", lambda C, b, n, p: (C.args(b, n), returns(C, b == n)))
wl("ne", lambda C, b, n, p: (C.args(b, n), returns(C, b != n)))
