"""C10: sliding windows, zip and enumerate visit the right elements, in lockstep, once each."""
from ..spec import *

H = "win"


def one(C):
    C.opaque_bytes = True
    a = C.view("a")
    C.args(a.base, a.n)
    return a


def windows(C, a, n):
    C.ghost("pos", a.base)

    def h(E, st, v):
        pos = Z(st.gh["pos"])
        E.oblige(st, "callback: the k-th window consists of the elements k, k+1, ... (no window skipped, repeated or reordered)", z3.And(*[Z(x) == pos + i for i, x in enumerate(v)]))
        E.oblige(st, "callback: a window lies inside the sequence", pos + n <= a.base + a.n)
        st.gh["pos"] = pos + 1
    C.extern("cb_w%d" % n, h)
    C.post(lambda st, r: [("post: all windows were delivered", z3.If(a.n >= n, Z(st.gh["pos"]) + n - 1 == a.base + a.n, Z(st.gh["pos"]) == a.base))])


for e, n in (("pairwise", 2), ("pairwise_owned", 2), ("pairwise_it", 2), ("nwise1", 1), ("nwise3", 3), ("nwise4", 4), ("nwise3_owned", 3)):
    @unit("C10", H, e, same="w%d" % n)
    def _(C, n=n):
        windows(C, one(C), n)


for e in ("nwise3_size", "nwise3_owned_size"):
    @unit("C10", H, e, same="size")
    def _(C):
        a = one(C)
        C.extern("out_n", lambda E, st, v: E.oblige(st, "callback: size() is the number of windows", Z(v[0]) == z3.If(a.n >= 3, a.n - 2, 0)))


def views(C, k, writable=()):
    C.opaque_bytes = True
    rs = [C.view("abc"[i], writable=i in writable) for i in range(k)]
    C.args(*[x for r in rs for x in (r.base, r.n)])
    return rs


def sizes_differ(C):
    C.regex(r"(^| )utl::fail<", lambda E, st, a: None)
    C.regex(r"^std::runtime_error::~?runtime_error", lambda E, st, a: None)


def lockstep(C, rs, checked):
    same = z3.And(*[r.n == rs[0].n for r in rs])
    C.ghost("i", z3.IntVal(0))
    if not checked:
        C.require(same)

    def h(E, st, v):
        i = Z(st.gh["i"])
        E.oblige(st, "callback: the i-th tuple consists of the i-th elements of all sequences", z3.And(*[Z(x) == r.base + i for x, r in zip(v, rs)]))
        E.oblige(st, "callback: no tuple behind the end of a sequence", z3.And(*[i < r.n for r in rs]))
        st.gh["i"] = i + 1
    C.extern("cb_w%d" % len(rs), h)
    C.post(lambda st, r: [("post: all tuples were delivered", Z(st.gh["i"]) == rs[0].n), ("post: returns only if the sizes agree", same)])
    if checked:
        sizes_differ(C)
        C.on_throw(lambda st, v: [("post: throws only if the sizes differ", z3.Not(same)), ("post: nothing is delivered before the sizes are found to differ", Z(st.gh["i"]) == 0)])


for e, chk in (("zip", True), ("zip_it", True), ("zip_cit", True), ("zip_owned", True), ("czip", True), ("zip_unchecked", False), ("zip_no_size_check", False), ("czip_unchecked", False), ("czip_no_size_check", False), ("zip3", True)):
    @unit("C10", H, e, same="zip%s" % chk)
    def _(C, e=e, chk=chk):
        lockstep(C, views(C, 3 if e == "zip3" else 2), chk)


@unit("C10", H, "zip4_sizes")
def _(C):
    C.opaque_bytes = True
    a = C.view("a")
    n, m, k = C.sym("n1"), C.sym("n2"), C.sym("n3")
    C.require(a.n < (1 << 60), n < (1 << 60), m < (1 << 60), k < (1 << 60))
    C.args(a.base, a.n, n, m, k)
    sizes_differ(C)
    same = z3.And(a.n == n, n == m, m == k)
    C.extern("out_n", lambda E, st, v: E.oblige(st, "callback: size() of the zip is the common size", z3.And(same, Z(v[0]) == a.n)))
    C.on_throw(lambda st, v: [("post: throws only if the sizes differ", z3.Not(same))])
    C.post(lambda st, r: [("post: returns only if the sizes agree", same)])


@unit("C10", H, "zip_write")
def _(C):
    a, b = views(C, 2, writable=(0,))
    sizes_differ(C)
    M0 = C.E.mem(C.st, "m1")

    def cands(E, Hd):
        out = []
        for n, f in Hd.pos:
            P = lambda st, f=f: Z(f(st))
            out.append((f"copied before {n}", lambda st, P=P: SameBytes(C.E.mem(st, "m1"), a.base, M0, b.base, P(st) - a.base)))
            out.append((f"rest unchanged from {n}", lambda st, P=P: Forall(1, lambda k: Imp(Or(k >= P(st), k < a.base), SEL(C.E.mem(st, "m1"), k) == SEL(M0, k)), lambda k: SEL(C.E.mem(st, "m1"), k))))
        return out
    C.inv(cands)
    C.post(lambda st, r: [("post: writing through the tuples writes exactly the elements", SameBytes(C.E.mem(st, "m1"), a.base, M0, b.base, a.n))])
    C.on_throw(lambda st, v: [("post: throws only if the sizes differ", a.n != b.n)])


@unit("C10", H, "zip_index")
def _(C):
    C.opaque_bytes = True
    a, b = C.view("a"), C.view("b")
    i = C.sym("i")
    C.require(a.n == b.n, i < a.n)
    C.args(a.base, a.n, b.base, b.n, i)
    sizes_differ(C)
    C.ghost("k", 0)

    def h(E, st, v):
        E.oblige(st, "callback: operator[](i) gives the i-th elements of all sequences", z3.And(Z(v[0]) == a.base + i, Z(v[1]) == b.base + i))
    C.extern("cb_w2", h)


@unit("C10", H, "zip_back")
def _(C):
    a, b = views(C, 2)
    C.require(a.n == b.n)
    sizes_differ(C)
    C.ghost("i", a.n)

    def h(E, st, v):
        i = Z(st.gh["i"]) - 1
        E.oblige(st, "callback: walking backwards gives the elements in reverse, in lockstep", z3.And(Z(v[0]) == a.base + i, Z(v[1]) == b.base + i, i >= 0))
        st.gh["i"] = i
    C.extern("cb_w2", h)
    C.post(lambda st, r: [("post: all tuples were delivered", Z(st.gh["i"]) == 0)])


@unit("C10", H, "zip_cmp")
def _(C):
    C.opaque_bytes = True
    a = C.view("a")
    i, j = C.sym("i"), C.sym("j")
    C.require(i <= a.n, j <= a.n)
    C.args(a.base, a.n, i, j)
    b = lambda c, k: z3.If(c, 1 << k, 0)
    C.extern("out_n", lambda E, st, v: E.oblige(st, "callback: zip iterators compare like their positions",
             Z(v[0]) == b(i == j, 0) + b(i != j, 1) + b(i < j, 2) + b(i > j, 3) + b(i <= j, 4) + b(i >= j, 5)))


def numbered(C, a):
    C.ghost("i", z3.IntVal(0))

    def h(E, st, v):
        i = Z(st.gh["i"])
        E.oblige(st, "callback: the i-th element comes with number i", z3.And(Z(v[0]) == i, Z(v[1]) == a.base + i, i < a.n))
        st.gh["i"] = i + 1
    C.extern("cb_numbered", h)
    C.post(lambda st, r: [("post: all elements were delivered", Z(st.gh["i"]) == a.n)])


@unit("C10", H, "enumerate_ptr")
def _(C):
    """pointers are handed over as they are"""
    n = C.sym("n")
    C.require(n < (1 << 56))
    a = C.region("a", 8, count=n)
    C.args(a.base, n)
    M = C.E.mem(C.st, "m8")
    C.ghost("i", z3.IntVal(0))
    C.inv(lambda E, Hd: [(f"{m} at element {w}", lambda st, f=f, k=k: Z(f(st)) == a.base + 8 * Z(st.gh["i"])) for m, f in Hd.pos for w, k in (("i", 0),) if not m.startswith("ghost")]
          + [("i counts", lambda st: z3.And(Z(st.gh["i"]) >= 0, Z(st.gh["i"]) <= n))] + [(f"{m} == i", lambda st, f=f: Z(f(st)) == Z(st.gh["i"])) for m, f in Hd.ints])

    def h(E, st, v):
        i = Z(st.gh["i"])
        E.oblige(st, "callback: the i-th pointer comes with number i", z3.And(Z(v[0]) == i, i < n, Z(v[1]) == SEL(M, a.base + 8 * i)))
        st.gh["i"] = i + 1
    C.extern("cb_numbered", h)
    C.post(lambda st, r: [("post: all elements were delivered", Z(st.gh["i"]) == n)])


for e in ("enumerate", "enumerate_owned"):
    @unit("C10", H, e, same="enum")
    def _(C):
        numbered(C, one(C))


@unit("C10", H, "enumerate_mut")
def _(C):
    C.opaque_bytes = True
    a = C.view("a", writable=True)
    v = C.sym("v", 8)
    C.args(a.base, a.n, v)
    numbered(C, a)
    inv = lambda st, hi: Forall(1, lambda k: Imp(z3.And(k >= a.base, k < hi), SEL(C.E.mem(st, "m1"), k) == v), lambda k: SEL(C.E.mem(st, "m1"), k))
    C.inv(lambda E, Hd: [(f"written before {n}", lambda st, f=f: inv(st, Z(f(st)))) for n, f in Hd.pos])
    C.post(lambda st, r: [("post: writing through the reference writes the element", inv(st, a.base + a.n))])


@unit("C10", H, "enumerate_ra")
def _(C):
    C.opaque_bytes = True
    a = C.view("a")
    i, j = C.sym("i"), C.sym("j")
    C.require(j <= i, i <= a.n, i - j < a.n)
    C.args(a.base, a.n, i, j)
    C.extern("cb_numbered", lambda E, st, v: E.oblige(st, "callback: after moving by +i, -j the element carries number i-j", z3.And(Z(v[0]) == i - j, Z(v[1]) == a.base + i - j)))
    C.extern("out_n", lambda E, st, v: E.oblige(st, "callback: the difference of two positions is the number of elements between", Z(v[0]) == i - j))


@unit("C10", H, "enumerate_step")
def _(C):
    C.opaque_bytes = True
    a = C.view("a")
    i = C.sym("i")
    C.require(i + 1 < a.n)
    C.args(a.base, a.n, i)
    C.ghost("k", 1)

    def h(E, st, v):
        k = i + st.gh["k"]
        E.oblige(st, "callback: stepping forward and back keeps number and element together", z3.And(Z(v[0]) == k, Z(v[1]) == a.base + k))
        st.gh["k"] = 0
    C.extern("cb_numbered", h)


@unit("C10", H, "enumerate_length")
def _(C):
    """the distance from begin to end is the number of elements"""
    C.opaque_bytes = True
    a = C.view("a")
    C.args(a.base, a.n)
    C.ghost("out", 0)

    def h(E, st, v):
        E.oblige(st, "callback: the distance from begin to end is the number of elements", Z(v[0]) == a.n)
        st.gh["out"] = 1
    C.extern("out_n", h)
    C.post(lambda st, r: [("post: the distance is delivered", z3.BoolVal(st.gh["out"] == 1))])


@unit("C10", H, "enumerate_postfix")
def _(C):
    """postfix steps deliver the old position"""
    C.opaque_bytes = True
    a = C.view("a")
    i = C.sym("i")
    C.require(i + 1 < a.n)
    C.args(a.base, a.n, i)
    C.ghost("k", 0)

    def h(E, st, v):
        k = i + (0, 1, 1, 0)[st.gh["k"]]
        E.oblige(st, "callback: postfix steps deliver the old position and move by one", z3.And(Z(v[0]) == k, Z(v[1]) == a.base + k))
        st.gh["k"] += 1
    C.extern("cb_numbered", h)
    C.post(lambda st, r: [("post: all positions were delivered", z3.BoolVal(st.gh["k"] == 4))])


@unit("C10", H, "enumerate_signed")
def _(C):
    """+= and -= by any signed distance keep number and element together"""
    C.opaque_bytes = True
    a = C.view("a")
    i = C.sym("i")
    bits, d = C.sint("d", 64)
    C.require(i <= a.n, i + d >= 0, i + d < a.n)
    C.args(a.base, a.n, i, bits)
    C.ghost("k", 0)

    def h(E, st, v):
        E.oblige(st, "callback: after moving by a signed distance number and element belong together", z3.And(Z(v[0]) == i + d, Z(v[1]) == a.base + i + d))
        st.gh["k"] += 1
    C.extern("cb_numbered", h)
    C.post(lambda st, r: [("post: both were delivered", z3.BoolVal(st.gh["k"] == 2))])
