"""C11 (equal ranges after sorting), C12 (container helpers), C14 (uniformity)"""
from ..spec import *
from ..vecmodel import vectors
from .. import llparse as L

H = "cont"
I = z3.IntSort()
P = z3.Function("pred", I, z3.BoolSort())
F = z3.Function("map", I, I)
KEY = z3.Function("key", I, I)       # the order: x < y iff key(x) < key(y)
EQ = z3.Function("value", I, I)      # equality: x == y iff value(x) == value(y)
EQ2 = z3.Function("value2", I, I)
Nt = z3.Not
B8 = L.IntTy(8)
T = lambda lo, i, hi: z3.And(lo <= i, i < hi)


def ld(E, st, p):
    return Z(E.load(st, p, B8))


def touch(st, *ts):
    """no content: offers the terms as quantifier triggers"""
    for t in ts:
        st.assume(z3.Function("touched", t.sort(), z3.BoolSort())(t))


def cast(b):
    if not z3.is_expr(b):
        return z3.BoolVal(bool(b))
    return b if z3.is_bool(b) else Z(b) != 0


def env(C):
    C.opaque_bytes = True
    C.derive = False
    for n, f in (("env_lt", lambda x, y: KEY(x) < KEY(y)), ("env_eq", lambda x, y: EQ(x) == EQ(y)), ("env_eq2", lambda x, y: EQ2(x) == EQ2(y))):
        C.extern(n, lambda E, st, a, f=f: f(ld(E, st, a[0]), ld(E, st, a[1])))
    C.extern("env_pred", lambda E, st, a: P(Z(a[0])))
    C.extern("env_map", lambda E, st, a: F(Z(a[0])))

    def anyel(E, st, a):
        E.store(st, a[0], E.fresh("any"), B8)
    C.extern("env_any", anyel)

    def probe(E, st, a):
        E.oblige(st, "callback: the comparator handed to the standard algorithm is the specified order",
                 cast(a[2]) == (KEY(ld(E, st, a[0])) < KEY(ld(E, st, a[1]))))
    C.extern("env_cmp", probe)

    def alloc(E, st, v):
        E.oblige(st, "callback: the container does not grow", z3.BoolVal(False))
        return E.fresh("grown")
    C.extern("env_alloc", alloc)


def same(E, st, M, lo, hi):
    """memory in [lo,hi) is as in M"""
    Mn = E.mem(st, "m1")
    return Forall(1, lambda i: Imp(T(lo, i, hi), SEL(Mn, i) == SEL(M, i)), lambda i: SEL(Mn, i))


def mutable(C, name="a"):
    env(C)
    a = C.region(name, 1, writable=True)
    C.require(a.base > 0)
    C.args(a.base, a.n)
    return a, a.base + a.n


def sorting(C, a, lo=None, hi=None, order=True):
    """contract of std::sort on [lo,hi): afterwards the range is a permutation of what it was, in order"""
    lo, hi = a.base if lo is None else lo, a.base + a.n if hi is None else hi
    C.ghost("sorted", 0)
    snap = {}

    def sort(E, st, v):
        E.oblige(st, "callback: exactly the given range is sorted, once", z3.And(Z(v[0]) == lo, Z(v[1]) == hi, z3.BoolVal(st.gh["sorted"] == 0)))
        st.gh["sorted"] = 1
        M1 = E.mem(st, "m1")
        M2 = E.fresh("sorted_m1", M1.sort())
        perm = z3.Function(f"perm!{next(E.cnt)}", I, I)
        inv = z3.Function(f"permi!{next(E.cnt)}", I, I)
        st.assume(Forall(1, lambda i: Imp(Nt(T(lo, i, hi)), SEL(M2, i) == SEL(M1, i)), lambda i: SEL(M2, i)))
        st.assume(Forall(1, lambda i: Imp(T(lo, i, hi), z3.And(T(lo, perm(i), hi), SEL(M2, i) == SEL(M1, perm(i)), inv(perm(i)) == i)), lambda i: SEL(M2, i)))
        st.assume(Forall(2, lambda i, j: Imp(z3.And(lo <= i, i < j, j < hi), KEY(SEL(M2, i)) <= KEY(SEL(M2, j))), lambda i, j: [(SEL(M2, i), SEL(M2, j))]))
        st.mem["m1"] = M2
        snap["M"] = M2
    C.extern("env_sort", sort)
    C.E.assumed.add("std::sort / std::stable_sort: the range afterwards is a permutation of its previous content, ordered by the comparator (strict weak order)")
    return snap


# ---------------------------------------------------------------- C11: groups of equal elements after sorting
def eqr(name):
    @unit("C11", H, name)
    def _(C):
        """sorts, then delivers the maximal groups of equivalent elements, in order, covering everything"""
        a, end = mutable(C)
        C.ghost("pos", a.base)
        snap = sorting(C, a)

        def cb(E, st, v):
            lo, hi = Z(v[0]), Z(v[1])
            M = E.mem(st, "m1")
            touch(st, SEL(M, lo))
            E.oblige(st, "callback: the container is sorted before groups are delivered", z3.BoolVal(st.gh["sorted"] == 1))
            E.oblige(st, "callback: groups are delivered without gap or overlap", z3.And(lo == Z(st.gh["pos"]), lo < hi, hi <= end))
            E.oblige(st, "callback: all elements of a group are equivalent", Forall(1, lambda i: Imp(T(lo, i, hi), KEY(SEL(M, i)) == KEY(SEL(M, lo))), lambda i: SEL(M, i)))
            E.oblige(st, "callback: the group is maximal", Or(hi == end, KEY(SEL(M, hi)) > KEY(SEL(M, lo))))
            st.gh["pos"] = hi
        C.extern("cb_group", cb)

        def cands(E, Hd):
            out = []
            if "M" not in snap:
                return out
            M = snap["M"]
            for n, f in Hd.pos:
                v = lambda st, f=f: Z(f(st))
                out.append((f"{n} = pos", lambda st, v=v: v(st) == Z(st.gh["pos"])))
                for k in (0, 1):
                    out.append((f"[pos,{n}+{k}) equivalent", lambda st, v=v, k=k: Forall(1, lambda i: Imp(T(Z(st.gh["pos"]), i, v(st) + k), KEY(SEL(M, i)) == KEY(SEL(M, Z(st.gh["pos"])))), lambda i: SEL(M, i))))
                for m, g in Hd.pos + Hd.ints:      # binary search: [n, n+m) still to be searched
                    if m == n:
                        continue
                    w = lambda st, g=g: Z(g(st))
                    p = lambda st: SEL(M, Z(st.gh["pos"]))
                    out.append((f"{n}+{m} in range", lambda st, v=v, w=w: z3.And(a.base <= v(st), w(st) >= 0, v(st) + w(st) <= end)))
                    out.append((f"[begin,{n}) not greater than the group", lambda st, v=v, p=p: Forall(1, lambda i: Imp(T(a.base, i, v(st)), KEY(SEL(M, i)) <= KEY(p(st))), lambda i: SEL(M, i))))
                    out.append((f"[{n}+{m},end) greater", lambda st, v=v, w=w, p=p: Forall(1, lambda i: Imp(T(v(st) + w(st), i, end), KEY(SEL(M, i)) > KEY(p(st))), lambda i: SEL(M, i))))
            out.append(("groups end at pos", lambda st: Forall(1, lambda i: Imp(z3.And(T(a.base, i, Z(st.gh["pos"])), Z(st.gh["pos"]) < end), KEY(SEL(M, i)) < KEY(SEL(M, Z(st.gh["pos"])))), lambda i: SEL(M, i))))
            return out
        C.inv(cands)
        C.post(lambda st, r: [("post: the groups cover the whole container", Z(st.gh["pos"]) == end),
                              ("post: the container was sorted", z3.BoolVal(st.gh["sorted"] == 1)),
                              ("post: nothing changes the sorted elements", same(C.E, st, snap["M"], a.base, end))])


eqr("equal_ranges")
eqr("equal_ranges_cmp")


# ---------------------------------------------------------------- C12: removing elements
def compact(C, a, end, keep, lo=None, hi=None, snap=None, eqf=None):
    """afterwards [lo, lo+K(hi)) holds the kept elements in order, and exactly the rest [.., hi) is erased"""
    lo, hi = a.base if lo is None else lo, end if hi is None else hi
    M0 = C.E.mem(C.st, "m1")
    K = z3.Function("kept_before", I, I)
    at = z3.Function("kept_at", I, I)
    C.ghost("erased", 0)
    C.K, C.at = K, at

    def define(st, M):
        k = lambda i: keep(M, i)
        touch(st, SEL(M, lo))
        st.assume(K(lo) == 0,
                  Forall(1, lambda i: Imp(T(lo, i, hi), K(i + 1) == K(i) + z3.If(k(i), z3.IntVal(1), z3.IntVal(0))), lambda i: SEL(M, i)),
                  Forall(1, lambda i: Imp(z3.And(lo <= i, i <= hi), z3.And(K(i) >= 0, K(i) <= i - lo)), lambda i: K(i)),
                  Forall(1, lambda i: Imp(z3.And(T(lo, i, hi), k(i)), at(K(i)) == i), lambda i: SEL(M, i)))
    if snap is None:
        define(C.st, M0)
    cur = (lambda: snap.get("M")) if snap is not None else (lambda: M0)

    def holds(E, st, M, c):
        Mn = E.mem(st, "m1")
        return Forall(1, lambda j: Imp(T(0, j, c), SEL(Mn, lo + j) == SEL(M, at(j))), lambda j: at(j))

    def erase(E, st, v):
        M = cur()
        E.oblige(st, "callback: elements are erased once", z3.BoolVal(st.gh["erased"] == 0))
        E.oblige(st, "callback: exactly the places behind the kept elements are erased", z3.And(Z(v[0]) == lo + K(hi), Z(v[1]) == hi))
        E.oblige(st, "callback: the kept elements remain, in order", holds(E, st, M, K(hi)))
        E.oblige(st, "callback: nothing outside the range changes", z3.And(same(E, st, M, a.base, lo), same(E, st, M, hi, end)))
        st.gh["erased"] = 1
    C.extern("cb_erase", erase)

    def cands(E, Hd):
        out = []
        M = cur()
        if M is None:
            return out
        rest = lambda st, v: same(E, st, M, v, end)
        out.append(("elements before the range untouched", lambda st: same(E, st, M, a.base, lo)))
        for n, f in Hd.pos:
            v = lambda st, f=f: Z(f(st))
            out.append((f"elements from {n} on untouched", lambda st, v=v: rest(st, v(st))))
            out.append((f"{n} in range", lambda st, v=v: z3.And(lo <= v(st), v(st) <= hi)))
            out.append((f"{n} before the end", lambda st, v=v: z3.And(lo <= v(st), v(st) < hi)))
            out.append((f"elements behind {n} untouched", lambda st, v=v: rest(st, v(st) + 1)))
            out.append((f"nothing removed before {n}", lambda st, v=v: K(v(st)) == v(st) - lo))
            out.append((f"nothing removed anywhere before {n}", lambda st, v=v: Forall(1, lambda i: Imp(z3.And(lo <= i, i <= v(st)), K(i) == i - lo), lambda i: K(i))))
            out.append((f"all kept in [lo,{n})", lambda st, v=v: Forall(1, lambda i: Imp(T(lo, i, v(st)), keep(M, i)), lambda i: SEL(M, i))))
            out.append((f"all kept in [lo,{n}]", lambda st, v=v: Forall(1, lambda i: Imp(z3.And(lo <= i, i <= v(st), i < hi), keep(M, i)), lambda i: SEL(M, i))))
            out.append((f"nothing removed up to {n}", lambda st, v=v: K(v(st) + 1) == v(st) + 1 - lo))
            for m, g in Hd.ints:
                out.append((f"{n}+4*{m} in range", lambda st, v=v, g=g: v(st) + 4 * Z(g(st)) <= hi))
                out.append((f"4*{m} = rest/4", lambda st, v=v, g=g: z3.And(v(st) + 4 * Z(g(st)) <= hi, hi < v(st) + 4 * Z(g(st)) + 4)))
            for m, g in Hd.pos:
                if m == n:
                    continue
                w = lambda st, g=g: Z(g(st))
                if eqf is not None:
                    out.append((f"value at {n} is the value of the run at {m}", lambda st, v=v, w=w: eqf(SEL(E.mem(st, "m1"), v(st))) == eqf(SEL(M, w(st)))))
                out.append((f"{n} <= {m} (order)", lambda st, v=v, w=w: v(st) <= w(st)))
                out.append((f"{n} = kept before {m}", lambda st, v=v, w=w: v(st) == lo + K(w(st))))
                out.append((f"filled to {n}: kept before {m}", lambda st, v=v, w=w: z3.And(v(st) == lo + K(w(st)), holds(E, st, M, K(w(st))))))
                out.append((f"filled up to {n}: kept before {m}", lambda st, v=v, w=w: z3.And(v(st) + 1 == lo + K(w(st)), holds(E, st, M, K(w(st))))))
                out.append((f"filled up to {n}: kept up to {m}", lambda st, v=v, w=w: z3.And(v(st) + 1 == lo + K(w(st) + 1), holds(E, st, M, K(w(st) + 1)))))
                out.append((f"{n} < {m} or next", lambda st, v=v, w=w: v(st) < w(st)))
                out.append((f"{n} + 1 < {m} or next", lambda st, v=v, w=w: v(st) + 1 < w(st)))
                out.append((f"{n} + 1 = {m}", lambda st, v=v, w=w: v(st) + 1 == w(st)))
        return out
    C.inv(cands)
    C.post(lambda st, r: [("post: the removed elements were erased", z3.BoolVal(True) if st.gh["erased"] == 1 else
                           z3.And(K(hi) == hi - lo, holds(C.E, st, cur(), K(hi)), same(C.E, st, cur(), a.base, lo), same(C.E, st, cur(), hi, end)))])
    return define


def remover(name, keep, extra=None):
    @unit("C12", H, name)
    def _(C):
        """keeps exactly the elements that are not to be removed, in order"""
        a, end = mutable(C)
        x = None
        if extra:
            x = C.sym("x", 8)
            C.argv.append(x)
        compact(C, a, end, lambda M, i: keep(SEL(M, i), x))


remover("erase", lambda v, x: EQ(v) != EQ(x), True)
remover("erase_owned", lambda v, x: EQ(v) != EQ(x), True)


def set_eraser(name):
    @unit("C12", H, name)
    def u(C):
        """the set's own erase is called once, with the element"""
        s, x = C.object("set", 48), C.sym("x", 8)
        C.args(s, x)
        C.ghost("erased", 0)

        def erase(E, st, a):
            E.oblige(st, "value: the element is erased from the set given", z3.BoolVal(isinstance(a[0], Loc) and a[0].o == s.o and a[0].f == 0))
            E.oblige(st, "value: the element given is erased", Z(E.load(st, a[1], L.IntTy(8))) == x)
            st.gh["erased"] += 1
            return C.E.fresh("n")
        C.regex(r"^std::set<el, .*>::erase\(el const&\)", erase)
        C.post(lambda st, r: [("post: the set's erase was called exactly once", z3.BoolVal(st.gh["erased"] == 1))])


set_eraser("erase_set")
set_eraser("erase_set_owned")
remover("erase_if", lambda v, x: Nt(P(v)))


def dedup(name, eqf, part=False):
    @unit("C12", H, name)
    def _(C):
        """sorts, then keeps exactly the first element of each run of equal elements"""
        a, end = mutable(C)
        lo, hi = a.base, end
        if part:
            f, t = C.sym("from"), C.sym("to")
            C.require(f <= t, t <= a.n)
            C.argv += [f, t]
            lo, hi = a.base + f, a.base + t
        snap = sorting(C, a, lo, hi)
        before = z3.Function("before", I, I)      # before(i) = element at i-1; linked below without creating new reads
        keep = lambda M, i: Or(i == lo, eqf(SEL(M, i)) != eqf(before(i)))
        define = compact(C, a, end, keep, lo, hi, snap=snap, eqf=eqf)
        s0 = C.E.externs["env_sort"]

        def sort(E, st, v):
            s0(E, st, v)
            M = snap["M"]
            st.assume(Forall(2, lambda i, j: Imp(j == i - 1, before(i) == SEL(M, j)), lambda i, j: [(before(i), SEL(M, j))]))
            define(st, snap["M"])
        C.extern("env_sort", sort)
        C.post(lambda st, r: [("post: the container was sorted", z3.BoolVal(st.gh["sorted"] == 1))])


dedup("erase_duplicates", EQ)
dedup("erase_duplicates_by", EQ2)
dedup("erase_duplicates_part", EQ2, True)


# ---------------------------------------------------------------- C12: searching and predicates
def first(C, a, end, f):
    """candidates: the position reached so far (all before it fail f) and the strides of unrolled loops"""
    M = C.E.mem(C.st, "m1")

    def none(lo, hi):
        return Forall(1, lambda i: Imp(T(lo, i, hi), Nt(f(SEL(M, i)))), lambda i: SEL(M, i))

    def cands(E, Hd):
        out = []
        for n, g in Hd.pos:
            v = lambda st, g=g: Z(g(st))
            out.append((f"not in [begin,{n})", lambda st, v=v: none(a.base, v(st))))
            out.append((f"{n} in range", lambda st, v=v: z3.And(a.base <= v(st), v(st) <= end)))
            for m, h in Hd.ints:
                out.append((f"4*{m} = rest/4", lambda st, v=v, h=h: z3.And(v(st) + 4 * Z(h(st)) <= end, end < v(st) + 4 * Z(h(st)) + 4)))
        return out
    C.inv(cands)
    return M, none


def searching(name, f, post, x=False):
    @unit("C12", H, name)
    def _(C):
        a, end = mutable(C)
        v = None
        if x:
            v = C.sym("x", 8)
            C.argv.append(v)
        g = (lambda e: f(e, v)) if x else f
        M, none = first(C, a, end, g)
        C.post(lambda st, r: [("post: the result is the specified one", post(M, a.base, end, g, none, r)),
                              ("post: nothing changes", same(C.E, st, M, a.base, end))])
    return _


def is_first(M, lo, end, g, none, r):
    r = Z(r)
    return z3.And(lo <= r, r <= end, none(lo, r), Or(r == end, g(SEL(M, r))))


searching("find_if", lambda e: P(e), is_first)
searching("find", lambda e, v: EQ(e) == EQ(v), is_first, x=True)
searching("all_of", lambda e: Nt(P(e)), lambda M, lo, end, g, none, r: cast(r) == none(lo, end))
searching("any_of", lambda e: P(e), lambda M, lo, end, g, none, r: cast(r) == Nt(none(lo, end)))
searching("none_of", lambda e: P(e), lambda M, lo, end, g, none, r: cast(r) == none(lo, end))


def counter(C, a, end, f, out=None):
    M = C.E.mem(C.st, "m1")
    K = z3.Function("count_before", I, I)
    C.require(K(a.base) == 0, Forall(1, lambda i: Imp(T(a.base, i, end), K(i + 1) == K(i) + z3.If(f(SEL(M, i)), z3.IntVal(1), z3.IntVal(0))), lambda i: SEL(M, i)),
              Forall(1, lambda i: Imp(z3.And(a.base <= i, i <= end), z3.And(K(i) >= 0, K(i) <= i - a.base)), lambda i: K(i)))

    def cands(E, Hd):
        o = []
        for n, g in Hd.pos:
            o.append((f"{n} in range", lambda st, g=g: z3.And(a.base <= Z(g(st)), Z(g(st)) <= end)))
            for m, h in Hd.ints:
                o.append((f"{m} = count before {n}", lambda st, g=g, h=h: Z(h(st)) == K(Z(g(st)))))
        return o
    C.inv(cands)
    return M, K


@unit("C12", H, "count_if")
def _(C):
    """number of elements the predicate accepts"""
    a, end = mutable(C)
    M, K = counter(C, a, end, lambda e: P(e))
    C.post(lambda st, r: [("post: the number of accepted elements", Z(r) == K(end)), ("post: nothing changes", same(C.E, st, M, a.base, end))])


@unit("C12", H, "is_sorted")
def _(C):
    """true iff no element is less than the one before it"""
    a, end = mutable(C)
    M = C.E.mem(C.st, "m1")
    prev = z3.Function("before", I, I)
    C.require(Forall(2, lambda i, j: Imp(j == i - 1, prev(i) == SEL(M, j)), lambda i, j: [(prev(i), SEL(M, j))]))
    ordered = lambda hi: Forall(1, lambda i: Imp(z3.And(a.base < i, i < hi), Nt(KEY(SEL(M, i)) < KEY(prev(i)))), lambda i: SEL(M, i))

    def cands(E, Hd):
        out = []
        for n, g in Hd.pos:
            v = lambda st, g=g: Z(g(st))
            out.append((f"ordered before {n}", lambda st, v=v: ordered(v(st))))
            out.append((f"ordered up to {n}", lambda st, v=v: ordered(v(st) + 1)))
            out.append((f"{n} in range", lambda st, v=v: z3.And(a.base <= v(st), v(st) <= end)))
        return out
    C.inv(cands)
    C.post(lambda st, r: [("post: the result says whether the range is ordered", cast(r) == ordered(end))])


def extreme(name, best):
    @unit("C12", H, name)
    def _(C):
        """the first extreme element, the end of an empty range"""
        a, end = mutable(C)
        M = C.E.mem(C.st, "m1")
        k = lambda p: KEY(SEL(M, p))
        beats = lambda r, hi: z3.And(Forall(1, lambda i: Imp(T(a.base, i, hi), Nt(best(k(i), k(r)))), lambda i: SEL(M, i)),
                                     Forall(1, lambda i: Imp(T(a.base, i, r), best(k(r), k(i))), lambda i: SEL(M, i)))

        def cands(E, Hd):
            out = []
            for n, g in Hd.pos:
                v = lambda st, g=g: Z(g(st))
                out.append((f"{n} in range", lambda st, v=v: z3.And(a.base <= v(st), v(st) < end)))
                for m, h in Hd.pos:
                    w = lambda st, h=h: Z(h(st))
                    if n != m:
                        out.append((f"{n} is extreme before {m}", lambda st, v=v, w=w: beats(v(st), w(st))))
                        out.append((f"{n} is extreme up to {m}", lambda st, v=v, w=w: beats(v(st), w(st) + 1)))
                        out.append((f"{n} <= {m}", lambda st, v=v, w=w: v(st) <= w(st)))
            return out
        C.inv(cands)
        C.post(lambda st, r: [("post: the end of an empty range", Imp(a.n == 0, Z(r) == end)),
                              ("post: the first extreme element", Imp(a.n > 0, z3.And(T(a.base, Z(r), end), beats(Z(r), end))))])


extreme("max_element", lambda x, y: x > y)
extreme("min_element", lambda x, y: x < y)


@unit("C12", H, "equal")
def _(C):
    """true iff both ranges have the same length and equal elements at the same places"""
    env(C)
    a, b = C.region("a", 1, writable=True), C.region("b", 1, writable=True, disjoint=False)
    C.args(a.base, a.n, b.base, b.n)
    M = C.E.mem(C.st, "m1")
    eq = lambda i: EQ(SEL(M, a.base + i)) == EQ(SEL(M, b.base + i))
    off = z3.Function("place", I, I)
    upto = lambda n: Forall(1, lambda i: Imp(T(0, i, n), eq(i)), lambda i: off(i))
    C.require(Forall(1, lambda p: off(p - a.base) == p - a.base, lambda p: SEL(M, p)))

    def cands(E, Hd):
        out = []
        for n, g in Hd.pos + [(h[0], lambda st, h=h: a.base + Z(h[1](st))) for h in Hd.ints]:
            v = lambda st, g=g: Z(g(st)) - a.base
            out.append((f"equal before {n}", lambda st, v=v: upto(v(st))))
            out.append((f"{n} in range", lambda st, v=v: z3.And(0 <= v(st), v(st) <= a.n)))
            for m, h in Hd.pos:
                out.append((f"{n} and {m} at the same place", lambda st, v=v, h=h: Z(h(st)) - b.base == v(st)))
        return out
    C.inv(cands)
    C.post(lambda st, r: [("post: the result says whether the ranges are equal", cast(r) == z3.And(a.n == b.n, upto(a.n)))])


# ---------------------------------------------------------------- C12: writing
@unit("C12", H, "fill")
def _(C):
    """every element is the given one afterwards"""
    a, end = mutable(C)
    x = C.sym("x", 8)
    C.argv.append(x)
    M = C.E.mem(C.st, "m1")
    is_x = lambda E, st, hi: Forall(1, lambda i: Imp(T(a.base, i, hi), SEL(E.mem(st, "m1"), i) == x), lambda i: SEL(E.mem(st, "m1"), i))
    C.inv(lambda E, Hd: [(f"filled before {n}", lambda st, g=g: z3.And(a.base <= Z(g(st)), is_x(E, st, Z(g(st))))) for n, g in Hd.pos])
    C.post(lambda st, r: [("post: every element is the given one", is_x(C.E, st, end))])


@unit("C12", H, "repeat_n")
def _(C):
    """n copies of the element"""
    env(C)
    x = C.region("x", 1, count=z3.IntVal(1))
    n = C.sym("n")
    d = C.region("d", 1, writable=True, count=n)
    M = C.E.mem(C.st, "m1")
    C.args(x.base, n)
    C.ghost("out", 0)

    def alloc(E, st, v):
        E.oblige(st, "callback: n elements are created", Z(v[0]) == n)
        return d.base
    C.extern("env_alloc", alloc)
    is_x = lambda E, st, hi: Forall(1, lambda i: Imp(T(d.base, i, hi), SEL(E.mem(st, "m1"), i) == SEL(M, x.base)), lambda i: SEL(E.mem(st, "m1"), i))
    C.inv(lambda E, Hd: [(f"filled before {m}", lambda st, g=g: z3.And(d.base <= Z(g(st)), is_x(E, st, Z(g(st))))) for m, g in Hd.pos] + [("the element is unchanged", lambda st: SEL(E.mem(st, "m1"), x.base) == SEL(M, x.base))])

    def res(E, st, v):
        E.oblige(st, "post: the result has n elements", z3.And(Z(v[0]) == d.base, Z(v[1]) == d.base + n))
        E.oblige(st, "post: every element is the given one", is_x(E, st, d.base + n))
        st.gh["out"] += 1
    C.extern("out_cells", res)
    C.post(lambda st, r: [("post: the result is delivered", z3.BoolVal(st.gh["out"] == 1))])


def transformed(name):
    @unit("C12", H, name)
    def _(C):
        """appends the image of every element, in order"""
        a, end = mutable(C)
        M = C.E.mem(C.st, "m1")
        C.ghost("pos", a.base)

        def push(E, st, v):
            p = Z(st.gh["pos"])
            E.oblige(st, "callback: one image per element", p < end)
            E.oblige(st, "callback: the image of the next element is appended", Z(v[0]) == F(SEL(M, p)))
            st.gh["pos"] = p + 1
        C.extern("cb_push", push)
        C.inv(lambda E, Hd: [(f"{n} = pos", lambda st, g=g: Z(g(st)) == Z(st.gh["pos"])) for n, g in Hd.pos] +
              [(f"{n} = rest", lambda st, g=g: Z(st.gh["pos"]) + Z(g(st)) == end) for n, g in Hd.ints] + [("pos in range", lambda st: z3.And(a.base <= Z(st.gh["pos"]), Z(st.gh["pos"]) <= end))])
        C.post(lambda st, r: [("post: the image of every element was appended", Z(st.gh["pos"]) == end)])


transformed("transform_to_sink")
transformed("transform_to")


@unit("C12", H, "concat")
def _(C):
    """appends exactly the second container at the end of the first"""
    a, end = mutable(C)
    b = C.region("b", 1, disjoint=False)
    C.argv += [b.base, b.n]
    C.ghost("ins", 0)
    C.ghost("out", 0)

    def ins(E, st, v):
        E.oblige(st, "callback: exactly the second container is inserted at the end of the first, once", z3.And(Z(v[0]) == end, Z(v[1]) == b.base, Z(v[2]) == b.base + b.n, z3.And(z3.BoolVal(st.gh["ins"] == 0), Z(st.gh["appended"]) == 0)))
        st.gh["ins"] = 1
    C.extern("cb_insert_range", ins)
    M = C.E.mem(C.st, "m1")
    C.ghost("appended", z3.IntVal(0))

    def push(E, st, v):
        k = Z(st.gh["appended"])
        E.oblige(st, "callback: the next element of the second container is appended", z3.And(z3.BoolVal(st.gh["ins"] == 0), k < b.n, Z(v[0]) == SEL(M, b.base + k)))
        st.gh["appended"] = k + 1
    C.extern("cb_push", push)
    k = lambda st: Z(st.gh["appended"])
    C.inv(lambda E, Hd: [(f"{n} = appended", lambda st, g=g: Z(g(st)) == b.base + k(st)) for n, g in Hd.pos] + [(f"{n} left", lambda st, g=g: Z(g(st)) + k(st) == b.n) for n, g in Hd.ints] +
          [("appended in range", lambda st: z3.And(0 <= k(st), k(st) <= b.n))])

    def out(E, st, v):
        E.oblige(st, "post: the first container is returned", cast(v[0]))
        st.gh["out"] = 1
    C.extern("out_n", out)
    C.post(lambda st, r: [("post: the second container was appended and the first returned", z3.And(z3.BoolVal(True) if st.gh["ins"] == 1 else k(st) == b.n, z3.BoolVal(st.gh["out"] == 1)))])


def insert(name):
    @unit("C12", H, name)
    def _(C):
        """inserts before the first element that is not less, unless that one equals it already"""
        a, end = mutable(C)
        x = C.sym("x", 8)
        C.argv.append(x)
        M = C.E.mem(C.st, "m1")
        k = lambda p: KEY(SEL(M, p))
        C.require(Forall(2, lambda i, j: Imp(z3.And(a.base <= i, i < j, j < end), k(i) <= k(j)), lambda i, j: [(SEL(M, i), SEL(M, j))]))
        less = lambda hi: Forall(1, lambda i: Imp(T(a.base, i, hi), k(i) < KEY(x)), lambda i: SEL(M, i))
        notless = lambda lo: Forall(1, lambda i: Imp(T(lo, i, end), k(i) >= KEY(x)), lambda i: SEL(M, i))
        C.ghost("ins", 0)
        C.ghost("out", 0)

        def place(q):
            return z3.And(a.base <= q, q <= end, less(q), notless(q))

        def ins(E, st, v):
            q = Z(v[0])
            E.oblige(st, "callback: the element is inserted at its place in the order", z3.And(place(q), Z(v[1]) == x))
            E.oblige(st, "callback: an element that is there already is not inserted again", Or(q == end, EQ(SEL(M, q)) != EQ(x)))
            E.oblige(st, "callback: the element is inserted once", z3.BoolVal(st.gh["ins"] == 0))
            st.gh["ins"] = 1
        C.extern("cb_insert", ins)

        def out(E, st, v):
            q = Z(v[0])
            E.oblige(st, "post: the position of the element in the order is returned", place(q))
            E.oblige(st, "post: the report says whether the element was inserted", cast(v[1]) == z3.BoolVal(st.gh["ins"] == 1))
            E.oblige(st, "post: an element that was not there is inserted", Imp(Or(q == end, EQ(SEL(M, q)) != EQ(x)), z3.BoolVal(st.gh["ins"] == 1)))
            st.gh["out"] = 1
        C.extern("out_pos", out)

        def cands(E, Hd):
            o = []
            for n, f in Hd.pos:
                v = lambda st, f=f: Z(f(st))
                o.append((f"all before {n} are less", lambda st, v=v: less(v(st))))
                for m, g in Hd.pos + Hd.ints:
                    if m != n:
                        w = lambda st, g=g: Z(g(st))
                        o.append((f"{n}+{m} in range", lambda st, v=v, w=w: z3.And(a.base <= v(st), w(st) >= 0, v(st) + w(st) <= end)))
                        o.append((f"from {n}+{m} on not less", lambda st, v=v, w=w: notless(v(st) + w(st))))
                        o.append((f"from {m} on not less", lambda st, w=w: notless(w(st))))
                        o.append((f"{n} <= {m} <= end", lambda st, v=v, w=w: z3.And(v(st) <= w(st), w(st) <= end)))
            return o
        C.inv(cands)
        C.post(lambda st, r: [("post: a result is returned", z3.BoolVal(st.gh["out"] == 1)), ("post: nothing else changes", same(C.E, st, M, a.base, end))])


insert("insert_sorted")
insert("insert_sorted_less")


# ---------------------------------------------------------------- C12: sorting helpers forward range and comparator
def sort_(name):
    @unit("C12", H, name)
    def _(C):
        """the whole range is sorted by the given order"""
        a, end = mutable(C)
        snap = sorting(C, a)
        C.post(lambda st, r: [("post: the range is sorted", z3.BoolVal(st.gh["sorted"] == 1)), ("post: the sorted elements stay", same(C.E, st, snap["M"], a.base, end))])


sort_("sort")
sort_("sort_cmp")


def nth(name):
    @unit("C12", H, name)
    def _(C):
        """the whole range is partitioned at the given place"""
        a, end = mutable(C)
        k = C.sym("k")
        C.require(k <= a.n)
        C.argv.append(k)
        C.ghost("done", 0)

        def call(E, st, v):
            E.oblige(st, "callback: the whole range is partitioned at the given place, once", z3.And(Z(v[0]) == a.base, Z(v[1]) == a.base + k, Z(v[2]) == end, z3.BoolVal(st.gh["done"] == 0)))
            st.gh["done"] = 1
        C.extern("env_nth", call)
        C.E.assumed.add("std::nth_element (contract of the C++ standard)")
        C.post(lambda st, r: [("post: the range was partitioned", z3.BoolVal(st.gh["done"] == 1))])


nth("nth_element")
nth("nth_element_cmp")


# ---------------------------------------------------------------- C12: get or create
def goc(name, hint):
    @unit("C12", H, name)
    def _(C):
        """the value of a known key; otherwise exactly one created value is inserted under the key and returned"""
        C.opaque_bytes = True
        key = C.sym("key", 8)
        C.args(key)
        found, endp, slot = C.region("found", 1, count=z3.IntVal(1)), z3.Int("end_it"), C.region("slot", 1, writable=True, count=z3.IntVal(1))
        has = C.boolv("has")
        new = C.sym("new", 8)
        C.require(endp > 0, endp != found.base)
        C.ghost("created", 0)
        C.ghost("inserted", 0)
        it = z3.If(has, found.base, endp)
        M = C.E.mem(C.st, "m1")

        def find(E, st, v):
            E.oblige(st, "callback: the given key is looked up", Z(v[-1]) == key)
            return it
        C.extern("env_find", find)
        C.extern("env_end", lambda E, st, v: endp)

        def create(E, st, v):
            E.oblige(st, "callback: a value is created only for an unknown key, once", z3.And(Nt(has), z3.BoolVal(st.gh["created"] == 0)))
            st.gh["created"] += 1
            return new

        def ins(E, st, v):
            v = [Z(x) for x in v]
            if len(v) == 3:
                E.oblige(st, "callback: the hint is the position looked up", v.pop(0) == it)
            E.oblige(st, "callback: the created value is inserted under the key, once", z3.And(v[0] == key, v[1] == new, z3.BoolVal(st.gh["created"] == 1 and st.gh["inserted"] == 0)))
            st.gh["inserted"] += 1
            E.store(st, slot.base, new, B8)
            return slot.base
        C.extern("env_create", create)
        C.extern("map_insert", ins)
        if hint:
            C.extern("map_insert_at", ins)
        C.post(lambda st, r: [("post: the known or the created value is returned", Z(r) == z3.If(has, SEL(M, found.base), new)),
                              ("post: an unknown key is inserted", Imp(Nt(has), z3.BoolVal(st.gh["inserted"] == 1)))])


goc("get_or_create", True)
goc("get_or_create_plain", False)


@unit("C12", H, "get_or_create_index")
def _(C):
    """the index of a known key; a new key gets the number of keys so far"""
    key = C.sym("key", 8)
    C.args(key)
    found, endp, slot = C.region("found", 8, count=z3.IntVal(1)), z3.Int("end_it"), C.region("slot", 8, writable=True, count=z3.IntVal(1))
    has = C.boolv("has")
    size = C.sym("size")
    C.require(size < (1 << 62), endp > 0, endp != found.base)
    C.ghost("at", 0)
    n = lambda st: size + st.gh["at"]      # a key that is accessed by [] is inserted if it is new
    M0 = C.E.load(C.st, found.base, L.IntTy(64))

    def find(E, st, v):
        E.oblige(st, "callback: the given key is looked up", Z(v[-1]) == key)
        return z3.If(has, found.base, endp)
    C.extern("idx_find", find)
    C.extern("idx_end", lambda E, st, v: endp)
    C.extern("env_size", lambda E, st, v: n(st))

    def at(E, st, v):
        E.oblige(st, "callback: the unknown key is inserted, once", z3.And(Nt(has), Z(v[-1]) == key, z3.BoolVal(st.gh["at"] == 0)))
        st.gh["at"] = 1
        return slot.base
    C.extern("idx_at", at)

    def emplace(E, st, v):
        q = at(E, st, [v[0]])
        E.store(st, q, v[1], L.IntTy(64))
        return q
    C.extern("idx_emplace", emplace)
    C.post(lambda st, r: [("post: a known key keeps its index", Imp(has, z3.And(Z(r) == Z(M0), z3.BoolVal(st.gh["at"] == 0)))),
                          ("post: a new key gets the number of keys so far, in the map and as result", Imp(Nt(has), z3.And(Z(r) == size, Z(C.E.load(st, slot.base, L.IntTy(64))) == size, z3.BoolVal(st.gh["at"] == 1))))])


# ---------------------------------------------------------------- C14: uniformity
def uniform(name, val, lv=False):
    @unit("C14", H, name)
    def _(C):
        """true iff all elements (their images) are equal; also for the empty range"""
        a, end = mutable(C)
        M = C.E.mem(C.st, "m1")
        if lv:
            C.ghost("ok", 0)

            def out(E, st, v):
                E.oblige(st, "post: the caller's iterators are not modified", cast(v[0]))
                st.gh["ok"] = 1
            C.extern("out_n", out)
        v = lambda i: val(SEL(M, i))
        touch(C.st, SEL(M, a.base))
        uni = lambda hi: Forall(1, lambda i: Imp(T(a.base, i, hi), v(i) == v(a.base)), lambda i: SEL(M, i))

        def cands(E, Hd):
            out = []
            for n, g in Hd.pos:
                p = lambda st, g=g: Z(g(st))
                out.append((f"uniform before {n}", lambda st, p=p: uni(p(st))))
                out.append((f"uniform up to {n}", lambda st, p=p: uni(p(st) + 1)))
                out.append((f"{n} in range", lambda st, p=p: z3.And(a.base <= p(st), p(st) <= end)))
            return out
        C.inv(cands)
        C.post(lambda st, r: [("post: true iff all elements are equal", cast(r) == uni(end))])


for n in ("is_uniform", "is_uniform_const", "is_uniform_it", "is_uniform_lvalues"):
    uniform(n, EQ, n.endswith("lvalues"))
for n in ("is_uniform_fn", "is_uniform_fn_it", "is_uniform_fn_lvalues"):
    uniform(n, lambda e: F(e), n.endswith("lvalues"))


# ---------------------------------------------------------------- C12: collecting into a vector / set
def src(C):
    env(C)
    a = C.region("a", 1)
    C.require(a.base > 0)
    C.args(a.base, a.n)
    return a


from .c13_pipes import collecting  # noqa
for n in ("to_vec", "to_vec_const", "to_vec_it"):
    collecting(n, val=F, prop="C12", H=H, source=src)
collecting("to_vec_copy", prop="C12", H=H, source=src)


def to_set(name):
    @unit("C12", H, name)
    def _(C):
        """the image of every element is inserted into the set that is returned"""
        a = src(C)
        end = a.base + a.n
        M = C.E.mem(C.st, "m1")
        C.ghost("pos", a.base)
        C.ghost("set", 0)
        S = r"^std::set<el, .*>::"

        def ctor(E, st, v):
            E.oblige(st, "callback: one set is built", z3.BoolVal(st.gh["set"] == 0))
            st.gh["set"] = 1

        def ins(E, st, v):
            p = Z(st.gh["pos"])
            E.oblige(st, "callback: one image per element", p < end)
            E.oblige(st, "callback: the image of the next element is inserted", Z(E.load(st, v[-1], B8)) == F(SEL(M, p)))
            st.gh["pos"] = p + 1
            return E.fresh("it") if len(v) == 3 else (E.fresh("it"), E.fresh("inserted"))
        C.regex(S + r"set\(", ctor)
        C.regex(r"std::set<el, .*>::(insert|emplace)", ins)
        C.regex(S + r"(begin|end)", lambda E, st, v: E.fresh("it"))
        C.regex(S + r"~set", lambda E, st, v: None)
        C.regex(r"std::_Rb_tree_increment", lambda E, st, v: E.fresh("it"))
        C.E.assumed.add("std::set (contract of the C++ standard)")
        C.inv(lambda E, Hd: [(f"{n} = pos", lambda st, g=g: Z(g(st)) == Z(st.gh["pos"])) for n, g in Hd.pos] + [("pos in range", lambda st: z3.And(a.base <= Z(st.gh["pos"]), Z(st.gh["pos"]) <= end))])
        C.post(lambda st, r: [("post: the image of every element was inserted", Z(st.gh["pos"]) == end)])


to_set("to_set")
to_set("to_set_it")


# ---------------------------------------------------------------- C12: sort_by
@unit("C12", H, "sort_by")
def _(C):
    """one permutation that orders the first container is applied to copies of all of them; the originals stay"""
    env(C)
    C.scaled = True
    n = C.sym("n")
    C.require(n < (1 << 32))
    mb = z3.If(C.boolv("second container is empty"), z3.IntVal(0), n)
    a, b = C.region("a", 1, count=n), C.region("b", 1, count=mb)
    A, B = C.region("a_copy", 1, writable=True, count=n), C.region("b_copy", 1, writable=True, count=mb)
    p = C.region("perm", 4, writable=True, count=n)
    C.args(a.base, n, b.base, mb)
    C.require(a.base > 0, b.base > 0, a.base + n <= b.base, A.base > 0, B.base > 0, p.base > 0)
    M0 = C.E.mem(C.st, "m1")
    C.ghost("copies", 0)
    C.ghost("sorted", 0)
    C.ghost("out", 0)
    C.ghost("vec", 0)
    snap = {}
    # entry at address q of the permutation: number idx(q)
    idx = z3.Function("idx", I, I)
    entry = lambda q, hi: z3.And(p.base <= q, q < p.base + 4 * hi, (q - p.base) % 4 == 0)
    C.require(Forall(1, lambda q: Imp((q - p.base) % 4 == 0, p.base + 4 * idx(q) == q), lambda q: idx(q)))
    identity = lambda M, hi: Forall(1, lambda q: Imp(entry(q, hi), SEL(M, q) == idx(q)), lambda q: SEL(M, q))
    V = r"std::vector<unsigned int, std::allocator<unsigned int> ?>::"
    from ..vecmodel import st_

    def ctor(E, st, v):
        E.oblige(st, "callback: one permutation is built", z3.BoolVal(st.gh["vec"] == 0))
        st.gh["vec"] = 1
        for k in range(3):
            st_(E, st, v[0], k, p.base)

    def resize(E, st, v):
        E.oblige(st, "callback: the permutation has one entry per element", Z(v[1]) == n)
        st_(E, st, v[0], 1, p.base + 4 * n)

    def sized(E, st, v):
        ctor(E, st, v)
        resize(E, st, v)
        M = E.mem(st, "m4")
        M2 = E.fresh("zero_m4", M.sort())
        st.assume(Forall(1, lambda q: Imp(entry(q, n), SEL(M2, q) == 0), lambda q: SEL(M2, q)), Forall(1, lambda q: Imp(Nt(entry(q, n)), SEL(M2, q) == SEL(M, q)), lambda q: SEL(M2, q)))
        st.mem["m4"] = M2

    def push(E, st, v):
        e = Z(E.load(st, Loc(v[0].o, v[0].f + 8), L.PTR))
        E.oblige(st, "callback: the permutation has one entry per element", z3.And(p.base <= e, e < p.base + 4 * n))
        E.store(st, e, E.load(st, v[1], L.IntTy(32)), L.IntTy(32))
        st_(E, st, v[0], 1, e + 4)
        return e
    C.regex("^" + V + r"vector\(\)", ctor)
    C.regex("^" + V + r"vector\(unsigned long, std::allocator", sized)
    C.regex(V + r"(push_back|emplace_back)", push)
    C.regex(V + r"reserve\(", lambda E, st, v: None)
    C.regex(V + r"resize\(", resize)
    C.regex("^" + V + r"~vector\(", lambda E, st, v: None)
    C.E.assumed.add("std::vector: memory suffices (no std::bad_alloc)")

    def copy(E, st, v):
        for r, R, c in ((a, A, n), (b, B, mb)):
            if E.sol.check(st.pc, [z3.Not(Z(v[0]) == r.base)], 2000)[0] == z3.unsat:
                M1 = E.mem(st, "m1")
                M2 = E.fresh("copied_m1", M1.sort())
                st.assume(Forall(1, lambda i: Imp(T(R.base, i, R.base + c), SEL(M2, i) == SEL(M1, r.base + (i - R.base))), lambda i: SEL(M2, i)),
                          Forall(1, lambda i: Imp(Nt(T(R.base, i, R.base + c)), SEL(M2, i) == SEL(M1, i)), lambda i: SEL(M2, i)))
                st.mem["m1"] = M2
                E.oblige(st, "callback: a container is copied completely", Z(v[1]) == r.base + c)
                st.gh["copies"] += 1
                return R.base
        E.oblige(st, "callback: only the given containers are copied", False)
        return A.base
    C.extern("env_copy", copy)

    def anyi(E, st, v):
        x = E.fresh("any")
        st.assume(x >= 0, x < n)
        E.store(st, v[0], x, L.IntTy(32))
    C.extern("env_any_index", anyi)

    def probe(E, st, v):
        k = lambda i: KEY(SEL(M0, a.base + Z(i)))
        E.oblige(st, "callback: the comparator handed to the sort is the order of the referenced elements", Imp(n > 0, cast(v[2]) == (k(v[0]) < k(v[1]))))
    C.extern("env_cmp_index", probe)
    perm, inv = z3.Function("perm", I, I), z3.Function("perm_inverse", I, I)

    def sort(E, st, v):
        M = E.mem(st, "m4")
        E.oblige(st, "callback: the whole permutation is sorted, once", z3.And(Z(v[0]) == p.base, Z(v[1]) == p.base + 4 * n, z3.BoolVal(st.gh["sorted"] == 0)))
        E.oblige(st, "callback: the permutation starts as the identity", identity(M, n))
        st.gh["sorted"] = 1
        M2 = E.fresh("sorted_m4", M.sort())
        k = lambda i: KEY(SEL(M0, a.base + i))
        st.assume(Forall(1, lambda q: Imp(entry(q, n), SEL(M2, q) == perm(idx(q))), lambda q: SEL(M2, q)),
                  Forall(1, lambda i: Imp(T(0, i, n), z3.And(T(0, perm(i), n), inv(perm(i)) == i)), lambda i: perm(i)),
                  Forall(2, lambda i, j: Imp(z3.And(0 <= i, i < j, j < n), k(perm(i)) <= k(perm(j))), lambda i, j: [(perm(i), perm(j))]))
        st.mem["m4"] = M2
        snap["M"] = M2
    C.extern("env_sort_index", sort)
    C.E.assumed.add("std::sort: permutes the range into the order of the comparator")

    done = lambda E, st, R, r, c: Forall(1, lambda i: Imp(T(0, i, c), SEL(E.mem(st, "m1"), R.base + i) == SEL(M0, r.base + perm(i))), lambda i: perm(i))

    def out(E, st, v):
        R, r, c = ((A, a, n), (B, b, mb))[st.gh["out"]]
        E.oblige(st, f"post: container {st.gh['out'] + 1} is the copy", z3.And(Z(v[0]) == R.base, Z(v[1]) == R.base + c))
        E.oblige(st, f"post: container {st.gh['out'] + 1} is permuted by the sorting permutation", done(E, st, R, r, c))
        st.gh["out"] += 1
    C.extern("out_cells", out)

    def cands(E, Hd):
        o = []
        for m, g in Hd.ints:
            v = lambda st, g=g: Z(g(st))
            o.append((f"{m} <= n", lambda st, v=v: v(st) <= n))
            o.append((f"identity before {m}", lambda st, v=v: identity(E.mem(st, "m4"), v(st))))
            for c in Hd.pos + Hd.ints:
                if c[0] != m:
                    o.append((f"{c[0]} = perm + 4*{m}", lambda st, v=v, c=c: Z(c[1](st)) == p.base + 4 * v(st)))
            for R, r in ((A, a), (B, b)):
                o.append((f"{R.name} permuted before {m}", lambda st, v=v, R=R, r=r: done(E, st, R, r, v(st))))
        for R, r, c in ((A, a, n), (B, b, mb)):
            o.append((f"{R.name} permuted", lambda st, R=R, r=r, c=c: done(E, st, R, r, c)))
            o.append((f"{R.name} = {r.name}", lambda st, R=R, r=r, c=c: Forall(1, lambda i: Imp(T(R.base, i, R.base + c), SEL(E.mem(st, "m1"), i) == SEL(M0, r.base + (i - R.base))), lambda i: SEL(E.mem(st, "m1"), i))))
            o.append((f"{r.name} unchanged", lambda st, R=R, r=r, c=c: same(E, st, M0, r.base, r.base + c)))
        return o
    C.inv(cands)
    C.measures = lambda E, Hd: [("entries left", lambda s, g=g: n - Z(g(s))) for m, g in Hd.ints]
    C.post(lambda st, r: [("post: all containers were delivered", z3.BoolVal(st.gh["out"] == 2)),
                          ("post: the order was established", z3.BoolVal(st.gh["sorted"] == 1)),
                          ("post: the originals are unchanged", z3.And(same(C.E, st, M0, a.base, a.base + n), same(C.E, st, M0, b.base, b.base + mb)))])
