"""C07: merge joins of sorted sequences."""
from ..spec import *

H = "seq"
K = z3.Function("key", z3.IntSort(), z3.IntSort())   # any strict weak order is the order of some integer keys


def kp(C, st, p):
    """key of the element at address p"""
    return K(C.byte(st, p))


def two(C, order=True):
    C.opaque_bytes = True
    a, b = C.view("a"), C.view("b")
    C.args(a.base, a.n, b.base, b.n)
    if order:
        M = C.E.mem(C.st, "m1")
        for r in (a, b):
            C.require(Forall(2, lambda i, j, r=r: Imp(z3.And(r.base <= i, i <= j, j < r.base + r.n), K(SEL(M, i)) <= K(SEL(M, j))),
                             lambda i, j: z3.MultiPattern(SEL(M, i), SEL(M, j))))
    return a, b


def loads(E, st, *ps):
    from .. import llparse as L
    return [E.load(st, p, L.IntTy(8)) for p in ps]


def pred_lt(C, name="env_lt"):
    C.extern(name, lambda E, st, a: (lambda x, y: K(Z(x)) < K(Z(y)))(*loads(E, st, *a)))


def pred_eq(C, name="env_eq"):
    C.extern(name, lambda E, st, a: (lambda x, y: K(Z(x)) == K(Z(y)))(*loads(E, st, *a)))


def where(Hd, n, regs):
    """the region a loop position walks through (None: not a position)"""
    o = Hd.og.get(n) or ()
    return [r for r in regs if r.name in o]


def positions(Hd):
    return [x for x in Hd.pos if x[0] in Hd.raw or x[0].startswith("ghost")], \
        [x for x in Hd.const if not x[0].endswith((".begin", ".end", ".len")) and not x[0].startswith("any")]


def order_invs(C, regs):
    """candidates: key relations between loop positions"""
    def cands(E, Hd):
        out = []
        ps, cs = positions(Hd)
        for n, f in ps + cs:
            for m, g in ps + cs:
                if m == n or ((n, f) in cs and (m, g) in cs):
                    continue
                P = lambda st, f=f: Z(f(st))
                Q = lambda st, g=g: Z(g(st))
                for r in where(Hd, n, regs):
                    inr = lambda p, r=r: z3.And(r.base <= p, p < r.base + r.n)
                    if r in where(Hd, m, regs):
                        out.append((f"elements [{m},{n}) share a key", lambda st, P=P, Q=Q, inr=inr: Imp(z3.And(Q(st) < P(st), inr(Q(st))), z3.And(inr(P(st) - 1), kp(C, st, P(st) - 1) == kp(C, st, Q(st))))))
                        out.append((f"elements [{m},{n}] share a key", lambda st, P=P, Q=Q, inr=inr: Imp(z3.And(Q(st) < P(st), inr(Q(st)), inr(P(st))), kp(C, st, P(st)) == kp(C, st, Q(st)))))
                        out.append((f"{n} at the end implies {m} at the end", lambda st, P=P, Q=Q, r=r: Imp(P(st) == r.base + r.n, Q(st) == r.base + r.n)))
                    for q in where(Hd, m, regs):
                        out.append((f"elements before {n} < element at {m}", lambda st, P=P, Q=Q, r=r, q=q: Imp(
                            z3.And(r.base < P(st), P(st) <= r.base + r.n, q.base <= Q(st), Q(st) < q.base + q.n),
                            kp(C, st, P(st) - 1) < kp(C, st, Q(st)))))
        return out
    C.inv(cands)


def join(C, kind):
    a, b = two(C)
    pred_lt(C)
    order_invs(C, (a, b))
    ae, be = a.base + a.n, b.base + b.n
    C.ghost("pa", a.base)
    C.ghost("pb", b.base)
    full, left = kind == "full", kind in ("left", "full")
    # without the callback for unmatched elements the ghost position may lag behind; x, y are arbitrary elements
    x, y = C.sym("any_a"), C.sym("any_b")
    C.require(a.base <= x, x < ae) if False else None
    C.ghost("hit", z3.BoolVal(False))
    inx, iny = z3.And(a.base <= x, x < ae), z3.And(b.base <= y, y < be)

    def maximal(E, st, r, lo, hi, what):
        e = r.base + r.n
        E.oblige(st, f"callback: a delivered {what} group is a non-empty part of the sequence", z3.And(r.base <= lo, lo < hi, hi <= e))
        E.oblige(st, f"callback: all elements of a {what} group have the same key", kp(C, st, lo) == kp(C, st, hi - 1))
        E.oblige(st, f"callback: a {what} group is maximal (nothing with this key before or behind it)",
                 z3.And(Or(lo == r.base, kp(C, st, lo - 1) != kp(C, st, lo)), Or(hi == e, kp(C, st, hi) != kp(C, st, lo))))

    def hm(E, st, args):
        al, au, bl, bu = [Z(v) for v in args]
        maximal(E, st, a, al, au, "left")
        maximal(E, st, b, bl, bu, "right")
        E.oblige(st, "callback: matched groups have equal keys", kp(C, st, al) == kp(C, st, bl))
        gone(E, st, al, bl)
        st.gh["pa"], st.gh["pb"] = au, bu

    def gone(E, st, al, bl):
        if al is not None:
            pa = Z(st.gh["pa"])
            E.oblige(st, "callback: left groups are delivered in order, each at most once", pa <= al)
            if left:
                E.oblige(st, "callback: no left element is skipped", pa == al)
            else:
                E.oblige(st, "callback: no left element with a partner is skipped", Imp(z3.And(pa <= x, x < al, iny), kp(C, st, x) != kp(C, st, y)))
        if bl is not None:
            pb = Z(st.gh["pb"])
            E.oblige(st, "callback: right groups are delivered in order, each at most once", pb <= bl)
            if full:
                E.oblige(st, "callback: no right element is skipped", pb == bl)
            else:
                E.oblige(st, "callback: no right element with a partner is skipped", Imp(z3.And(pb <= y, y < bl, inx), kp(C, st, x) != kp(C, st, y)))

    def ha(E, st, args):
        lo, hi = Z(args[0]), Z(args[1])
        maximal(E, st, a, lo, hi, "left")
        gone(E, st, lo, None)
        E.oblige(st, "callback: a left group reported without match has no partner", Imp(iny, kp(C, st, y) != kp(C, st, lo)))
        st.gh["pa"] = hi

    def hb(E, st, args):
        lo, hi = Z(args[0]), Z(args[1])
        maximal(E, st, b, lo, hi, "right")
        gone(E, st, None, lo)
        E.oblige(st, "callback: a right group reported without match has no partner", Imp(inx, kp(C, st, x) != kp(C, st, lo)))
        st.gh["pb"] = hi
    C.extern("cb_match", hm)
    if left:
        C.extern("cb_a", ha)
    if full:
        C.extern("cb_b", hb)

    def skipped(E, Hd):
        out = []
        ps, cs = positions(Hd)
        for n, f in ps + cs:
            if n.startswith("ghost"):
                continue
            P = lambda st, f=f: Z(f(st))
            if a in where(Hd, n, (a, b)) and not left:
                out.append((f"left elements between pa and {n} have no partner", lambda st, P=P: Imp(z3.And(Z(st.gh["pa"]) <= x, x < P(st), inx, iny), kp(C, st, x) != kp(C, st, y))))
            if b in where(Hd, n, (a, b)) and not full:
                out.append((f"right elements between pb and {n} have no partner", lambda st, P=P: Imp(z3.And(Z(st.gh["pb"]) <= y, y < P(st), inx, iny), kp(C, st, x) != kp(C, st, y))))
        return out
    C.inv(skipped)

    def post(st, r):
        out = []
        pa, pb = Z(st.gh["pa"]), Z(st.gh["pb"])
        if left:
            out.append(("post: every left element was delivered", pa == ae))
        if full:
            out.append(("post: every right element was delivered", pb == be))
        out.append(("post: every pair of elements with equal keys was delivered as a match",
                    Imp(z3.And(inx, iny, kp(C, st, x) == kp(C, st, y)), z3.And(x < pa, y < pb))))
        return out
    C.post(post)


for kind in ("inner", "left", "full"):
    for v in ("_it", "_it_less", "", "_less"):
        @unit("C07", H, kind + "_join" + v, same=kind)
        def _(C, kind=kind):
            join(C, kind)
