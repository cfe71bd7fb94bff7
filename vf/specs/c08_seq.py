"""C08 sorted_diff, C09 power_set_intersection, C11 groups of equal elements."""
from ..spec import *
from .c07_join import H, K, kp, two, loads, pred_lt, pred_eq, order_invs, where, positions

DE = z3.Function("deep_eq", z3.IntSort(), z3.IntSort(), z3.BoolSort())
SIM = z3.Function("similar", z3.IntSort(), z3.IntSort(), z3.BoolSort())


for v in ("_it", ""):
    @unit("C08", H, "sorted_diff" + v, same="diff")
    def _(C):
        a, b = two(C)
        pred_lt(C)
        C.extern("env_deep_eq", lambda E, st, x: DE(*[Z(t) for t in loads(E, st, *x)]))
        ae, be = a.base + a.n, b.base + b.n
        C.ghost("pa", a.base)
        C.ghost("pb", b.base)
        order_invs(C, (a, b))

        def matched(st, d, pa=None, pb=None):
            """the next d elements of both sequences correspond and do not differ"""
            pa, pb = Z(st.gh["pa"]), Z(st.gh["pb"])
            M = C.E.mem(st, "m1")
            off = pb - pa
            return Forall(1, lambda i: Imp(z3.And(pa <= i, i < pa + d), z3.And(K(SEL(M, i)) == K(SEL(M, i + off)), DE(SEL(M, i), SEL(M, i + off)))),
                          lambda i: SEL(M, i))

        def quiet(E, st, na, nb):
            """everything between the last report and (na, nb) needs no report"""
            pa, pb = Z(st.gh["pa"]), Z(st.gh["pb"])
            E.oblige(st, "callback: reports come in order, each element at most once", z3.And(pa <= na, na <= ae, pb <= nb, nb <= be))
            E.oblige(st, "callback: elements passed without report correspond to each other", na - pa == nb - pb)
            E.oblige(st, "callback: elements passed without report have equal keys and do not differ", matched(st, na - pa))

        def add(E, st, x):
            p = Z(x[0])
            pa, pb = Z(st.gh["pa"]), Z(st.gh["pb"])
            na = pa + (p - pb)
            quiet(E, st, na, p)
            E.oblige(st, "callback: an addition is an element of the new sequence without counterpart in the old one",
                     z3.And(p < be, Or(na == ae, kp(C, st, p) < kp(C, st, na))))
            st.gh["pa"], st.gh["pb"] = na, p + 1

        def dele(E, st, x):
            p = Z(x[0])
            pa, pb = Z(st.gh["pa"]), Z(st.gh["pb"])
            nb = pb + (p - pa)
            quiet(E, st, p, nb)
            E.oblige(st, "callback: a removal is an element of the old sequence without counterpart in the new one",
                     z3.And(p < ae, Or(nb == be, kp(C, st, p) < kp(C, st, nb))))
            st.gh["pa"], st.gh["pb"] = p + 1, nb

        def change(E, st, x):
            p, q = Z(x[0]), Z(x[1])
            quiet(E, st, p, q)
            E.oblige(st, "callback: a change is a pair (old, new) with equal keys that differs",
                     z3.And(p < ae, q < be, kp(C, st, p) == kp(C, st, q), z3.Not(DE(C.byte(st, p), C.byte(st, q)))))
            st.gh["pa"], st.gh["pb"] = p + 1, q + 1
        C.extern("cb_add", add)
        C.extern("cb_del", dele)
        C.extern("cb_change", change)

        def cands(E, Hd):
            out = []
            for n, f in Hd.pos:
                if n not in Hd.raw:
                    continue
                P = lambda st, f=f: Z(f(st))
                for r, g in ((a, "pa"), (b, "pb")):
                    if r in where(Hd, n, (a, b)):
                        out.append((f"nothing to report up to {n}", lambda st, P=P, g=g: matched(st, P(st) - Z(st.gh[g]))))
                        ps, cs = positions(Hd)
                        for m, h in [x for x in ps + cs if b in where(Hd, x[0], (a, b))] + [("the end", lambda st: be)]:
                            if g == "pa":
                                out.append((f"{n} and {m} passed the same number", lambda st, P=P, h=h: P(st) - Z(st.gh["pa"]) == Z(h(st)) - Z(st.gh["pb"])))
                    if b in where(Hd, n, (a, b)):
                        for m, h in [x for x in positions(Hd)[1] if a in where(Hd, x[0], (a, b))] + [("the end", lambda st: ae)]:
                            out.append((f"{m} and {n} passed the same number", lambda st, P=P, h=h: Z(h(st)) - Z(st.gh["pa"]) == P(st) - Z(st.gh["pb"])))
            return out
        C.inv(cands)
        C.measures = lambda E, Hd: [("rest", lambda s, f=f, g=g: (ae - Z(f(s))) + (be - Z(g(s)))) for n, f in Hd.pos for m, g in Hd.pos if n in Hd.raw and m in Hd.raw and n != m]
        C.post(lambda st, r: [("post: everything behind the last report corresponds and does not differ",
                               z3.And(ae - Z(st.gh["pa"]) == be - Z(st.gh["pb"]), Z(st.gh["pa"]) <= ae, matched(st, ae - Z(st.gh["pa"]))))])


for v in ("_it", ""):
    @unit("C09", H, "power_set" + v, same="power")
    def _(C):
        a, b = two(C)
        pred_lt(C)
        order_invs(C, (a, b))
        ae, be = a.base + a.n, b.base + b.n
        x, y = C.sym("any_a"), C.sym("any_b")
        C.require(a.base <= x, x < ae, b.base <= y, y < be)
        C.ghost("seen", z3.BoolVal(False))
        eq = K(C.byte(C.st, x)) == K(C.byte(C.st, y))

        def pair(E, st, v):
            p, q = Z(v[0]), Z(v[1])
            E.oblige(st, "callback: a reported pair is (element of the first, element of the second sequence)", z3.And(a.base <= p, p < ae, b.base <= q, q < be))
            E.oblige(st, "callback: a reported pair has equal keys", kp(C, st, p) == kp(C, st, q))
            hit = z3.And(p == x, q == y)
            E.oblige(st, "callback: no pair is reported twice", Imp(hit, z3.Not(Z(st.gh["seen"]))))
            st.gh["seen"] = z3.Or(Z(st.gh["seen"]), hit)
        C.extern("cb_pair", pair)

        def cands(E, Hd):
            out = []
            ps, cs = positions(Hd)
            A = [t for t in ps + cs if a in where(Hd, t[0], (a, b))] + [("a.begin", lambda st: a.base)]
            B = [t for t in ps + cs if b in where(Hd, t[0], (a, b))] + [("b.begin", lambda st: b.base)]
            S = lambda st: Z(st.gh["seen"])
            for n, f in A:
                for m, g in B:
                    base = lambda st, f=f, g=g: z3.Or(x < Z(f(st)), y < Z(g(st)))
                    out.append((f"reported = equal and before ({n},{m})", lambda st, base=base: S(st) == z3.And(eq, base(st))))
                    for o, h in B:
                        if o != m:
                            for d in (0, 1):
                                out.append((f"reported = equal and before ({n},{m}) or row up to {o} ({d})", lambda st, base=base, f=f, h=h, d=d: S(st) == z3.And(eq, z3.Or(base(st), z3.And(x == Z(f(st)) - d, y < Z(h(st)))))))
                    for o, h in A:
                        if o != n:
                            out.append((f"reported = equal and before ({n},{m}) or column up to {o}", lambda st, base=base, g=g, h=h: S(st) == z3.And(eq, z3.Or(base(st), z3.And(y == Z(g(st)), x < Z(h(st)))))))
            return out
        C.inv(cands)
        C.measures = lambda E, Hd: [("rest", lambda s, f=f, g=g: (ae - Z(f(s))) + (be - Z(g(s)))) for n, f in Hd.pos for m, g in Hd.pos if n in Hd.raw and m in Hd.raw and n != m]
        C.post(lambda st, r: [("post: every pair with equal keys was reported", Imp(eq, Z(st.gh["seen"])))])


for v in ("_it", "", "_it_eq", "_eq"):
    @unit("C11", H, "equal_ranges_linear" + v, same="linear" + ("_eq" if v.endswith("_eq") else ""))
    def _(C, v=v):
        C.opaque_bytes = True
        a = C.view("a")
        C.args(a.base, a.n)
        if v.endswith("_eq"):  # a function of the user: reflexive and symmetric, but not necessarily transitive
            eq = lambda x, y: Or(x == y, SIM(z3.If(x < y, x, y), z3.If(x < y, y, x)))
        else:
            eq = lambda x, y: K(x) == K(y)
        C.extern("env_eq", lambda E, st, x: eq(*[Z(t) for t in loads(E, st, *x)]))
        end = a.base + a.n
        C.ghost("pos", a.base)
        M = C.E.mem(C.st, "m1")

        def one(st, lo, hi):
            return Forall(1, lambda i: Imp(z3.And(lo <= i, i < hi), eq(SEL(M, i), SEL(M, lo))), lambda i: SEL(M, i))

        def grp(E, st, v):
            lo, hi = Z(v[0]), Z(v[1])
            E.oblige(st, "callback: each group starts where the previous one ended", lo == Z(st.gh["pos"]))
            E.oblige(st, "callback: a group is non-empty and inside the sequence", z3.And(lo < hi, hi <= end))
            E.oblige(st, "callback: all elements of a group are equal to its first one", one(st, lo, hi))
            E.oblige(st, "callback: the element behind a group is not equal to its first one", Or(hi == end, z3.Not(eq(C.byte(st, hi), C.byte(st, lo)))))
            st.gh["pos"] = hi
        C.extern("cb_group", grp)

        def cands(E, Hd):
            ps, cs = positions(Hd)
            pos = ("pos", lambda st: st.gh["pos"])
            return ([(f"[{m},{n}) are equal", lambda st, f=f, g=g: one(st, Z(g(st)), Z(f(st)))) for n, f in ps for m, g in ps + cs + [pos] if n != m] +
                    [(f"[{m},{n}] are equal", lambda st, f=f, g=g: one(st, Z(g(st)), Z(f(st)) + 1)) for n, f in ps for m, g in ps + cs + [pos] if n != m])
        C.inv(cands)
        C.post(lambda st, r: [("post: the groups cover the whole sequence", Z(st.gh["pos"]) == end)])


@unit("C08", "seq", "op_name")
def _(C):
    """the operations are called add and del"""
    add = C.boolv("add")
    C.args(z3.If(add, z3.IntVal(1), z3.IntVal(0)))
    C.ghost("out", 0)

    def out(E, st, a):
        ok = isinstance(a[0], Loc) and isinstance(a[1], int)
        t = None
        if ok:
            o = st.objs[a[0].o]
            t = "".join(chr(c[1]) if (c := o.cells.get(a[0].f + i)) else "?" for i in range(a[1]))
        E.oblige(st, "callback: an addition is called add, a deletion del", z3.If(add, z3.BoolVal(t == "add"), z3.BoolVal(t == "del")))
        st.gh["out"] = st.gh["out"] + 1
    C.extern("out_text", out)
    C.post(lambda st, r: [("post: the name is delivered", z3.BoolVal(st.gh["out"] == 1))])
