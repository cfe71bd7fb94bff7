"""C25: has_bit_set tells if the bit is set; for_each_set_bit hands over every set bit once, in ascending order."""
from ..spec import *

H = "bits"
I = z3.IntSort()


def num(C, n, w):
    v = z3.Int(n)
    C.require(v >= 0, v < (1 << w))
    return v


def sext(v, w, w2):
    return v if w2 <= w else z3.If(v < (1 << (w - 1)), v, v + (1 << w2) - (1 << w))


class Bits:
    """ghost: bit(k) of the value, next(k) = the smallest set bit not below k, or the width"""

    def __init__(s, C, w, signed):
        s.C, s.W, s.getters, s.powers, s.seen = C, w, [], [], []
        s.v = num(C, "value", w)
        s.signed = signed
        s.BIT, s.NEXT = z3.Function("bit", I, z3.BoolSort()), z3.Function("next set bit from", I, I)
        s.P2 = z3.Function("2^", I, I)
        s.X, s.M = z3.Function("value >>", I, I), z3.Function("value without bits below", I, I)
        C.bit_hook = s.hook
        C.require(s.X(0) == s.v, s.M(0) == s.v, *s.facts(0))
        C.E.assumed.add("shifts, bitwise and, trailing-zero and population counts of the value: their definition over its bits (ghost bit function)")

    def facts(s, k):
        k, W, N, B = Z(k), s.W, s.NEXT, s.BIT
        ok = z3.And(k >= 0, k <= W)
        n = N(k)
        return [N(W) == W,
                Imp(ok, z3.And(n >= k, n <= W, Imp(k < W, B(k) == (n == k)), Imp(z3.And(k < W, z3.Not(B(k))), N(k + 1) == n), Imp(n < W, z3.And(B(n), N(n) == n)),
                               s.X(k) >= 0, s.X(k) <= s.v, (s.X(k) == 0) == (n == W), Imp(k < W, z3.And((s.X(k) % 2 == 1) == B(k), s.X(k) / 2 == s.X(k + 1), (s.X(k + 1) == 0) == (N(k + 1) == W))),
                               s.M(k) >= 0, s.M(k) <= s.v, (s.M(k) == 0) == (n == W), s.M(n) == s.M(k), Imp(n < W, z3.And(s.P2(n) >= 1, s.P2(n) <= s.M(k), s.M(k) - s.P2(n) == s.M(n + 1)))))]

    def given(s, st, a, b, c):
        st.assume(*s.facts(a), *s.facts(b))
        return c

    def known(s, st):
        out = [z3.IntVal(0)] + ([Z(st.gh["next"])] if "next" in st.gh else [])
        for g in s.getters:
            try:
                out.append(Z(g(st)))
            except Exception:
                pass
        s.seen = (s.seen + [k for k in out if all(not k.eq(x) for x in s.seen)])[-8:]
        seen, r = set(), []
        for k in out + s.seen:
            k = z3.simplify(k)
            if k.get_id() not in seen and k.sort() == I:
                seen.add(k.get_id())
                r.append(k)
        return r

    def isv(s, a, w):
        return z3.Or(Z(a) == s.v, Z(a) == s.sext(w))

    def sext(s, w):
        return sext(s.v, s.W, w) if s.signed else s.v

    def hook(s, E, st, op, a, b, w):
        K = s.known(st)
        if op in ("shl", "lshr", "ashr") and not isinstance(b, int):
            E.oblige(st, "arithmetic: shift amount below width", Z(b) < w)
        if op == "shl" and a == 1 and isinstance(a, int):
            p = s.P2(Z(b))
            st.assume(p >= 1, p < (1 << w), Imp(Z(b) < s.W, p < (1 << s.W)), (p >= (1 << (s.W - 1))) == (Z(b) >= s.W - 1))
            if all(not p.eq(q) for q in s.powers):
                s.powers.append(p)
            return p
        r = None
        if op in ("lshr", "ashr"):
            if isinstance(a, int) or (isinstance(b, int) and op == "ashr" and b >= s.W):
                return None
            if isinstance(b, int) and op == "lshr":
                r = Z(a) / (1 << b)
            else:
                r = E.fresh("shifted")
                st.assume(r >= 0, r < (1 << w))
                if op == "lshr":
                    st.assume(r <= Z(a))
            b = Z(b)
            st.assume(*s.facts(b))
            st.assume(Imp(z3.And(s.isv(a, w), b < s.W), (r % 2 == 1) == s.BIT(b)))
            st.assume(Imp(z3.And(Z(a) == s.v, b <= s.W, z3.BoolVal(True) if op == "lshr" else s.v < (1 << (w - 1))), r == s.X(b)))
            for k in K:
                c = z3.And(Z(a) == s.X(k), k >= 0, k + b <= s.W)
                st.assume(*s.facts(k), *s.facts(k + b), Imp(z3.And(c, z3.BoolVal(True) if op == "lshr" else Z(a) < (1 << (w - 1))), r == s.X(k + b)))
            return r
        if op in ("and", "xor") and not isinstance(a, int) and not isinstance(b, int):
            a, b = Z(a), Z(b)
            r = E.fresh(op)
            st.assume(r >= 0, r < (1 << w))
            for x, y in ((a, b), (b, a)):
                for p in s.powers if op == "and" else ():
                    k = p.arg(0)
                    st.assume(*s.facts(k))
                    c = z3.And(k >= 0, k < s.W)
                    st.assume(Imp(z3.And(c, s.isv(x, w), y == p), r == z3.If(s.BIT(k), p, z3.IntVal(0))))
                    st.assume(Imp(z3.And(c, Z(x) == s.sext(w), y == sext(p, s.W, w)), r == z3.If(s.BIT(k), y, z3.IntVal(0))))
                    st.assume(Imp(z3.And(c, Z(x) == s.v, y == sext(p, s.W, w)), r == z3.If(s.BIT(k), p, z3.IntVal(0))))
                for k in K:
                    n = s.NEXT(k)
                    st.assume(*s.facts(k), *s.facts(n))
                    low = z3.And(x == s.M(k), k >= 0, k <= s.W, n < s.W)
                    if op == "and":
                        st.assume(Imp(z3.And(low, y == x - 1), r == s.M(n + 1)), Imp(z3.And(low, y == (1 << w) - x), r == s.P2(n)), Imp(z3.And(low, y == (1 << w) - 1 - s.P2(n)), r == s.M(n + 1)), *s.facts(n + 1))
                    else:
                        st.assume(Imp(z3.And(low, y == s.P2(n)), r == s.M(n + 1)), *s.facts(n + 1))
            if op == "and":
                st.assume(r <= a, r <= b)
            return r
        if op == "cttz":
            r = E.fresh("cttz")
            st.assume(r >= 0, r <= w)
            for k in K:
                st.assume(*s.facts(k), *s.facts(s.NEXT(k)), Imp(z3.And(Z(a) == s.M(k), k >= 0, k <= s.W, Z(a) != 0), r == s.NEXT(k)), Imp(z3.And(Z(a) == s.X(k), k >= 0, k <= s.W, Z(a) != 0), r == s.NEXT(k) - k))
                st.assume(Imp(z3.And(z3.Or(Z(a) == 0)), r == w))
            return r
        return None

    def cands(s, E, H):
        out = []
        s.getters = [g for n, g in H.ints if not n.startswith("cell")]
        idx = [(n, g) for n, g in H.ints] + [("next", lambda st: st.gh["next"])]

        def ok(g):
            return lambda st: z3.And(Z(g(st)) >= 0, Z(g(st)) <= s.W)
        for n, g in idx:
            out.append((f"{n} is a bit or the width", ok(g)))
            out.append((f"no set bit between the next and {n}", lambda st, g=g: s.given(st, g(st), st.gh["next"], z3.And(Z(g(st)) >= 0, Z(g(st)) <= s.W, s.NEXT(Z(st.gh["next"])) == s.NEXT(Z(g(st)))))))
            for m, h in {m: h for m, h in H.ints + H.pos if m != n}.items():
                if not m.startswith("ghost"):
                    out.append((f"{m} is the value shifted by {n}", lambda st, g=g, h=h: s.given(st, g(st), st.gh["next"], z3.And(Z(g(st)) >= 0, Z(g(st)) <= s.W, Z(h(st)) == s.X(Z(g(st)))))))
                    out.append((f"{m} is the value without the bits below {n}", lambda st, g=g, h=h: s.given(st, g(st), st.gh["next"], z3.And(Z(g(st)) >= 0, Z(g(st)) <= s.W, Z(h(st)) == s.M(Z(g(st)))))))
        return out


for T, w, sg in (("u8", 8, 0), ("u16", 16, 0), ("u32", 32, 0), ("u64", 64, 0), ("i8", 8, 1), ("i32", 32, 1), ("i64", 64, 1)):
    @unit("C25", H, "has_" + T, name="has_bit_set " + T)
    def has(C, w=w, sg=sg):
        """whether a bit below the width is set"""
        s = Bits(C, w, sg)
        b = num(C, "bit", 32)
        C.require(b < w, *s.facts(b))
        C.args(s.v, b)
        C.post(lambda st, r: [("post: the result tells if the bit is set", r == s.BIT(b) if z3.is_bool(r) else Z(r) == z3.If(s.BIT(b), z3.IntVal(1), z3.IntVal(0)))])

    @unit("C25", H, "each_" + T, name="for_each_set_bit " + T)
    def each(C, w=w, sg=sg):
        """all set bits, each once, in ascending order"""
        s = Bits(C, w, sg)
        C.args(s.v)
        C.ghost("next", z3.IntVal(0))

        def cb(E, st, a):
            n = Z(st.gh["next"])
            b = Z(a[0])
            s.known(st)
            st.assume(*s.facts(n), *s.facts(b), *s.facts(b + 1))
            E.oblige(st, "callback: it is given the next set bit", z3.And(b == s.NEXT(n), b < w))
            st.gh["next"] = z3.simplify(b + 1)
        C.extern("cb_bit", cb)
        C.inv(s.cands)
        C.measures = lambda E, Hd: [("bits left", lambda st: w - Z(st.gh["next"]))] + [(f"{w} - {n}", lambda st, g=g: w - Z(g(st))) for n, g in Hd.ints]
        C.post(lambda st, r: [("post: every set bit has been handed over", s.given(st, 0, st.gh["next"], s.NEXT(Z(st.gh["next"])) == w))])
