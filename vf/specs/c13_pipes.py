"""C13: pipes deliver exactly the elements their definition says, in order, once."""
from ..spec import *
from ..vecmodel import vectors
from .. import llparse as L

H = "pipes"
I = z3.IntSort()
P1 = z3.Function("pred", I, z3.BoolSort())
P2 = z3.Function("pred2", I, z3.BoolSort())
F1 = z3.Function("map", I, I)
F2 = z3.Function("map2", I, I)
KEY = z3.Function("key", I, I)
B8 = lambda t: z3.And(t >= 0, t < 256)


def env(C):
    C.opaque_bytes = True
    for n, f in (("env_pred", P1), ("env_pred2", P2)):
        C.extern(n, lambda E, st, a, f=f: f(Z(a[0])))
    for n, f in (("env_map", F1), ("env_map2", F2)):
        C.extern(n, lambda E, st, a, f=f: f(Z(a[0])))
    C.extern("env_eq", lambda E, st, a: KEY(Z(E.load(st, a[0], L.IntTy(8)))) == KEY(Z(E.load(st, a[1], L.IntTy(8)))))


def source(C):
    env(C)
    a = C.view("a")
    C.args(a.base, a.n)
    return a


class Pipe:
    """meaning of a pipeline over a[0..n): which elements it delivers.
    keep(st, i): element at i passes all filters; stop(st, i): the first such i ends the delivery;
    val(st, i): delivered value; uniq: only elements that differ from the previously kept one"""

    def __init__(s, keep=None, stop=None, val=None, uniq=None, parts=()):
        s.parts = parts                                       # the single filters (invariant candidates)
        s.keep = keep if keep is not None else (lambda v: z3.BoolVal(True))
        s.stop = stop if stop is not None else (lambda v: z3.BoolVal(False))
        s.val = val if val is not None else (lambda v: v)
        s.uniq = uniq     # None | "before" (filters run on the deduplicated sequence) | "after" (dedupe of the filtered one)


def deliver(C, a, p, cb=("cb_ref", "cb_val"), extra=None):
    """automaton: pos = first element not yet passed over; last = the element kept last (for unique)"""
    M = C.E.mem(C.st, "m1")
    end = a.base + a.n
    C.ghost("pos", a.base)
    C.ghost("last", z3.IntVal(0))
    val = lambda i: SEL(M, i)

    def dup(i, last):
        """element i repeats the element the deduplication kept last (0: nothing kept yet)"""
        if p.uniq is None:
            return z3.BoolVal(False)
        if p.uniq == "before":
            return z3.And(i > a.base, KEY(p.val(val(i))) == KEY(p.val(val(i - 1))))
        return z3.And(last != 0, KEY(p.val(val(i))) == KEY(p.val(val(last))))

    def stop(i, last):
        return z3.And(p.stop(val(i)), z3.Not(dup(i, last))) if p.uniq == "before" else p.stop(val(i))

    def kept(i, last):
        return z3.And(p.keep(val(i)), z3.Not(dup(i, last)))

    def passed(lo, hi, last):
        """[lo, hi) delivers nothing and stops nothing"""
        f = lambda i: z3.And(Or(z3.Not(p.keep(val(i))), dup(i, last)), z3.Not(stop(i, last)))
        return Forall(1, lambda i: Imp(z3.And(lo <= i, i < hi), f(i)), lambda i: SEL(M, i))

    def step(E, st, q, pos, last):
        E.oblige(st, "callback: an element of the source that was not passed before is delivered", z3.And(pos <= q, q < end))
        E.oblige(st, "callback: only elements that the pipeline drops are passed over", passed(pos, q, last))
        E.oblige(st, "callback: the delivered element is not one the pipeline drops", z3.And(kept(q, last), z3.Not(stop(q, last))))
        st.gh["pos"] = q + 1
        st.gh["last"] = q

    # a delivered value: the position is the first kept one at or behind pos
    nxt = z3.Function("next_kept", I, I, I)

    def hv(E, st, v, pos, last):
        q = nxt(pos, last)
        st.assume(q >= pos, Or(q <= end, q == pos), passed(pos, q, last), Or(q >= end, stop(q, last), kept(q, last)),
                  Imp(Or(pos >= end, stop(pos, last), kept(pos, last)), q == pos))      # q: the first such position
        E.oblige(st, "callback: nothing is delivered behind the end of the pipeline", z3.And(q < end, z3.Not(stop(q, last))))
        E.oblige(st, "callback: the delivered value is that of the next element the pipeline keeps", Z(v[0]) == p.val(val(q)))
        st.gh["pos"] = q + 1
        st.gh["last"] = q

    def ref(E, st, v):
        step(E, st, Z(v[0]), Z(st.gh["pos"]), Z(st.gh["last"]))

    def by_value(E, st, v):
        hv(E, st, v, Z(st.gh["pos"]), Z(st.gh["last"]))
    C.extern("cb_ref", ref)
    C.extern("cb_val", by_value)

    def cands(E, Hd):
        out = []
        for n, f in Hd.pos:
            Pn = lambda st, f=f: Z(f(st))
            if "pos" in n:
                continue
            out.append((f"nothing delivered in [pos,{n})", lambda st, Pn=Pn: passed(Z(st.gh["pos"]), Pn(st), Z(st.gh["last"]))))
            out.append((f"nothing delivered in [pos,{n}]", lambda st, Pn=Pn: z3.And(Pn(st) < end, passed(Z(st.gh["pos"]), Pn(st) + 1, Z(st.gh["last"])))))
        out.append(("last is behind", lambda st: Or(Z(st.gh["last"]) == 0, z3.And(a.base <= Z(st.gh["last"]), Z(st.gh["last"]) < Z(st.gh["pos"])))))
        out.append(("last = pos-1", lambda st: Or(z3.And(Z(st.gh["last"]) == 0, Z(st.gh["pos"]) == a.base), Z(st.gh["last"]) == Z(st.gh["pos"]) - 1)))
        for n, f in Hd.ints + Hd.pos + [c[:2] for c in Hd.cells if c[2] == 1]:
            out.append((f"{n} holds the last kept value", lambda st, f=f: Or(Z(st.gh["last"]) == 0, Z(f(st)) == p.val(val(Z(st.gh["last"]))))))
            out.append((f"{n} holds the kept value", lambda st, f=f: z3.And(Z(st.gh["last"]) != 0, Z(f(st)) == p.val(val(Z(st.gh["last"]))))))
            if p.uniq:
                for m, g in Hd.pos:
                    inr = lambda st, g=g: z3.And(a.base <= Z(g(st)), Z(g(st)) < end, N(p.stop(val(Z(g(st))))))
                    wi = lambda st, g=g: z3.And(a.base <= Z(g(st)), Z(g(st)) < end)
                    pr = lambda st, g=g: z3.And(a.base < Z(g(st)), Z(g(st)) <= end)
                    out.append((f"{n} holds the value at {m} (unless stopped there)", lambda st, f=f, g=g, wi=wi: Imp(wi(st), Z(f(st)) == p.val(val(Z(g(st)))))))
                    out.append((f"{n} equals the value before {m}", lambda st, f=f, g=g, pr=pr: Imp(pr(st), KEY(Z(f(st))) == KEY(p.val(val(Z(g(st)) - 1))))))
                    out.append((f"{m} is no repetition", lambda st, g=g, wi=wi: Imp(wi(st), z3.Not(dup(Z(g(st)), Z(st.gh["last"]))))))
                    out.append((f"{n} holds the value at {m}", lambda st, f=f, g=g, inr=inr: Imp(inr(st), Z(f(st)) == p.val(val(Z(g(st)))))))
        for part in p.parts:
            for n, f in Hd.pos:
                out.append((f"{n} at the end or passes a filter", lambda st, f=f, part=part: Or(Z(f(st)) >= end, part(val(Z(f(st)))))))
        for n, f in Hd.pos:
            Q = lambda st, f=f: Z(f(st))
            ok = lambda st, Q=Q: kept(Q(st), Z(st.gh["last"]))
            out.append((f"{n} at the end or kept", lambda st, Q=Q, ok=ok: Or(Q(st) >= end, ok(st))))
            out.append((f"{n} at the end or kept or stop", lambda st, Q=Q, ok=ok: Or(Q(st) >= end, stop(Q(st), Z(st.gh["last"])), ok(st))))
        return out
    C.inv(cands)
    return M, end, passed, stop


def done(C, a, p, M, end, passed, stop):
    q = z3.Int("end_of_delivery")

    def post(st, r):
        pos, last = Z(st.gh["pos"]), Z(st.gh["last"])
        # q: first stopping position at or behind pos, or the end (exists for every sequence)
        return [("post: everything the pipeline keeps was delivered",
                 Imp(z3.And(q >= pos, q <= end, Forall(1, lambda i: Imp(z3.And(pos <= i, i < q), z3.Not(stop(i, last))), lambda i: SEL(M, i)), Or(q == end, stop(q, last))),
                     passed(pos, q, last)))]
    C.post(post)


def pipeline(name, p, **kw):
    @unit("C13", H, name, **kw)
    def _(C):
        a = source(C)
        C.require(a.base > 0)
        done(C, a, p, *deliver(C, a, p))


N = z3.Not
pipeline("all", Pipe())
pipeline("all_it", Pipe())
pipeline("all_owned", Pipe())
pipeline("all_by_value", Pipe())
pipeline("owned_by_value", Pipe(keep=lambda v: N(P1(v))))
pipeline("transform", Pipe(val=F1))
pipeline("remove_if", Pipe(keep=lambda v: N(P1(v))))
pipeline("take_while", Pipe(stop=lambda v: N(P1(v))))
pipeline("unique", Pipe(uniq="before"))
pipeline("transform2", Pipe(val=lambda v: F2(F1(v))))
pipeline("transform_remove_if", Pipe(keep=lambda v: N(P1(F1(v))), val=F1))
pipeline("remove_if_transform", Pipe(keep=lambda v: N(P1(v)), val=F1))
pipeline("remove_if2", Pipe(keep=lambda v: z3.And(N(P1(v)), N(P2(v))), parts=(lambda v: N(P1(v)), lambda v: N(P2(v)))))
pipeline("take_while_remove_if", Pipe(keep=lambda v: N(P2(v)), stop=lambda v: N(P1(v))))
pipeline("remove_if_take_while", Pipe(keep=lambda v: N(P1(v)), stop=lambda v: z3.And(N(P1(v)), N(P2(v)))))
pipeline("take_while2", Pipe(stop=lambda v: Or(N(P1(v)), N(P2(v)))))
pipeline("transform_take_while", Pipe(stop=lambda v: N(P1(F1(v))), val=F1))
pipeline("transform_unique", Pipe(val=F1, uniq="before"))
pipeline("unique_remove_if", Pipe(keep=lambda v: N(P1(v)), uniq="before", parts=(lambda v: N(P1(v)),)))
pipeline("unique_take_while", Pipe(stop=lambda v: N(P1(v)), uniq="before"))
pipeline("remove_if_unique", Pipe(keep=lambda v: N(P1(v)), uniq="after", parts=(lambda v: N(P1(v)),)))
pipeline("take_while_unique", Pipe(stop=lambda v: N(P1(v)), uniq="after"))
pipeline("named_twice", Pipe(keep=lambda v: N(P1(v)), stop=lambda v: z3.And(N(P1(v)), N(P2(v)))))
pipeline("iterable", Pipe())
pipeline("transform_iterable", Pipe(val=F1))
pipeline("remove_if_iterable", Pipe(keep=lambda v: N(P1(v))))
for n in ("to", "emplace_back_to", "emplace_back", "insert", "emplace", "insert_direct", "emplace_direct", "insert_owned", "insert_pointer"):
    pipeline(n, Pipe())
pipeline("remove_if_insert", Pipe(keep=lambda v: N(P1(v))))


# ---------------------------------------------------------------- numbers and generated elements
def counting(name, w, signed, cond=None, pre=None):
    @unit("C13", H, name)
    def _(C):
        """delivers from, from+1, ..., to-1 (those the filter keeps)"""
        C.extern("env_pred", lambda E, st, a: P1(Z(a[0])))
        f, t = z3.Int("from"), z3.Int("to")
        lo, hi = (-(1 << (w[0] - 1)), 1 << (w[0] - 1)) if signed else (0, 1 << w[0])
        lo2, hi2 = (-(1 << (w[1] - 1)), 1 << (w[1] - 1)) if signed else (0, 1 << w[1])
        C.require(f >= lo, f < hi, t >= lo2, t < hi2, t < hi)
        C.param("from", f), C.param("to", t)
        C.args(z3.If(f < 0, f + (1 << w[0]), f), z3.If(t < 0, t + (1 << w[1]), t))
        C.ghost("next", f)
        drop = lambda v: z3.BoolVal(False) if cond is None else cond(v)
        gone = lambda lo, hi: Forall(1, lambda v: Imp(z3.And(lo <= v, v < hi), drop(v)), lambda v: P1(v % 256))

        def cb(E, st, a):
            v = Z(a[0])
            v = z3.If(v >= 1 << 63, v - (1 << 64), v) if signed or w[0] < 64 else v
            n = Z(st.gh["next"])
            if cond is None:
                E.oblige(st, "callback: the numbers are delivered in order without gap", v == n)
            else:
                E.oblige(st, "callback: the numbers are delivered in order", v >= n)
                E.oblige(st, "callback: only numbers the filter drops are passed over", gone(n, v))
                E.oblige(st, "callback: a delivered number is kept by the filter", z3.Not(drop(v)))
            E.oblige(st, "callback: only numbers below the bound are delivered", v < t)
            st.gh["next"] = v + 1
        C.extern("cb_num", cb)

        def cands(E, Hd):
            out = []
            for n, g in Hd.pos + Hd.ints:
                sg = (lambda x: z3.If(x >= 1 << (w[0] - 1), x - (1 << w[0]), x)) if signed else (lambda x: x)
                out.append((f"{n} is next", lambda st, g=g: sg(Z(g(st))) == Z(st.gh["next"])))
                out.append((f"{n} <= bound", lambda st, g=g: Or(sg(Z(g(st))) <= t, sg(Z(g(st))) == f)))
                if cond is not None:
                    out.append((f"dropped below {n}", lambda st, g=g: gone(Z(st.gh["next"]), Z(g(st)))))
                    out.append((f"dropped up to {n}", lambda st, g=g: z3.And(Z(g(st)) < t, gone(Z(st.gh["next"]), Z(g(st)) + 1))))
                    out.append((f"next <= {n} + 1", lambda st, g=g: Z(st.gh["next"]) <= Z(g(st)) + 1))
                    out.append((f"next <= {n}", lambda st, g=g: Z(st.gh["next"]) <= Z(g(st))))
                    out.append((f"{n} kept", lambda st, g=g: Or(Z(g(st)) >= t, z3.Not(drop(Z(g(st)))))))
            return out
        C.inv(cands)
        if cond is None:
            C.post(lambda st, r: [("post: all numbers up to the bound were delivered", Z(st.gh["next"]) == z3.If(f < t, t, f))])
        else:
            C.post(lambda st, r: [("post: all numbers up to the bound that the filter keeps were delivered", gone(Z(st.gh["next"]), t))])


counting("iota_int", (32, 32), True)
counting("iota_unsigned", (32, 32), False)
counting("iota_size", (64, 64), False)
counting("iota_mixed", (8, 64), False)
counting("iota_remove_if", (32, 32), False, cond=lambda v: P1(v % 256))


def generated(name, val):
    @unit("C13", H, name)
    def _(C):
        """the generator is called once per element, up to the first element that stops the delivery"""
        C.opaque_bytes = True
        G = z3.Function("generated", I, I)
        K = C.sym("elements before the first stopping one")        # (otherwise the delivery never ends)
        C.require(z3.Not(P1(val(G(K)))))
        C.extern("env_pred", lambda E, st, a: P1(Z(a[0])))
        C.extern("env_map", lambda E, st, a: F1(Z(a[0])))
        C.ghost("calls", z3.IntVal(0))
        C.ghost("delivered", z3.IntVal(0))

        def gen(E, st, a):
            k, d = Z(st.gh["calls"]), Z(st.gh["delivered"])
            E.oblige(st, "callback: the generator is asked again only after the previous element was delivered", d == k)
            st.gh["calls"] = k + 1
            return G(k)

        def cb(E, st, a):
            k, d = Z(st.gh["calls"]), Z(st.gh["delivered"])
            E.oblige(st, "callback: an element is delivered once, when it was generated", k == d + 1)
            E.oblige(st, "callback: the delivered element is the generated one", Z(a[0]) == val(G(d)))
            E.oblige(st, "callback: a stopping element is not delivered", P1(val(G(d))))
            st.gh["delivered"] = d + 1
        C.extern("env_gen", gen)
        C.extern("cb_val", cb)

        def cands(E, Hd):
            out = [("one undelivered", lambda st: Z(st.gh["calls"]) == Z(st.gh["delivered"]) + 1), ("delivered >= 0", lambda st: Z(st.gh["delivered"]) >= 0), ("none stopped so far", lambda st: Z(st.gh["delivered"]) <= K)]
            for n, g in Hd.pos + Hd.ints:
                out.append((f"{n} is the generated element", lambda st, g=g: Z(g(st)) == G(Z(st.gh["delivered"]))))
            return out
        C.inv(cands)
        C.measures = lambda E, Hd: [("elements left", lambda st: K - Z(st.gh["delivered"])), ("elements left to generate", lambda st: K + 1 - Z(st.gh["calls"]))]
        C.post(lambda st, r: [("post: the delivery ends at the first stopping element",
                               z3.And(Z(st.gh["calls"]) == Z(st.gh["delivered"]) + 1, z3.Not(P1(val(G(Z(st.gh["delivered"])))))))])


generated("generate", lambda v: v)
generated("generate_transform", F1)


# ---------------------------------------------------------------- folding sinks
def fold(name, init, stepf, result=lambda r: r, w=1, stop=None, read=lambda t: t, facts=None, extra_args=None, keep=None):
    """spec function R: R(a) = init, R(i+w) = stepf(R(i), element at i); the result is R(end of the delivery)"""
    @unit("C13", H, name)
    def _(C):
        env(C)
        C.opaque_bytes = w == 1 and facts is None
        C.scaled = w > 1
        a = C.region("a", w)
        C.args(a.base, a.n, *(extra_args(C) if extra_args else []))
        M = C.E.mem(C.st, f"m{w}")
        R = z3.Function("R", I, I)
        end = a.base + a.n * w
        i0 = init(C)
        C.require(R(a.base) == i0, a.base > 0)
        inr = lambda i: z3.And(a.base <= i, i < end) if w == 1 else z3.And(a.base <= i, i < end, (i - a.base) % w == 0)
        C.require(Forall(1, lambda i: Imp(inr(i), R(i + w) == stepf(R(i), read(SEL(M, i)))), lambda i: SEL(M, i)))
        for f in (facts(C, a, R, end, M) if facts else []):
            C.require(f)
        C.extern("env_fold", lambda E, st, v: z3.Function("fold", I, I, I)(Z(v[0]), Z(v[1])))
        nostop = lambda hi: Forall(1, lambda i: Imp(z3.And(a.base <= i, i < hi), z3.Not(stop(SEL(M, i)))), lambda i: SEL(M, i))
        q = end
        if stop:
            q = z3.Int("end_of_delivery")
            C.require(a.base <= q, q <= end, nostop(q), Or(q == end, stop(SEL(M, q))))

        def cands(E, Hd):
            out = []
            for m, g in Hd.pos:
                if w > 1:
                    out.append((f"{m} aligned", lambda st, g=g: (Z(g(st)) - a.base) % w == 0))
                out.append((f"R({m}) as at loop entry", lambda st, g=g: R(Z(g(st))) == R(Z(g(Hd.entry)))))
                if keep is not None:
                    nb = lambda st, g=g: Z(g(st)) < end        # (this element is done with)
                    out.append((f"R behind {m} as at loop entry", lambda st, g=g, nb=nb: z3.And(nb(st), R(Z(g(st)) + w) == R(Z(g(Hd.entry)) + w))))
                    out += [(f"{n} = R behind {m}", lambda st, f=f, g=g, nb=nb: z3.And(nb(st), result(Z(f(st))) == R(Z(g(st)) + w))) for n, f in Hd.ints + Hd.pos if n != m]
                    if stop:
                        out.append((f"no stop up to {m}", lambda st, g=g, nb=nb: z3.And(nb(st), nostop(Z(g(st)) + w))))
                    out.append((f"{m} at the end or kept", lambda st, g=g: Or(Z(g(st)) >= end, keep(SEL(M, Z(g(st)))))))
                if stop:
                    out.append((f"no stop before {m}", lambda st, g=g: nostop(Z(g(st)))))
                for n, f in Hd.ints + Hd.pos:
                    if n != m:
                        out.append((f"{n} = R({m})", lambda st, f=f, g=g: result(Z(f(st))) == R(Z(g(st)))))
            return out
        C.inv(cands)
        C.post(lambda st, r: [("post: the result is the specified fold over the delivered elements", result(Z(r)) == R(q))])


CNT = lambda keep: (lambda x, v: x + z3.If(keep(v), z3.IntVal(1), z3.IntVal(0)))
cntb = lambda C, a, R, end, M: [Forall(1, lambda i: Imp(z3.And(a.base <= i, i <= end), z3.And(R(i) >= 0, R(i) <= i - a.base)), lambda i: R(i))]
zero = lambda C: z3.IntVal(0)
for n in ("count", "count_direct", "count_owned"):
    fold(n, zero, CNT(P1), facts=cntb)
fold("count_remove_if", zero, CNT(lambda v: z3.And(P1(v), N(P2(v)))), facts=cntb, keep=lambda v: N(P2(v)))
fold("count_take_while", zero, CNT(P1), facts=cntb, stop=lambda v: N(P2(v)))
sumb = lambda C, a, R, end, M: [a.n < (1 << 50), Forall(1, lambda i: B8(SEL(M, i)), lambda i: SEL(M, i)),
                                Forall(1, lambda i: Imp(z3.And(a.base <= i, i <= end), z3.And(R(i) >= 0, R(i) <= 255 * (i - a.base))), lambda i: R(i))]
sum64 = lambda C, a, R, end, M: [R(end) < (1 << 64), Forall(1, lambda i: z3.And(SEL(M, i) >= 0, SEL(M, i) < (1 << 64)), lambda i: SEL(M, i)),
                                 Forall(1, lambda i: Imp(z3.And(a.base <= i, i <= end), z3.And(R(i) >= 0, R(i) <= R(end))), lambda i: R(i))]
fold("sum", zero, lambda x, v: x + v, facts=sumb)
fold("sum_u64", zero, lambda x, v: x + v, w=8, facts=sum64)
FOLD = z3.Function("fold", I, I, I)
for n in ("accumulate", "accumulate_direct"):
    fold(n, lambda C: C.regs["init"], FOLD, extra_args=lambda C: [C.regs.setdefault("init", C.sym("init"))])


# find
def finding(name, keep, val):
    @unit("C13", H, name)
    def _(C):
        """the first delivered element the predicate accepts, or nothing"""
        a = source(C)
        C.opaque_bytes = False
        C.bytes_typed()
        C.require(a.base > 0, Forall(1, lambda x: B8(F1(x)), lambda x: F1(x)))
        M = C.E.mem(C.st, "m1")
        end = a.base + a.n
        hit = lambda i: z3.And(keep(SEL(M, i)), P1(val(SEL(M, i))))
        none = lambda hi: Forall(1, lambda i: Imp(z3.And(a.base <= i, i < hi), z3.Not(hit(i))), lambda i: SEL(M, i))
        q = z3.Int("first_hit")
        C.require(a.base <= q, q <= end, none(q), Or(q == end, hit(q)))
        C.ghost("calls", 0)

        def out(E, st, v):
            st.gh["calls"] = st.gh["calls"] + 1
            has = v[0] if z3.is_expr(v[0]) and z3.is_bool(v[0]) else Z(v[0]) != 0
            E.oblige(st, "callback: an element is found exactly if the sequence has a matching one", has == (q < end))
            E.oblige(st, "callback: the first matching element is found", Imp(has, Z(v[1]) == val(SEL(M, q))))
        C.extern("out_opt", out)
        C.inv(lambda E, Hd: [(f"no hit before {n}", lambda st, f=f: none(Z(f(st)))) for n, f in Hd.pos]
              + [(f"no hit up to {n}", lambda st, f=f: z3.And(Z(f(st)) < end, none(Z(f(st)) + 1))) for n, f in Hd.pos]
              + [(f"{n} kept", lambda st, f=f: Or(Z(f(st)) >= end, keep(SEL(M, Z(f(st)))))) for n, f in Hd.pos])
        C.post(lambda st, r: [("post: one answer", z3.BoolVal(st.gh["calls"] == 1))])


finding("find", lambda v: z3.BoolVal(True), lambda v: v)
finding("find_direct", lambda v: z3.BoolVal(True), lambda v: v)
finding("find_transform", lambda v: z3.BoolVal(True), F1)
finding("find_remove_if", lambda v: N(P2(v)), lambda v: v)


@unit("C13", H, "max")
def _(C):
    """the greatest of the start value and all elements (returned as double)"""
    a = C.region("a", 4)
    C.scaled = True
    pat, init = C.sint("init", 32)
    C.args(a.base, a.n, pat)
    M = C.E.mem(C.st, "m4")
    sg = lambda x: z3.If(x >= 1 << 31, x - (1 << 32), x)
    C.require(Forall(1, lambda i: z3.And(SEL(M, i) >= 0, SEL(M, i) < (1 << 32)), lambda i: SEL(M, i)))
    end = a.base + 4 * a.n
    mx = z3.Int("greatest")
    wit = z3.Int("where")
    inr = lambda i, e: z3.And(a.base <= i, i < e, (i - a.base) % 4 == 0)
    C.require(mx >= init, Forall(1, lambda i: Imp(inr(i, end), sg(SEL(M, i)) <= mx), lambda i: SEL(M, i)),
              Or(mx == init, z3.And(inr(wit, end), mx == sg(SEL(M, wit)))))

    def cands(E, Hd):
        out = []
        for m, g in Hd.pos:
            out.append((f"{m} aligned", lambda st, g=g: (Z(g(st)) - a.base) % 4 == 0))
            for n, f in Hd.ints + Hd.pos:
                if n == m:
                    continue
                v = lambda st, f=f: sg(Z(f(st)))
                out.append((f"{n} bounded", lambda st, v=v: z3.And(init <= v(st), v(st) <= mx)))
                out.append((f"{n} bounds all before {m}", lambda st, v=v, g=g: Forall(1, lambda i: Imp(inr(i, Z(g(st))), sg(SEL(M, i)) <= v(st)), lambda i: SEL(M, i))))
        return out
    C.inv(cands)
    conv = z3.Function("int2double", I, C.E.fsort(L.F64))
    C.post(lambda st, r: [("post: the result is the greatest value", r == conv(mx))])


@unit("C13", H, "avg")
def _(C):
    """the sum of the elements divided by their number"""
    a = C.view("a")
    C.args(a.base, a.n)
    M = C.E.mem(C.st, "m1")
    R = z3.Function("R", I, I)
    end = a.base + a.n
    C.require(a.n > 0, R(a.base) == 0, Forall(1, lambda i: Imp(z3.And(a.base <= i, i < end), R(i + 1) == R(i) + SEL(M, i)), lambda i: SEL(M, i)))
    for f in sumb(C, a, R, end, M):
        C.require(f)
    C.inv(lambda E, Hd: [(f"{n} = R({m})", lambda st, f=f, g=g: Z(f(st)) == R(Z(g(st)))) for m, g in Hd.pos for n, f in Hd.ints + Hd.pos if n != m]
          + [(f"{n} counts up to {m}", lambda st, f=f, g=g: Z(f(st)) == Z(g(st)) - a.base) for m, g in Hd.pos for n, f in Hd.ints + Hd.pos if n != m])
    D = C.E.fsort(L.F64)
    conv = z3.Function("int2double", I, D)
    div = z3.Function("fdiv64", D, D, D)
    C.post(lambda st, r: [("post: the result is the sum divided by the number", r == div(conv(R(end)), conv(a.n)))])


def collecting(name, keep=None, val=None, prop="C13", H=H, source=source):
    """vec(): the vector holds exactly the kept elements, in order"""
    everything = keep is None
    keep = keep if keep is not None else (lambda v: z3.BoolVal(True))
    val = val if val is not None else (lambda v: v)

    @unit(prop, H, name)
    def _(C):
        a = source(C)
        C.require(a.base > 0)
        C.derive = False
        (b,) = vectors(C, "el", 1)
        M0 = C.E.mem(C.st, "m1")
        end = a.base + a.n
        K = z3.Function("kept_before", I, I)       # number of kept elements in [a, i)
        C.require(K(a.base) == 0, Forall(1, lambda i: Imp(z3.And(a.base <= i, i < end), K(i + 1) == K(i) + z3.If(keep(SEL(M0, i)), z3.IntVal(1), z3.IntVal(0))), lambda i: SEL(M0, i)),
                  Forall(1, lambda i: Imp(z3.And(a.base <= i, i <= end), z3.And(K(i) >= 0, K(i) <= i - a.base, K(i) <= K(end))), lambda i: K(i)), b.n >= K(end))
        at = z3.Function("kept_at", I, I)          # the position of the k-th kept element
        C.require(Forall(1, lambda i: Imp(z3.And(a.base <= i, i < end, keep(SEL(M0, i))), at(K(i)) == i), lambda i: SEL(M0, i)))
        if everything:
            C.require(Forall(1, lambda i: Imp(z3.And(a.base <= i, i <= end), K(i) == i - a.base), lambda i: K(i)), Forall(1, lambda j: Imp(z3.And(0 <= j, j < a.n), at(j) == a.base + j), lambda j: at(j)), K(end) == a.n)
        C.ghost("seen", z3.IntVal(0))
        C.ghost("sizes", 0)

        def cb(E, st, v):
            k = Z(st.gh["seen"])
            E.oblige(st, "callback: the vector holds the kept elements in order", z3.And(k < K(end), Z(v[0]) == val(SEL(M0, at(k)))))
            st.gh["seen"] = k + 1

        def size(E, st, v):
            st.gh["sizes"] = st.gh["sizes"] + 1
            E.oblige(st, "callback: the size is the number of kept elements", Z(v[0]) == K(end))
        C.extern("cb_val", cb)
        C.extern("out_n", size)

        def holds(st, c):
            Mn = C.E.mem(st, "m1")
            return Forall(1, lambda j: Imp(z3.And(0 <= j, j < c), SEL(Mn, b.base + j) == val(SEL(M0, at(j)))), lambda j: at(j))

        def cands(E, Hd):
            out = []
            for n, f in Hd.pos + Hd.ints + [c[:2] for c in Hd.cells if c[2] == 8]:
                v = lambda st, f=f: Z(f(st))
                out.append((f"vector filled to {n}", lambda st, v=v: holds(st, v(st) - b.base)))
                out.append((f"{n} = seen", lambda st, v=v: v(st) == b.base + Z(st.gh["seen"])))
                out.append((f"{n} at the end or kept", lambda st, v=v: Or(v(st) >= end, keep(SEL(M0, v(st))))))
                if n in {m for m, _ in Hd.pos}:
                    out.append((f"kept before {n} as at loop entry", lambda st, f=f: K(Z(f(st))) == K(Z(f(Hd.entry)))))
                    if not everything:
                        out.append((f"kept up to {n} as at loop entry", lambda st, f=f: z3.And(Z(f(st)) < end, K(Z(f(st)) + 1) == K(Z(f(Hd.entry)) + 1))))
                for m, g in Hd.pos:
                    if m != n:
                        if not everything:
                            out.append((f"{n} = kept up to {m}", lambda st, v=v, g=g: z3.And(Z(g(st)) < end, v(st) == b.base + K(Z(g(st)) + 1))))
                        out.append((f"{n} = kept before {m}", lambda st, v=v, g=g: v(st) == b.base + K(Z(g(st)))))
            Mk = lambda st: C.E.mem(st, "m1")
            out.append(("source unchanged", lambda st: Forall(1, lambda i: Imp(z3.And(a.base <= i, i < end), SEL(Mk(st), i) == SEL(M0, i)), lambda i: SEL(Mk(st), i))))
            return out
        C.inv(cands)
        C.post(lambda st, r: [("post: all kept elements are in the vector", z3.And(Z(st.gh["seen"]) == K(end), z3.BoolVal(st.gh["sizes"] == 1)))])


collecting("vec")
collecting("transform_vec", val=F1)
collecting("remove_if_vec", keep=lambda v: N(P1(v)))
