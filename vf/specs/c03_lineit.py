"""C03: line iterators: +=, + and post-increment are repeated increments (the increment itself: contract `lines`)."""
from ..spec import *

H = "lineit"
I = z3.IntSort()


class It:
    def __init__(s, C):
        s.C = C
        s.F = [z3.Function(f"field{k} after", I, I) for k in range(4)]
        s.t = z3.IntVal(0)
        s.o = C.object("it", 32, **{f"o{8 * k}_8": s.F[k](s.t) for k in range(4)})
        s.n = 1
        s.INV = z3.Function("increments of", I, I)      # the first field tells the state
        C.require(*s.facts(s.t))
        C.regex(r"utl::line_iterator::operator\+\+\(\)$", s.inc)
        C.ghost("out", None)
        C.extern("out_it", s.out)
        C.inv(s.cands)
        C.E.assumed.add("pre-increment of a line iterator: its contract (verified as C03 lines)")

    def facts(s, t):
        t = Z(t)
        return [s.INV(s.F[0](t)) == t] + [z3.And(s.F[k](t) >= 0, s.F[k](t) < (1 << 62)) for k in range(4)]

    def cells(s, st, p):
        if not isinstance(p, Loc) or not isinstance(p.f, int):
            raise Unsupported("line iterator elsewhere")
        r = []
        for k in range(4):
            c = st.objs[p.o].cells.get(p.f + 8 * k)
            r.append(c[1] if c and c[0] == 8 else None)
        return r

    def state(s, st, p):
        c = s.cells(st, p)
        if any(x is None for x in c):
            return None, z3.BoolVal(False)
        t = s.INV(Z(c[0]))
        return t, z3.And(*[Z(c[k]) == s.F[k](t) for k in range(4)])

    def inc(s, E, st, a):
        t, ok = s.state(st, a[0])
        E.oblige(st, "contract: an iterator is incremented as a whole", ok)
        st.assume(t >= 0, *s.facts(t), *s.facts(t + 1))
        o = st.objs[a[0].o] = st.objs[a[0].o].copy() if hasattr(st.objs[a[0].o], "copy") else st.objs[a[0].o]
        for k in range(4):
            o.cells[a[0].f + 8 * k] = (8, s.F[k](t + 1))
        return a[0]

    def out(s, E, st, a):
        st.gh["out"] = [s.state(st, a[0]), s.state(st, a[1]) if isinstance(a[1], Loc) and a[1].f == 0 else None, a]

    def cands(s, E, Hd):
        cs = [(n, lambda st, g=g: Z(g(st))) for n, g in [(n, g) for n, g, w in Hd.cells if w == 8] + list(Hd.pos) if "cell" in n]
        ints = [(n, lambda st, g=g: Z(g(st))) for n, g in list(Hd.ints) + list(Hd.pos) if "cell" not in n]
        out = []
        for n, c in cs:
            out.append((f"{n} starts a state", lambda st, c=c: z3.And(c(st) == s.F[0](s.INV(c(st))), s.INV(c(st)) >= 0)))
            for m, d in cs:
                out += [(f"{m} is field {k} of the state of {n}", lambda st, c=c, d=d, k=k: d(st) == s.F[k](s.INV(c(st)))) for k in range(1, 4) if m != n]
            for m, d in ints:
                out += [(f"{n} has been incremented {m} times", lambda st, c=c, d=d: s.INV(c(st)) == d(st)),
                        (f"{n} has been incremented n - {m} times", lambda st, c=c, d=d: s.INV(c(st)) + d(st) == s.n)]
            out.append((f"{n} has not been incremented", lambda st, c=c: s.INV(c(st)) == 0))
            out.append((f"{n} has been incremented at most n times", lambda st, c=c: s.INV(c(st)) <= s.n))
        return out


def check(C, f):
    C.post(lambda st, r: [("post: there is a result", z3.BoolVal(False))] if st.gh["out"] is None else f(*st.gh["out"]))


@unit("C03", H, "plus_eq", name="line iterator += n")
def _(C):
    s = It(C)
    b, n = C.sint("n", 64)
    C.require(n >= 0, n < (1 << 62))
    s.n = n
    C.args(s.o, b)
    check(C, lambda i, r, a: [("post: the iterator is n lines further", z3.And(i[1], i[0] == n)), ("post: the iterator itself is returned", z3.BoolVal(a[1] == a[0]))])


@unit("C03", H, "plus", name="line iterator + n")
def _(C):
    s = It(C)
    b, n = C.sint("n", 64)
    C.require(n >= 0, n < (1 << 62))
    s.n = n
    C.args(s.o, b)
    check(C, lambda i, r, a: [("post: the iterator stays", z3.And(i[1], i[0] == 0)), ("post: the result is n lines further", z3.And(r[1], r[0] == n) if r else z3.BoolVal(False))])


@unit("C03", H, "post", name="line iterator ++ (post)")
def _(C):
    s = It(C)
    C.args(s.o)
    check(C, lambda i, r, a: [("post: the iterator is one line further", z3.And(i[1], i[0] == 1)), ("post: the result is the old position", z3.And(r[1], r[0] == 0) if r else z3.BoolVal(False))])


for nm in ("deref", "arrow"):
    @unit("C03", H, nm, name="line iterator " + nm)
    def _(C, nm=nm):
        s = It(C)
        C.args(s.o)
        C.post(lambda st, r: [("post: it gives access to its line", z3.BoolVal(st.gh["out"] is not None and all(isinstance(x, Loc) and x.o == s.o.o and x.f == 16 for x in st.gh["out"][2][1:(3 if nm == "deref" else 2)])))])
