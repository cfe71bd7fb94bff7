"""C23: a generator delivers the values its coroutine yields, in order, once, on demand, and destroys it once."""
from ..spec import *
from ..vecmodel import vectors

H = "gen"


class Gen:
    def __init__(g, C):
        g.C = C
        g.N = C.sym("yields")
        C.require(g.N < (1 << 32))
        g.throws = C.boolv("throws")
        g.V = z3.Function("value", z3.IntSort(), z3.IntSort())
        g.exc = z3.Int("exception")
        C.require(g.exc > 0, g.exc < (1 << 62))
        C.ghost("heap", {})
        C.ghost("steps", z3.IntVal(0))       # values asked of the coroutine
        C.ghost("got", z3.IntVal(0))         # values delivered to the user
        C.ghost("threw", z3.BoolVal(False))  # the exception was delivered
        C.ghost("refs", z3.IntVal(0))        # references to the stored exception
        C.ghost("asked", z3.BoolVal(False))
        g.vec = False
        C.ghost("fuel", C.sym("operations"))   # the user asks finitely often
        C.measures = lambda E, H: [("operations left", lambda st: Z(st.gh["fuel"])), ("values left", lambda st: g.N - Z(st.gh["got"]))]
        C.fn_ints = lambda n: re.search(r"\.(resume|destroy|cleanup)\"?$", n) is not None
        C.icall = lambda E, st, v, a, i: E.call_addr(st, v, a)
        C.local_hook = g.access
        for f, h in dict(cb_step=g.step, cb_val=g.value, cb_op=g.op, cb_bool=g.bool, cb_got=g.got, cb_threw=g.caught,
                         _Znwm=g.new, _ZdlPv=g.delete, _ZdlPvm=g.delete, _ZSt17current_exceptionv=g.current,
                         _ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE=g.rethrow,
                         _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv=g.addref,
                         _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv=g.release).items():
            C.extern(f, h)
        C.inv(g.cands)
        C.E.assumed.add("operator new and std::current_exception succeed; std::exception_ptr counts its references")
        C.post(lambda st, r: [("post: the coroutine is destroyed", z3.BoolVal(all(v == "freed" for v in st.gh["heap"].values()))),
                              ("post: no reference to an exception is leaked", Z(st.gh["refs"]) == 0)])
        C.on_throw(lambda st, v: [("post: exceptions come from the operations only", z3.BoolVal(False))])

    # ---- states
    def done(g, st):
        return Z(st.gh["steps"]) == g.N + 1

    def full(g, st):
        return z3.And(Z(st.gh["steps"]) == Z(st.gh["got"]) + 1, Z(st.gh["steps"]) <= g.N)

    def more(g, st):
        return Z(st.gh["got"]) < g.N

    def cands(g, E, H):
        gh = lambda k: (lambda st: Z(st.gh[k]))
        P = [("initial", lambda st: Z(st.gh["steps"]) == 0), ("running", lambda st: z3.And(Z(st.gh["steps"]) > 0, Z(st.gh["steps"]) <= g.N)),
             ("not done", lambda st: z3.Not(g.done(st))), ("done", g.done), ("full", g.full), ("empty", lambda st: Z(st.gh["steps"]) == Z(st.gh["got"])),
             ("not full", lambda st: z3.Not(g.full(st))), ("threw", lambda st: Z(st.gh["threw"])), ("not threw", lambda st: z3.Not(Z(st.gh["threw"]))),
             ("ended", lambda st: z3.And(g.done(st), z3.Not(g.throws))), ("true", lambda st: z3.BoolVal(True))]
        out = []
        ks = [0, 1, 2, 3] + list(E.fn_addrs.values())
        for n, f in list(H.ints) + list(H.pos) + [(n, f) for n, f, w in H.cells]:
            if n.startswith("ghost") or ".begin" in n or ".end" in n:
                continue
            for pn, p in P:
                for k in ks:
                    out.append((f"{pn}: {n} == {k}", lambda st, p=p, f=f, k=k: Imp(p(st), Z(f(st)) == k)))
                out.append((f"{pn}: {n} == exception", lambda st, p=p, f=f: Imp(p(st), Z(f(st)) == g.exc)))
            out.append((f"full: {n} is the value", lambda st, f=f: Imp(g.full(st), Z(f(st)) == g.V(Z(st.gh["got"])))))
        for n, f in H.bools:
            if n.startswith("ghost"):
                continue
            for pn, p in P:
                out.append((f"{pn}: {n}", lambda st, p=p, f=f: Imp(p(st), Z(f(st)))))
                out.append((f"{pn}: not {n}", lambda st, p=p, f=f: Imp(p(st), z3.Not(Z(f(st))))))
        gs = lambda st: (Z(st.gh["steps"]), Z(st.gh["got"]))
        out += [("steps in range", lambda st: z3.And(gs(st)[0] >= 0, gs(st)[0] <= g.N + 1)),
                ("got in range", lambda st: z3.And(gs(st)[1] >= 0, gs(st)[1] <= g.N)),
                ("ahead by at most one", lambda st: z3.And(gs(st)[0] >= gs(st)[1], gs(st)[0] <= gs(st)[1] + 1)),
                ("threw == done and throws", lambda st: Z(st.gh["threw"]) == z3.And(g.done(st), g.throws)),
                ("refs", lambda st: Z(st.gh["refs"]) == z3.If(z3.And(g.done(st), g.throws), z3.IntVal(1), z3.IntVal(0)))]
        if g.vec:
            b = g.block
            A = lambda st: E.mem(st, "m4")
            out.append(("vector: content", lambda st: g.content(A(st), st)))
            for n, f in H.pos:
                out.append((f"vector: {n} is the end", lambda st, f=f: Z(f(st)) == b.base + 4 * (Z(st.gh["got"]) - Z(st.gh["got0"]))))
        return out

    def content(g, A, st):
        b, lo, hi = g.block, Z(st.gh["got0"]), Z(st.gh["got"])
        return Forall(1, lambda x: Imp(z3.And(x >= b.base, x < b.base + 4 * (hi - lo), (x - b.base) % 4 == 0),
                                       z3.Select(A, x) == g.V(lo + (x - b.base) / 4)), lambda x: z3.Select(A, x))

    # ---- memory
    def new(g, E, st, a):
        oid = f"frame#{next(E.cnt)}"
        st.objs[oid] = Obj(a[0] if isinstance(a[0], int) else None, "coroutine")
        st.gh["heap"] = dict(st.gh["heap"], **{oid: "live"})
        return Loc(oid, 0)

    def delete(g, E, st, a):
        p = a[0]
        if not isinstance(p, Loc) or p.o not in st.gh["heap"]:
            E.oblige(st, "memory: what is deleted was allocated", Z(p) == 0 if not isinstance(p, Loc) else z3.BoolVal(False))
            return
        E.oblige(st, "memory: a coroutine is destroyed once", z3.BoolVal(st.gh["heap"][p.o] == "live" and p.f == 0))
        st.gh["heap"] = dict(st.gh["heap"], **{p.o: "freed"})

    def access(g, E, st, kind, p, size, ty):
        if st.gh["heap"].get(p.o) == "freed" and kind != "end":
            E.oblige(st, "memory: a coroutine is not used after its destruction", z3.BoolVal(False))

    # ---- exceptions
    def current(g, E, st, a):
        st.gh["refs"] = Z(st.gh["refs"]) + 1
        E.store(st, a[0], g.exc, L.PTR)

    def addref(g, E, st, a):
        E.oblige(st, "exception: a stored exception", Z(E.load(st, a[0], L.PTR)) == g.exc)
        st.gh["refs"] = Z(st.gh["refs"]) + 1

    def release(g, E, st, a):
        E.oblige(st, "exception: a stored exception", z3.And(Z(E.load(st, a[0], L.PTR)) == g.exc, Z(st.gh["refs"]) > 0))
        st.gh["refs"] = Z(st.gh["refs"]) - 1

    def rethrow(g, E, st, a):
        E.oblige(st, "exception: the coroutine's exception is thrown", Z(E.load(st, a[0], L.PTR)) == g.exc)
        return [("throw", st, (0, 1))]

    # ---- the coroutine
    def step(g, E, st, a):
        if a[0] != 0 and not (z3.is_expr(a[0]) and E.prove(st, a[0] == 0)):
            E.oblige(st, "on demand: only the generator that is asked runs", Z(a[0]) == 0)
        E.oblige(st, "on demand: the coroutine runs only when a value is asked for", Z(st.gh["asked"]))
        E.oblige(st, "order: the coroutine runs on only after its last value was delivered", Z(st.gh["steps"]) == Z(st.gh["got"]))
        E.oblige(st, "order: the coroutine does not run after its end", Z(st.gh["steps"]) <= g.N)
        k = Z(st.gh["steps"])
        st.gh["steps"] = k + 1
        out = []
        for c, kind, v in ((k < g.N, "ret", True), (z3.And(k >= g.N, z3.Not(g.throws)), "ret", False), (z3.And(k >= g.N, g.throws), "throw", (0, 1))):
            s = st.copy()
            s.assume(c)
            out.append((kind, s, v))
        return out

    def value(g, E, st, a):
        r = g.V(Z(st.gh["steps"]) - 1)
        st.assume(r >= 0, r < (1 << 32))
        return r

    # ---- the user
    def op(g, E, st, a):
        out = []
        for k in (0, 1, 2):
            s = st.copy()
            s.gh["asked"] = z3.BoolVal(k > 0 or g.vec)
            if k > 0:
                s.assume(Z(s.gh["fuel"]) > 0)
                s.gh["fuel"] = Z(s.gh["fuel"]) - 1
            if k == 0 and g.vec:
                s.gh["got0"] = s.gh["got"]
            if k == 2:
                s.assume(z3.Or(g.more(s), z3.And(g.throws, z3.Not(Z(s.gh["threw"])))))
            out.append(("ret", s, k))
        return out

    def bool(g, E, st, a):
        E.oblige(st, "post: true exactly if there is another value", E.as_bool(a[0]) == g.more(st))
        E.oblige(st, "post: an exception of the coroutine is not lost", z3.Or(g.more(st), z3.Not(g.throws), Z(st.gh["threw"])))
        st.gh["asked"] = z3.BoolVal(False)

    def got(g, E, st, a):
        E.oblige(st, "post: the next value is delivered", z3.And(g.more(st), Z(a[0]) == g.V(Z(st.gh["got"]))))
        st.gh["got"] = Z(st.gh["got"]) + 1
        st.gh["asked"] = z3.BoolVal(False)

    def caught(g, E, st, a):
        E.oblige(st, "post: an exception is delivered after all values, once, if the coroutine threw",
                 z3.And(Z(st.gh["got"]) == g.N, g.throws, z3.Not(Z(st.gh["threw"])), g.done(st)))
        st.gh["threw"] = z3.BoolVal(True)
        st.gh["asked"] = z3.BoolVal(False)


@unit("C23", H, "use")
def use(C):
    """a coroutine that yields and ends arbitrarily; its generator is asked arbitrarily, and destroyed at any time"""
    Gen(C)


@unit("C23", H, "move")
def move(C):
    """... moved at any time and used on"""
    Gen(C)


@unit("C23", H, "copy")
def copy(C):
    """... copied, if it can be"""
    Gen(C)


@unit("C23", H, "assign")
def assign(C):
    """... assigned to another generator, whose coroutine is destroyed"""
    Gen(C)


@unit("C23", H, "to_vec")
def to_vec(C):
    """the values that are left, as a vector"""
    g = Gen(C)
    g.vec = True
    (g.block,) = vectors(C, "int", 4)
    b = g.block
    C.ghost("got0", z3.IntVal(0))
    push0 = [h for rx, h in C.rx if "emplace_back" in rx][-1]

    def push(E, st, a):
        x = E.load(st, a[1], L.IntTy(32))
        E.oblige(st, "to_vec: appends the next value", z3.And(g.more(st), Z(x) == g.V(Z(st.gh["got"]))))
        r = push0(E, st, a)
        st.gh["got"] = Z(st.gh["got"]) + 1
        return r
    C.rx = [(rx, push if h is push0 else h) for rx, h in C.rx]

    def vec(E, st, a):
        lo, hi = Z(st.gh["got0"]), Z(st.gh["got"])
        E.oblige(st, "to_vec: all values are delivered", z3.And(hi == g.N, z3.Or(z3.Not(g.throws), Z(st.gh["threw"]))))
        A = E.mem(st, "m4")
        E.oblige(st, "to_vec: the vector holds the values that were left, in order", z3.And(Z(a[0]) == b.base, Z(a[1]) == b.base + 4 * (hi - lo)))
        k = E.fresh("k")
        s = st.copy()
        s.assume(k >= 0, k < hi - lo)
        E.oblige(s, "to_vec: the vector holds the values that were left, in order", z3.Select(A, Z(a[0]) + 4 * k) == g.V(lo + k))
        st.gh["asked"] = z3.BoolVal(False)
    C.extern("cb_vec", vec)
