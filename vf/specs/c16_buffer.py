"""C16: a buffer owns its memory exactly once and keeps its content."""
from ..spec import *
from ..heapmodel import heap, released

H = "buf"


def setup(C, blocks, views=1):
    vs = [C.view(f"content{i}") for i in range(views)]
    heap(C, blocks)
    C.bytes_typed()
    C.M0 = C.E.mem(C.st, "m1")
    C.ghost("seen", ())
    C.ghost("out", ())
    C.regex(r"(^| )utl::fail<", lambda E, st, a: None)
    C.extern("__cxa_throw", lambda E, st, a: [("throw", st, (a[0], 1))])
    C.extern("out_i", lambda E, st, a: st.gh.__setitem__("out", st.gh["out"] + (a[0],)))

    def see(E, st, a):
        M = E.mem(st, "m1")
        E.oblige(st, "post: begin is data, end is data + size", Z(E.as_int(a[2])) == 1)
        E.oblige(st, "post: the content is memory the buffer owns", z3.Or(Z(a[1]) == 0, *[z3.And(r.base == a[0], r.size >= a[1]) for r in E.granted(st, True)]))
        st.gh["seen"] = st.gh["seen"] + ((a[0], a[1], M),)
    C.extern("see", see)

    def cands(E, Hd):
        """bytes copied one by one"""
        o = []
        same = lambda st, B, v, n: Forall(1, lambda i: Imp(z3.And(i >= B, Z(i) < Z(B) + Z(n)), SEL(E.mem(st, "m1"), i) == SEL(C.M0, v.base + (i - B))), lambda i: SEL(E.mem(st, "m1"), i))
        for v in vs:
            o.append((f"{v.name} is unchanged", lambda st, v=v: same(st, v.base, v, v.n)))
            for R in [r for r in E.regions if r.name in C.st.gh.get("heap", {})]:
                o.append((f"{R.name} holds {v.name}", lambda st, R=R, v=v: same(st, R.base, v, v.n)))
                for n, f in Hd.ints:
                    o.append((f"{R.name} holds {n} bytes of {v.name}", lambda st, R=R, v=v, f=f: same(st, R.base, v, f(st))))
                    o.append((f"{n} <= {v.name}.len", lambda st, v=v, f=f: Z(f(st)) <= v.n))
                for n, f in Hd.pos:
                    o.append((f"{R.name} holds {v.name} up to {n}", lambda st, R=R, v=v, f=f: same(st, R.base, v, Z(f(st)) - R.base)))
                    o.append((f"{R.name} holds {v.name} before {n}", lambda st, R=R, v=v, f=f: same(st, R.base, v, Z(f(st)) - v.base)))
        return o
    C.inv(cands)
    return vs


def holds(C, s, v):
    """what was seen is the content of v"""
    p, n, M = s
    k = z3.Int("k")
    return [("post: the size is that of the content", Z(n) == v.n),
            ("post: the content is unchanged", z3.ForAll([k], Imp(z3.And(k >= 0, k < v.n), SEL(M, Z(p) + k) == SEL(C.M0, v.base + k))))]


def empty(s):
    return [("post: an empty buffer has size 0", Z(s[1]) == 0)]


def done(C, f, seen):
    """all memory is released exactly once, also if memory runs out"""
    def post(st, r):
        g = st.gh["seen"]
        out = [("post: every block is released", released(st))]
        if len(g) != seen:
            return out + [("post: all operations have taken place", z3.BoolVal(False))]
        return out + f(st, g)
    C.post(post)
    C.on_throw(lambda st, v: [("post: every block is released, also if an exception is thrown", released(st)),
                              ("post: an exception is thrown only when memory runs out", z3.BoolVal(st.gh["oom"]))])


@unit("C16", H, "default")
def _(C):
    setup(C, 0, 0)
    done(C, lambda st, g: empty(g[0]), 1)


@unit("C16", H, "size")
def _(C):
    setup(C, 1, 0)
    n = C.sym("n")
    C.args(n)
    done(C, lambda st, g: [("post: the size is as requested", Z(g[0][1]) == n)], 1)


@unit("C16", H, "view")
def _(C):
    v, = setup(C, 1)
    C.args(v.base, v.n)
    done(C, lambda st, g: holds(C, g[0], v), 1)


@unit("C16", H, "str")
def _(C):
    v, = setup(C, 1)
    C.args(v.base)
    l = z3.Int("length")
    C.require(l >= 0, l < v.n, SEL(C.M0, v.base + v.n - 1) == 0, SEL(C.M0, v.base + l) == 0, Forall(1, lambda k: Imp(z3.And(k >= v.base, k < v.base + l), SEL(C.M0, k) != 0), lambda k: SEL(C.M0, k)))
    w = Region("text", v.base, l)
    w.n = l
    done(C, lambda st, g: holds(C, g[0], w), 1)


@unit("C16", H, "move_ctor")
def _(C):
    v, = setup(C, 1)
    C.args(v.base, v.n)
    done(C, lambda st, g: holds(C, g[0], v) + empty(g[1]), 2)


@unit("C16", H, "move_ctor_empty")
def _(C):
    setup(C, 0, 0)
    done(C, lambda st, g: empty(g[0]) + empty(g[1]), 2)


def self_ref(st):
    return [("post: assignment returns the assigned buffer", Z(st.gh["out"][0]) == 1 if len(st.gh["out"]) == 1 else z3.BoolVal(False))]


@unit("C16", H, "move_assign")
def _(C):
    v, w = setup(C, 2, 2)
    C.args(v.base, v.n, w.base, w.n)
    done(C, lambda st, g: empty(g[0]) + holds(C, g[1], w) + self_ref(st), 2)


@unit("C16", H, "move_assign_from_empty")
def _(C):
    v, = setup(C, 1)
    C.args(v.base, v.n)
    done(C, lambda st, g: empty(g[0]) + empty(g[1]), 2)


@unit("C16", H, "move_assign_to_empty")
def _(C):
    v, = setup(C, 1)
    C.args(v.base, v.n)
    done(C, lambda st, g: empty(g[0]) + holds(C, g[1], v), 2)


@unit("C16", H, "self_assign")
def _(C):
    v, = setup(C, 1)
    C.args(v.base, v.n)
    done(C, lambda st, g: holds(C, g[0], v), 1)


def prefix(C, s, v, m):
    k = z3.Int("k")
    return [("post: the size is as requested", Z(s[1]) == m),
            ("post: the common prefix of the content is unchanged", z3.ForAll([k], Imp(z3.And(k >= 0, k < v.n, k < m), SEL(s[2], Z(s[0]) + k) == SEL(C.M0, v.base + k))))]


@unit("C16", H, "resize")
def _(C):
    v, = setup(C, 2)
    m = C.sym("m")
    C.args(v.base, v.n, m)

    def f(st, g):
        failed = st.gh["out"]
        if len(failed) != 1:
            return [("post: all operations have taken place", z3.BoolVal(False))]
        failed = Z(failed[0]) == 1
        return [("post: throws only when memory runs out", Imp(failed, z3.BoolVal(st.gh["oom"])))] + \
            [(n + " (memory ran out)", Imp(failed, t)) for n, t in holds(C, g[0], v)] + [(n, Or(failed, t)) for n, t in prefix(C, g[0], v, m)]
    done(C, f, 1)


@unit("C16", H, "resize_default")
def _(C):
    setup(C, 1, 0)
    m = C.sym("m")
    C.args(m)

    def f(st, g):
        failed = Z(st.gh["out"][0]) == 1
        return [("post: throws only when memory runs out", Imp(failed, z3.BoolVal(st.gh["oom"]))), ("post: the size is as requested", Z(g[0][1]) == z3.If(failed, 0, m))]
    done(C, f, 1)


@unit("C16", H, "resize_twice")
def _(C):
    v, = setup(C, 3)
    m = C.sym("m")
    C.args(v.base, v.n, m)
    done(C, lambda st, g: empty(g[0]) + [("post: the size is as requested", Z(g[1][1]) == m)], 2)


@unit("C16", H, "write")
def _(C):
    v, = setup(C, 1)
    i = C.sym("i")
    x = C.sym("x", 8)
    C.require(i < v.n)
    C.args(v.base, v.n, i, x)
    k = z3.Int("k")
    done(C, lambda st, g: [("post: the size is that of the content", Z(g[0][1]) == v.n),
                           ("post: exactly the byte written changes", z3.ForAll([k], Imp(z3.And(k >= 0, k < v.n), SEL(g[0][2], Z(g[0][0]) + k) == z3.If(k == i, x, SEL(C.M0, v.base + k)))))], 1)
