"""C15: a scope guard runs its action exactly once, at the end of its scope, unless released."""
from ..spec import *

H = "raii"
def I(x):
    x = Z(x) if not isinstance(x, (tuple, Loc)) else x
    return z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_expr(x) and z3.is_bool(x) else x


ONCE = "post: the action has run exactly once"


def acts(C, log="acts"):
    """the actions run so far are recorded in order"""
    C.ghost(log, ())
    C.ghost("body", 0)
    C.extern("cb_act", lambda E, st, a: st.gh.__setitem__(log, st.gh[log] + ((st.gh["body"], a[0]),)))
    C.extern("cb_act2", lambda E, st, a: st.gh.__setitem__(log, st.gh[log] + ((st.gh["body"], a[0], a[1]),)))
    C.ghost("out", ())
    C.extern("out_i", lambda E, st, a: st.gh.__setitem__("out", st.gh["out"] + (tuple(I(x) for x in a),)))

    def body(E, st, a):
        st.gh["body"] += 1
        s2 = st.copy()
        return [("ret", st, None), ("throw", s2, (0, 1))]
    C.extern("cb_body", body)


def both(C, f):
    C.post(lambda st, r: f(st, False))
    C.on_throw(lambda st, v: f(st, True))


def ran(st, want, log="acts"):
    """exactly these actions, in this order, after the body"""
    got = st.gh[log]
    if len(got) != len(want):
        return z3.BoolVal(False)
    return z3.And(*[z3.And(*[Z(x) == Z(y) for x, y in zip(g[1:], w[1:])]) if g[0] == w[0] or w[0] is None else z3.BoolVal(False) for g, w in zip(got, want)])




for e in ("finally_scope", "finally_macro", "finally_lambda"):
    @unit("C15", H, e)
    def _(C):
        i = C.sym("id")
        C.args(i)
        acts(C)
        both(C, lambda st, t: [(ONCE + ", at the end of the scope, also if an exception leaves it", ran(st, [(1, i)]))])


@unit("C15", H, "finally_two")
def _(C):
    a, b = C.sym("a"), C.sym("b")
    C.args(a, b)
    acts(C)
    both(C, lambda st, t: [("post: each action has run exactly once, the later guard's first", ran(st, [(1, b), (1, a)]))])


def marked(C, n):
    """n guards, armed or disarmed (moved from; their action ran before the first mark)"""
    C.derive = False
    gs = []
    for x in "ab"[:n]:
        gs += [C.boolv(x + ".armed"), C.sym(x + ".action")]
    C.args(*[z3.If(g, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(g) else g for g in gs])
    acts(C)
    C.extern("cb_mark", lambda E, st, a: st.gh.__setitem__("body", st.gh["body"] + 1))
    return gs


@unit("C15", H, "finally_move_ctor")
def _(C):
    ex, i = marked(C, 1)
    C.post(lambda st, r: [("post: the new guard takes over the action if the old one still had it; nothing runs when moving", z3.If(ex, ran(st, [(2, i)]), ran(st, [(0, i)])))])


@unit("C15", H, "finally_move_assign")
def _(C):
    ax, a, bx, b = marked(C, 2)

    def post(st, r):
        def case(x, y):
            return ran(st, ([] if x else [(0, a)]) + ([] if y else [(0, b)]) + ([(1, a)] if x else []) + ([(3, b)] if y else []))
        return [("post: the pending action of the target runs once, then the target owes that of the source", z3.If(ax, z3.If(bx, case(1, 1), case(1, 0)), z3.If(bx, case(0, 1), case(0, 0)))),
                ("post: the result is the target", Z(st.gh["out"][0][0]) == 1)]
    C.post(post)


@unit("C15", H, "finally_self_assign")
def _(C):
    ex, i = marked(C, 1)
    C.post(lambda st, r: [("post: a guard assigned to itself keeps its action", z3.If(ex, ran(st, [(2, i)]), ran(st, [(0, i)])))])


@unit("C15", H, "finally_moved_chain")
def _(C):
    i = C.sym("id")
    C.args(i)
    acts(C)
    both(C, lambda st, t: [(ONCE + ", however often the guard was moved", ran(st, [(None, i)]))])


@unit("C15", H, "finally_return")
def _(C):
    i, b = C.sym("id"), C.boolv("early")
    C.args(i, z3.If(b, z3.IntVal(1), z3.IntVal(0)))
    acts(C)
    both(C, lambda st, t: [(ONCE + ", also after an early return", ran(st, [(None, i)]))])


@unit("C15", H, "raii_scope")
def _(C):
    v, i = C.sym("v"), C.sym("id")
    C.args(v, i)
    acts(C)
    both(C, lambda st, t: [("post: the resource is released exactly once, at the end of the scope", ran(st, [(1, i, v)]))])


@unit("C15", H, "raii_change")
def _(C):
    v, i, w = C.sym("v"), C.sym("id"), C.sym("w")
    C.args(v, i, w)
    acts(C)
    both(C, lambda st, t: [("post: what is released is the current element", ran(st, [(1, i, w)])), ("post: the conversion yields the element", Z(st.gh["out"][0][0]) == w)])


@unit("C15", H, "raii_ref")
def _(C):
    x = C.region("x", 8, count=z3.IntVal(1))
    i = C.sym("id")
    v = SEL(C.E.mem(C.st, "m8"), x.base)
    C.args(x.base, i)
    acts(C)
    both(C, lambda st, t: [("post: the referenced resource is released exactly once", ran(st, [(1, i, v)]))] + ([] if t else [("post: get() is the referenced element", Z(st.gh["out"][0][0]) == 1)]))


@unit("C15", H, "raii_lambda")
def _(C):
    v = C.sym("v")
    C.args(v)
    acts(C)
    both(C, lambda st, t: [("post: the resource is released exactly once, at the end of the scope", ran(st, [(1, v)]))] + ([] if t else [("post: get() and conversion yield the element", z3.And(Z(st.gh["out"][0][0]) == v, Z(st.gh["out"][1][0]) == v))]))


@unit("C15", H, "raii_omit")
def _(C):
    v, i, om = C.sym("v"), C.sym("id"), C.boolv("omit")
    C.args(v, i, z3.If(om, z3.IntVal(1), z3.IntVal(0)))
    acts(C)
    both(C, lambda st, t: [("post: the action runs exactly once, unless omitted", z3.If(om, ran(st, []), ran(st, [(1, i, v)])))])
