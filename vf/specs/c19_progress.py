"""C19: a progress tracker reports every change, and only changes."""
from ..spec import *

H = "progress"
F32 = z3.Float32()
D64 = z3.Float64()


def fin(x):
    return z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)))


class Tracker:
    def __init__(t, C, interference):
        t.C, E = C, C.E
        t.marks = []           # (object, offset of the tracker, status, in, out)
        t.s0 = C.sym("old status")
        t.show = C.boolv("old visibility")
        t.lo, t.hi, t.mod = (z3.FP("old " + n, F32) for n in ("lower bound", "upper bound", "step"))
        t.ih = C.sym("old input bound")
        for n, v in (("out_low", t.lo), ("out_high", t.hi), ("out_mod", t.mod)):
            E.params.append((n, v))
        C.require(fin(t.lo), fin(t.hi), z3.fpLEQ(t.lo, t.hi), fin(t.mod), z3.fpGT(t.mod, z3.FPVal(0.0, F32)))
        C.fp_facts = True
        t.interference = interference
        # string values: number of the value per object
        t.strs = {}
        C.ghost("strs", {})
        C.ghost("held", frozenset())
        C.ghost("threw", False)
        C.ghost("seen", 0)
        for g in ("notes", "stin", "stout"):
            for k in (0, 1):
                C.ghost(g + str(k), z3.IntVal(0))
        S = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
        C.regex(S + r"basic_string\(\)", lambda E, st, a: t.put(st, a[0], z3.IntVal(0)))
        C.regex(S + r"basic_string\(std::__cxx11::basic_string<.*>( const&|&&)\)", t.copy)
        C.regex(S + r"(operator=|assign)\(std::__cxx11::basic_string<.*>( const&|&&)\)", t.copy)
        C.regex(S + r"_M_assign\(", t.copy)
        C.regex(S + r"~basic_string\(", lambda E, st, a: None)
        C.regex(S + r"compare\(std::__cxx11::basic_string<.*> const&\) const", lambda E, st, a: z3.If(t.get(st, a[0]) == t.get(st, a[1]), z3.IntVal(0), z3.IntVal(1)))
        C.regex(r"std::operator==<char, std::char_traits<char>, std::allocator<char> ?>\(std::__cxx11::basic_string<.*> const&, std::__cxx11::basic_string", lambda E, st, a: t.get(st, a[0]) == t.get(st, a[1]))
        C.regex(r"std::operator!=<char, std::char_traits<char>, std::allocator<char> ?>\(std::__cxx11::basic_string<.*> const&, std::__cxx11::basic_string", lambda E, st, a: t.get(st, a[0]) != t.get(st, a[1]))
        C.extern("cb_mark", t.mark)
        C.extern("cb_notify", t.notify)
        C.extern("cb_see", t.see)
        C.extern("cb_threw", lambda E, st, a: st.gh.__setitem__("threw", True))
        C.extern("cb_done", t.done)
        C.extern("pthread_mutex_lock", t.lock)
        C.extern("pthread_mutex_unlock", t.unlock)
        C.extern("_ZSt20__throw_system_errori", t.never("lock: used as it must be"))
        C.extern("_ZSt25__throw_bad_function_callv", t.never("control flow: the callback is not empty"))
        C.regex(r"(^| )utl::fail<", lambda E, st, a: None)
        C.extern("__cxa_throw", lambda E, st, a: [("throw", st, (a[0], 1))])
        C.atomic_hook = t.atomic
        C.local_hook = t.access
        C.on_throw(lambda st, v: [("post: no exception but that of an invalid bound", z3.BoolVal(False))])
        E.assumed.add("std::string: values with copies and comparison; no std::bad_alloc")
        E.assumed.add("std::mutex excludes and orders; locking never fails; the callback of the tracker does not throw or change it")

    def str_param(t, name):
        v = t.C.sym(name)
        p = t.C.object(name.replace(" ", "_"), 32)
        t.C.st.gh["strs"] = dict(t.C.st.gh["strs"], **{str((p.o, p.f)): v})
        return p, v

    def fp(t, name):
        v = z3.FP(name, F32)
        t.C.E.params.append((name, v))
        return v

    def go(t, *args):
        p = t.C.object("s0", 32)
        t.C.st.gh["strs"] = dict(t.C.st.gh["strs"], **{str((p.o, p.f)): t.s0})
        t.C.args(p, t.show, t.lo, t.hi, t.mod, t.ih, *args)

    # ---- strings
    def put(t, st, p, v):
        st.gh["strs"] = dict(st.gh["strs"], **{str((p.o, p.f)): v})

    def get(t, st, p):
        v = st.gh["strs"].get(str((p.o, p.f)))
        if v is None:
            raise Unsupported("unknown string")
        return v

    def copy(t, E, st, a):
        t.put(st, a[0], t.get(st, a[1]))
        for k, m in enumerate(t.marks):
            if (a[0].o, a[0].f) == m["status"] and st.gh["seen"] == 0:
                E.oblige(st, "lock: the tracker is changed under its lock", k in st.gh["held"])
        return a[0]

    # ---- the tracker
    def mark(t, E, st, a):
        k = st.gh.get("marked", 0)
        st.gh["marked"] = k + 1
        m = dict(at=(a[0].o, a[0].f), status=(a[1].o, a[1].f), vin=(a[2].o, a[2].f), vout=(a[3].o, a[3].f), mutex=None)
        if len(t.marks) <= k:
            t.marks.append(m)
        t.start(E, st, k)

    def start(t, E, st, k):
        pass

    def which(t, p):
        return next((k for k, m in enumerate(t.marks) if m["at"][0] == p.o and 0 <= p.f - m["at"][1] < 144), None)

    def lock(t, E, st, a):
        k = t.which(a[0])
        E.oblige(st, "lock: the lock taken is the tracker's", k is not None)
        E.oblige(st, "lock: not taken twice", k not in st.gh["held"])
        st.gh["held"] = st.gh["held"] | {k}
        return 0

    def unlock(t, E, st, a):
        k = t.which(a[0])
        E.oblige(st, "lock: only a held lock is released", k in st.gh["held"])
        st.gh["held"] = st.gh["held"] - {k}
        return 0

    def never(t, what):
        def h(E, st, a):
            E.oblige(st, what, False)
            return [("dead", st, None)]
        return h

    def access(t, E, st, kind, p, size, ty):
        k = t.which(p)
        if kind == "store" and k is not None and st.gh.get("marked", 0) > k and st.gh["seen"] == 0:
            E.oblige(st, "lock: the tracker is changed under its lock", k in st.gh["held"])
        return None

    def atomic(t, E, st, kind, p, v, i):
        k = t.which(p)
        if k is None or st.gh.get("marked", 0) <= k:
            if kind == "store":
                return True
            raise Unsupported("atomic " + kind)
        m = t.marks[k]
        which = "in" if (p.o, p.f) == m["vin"] else "out" if (p.o, p.f) == m["vout"] else None
        if which is None:
            raise Unsupported("an atomic that is neither input nor output")
        return t.io(E, st, k, which, kind, v, i)

    def io(t, E, st, k, which, kind, v, i):
        raise NotImplementedError


def obj_field_eq(st, name, got, want):
    return (name, Z(got) == Z(want) if not z3.is_fp(want) else got == want)


class Builder(Tracker):
    """status, visibility, bounds: want = (status, show, lo, hi, mod, ih, status changed, bounds changed, throws)"""

    def __init__(t, C, want=None):
        super().__init__(C, False)
        t.want = want

    def io(t, E, st, k, which, kind, v, i):
        g = st.gh
        E.oblige(st, "restart: input and output are only restarted, under the lock", And(kind == "store", k in g["held"]))
        if kind != "store":
            raise Unsupported("atomic " + kind)
        if which == "in":
            E.oblige(st, "restart: the input restarts at 0", Z(E.as_int(v)) == 0)
            g[f"stin{k}"] = g[f"stin{k}"] + 1
        else:
            E.oblige(st, "restart: the output restarts at the lower bound", v == t.want[k][2] if z3.is_fp(v) else False)
            g[f"stout{k}"] = g[f"stout{k}"] + 1
        return True

    def fields(t, st, k, a):
        w = t.want[k]
        s = t.get(st, Loc(*t.marks[k]["status"]))
        return And(s == w[0], Z(E_bool(a[1])) == w[1], a[2] == w[2], a[3] == w[3], a[4] == w[4], Z(a[5]) == w[5])

    def restarted(t, st, k):
        w = t.want[k]
        n = z3.If(w[7], z3.IntVal(1), z3.IntVal(0))
        return And(*[z3.If(w[7], Z(st.gh[x + str(k)]) >= 1, Z(st.gh[x + str(k)]) == 0) for x in ("stin", "stout")])

    def notify(t, E, st, a):
        k = t.which(a[0])
        E.oblige(st, "callback: called with the tracker", k is not None)
        E.oblige(st, "callback: not called under the lock", k not in st.gh["held"])
        E.oblige(st, "callback: called with all changes made", t.fields(st, k, a))
        E.oblige(st, "callback: input and output are restarted before it, if the bounds changed", t.restarted(st, k))
        st.gh[f"notes{k}"] = st.gh[f"notes{k}"] + 1

    def notified(t, st, k):
        w = t.want[k]
        return Z(st.gh[f"notes{k}"]) == z3.If(z3.Or(w[6], w[7]), z3.IntVal(1), z3.IntVal(0))

    def done(t, E, st, a):
        k = t.which(a[0])
        E.oblige(st, "update: an update that is replaced by another is completed first", And(t.notified(st, k), k not in st.gh["held"]))

    def see(t, E, st, a):
        k = t.which(a[0])
        E.oblige(st, "post: the values are those given", t.fields(st, k, a))
        E.oblige(st, "post: the callback is called once if something changed, and not otherwise", t.notified(st, k))
        E.oblige(st, "post: input and output restart exactly if the bounds changed", t.restarted(st, k))
        E.oblige(st, "post: throws exactly if the bounds are invalid", Z(st.gh["threw"]) == t.want[k][8])
        E.oblige(st, "post: the lock is released", k not in st.gh["held"])
        st.gh["seen"] = st.gh["seen"] + 1


def E_bool(v):
    return v if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)) else Z(v) != 0


def fne(a, b):
    return z3.Not(z3.fpEQ(a, b))


def builder(entry, f, **kw):
    """f(t) -> (arguments, want)"""
    def u(C):
        t = Builder(C)
        args, w = f(t)
        t.want = w if isinstance(w, list) else [w]
        t.go(*args)
    u.__doc__ = f.__doc__
    return unit("C19", H, entry, **kw)(u)


NO = z3.BoolVal(False)
FV = lambda x: z3.FPVal(x, F32)


def base(t):
    return dict(s=t.s0, show=t.show, lo=t.lo, hi=t.hi, mod=t.mod, ih=t.ih, sc=NO, bc=NO, threw=NO)


def out(d):
    return (d["s"], d["show"], d["lo"], d["hi"], d["mod"], d["ih"], d["sc"], d["bc"], d["threw"])


def set_(d, c, k, v, ne=None, when=None):
    """the contract of one change, unless an exception was thrown before"""
    live = z3.Not(d["threw"])
    old = d[k]
    diff = fne(old, v) if z3.is_fp(old) else (old != v)
    d[c] = z3.Or(d[c], z3.And(live, diff))
    d[k] = z3.If(z3.And(live, diff), v, old)      # (an equal value may differ from the old one only in the sign of zero)


def do_bounds(d, a, b):
    d["threw"] = z3.Or(d["threw"], z3.Not(z3.fpLEQ(a, b)))
    set_(d, "bc", "lo", a)
    set_(d, "bc", "hi", b)


def do_mod(d, a):
    d["threw"] = z3.Or(d["threw"], z3.Not(z3.fpGT(a, FV(0.0))))
    set_(d, "bc", "mod", a)


def do_reset(d):
    for k, v in (("lo", FV(0.0)), ("hi", FV(100.0)), ("mod", FV(1.0)), ("ih", z3.IntVal(100))):
        set_(d, "bc", k, v)


@lambda f: builder("status", f)
def _(t):
    """status"""
    p, s = t.str_param("status")
    d = base(t)
    set_(d, "sc", "s", s)
    return [p], out(d)


@lambda f: builder("show", f)
def _(t):
    """show_progress"""
    b = t.C.boolv("b")
    d = base(t)
    set_(d, "sc", "show", b)
    return [b], out(d)


@lambda f: builder("reset", f)
def _(t):
    """reset_bounds"""
    d = base(t)
    do_reset(d)
    return [], out(d)


@lambda f: builder("out_bounds", f)
def _(t):
    """out_bounds"""
    a, b = t.fp("a"), t.fp("b")
    d = base(t)
    do_bounds(d, a, b)
    return [a, b], out(d)


@lambda f: builder("out_mod", f)
def _(t):
    """out_mod"""
    a = t.fp("a")
    d = base(t)
    do_mod(d, a)
    return [a], out(d)


@lambda f: builder("in_high", f)
def _(t):
    """in_high"""
    n = t.C.sym("n")
    d = base(t)
    set_(d, "bc", "ih", n)
    return [n], out(d)


@lambda f: builder("chain", f)
def _(t):
    """a chain of all changes"""
    p, s = t.str_param("status")
    a, b, c, n, v = t.fp("a"), t.fp("b"), t.fp("c"), t.C.sym("n"), t.C.boolv("v")
    d = base(t)
    set_(d, "sc", "s", s)
    do_reset(d)
    do_bounds(d, a, b)
    do_mod(d, c)
    set_(d, "bc", "ih", n)
    set_(d, "sc", "show", v)
    return [p, a, b, c, n, v], out(d)


@lambda f: builder("status_throw", f)
def _(t):
    """a change followed by bounds that may be invalid"""
    p, s = t.str_param("status")
    a, b = t.fp("a"), t.fp("b")
    d = base(t)
    set_(d, "sc", "s", s)
    do_bounds(d, a, b)
    return [p, a, b], out(d)


@lambda f: builder("mod_throw", f)
def _(t):
    """a change of a bound followed by a step that may be invalid"""
    n, a = t.C.sym("n"), t.fp("a")
    d = base(t)
    set_(d, "bc", "ih", n)
    do_mod(d, a)
    return [n, a], out(d)


@lambda f: builder("keep", f)
def _(t):
    """an update kept in a variable, continued by assignment"""
    p, s = t.str_param("status")
    n = t.C.sym("n")
    d = base(t)
    set_(d, "sc", "s", s)
    set_(d, "bc", "ih", n)
    return [p, n], out(d)


@lambda f: builder("keep_on", f)
def _(t):
    """an update kept in a variable, continued by assignment twice"""
    p, s = t.str_param("status")
    n, b = t.C.sym("n"), t.C.boolv("b")
    d = base(t)
    set_(d, "sc", "s", s)
    set_(d, "bc", "ih", n)
    set_(d, "sc", "show", b)
    return [p, n, b], out(d)


@lambda f: builder("self", f)
def _(t):
    """an update assigned to itself stays open"""
    p, s = t.str_param("status")
    n = t.C.sym("n")
    d = base(t)
    set_(d, "sc", "s", s)
    set_(d, "bc", "ih", n)
    return [p, n], out(d)


@lambda f: builder("two_on", f)
def _(t):
    """an update of one tracker replaced by one of another tracker, which is continued"""
    p, s = t.str_param("status")
    n, b = t.C.sym("n"), t.C.boolv("b")
    d, e = base(t), base(t)
    set_(d, "sc", "s", s)
    set_(e, "bc", "ih", n)
    set_(e, "sc", "show", b)
    return [p, n, b], [out(d), out(e)]


@lambda f: builder("two", f)
def _(t):
    """an update of one tracker replaced by one of another tracker"""
    p, s = t.str_param("status")
    n = t.C.sym("n")
    d, e = base(t), base(t)
    set_(d, "sc", "s", s)
    set_(e, "bc", "ih", n)
    return [p, n], [out(d), out(e)]


# ---- input and output
F = lambda op, w: z3.Function(op + w, *[z3.Float32() if w == "32" else z3.Float64()] * 3)
TOD = z3.Function("int2double", z3.IntSort(), D64)
ROUND = z3.Function("llvm.round.f32", F32, F32)


class Update(Tracker):
    """update, increment, update_monotonic; alone, or while other threads change input and output at any time"""

    def __init__(t, C, kind, n, interference):
        super().__init__(C, interference)
        t.kind, t.n = kind, n
        E = C.E
        t.in0, t.out0 = C.sym("old input"), t.fp("old output")
        C.require(z3.fpLEQ(t.lo, t.out0), z3.fpLEQ(t.out0, t.hi), fin(F("fsub", "32")(t.hi, t.lo)))
        C.ghost("in", t.in0)          # what the input was when last looked at
        C.ghost("out", t.out0)
        C.ghost("used", z3.IntVal(-1))   # the input the output was last computed from
        C.ghost("pend", NO)           # the output changed, the callback was not called since
        C.ghost("done", z3.IntVal(0))    # changes of the input
        C.ghost("ge", NO)             # the input was seen to be such that the update need not change it
        if not interference:
            C.require(t.agrees(t.out0, t.in0))     # nothing is pending
        C.ghost("again", NO)          # the input was read again after the output was stored
        C.int2fp = t.facts
        C.check_termination = not interference
        if interference:
            E.assumed.add("progress_tracker: bounds are not changed while updates run; other threads may change input and output at any time")
        C.inv(lambda E, H: [("no change yet", lambda st: Z(st.gh["done"]) == 0), ("changed once", lambda st: Z(st.gh["done"]) == 1), ("at most one change", lambda st: z3.And(Z(st.gh["done"]) >= 0, Z(st.gh["done"]) <= 1)),
                            ("read again", lambda st: Z(st.gh["again"])), ("computed", lambda st: Z(st.gh["used"]) == Z(st.gh["in"])),
                            ("changed or reached", lambda st: z3.Or(Z(st.gh["done"]) == 1, Z(st.gh["ge"]))),
                            ("not changed or reached", lambda st: Imp(Z(st.gh["done"]) == 1, Z(st.gh["ge"]))),
                            ("callback not pending", lambda st: z3.Not(Z(st.gh["pend"]))),
                            ("old input", lambda st: Z(st.gh["in"]) == t.in0),
                            ("new input", lambda st: Z(st.gh["in"]) == t.expected()),
                            ("old output", lambda st: st.gh["out"] == t.out0),
                            ("no callback", lambda st: Z(st.gh["notes0"]) == 0)])
        C.inv(lambda E, H: [(f"{n} is pending", lambda st, f=f: Z(st.gh["pend"]) == Z(f(st))) for n, f in H.bools])
        C.inv(lambda E, H: [(f"{n} is below n", lambda st, f=f: Z(f(st)) < t.n) for n, f in H.ints])
        C.inv(lambda E, H: [(f"{n} is old", lambda st, f=f: z3.Or(Z(f(st)) < t.n, Z(st.gh["ge"]), Z(st.gh["done"]) == 1)) for n, f in H.ints])
        C.inv(lambda E, H: [(f"{n} is the input", lambda st, f=f: Z(f(st)) == Z(st.gh["in"])) for n, f in H.ints])
        C.inv(lambda E, H: [(f"{n} reached", lambda st, f=f: z3.Or(Z(f(st)) < t.n, Z(st.gh["ge"]))) for n, f in H.ints])

    def facts(t, E, st, v, r, s):
        st.assume(Imp(Z(v) >= 1, z3.fpGEQ(r, z3.FPVal(1.0, s))), z3.fpGEQ(r, z3.FPVal(0.0, s)), z3.fpLEQ(r, z3.FPVal(2.0 ** 64, s)))

    def expected(t):
        return {"set": t.n, "add": (t.in0 + t.n) % (1 << 64), "max": z3.If(t.in0 < t.n, t.n, t.in0)}[t.kind]

    def formula(t, i):
        ratio = z3.If(t.ih == 0, FV(1.0), z3.fpFPToFP(z3.RNE(), F("fdiv", "64")(TOD(i), TOD(t.ih)), F32))
        f = F("fmul", "32")
        x = F("fadd", "32")(t.lo, f(ROUND(F("fdiv", "32")(f(F("fsub", "32")(t.hi, t.lo), ratio), t.mod)), t.mod))
        c = z3.If(z3.fpLT(x, t.lo), t.lo, x)
        return z3.If(z3.fpLT(t.hi, c), t.hi, c)

    def agrees(t, v, i):
        """v is the output for the input i: the same number (0 and -0 are the same)"""
        want = t.formula(i)
        return z3.Or(v == want, z3.fpEQ(v, want), z3.fpIsNaN(want))

    def enough(t, cur):
        return {"set": cur == t.n, "add": t.n == 0, "max": cur >= t.n}[t.kind]

    def io(t, E, st, k, which, kind, v, i):
        g = st.gh
        if which == "out":
            if kind == "load":
                return E.mod_fresh_fp(st, "out", F32) if t.interference else g["out"]
            if kind not in ("store", "rmw.xchg"):
                raise Unsupported("atomic " + kind)
            E.oblige(st, "output: replaced and compared with the old one at once", kind == "rmw.xchg")
            E.oblige(st, "output: computed from the input", t.agrees(v, Z(g["in"])) if z3.is_fp(v) else False)
            E.oblige(st, "output: within its bounds", z3.And(z3.fpLEQ(t.lo, v), z3.fpLEQ(v, t.hi)))
            old = E.mod_fresh_fp(st, "out", F32) if t.interference else g["out"]
            st.assume(z3.fpLEQ(t.lo, old), z3.fpLEQ(old, t.hi))
            g["used"], g["out"], g["again"] = Z(g["in"]), v, NO
            g["pend"] = z3.Or(Z(g["pend"]), fne(old, v))
            return old
        cur = E.mod_fresh(st, "in", 64) if t.interference else Z(g["in"])
        if kind == "load":
            g["in"], g["again"] = cur, z3.BoolVal(True)
            g["ge"] = z3.Or(Z(g["ge"]), t.enough(cur))
            return cur
        if kind == "cmpxchg":
            c, n = map(Z, v)
            asked = {"set": n == t.n, "add": n == (c + t.n) % (1 << 64), "max": n == z3.If(c < t.n, t.n, c)}[t.kind]
            E.oblige(st, "input: changed as asked", z3.And(Z(g["done"]) == 0, asked))
            s2 = st.copy()
            st.assume(cur == c)
            st.gh.update({"in": n, "done": Z(g["done"]) + 1, "used": z3.IntVal(-1)})
            if not t.interference:                # (otherwise: a weak exchange may fail for no reason)
                s2.assume(cur != c)
            s2.gh["in"] = cur
            s2.gh["ge"] = z3.Or(Z(s2.gh["ge"]), t.enough(cur))
            return [(st, (cur, True)), (s2, (cur, False))]
        E.oblige(st, "input: changed as asked", And(Z(g["done"]) == 0, Z(v) == t.n, kind in {"set": ("store", "rmw.xchg"), "add": ("rmw.add",), "max": ("rmw.umax",)}[t.kind]))
        g["done"] = Z(g["done"]) + 1
        g["used"] = z3.IntVal(-1)
        g["in"] = (cur + Z(v)) % (1 << 64) if kind == "rmw.add" else z3.If(cur < Z(v), Z(v), cur) if kind == "rmw.umax" else Z(v)
        return True if kind == "store" else cur

    def start(t, E, st, k):
        pass

    def fields(t, st, k, a):
        s = t.get(st, Loc(*t.marks[k]["status"]))
        return And(s == t.s0, Z(E_bool(a[1])) == t.show, a[2] == t.lo, a[3] == t.hi, a[4] == t.mod, Z(a[5]) == t.ih)

    def notify(t, E, st, a):
        k = t.which(a[0])
        E.oblige(st, "callback: called with the tracker", k == 0)
        E.oblige(st, "callback: not called under the lock", k not in st.gh["held"])
        E.oblige(st, "callback: called only if the output changed", Z(st.gh["pend"]))
        st.gh["pend"] = NO
        st.gh["notes0"] = Z(st.gh["notes0"]) + 1

    def done(t, E, st, a):
        pass

    def see(t, E, st, a):
        g = st.gh
        E.oblige(st, "post: bounds, status and visibility are unchanged", t.fields(st, 0, a))
        E.oblige(st, "post: the callback is called if the output changed", z3.Not(Z(g["pend"])))
        E.oblige(st, "post: no exception", g["threw"] is False)
        E.oblige(st, "post: the lock is released", not g["held"])
        E.oblige(st, "post: the input is changed once, unless there is nothing to change", z3.And(Z(g["done"]) <= 1, z3.Or(Z(g["done"]) == 1, Z(g["ge"]))))
        E.oblige(st, "post: the output is computed from the input as it is after the output was stored", Imp(Z(g["done"]) == 1, Z(g["used"]) == Z(g["in"])))
        if t.interference:
            E.oblige(st, "post: the input is read again after the output was stored, as it may have changed meanwhile", Imp(Z(g["done"]) == 1, Z(g["again"])))
        if not t.interference:
            E.oblige(st, "post: the input", Z(g["in"]) == t.expected())
            E.oblige(st, "post: the output", t.agrees(g["out"], t.expected()))
            E.oblige(st, "post: the callback is called once if the output changed, and not otherwise", Z(g["notes0"]) == z3.If(fne(t.out0, g["out"]), z3.IntVal(1), z3.IntVal(0)))
        st.gh["seen"] = 1


def updates():
    for entry, kind, one, about in (("update", "set", False, "update"), ("increment", "add", False, "increment"), ("monotonic", "max", False, "update_monotonic"),
                                    ("increment_one", "add", True, "increment by default"), ("update_fn", "max", False, "update_fn"), ("increment_fn", "add", True, "increment_fn")):
        for inter in (False, True):
            def u(C, kind=kind, one=one, inter=inter):
                n = z3.IntVal(1) if one else C.sym("n")
                t = Update(C, kind, n, inter)
                t.go(*([] if one else [n]))
            u.__doc__ = about + (", while other threads update" if inter else ", alone")
            unit("C19", H, entry, name=entry + ("_shared" if inter else ""))(u)


updates()
