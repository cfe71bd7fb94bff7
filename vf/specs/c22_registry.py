"""C22: the registry of progress trackers."""
from ..spec import *
from ..llparse import PTR, Ty
from ..engine import ident

H = "registry"
S = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
P = r"^std::(shared_ptr|__shared_ptr)<utl::progress_tracker.*>::"
M = r"std::map<std::__cxx11::basic_string<.*>, std::shared_ptr<utl::progress_tracker>.*>::"
I = z3.IntSort()


class Registry:
    """strings and trackers are numbers (0: the empty string; no tracker); the map: which names are in it, and their trackers"""

    def __init__(t, C):
        t.C, E = C, C.E
        t.has0, t.val0 = z3.Const("names", z3.ArraySort(I, z3.BoolSort())), z3.Const("trackers", z3.ArraySort(I, I))
        t.act0, t.last = C.sym("active"), C.sym("trackers so far")
        t.silent0, t.height0 = C.boolv("silent"), C.sym("height", 32)
        C.require(t.act0 <= t.last)
        for k, v in (("has", t.has0), ("val", t.val0), ("held", False), ("threw", False), ("strs", {}), ("ptrs", {}), ("nodes", {}), ("new", 0), ("ret", None), ("printed", 0), ("now", False), ("cleared", False)):
            C.ghost(k, v)
        t.fresh = {}
        t.at = None
        C.object("global", 112, o40_1=z3.If(t.silent0, z3.IntVal(1), z3.IntVal(0)), o44_4=t.height0)
        C.regex(r"^utl::get_global_progress_trackers\(", lambda E, st, a: Loc("@global", 0))
        C.regex(S + r"basic_string\(\)", lambda E, st, a: t.sput(st, a[0], z3.IntVal(0)))
        C.regex(S + r"basic_string\(std::__cxx11::basic_string<.*>( const&|&&)\)", lambda E, st, a: t.sput(st, a[0], t.sget(st, a[1])))
        C.regex(S + r"~basic_string\(", lambda E, st, a: None)
        C.regex(P + r"(__)?shared_ptr\(\)", lambda E, st, a: t.pput(E, st, a[0], z3.IntVal(0)))
        C.regex(P + r"(__)?shared_ptr\(std::nullptr_t\)", lambda E, st, a: t.pput(E, st, a[0], z3.IntVal(0)))
        C.regex(P + r"((__)?shared_ptr|operator=)\(std::(__)?shared_ptr<.*> const&\)", lambda E, st, a: t.pput(E, st, a[0], t.pget(E, st, a[1])))
        C.regex(P + r"((__)?shared_ptr|operator=)\(std::(__)?shared_ptr<.*>&&\)", t.move)
        C.regex(P + r"reset\(\)", lambda E, st, a: t.pput(E, st, a[0], z3.IntVal(0)))
        C.regex(P + r"~(__)?shared_ptr\(", lambda E, st, a: t.touch(E, st, a[0]))
        C.regex(P + r"get\(\) const", t.getp)
        C.regex(P + r"operator bool\(\) const", lambda E, st, a: t.pget(E, st, a[0]) != 0)
        C.regex(r"std::operator==<utl::progress_tracker>\(std::shared_ptr<.*> const&, std::nullptr_t\)", lambda E, st, a: t.pget(E, st, a[0]) == 0)
        C.regex(r"std::operator!=<utl::progress_tracker>\(std::shared_ptr<.*> const&, std::nullptr_t\)", lambda E, st, a: t.pget(E, st, a[0]) != 0)
        C.regex(M + r"end\(\)", lambda E, st, a: (t.touch(E, st, a[0]), Loc("@global", 9999))[1])
        C.regex(M + r"find\(", t.find)
        C.regex(M + r"(count|contains)\(", lambda E, st, a: (t.touch(E, st, a[0]), z3.If(z3.Select(st.gh["has"], t.sget(st, a[1])), z3.IntVal(1), z3.IntVal(0)))[1])
        C.regex(M + r"(emplace|try_emplace|insert_or_assign)<", t.emplace)
        C.regex(M + r"emplace_hint<", lambda E, st, a: [(k, z, v[0]) for k, z, v in t.emplace(E, st, [a[0], a[2], a[3]])])
        C.regex(M + r"operator\[\]\(", t.index)
        C.regex(M + r"at\(", t.index_at)
        C.regex(M + r"clear\(\)", t.clear)
        C.named.append((r"std::make_shared<utl::progress_tracker", t.make))
        C.regex(r"^utl::global_progress_trackers::print\(", t.print)
        C.extern("cb_reg", t.reg)
        C.extern("cb_threw", lambda E, st, a: st.gh.__setitem__("threw", True))
        C.extern("cb_now", lambda E, st, a: st.gh.__setitem__("now", True))
        C.extern("cb_ret", lambda E, st, a: st.gh.__setitem__("ret", t.pget(E, st, a[0])))
        C.extern("cb_mid", lambda E, st, a: None)
        C.extern("cb_new", lambda E, st, a: None)
        C.extern("cb_end", t.end)
        C.extern("pthread_mutex_lock", t.lock)
        C.extern("pthread_mutex_unlock", t.unlock)
        C.extern("_Znwm", t.opnew)
        C.extern("_ZSt20__throw_system_errori", t.never("lock: used as it must be"))
        C.extern("_ZSt25__throw_bad_function_callv", t.never("control flow: the callback is not empty"))
        C.regex(r"(^| )utl::fail<", lambda E, st, a: None)
        C.extern("__cxa_throw", lambda E, st, a: [("throw", st, (a[0], 1))])
        C.on_throw(lambda st, v: [("post: no exception leaves the unit", z3.BoolVal(False))])
        E.assumed.add("std::map<string, shared_ptr>: a finite map; std::shared_ptr: a value; std::string: a value; no std::bad_alloc")
        E.assumed.add("std::mutex excludes and orders; locking never fails; the function-local static is one object")

    def name(t):
        v = t.C.sym("name")
        p = t.C.object("name", 32)
        t.C.st.gh["strs"] = dict(t.C.st.gh["strs"], **{str((p.o, p.f)): v})
        return p, v

    def tracker(t):
        v = t.C.sym("tracker")
        t.C.require(v <= t.last)
        p = t.C.object("tracker", 16)
        t.C.st.gh["ptrs"] = dict(t.C.st.gh["ptrs"], **{str((p.o, p.f)): v})
        return p, v

    def reg(t, E, st, a):
        t.at = dict(map=(a[1].o, a[1].f), act=(a[2].o, a[2].f), lock=(a[0].o, a[0].f))
        st.gh["ptrs"] = dict(st.gh["ptrs"], **{str(t.at["act"]): t.act0})

    def touch(t, E, st, p):
        if (p.o, p.f) in (t.at["map"], t.at["act"]) or p.o in st.gh["nodes"]:
            E.oblige(st, "lock: the registry is used under its lock", st.gh["held"])

    def opnew(t, E, st, a):
        oid = f"new#{next(E.cnt)}"
        st.objs[oid] = Obj(a[0] if isinstance(a[0], int) else None, "operator new")
        return Loc(oid, 0)

    def sput(t, st, p, v):
        st.gh["strs"] = dict(st.gh["strs"], **{str((p.o, p.f)): v})

    def sget(t, st, p):
        if p.o in st.gh["nodes"]:
            return st.gh["nodes"][p.o]
        v = st.gh["strs"].get(str((p.o, p.f)))
        if v is None:
            raise Unsupported("unknown string")
        return v

    def pget(t, E, st, p):
        t.touch(E, st, p)
        if p.o in st.gh["nodes"]:
            return z3.Select(st.gh["val"], st.gh["nodes"][p.o])
        v = st.gh["ptrs"].get(str((p.o, p.f)))
        if v is None:
            raise Unsupported("unknown shared_ptr")
        return v

    def pput(t, E, st, p, v):
        t.touch(E, st, p)
        if p.o in st.gh["nodes"]:
            st.gh["val"] = z3.Store(st.gh["val"], st.gh["nodes"][p.o], v)
        else:
            st.gh["ptrs"] = dict(st.gh["ptrs"], **{str((p.o, p.f)): v})
        return p

    def move(t, E, st, a):
        v = t.pget(E, st, a[1])
        if (a[0].o, a[0].f) != (a[1].o, a[1].f):
            t.pput(E, st, a[1], z3.IntVal(0))
            t.pput(E, st, a[0], v)
        return a[0]

    def getp(t, E, st, a):
        v = t.pget(E, st, a[0])
        l = t.fresh.get(str(z3.simplify(v)))
        if l is not None:
            return l
        if z3.is_true(z3.simplify(v == 0)):
            return 0
        return v

    def node(t, E, st, key):
        for o, k in st.gh["nodes"].items():
            if ident(k, key):
                return Loc(o, 0)
        o = f"node#{next(E.cnt)}"
        st.objs[o] = Obj(80, "map node")
        st.gh["nodes"] = dict(st.gh["nodes"], **{o: key})
        return Loc(o, 0)

    def known(t, st, key):
        """a name of the registry has a tracker, one of those made so far"""
        v = z3.Select(t.val0, key)
        st.assume(Imp(z3.Select(t.has0, key), z3.And(v > 0, v <= t.last)))
        return key

    def find(t, E, st, a):
        t.touch(E, st, a[0])
        key = t.known(st, t.sget(st, a[1]))
        s2 = st.copy()
        st.assume(z3.Select(st.gh["has"], key))
        s2.assume(z3.Not(z3.Select(s2.gh["has"], key)))
        return E_live(E, [("ret", st, t.node(E, st, key)), ("ret", s2, Loc("@global", 9999))])

    def emplace(t, E, st, a):
        t.touch(E, st, a[0])
        key, v = t.known(st, t.sget(st, a[1])), t.pget(E, st, a[2])
        s2 = st.copy()
        st.assume(z3.Select(st.gh["has"], key))
        s2.assume(z3.Not(z3.Select(s2.gh["has"], key)))
        s2.gh["has"] = z3.Store(s2.gh["has"], key, z3.BoolVal(True))
        s2.gh["val"] = z3.Store(s2.gh["val"], key, v)
        return E_live(E, [("ret", st, (t.node(E, st, key), 0)), ("ret", s2, (t.node(E, s2, key), 1))])

    def index(t, E, st, a):
        t.touch(E, st, a[0])
        key = t.known(st, t.sget(st, a[1]))
        st.gh["val"] = z3.Store(st.gh["val"], key, z3.If(z3.Select(st.gh["has"], key), z3.Select(st.gh["val"], key), z3.IntVal(0)))
        st.gh["has"] = z3.Store(st.gh["has"], key, z3.BoolVal(True))
        n = t.node(E, st, key)
        return Loc(n.o, 64)

    def index_at(t, E, st, a):
        t.touch(E, st, a[0])
        key = t.known(st, t.sget(st, a[1]))
        s2 = st.copy()
        st.assume(z3.Select(st.gh["has"], key))
        s2.assume(z3.Not(z3.Select(s2.gh["has"], key)))
        n = t.node(E, st, key)
        return E_live(E, [("ret", st, Loc(n.o, 64)), ("throw", s2, (0, 1))])

    def clear(t, E, st, a):
        t.touch(E, st, a[0])
        st.gh["has"] = z3.K(I, z3.BoolVal(False))

    def make(t, E, st, a, name):
        out = []
        for k, z, v in E.call_fn(st, name, a, 1):
            if k != "ret":
                out.append((k, z, v))
                continue
            z.gh["new"] = z.gh["new"] + 1
            ident_ = t.last + z.gh["new"]
            t.fresh[str(z3.simplify(ident_))] = E.load(z, a[0], PTR)
            z.gh["ptrs"] = dict(z.gh["ptrs"], **{str((a[0].o, a[0].f)): ident_})
            out.append(("ret", z, None))
        return out

    def print(t, E, st, a):
        E.oblige(st, "callback: nothing is printed under the lock, or without a change", And(not st.gh["held"], st.gh["now"]))
        E.oblige(st, "callback: prints the registry", isinstance(a[0], Loc) and (a[0].o, a[0].f) == ("@global", 0))
        st.gh["printed"] += 1

    def lock(t, E, st, a):
        E.oblige(st, "lock: the lock taken is the registry's", isinstance(a[0], Loc) and (a[0].o, a[0].f) == t.at["lock"])
        E.oblige(st, "lock: not taken twice", not st.gh["held"])
        st.gh["held"] = True
        return 0

    def unlock(t, E, st, a):
        E.oblige(st, "lock: only a held lock is released", st.gh["held"])
        st.gh["held"] = False
        return 0

    def never(t, what):
        def h(E, st, a):
            E.oblige(st, what, False)
            return [("dead", st, None)]
        return h

    # ---- contracts
    def created(t, st, name):
        """the registry after a tracker for the name was looked up: -> (names, trackers, the tracker)"""
        had = z3.Select(t.has0, name)
        n = t.last + 1
        return z3.Store(t.has0, name, z3.BoolVal(True)), z3.If(had, t.val0, z3.Store(t.val0, name, n)), z3.If(had, z3.Select(t.val0, name), n)

    def end(t, E, st, a):
        g = st.gh
        E.oblige(st, "lock: released at the end", not g["held"])
        w = t.want(st)
        d = z3.Const("any name", I)
        E.oblige(st, "post: the names in the registry", z3.Select(g["has"], d) == z3.Select(w["has"], d))
        E.oblige(st, "post: the trackers of the names", Imp(z3.Select(w["has"], d), z3.Select(g["val"], d) == z3.Select(w["val"], d)))
        E.oblige(st, "post: the active tracker", g["ptrs"][str(t.at["act"])] == w["act"])
        E.oblige(st, "post: throws exactly if there is no active tracker", Z(g["threw"]) == w["threw"])
        if w["ret"] is not None:
            E.oblige(st, "post: the tracker returned", Imp(z3.Not(w["threw"]), g["ret"] == w["ret"] if g["ret"] is not None else z3.BoolVal(False)))
        E.oblige(st, "post: silence", Z(E_bool(a[0])) == w["silent"])
        E.oblige(st, "post: the height printed last", Z(a[1]) == w["height"])
        E.oblige(st, "post: prints when the new tracker changes", g["printed"] == w["printed"])
        st.gh["seen"] = 1

    def go(t, want, *args):
        d = dict(has=t.has0, val=t.val0, act=t.act0, threw=z3.BoolVal(False), ret=None, silent=t.silent0, height=t.height0, printed=0)
        t.want = lambda st: dict(d, **want(st))
        t.C.post(lambda st, r: [("post: the end is reached", z3.BoolVal(st.gh.get("seen") == 1))])
        t.C.args(*args)


def E_live(E, outs):
    return [o for o in outs if E.sol.check(o[1].pc, [], 1000)[0] != z3.unsat]


def E_bool(v):
    return v if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)) else Z(v) != 0


@unit("C22", H, "get")
def get(C):
    """get_tracker"""
    t = Registry(C)
    p, n = t.name()
    def want(st):
        h, v, r = t.created(st, n)
        return dict(has=h, val=v, ret=r)
    t.go(want, p)


@unit("C22", H, "activate")
def activate(C):
    """activate_progress_tracker(tracker)"""
    t = Registry(C)
    p, v = t.tracker()
    t.go(lambda st: dict(act=v, ret=v), p)


@unit("C22", H, "activate_name")
def activate_name(C):
    """activate_progress_tracker(name)"""
    t = Registry(C)
    p, n = t.name()
    def want(st):
        h, v, r = t.created(st, n)
        return dict(has=h, val=v, ret=r, act=r)
    t.go(want, p)


@unit("C22", H, "active")
def active(C):
    """get_active_progress_tracker"""
    t = Registry(C)
    t.go(lambda st: dict(ret=t.act0, threw=t.act0 == 0))


@unit("C22", H, "active_or")
def active_or(C):
    """get_active_progress_tracker_or_activate"""
    t = Registry(C)
    p, n = t.name()
    def want(st):
        h, v, r = t.created(st, n)
        is_ = t.act0 != 0
        return dict(has=z3.If(is_, t.has0, h), val=z3.If(is_, t.val0, v), ret=z3.If(is_, t.act0, r), act=z3.If(is_, t.act0, r))
    t.go(want, p)


@unit("C22", H, "clear")
def clear(C):
    """clear"""
    t = Registry(C)
    t.go(lambda st: dict(has=z3.K(I, z3.BoolVal(False)), act=z3.IntVal(0), height=z3.IntVal(0)))


def bars(C, s, *args):
    t = Registry(C)
    def mid(E, st, a):
        E.oblige(st, "post: silence while the bars are shown", Z(E_bool(a[0])) == s)
        E.oblige(st, "post: the lock is released", not st.gh["held"])
    C.extern("cb_mid", mid)
    t.go(lambda st: dict(has=z3.K(I, z3.BoolVal(False)), act=z3.IntVal(0), height=z3.IntVal(0)), *args)


@unit("C22", H, "bars")
def bars_(C):
    """global_progress_bars: silence for a scope, then the registry is cleared"""
    s = C.boolv("s")
    bars(C, s, s)


@unit("C22", H, "bars_default")
def bars_default(C):
    """global_progress_bars: not silent by default"""
    bars(C, z3.BoolVal(False))


@unit("C22", H, "callback")
def callback(C):
    """a new tracker: its initial state; its callback prints the registry"""
    show, lo, hi, x, n1 = C.boolv("new visibility"), *(z3.FP(k, z3.Float32()) for k in ("new lower bound", "new upper bound", "new step")), C.sym("new input bound")
    t = Registry(C)
    p, n = t.name()
    C.require(z3.Not(z3.Select(t.has0, n)))
    def new(E, st, a):
        F = lambda x: z3.FPVal(x, z3.Float32())
        E.oblige(st, "post: a new tracker is shown, without status, with input 0 of 100 and output 0 from 0 to 100 in steps of 1",
                 And(t.sget(st, a[1]) == 0, Z(E_bool(a[2])), *[x == F(y) for x, y in zip(a[3:6], (0.0, 100.0, 1.0))], Z(a[6]) == 100, Z(E.load(st, a[7], Ty("int", w=64))) == 0, E.load(st, a[8], Ty("float")) == F(0.0)))
    C.extern("cb_new", new)
    def want(st):
        h, v, r = t.created(st, n)
        return dict(has=h, val=v, printed=1)
    t.go(want, p, show, lo, hi, x, n1)


@unit("C22", H, "fresh")
def fresh(C):
    """a new registry"""
    C.object("registry", 112)
    C.ghost("made", ())
    C.ghost("acts", {})
    C.ghost("seen", 0)
    C.regex(M + r"map\(\)", lambda E, st, a: st.gh.__setitem__("made", st.gh["made"] + ((a[0].o, a[0].f),)))
    C.regex(P + r"(__)?shared_ptr\((std::nullptr_t)?\)", lambda E, st, a: st.gh.__setitem__("acts", dict(st.gh["acts"], **{str((a[0].o, a[0].f)): 0})))

    def end(E, st, a):
        E.oblige(st, "post: a new registry has no trackers", z3.BoolVal((a[1].o, a[1].f) in st.gh["made"]))
        E.oblige(st, "post: there is no active tracker", z3.BoolVal(st.gh["acts"].get(str((a[2].o, a[2].f))) == 0))
        E.oblige(st, "post: it is silent", E_bool(a[3]))
        E.oblige(st, "post: nothing was printed yet", Z(a[4]) == 0)
        st.gh["seen"] = 1
    C.extern("cb_fresh", end)
    C.post(lambda st, r: [("post: the end is reached", z3.BoolVal(st.gh["seen"] == 1))])
    C.args(Loc("@registry", 0))
