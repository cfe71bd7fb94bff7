"""C27: helpers which pick by type: match, init_from, overloaded."""
from ..spec import *

H = "pick"
I = z3.IntSort()
CLS = {"1A": "a", "1B": "b", "1C": "c"}


class Match:
    def __init__(s, C, order):
        s.C, s.order = C, order
        s.p = C.sym("object")
        C.require(s.p < (1 << 62), z3.Or(s.p == 0, s.p >= 4096))
        s.AS = {c: z3.Function(f"object as {c.upper()}", I, I) for c in "abc"}      # null: it is none
        s.RET = {c: z3.Function(f"result of {c}", I, I) for c in "abc"}
        for c in "abc":
            v = s.AS[c](s.p)
            C.require(v >= 0, v < (1 << 62), z3.Or(v == 0, v >= 4096), Imp(s.p == 0, v == 0))
            C.extern("cb_" + c, lambda E, st, a, c=c: s.call(E, st, a, c))
        C.extern("__dynamic_cast", s.cast)
        C.regex(r"std::runtime_error::(runtime_error|~runtime_error)\(", s.error)
        C.ghost("calls", ())
        C.ghost("thrown", "")
        C.args(s.p)
        C.E.assumed.add("dynamic_cast: null, or the object as the class asked for (an uninterpreted class hierarchy)")
        C.post(s.post)
        C.on_throw(lambda st, e: [("post: no function is called and std::runtime_error thrown only if none takes the object", z3.And(z3.BoolVal(not st.gh["calls"]), *[s.AS[c](s.p) == 0 for c in order])),
                                  ("post: the exception is a std::runtime_error", z3.BoolVal("runtime_error" in str(e) or bool(st.gh["thrown"])))])

    def error(s, E, st, a):
        st.gh["thrown"] = "runtime_error"

    def cast(s, E, st, a):
        n = a[2].o if isinstance(a[2], Loc) else str(a[2])
        c = next((CLS[k] for k in CLS if str(n).endswith("_ZTI" + k)), None)
        if c is None:
            raise Unsupported(f"dynamic_cast to {n}")
        E.oblige(st, "memory: a cast of the object that exists", z3.And(Z(a[0]) == s.p, s.p != 0))
        return s.AS[c](Z(a[0]))

    def call(s, E, st, a, c):
        st.gh["calls"] += ((c, Z(a[0])),)
        r = s.RET[c](Z(a[0]))
        st.assume(r >= 0, r < (1 << 32))
        return r

    def post(s, st, r):
        k = st.gh["calls"]
        if len(k) != 1 or k[0][0] not in s.order:
            return [("post: exactly one function is called", z3.BoolVal(False))]
        c, x = k[0]
        at = s.order.index(c)
        return [("post: exactly one function is called", z3.BoolVal(True)),
                ("post: it is the first one which takes the object", z3.And(s.AS[c](s.p) != 0, *[s.AS[d](s.p) == 0 for d in s.order[:at]])),
                ("post: it gets the object", x == s.AS[c](s.p)),
                ("post: its result is returned", Z(r) == s.RET[c](s.AS[c](s.p)))]


for nm, order in (("match1", "a"), ("match3", "cba"), ("match_const", "ac")):
    unit("C27", H, nm, name=f"match({order})", about="the first function which takes the object is called with it")(lambda C, order=order: Match(C, order))


class From:
    """the source object: fields known by offset; optional fields are addresses or null"""

    def __init__(s, C, size, ptrs):
        s.C = C
        s.base = C.sym("source")
        C.require(s.base >= 4096, s.base < (1 << 61), s.base % 8 == 0)
        s.f = {}
        for off, name in ptrs.items():
            v = s.f[off] = C.sym(name)
            C.require(v < (1 << 62), z3.Or(v == 0, v >= 4096))
        C.load_hook = s.load
        C.ghost("got", None)
        C.extern("cb_refs", lambda E, st, a: s.got(st, tuple(Z(x) for x in a)))
        C.extern("cb_none", lambda E, st, a: s.got(st, "none"))
        C.args(s.base)

    def got(s, st, v):
        st.gh["got"] = v if st.gh["got"] is None else "twice"

    def load(s, E, st, p, ty, size):
        if isinstance(p, Loc):
            return None
        E.oblige(st, "memory: a field of the source is read", z3.And(z3.BoolVal(size == 8), z3.Or(*[Z(p) == s.base + o for o in s.f])))
        v = E.fresh("field")
        for o, x in s.f.items():
            st.assume(Imp(Z(p) == s.base + o, v == x))
        return v

    def expect(s, need, want):
        def post(st, r):
            g = st.gh["got"]
            some = z3.And(*[x != 0 for x in need]) if need else z3.BoolVal(True)
            if g is None or g == "twice":
                return [("post: there is one result", z3.BoolVal(False))]
            if g == "none":
                return [("post: there is no result only if a pointee is missing", z3.Not(some))]
            return [("post: there is a result only if no pointee is missing", some)] + \
                   [(f"post: field {k} is the first field of the source which fits", x == Z(w)) for k, (x, w) in enumerate(zip(g, want))]
        s.C.post(post)


@unit("C27", H, "from1", name="init_from: values and owners", about="a field refers to the first field of its type, or to the pointee of the first pointer-like field to it")
def from1(C):
    s = From(C, 32, {8: "x", 24: "s"})
    s.expect([s.f[8]], [s.base + 16, s.f[8], s.base + 16, s.f[24]])


@unit("C27", H, "from2", name="init_from: pointers before values", about="an earlier pointer wins over a later value")
def from2(C):
    s = From(C, 40, {8: "x", 16: "y", 24: "s"})
    s.expect([s.f[8], s.f[16]], [s.f[16], s.f[8], s.f[16], s.f[24]])


@unit("C27", H, "from3", name="init_from: values only", about="no pointee needed, always a result")
def from3(C):
    s = From(C, 16, {8: "s"})
    s.expect([], [s.base, s.base + 4, s.base, s.f[8]])


@unit("C27", H, "from4", name="init_from: optional pointers", about="a pointer field is the address the first matching owner holds, or null")
def from4(C):
    s = From(C, 32, {8: "s", 16: "q", 24: "r"})
    s.expect([], [s.f[8], s.f[16], 0, 0])


def over(nm, sg, want):
    @unit("C27", H, nm, name=nm.replace("_", " "), about="the functor for the type is called, other types are ignored")
    def run(C):
        x = z3.Real("x") if nm == "over_float" else None
        b = C.sym("x", 32 if nm != "over_other" else 16)
        C.ghost("calls", ())
        for k in ("int", "float"):
            C.extern("cb_" + k, lambda E, st, a, k=k: st.gh.__setitem__("calls", st.gh["calls"] + ((k, a[0]),)))
        C.args(b)
        C.post(lambda st, r: [("post: the functor for the type is called, once", z3.BoolVal([k for k, _ in st.gh["calls"]] == want))] +
               [("post: it gets the value", Z(v) == Z(b)) for _, v in st.gh["calls"] if [k for k, _ in st.gh["calls"]] == want])


over("over_int", True, ["int"])
over("over_float", False, ["float"])
over("over_other", True, [])


def fields(sch, k):
    @unit("C27", "pickn", f"fields_{'ab'[sch]}{k}", name=f"init_from: source of {k} fields ({'ab'[sch]})", about="the first field of each type is found, whatever the number of fields")
    def run(C):
        b = C.sym("source")
        C.require(b >= 4096, b < (1 << 61))
        C.ghost("got", ())
        C.extern("cb_field", lambda E, st, a: st.gh.__setitem__("got", st.gh["got"] + ((a[0], Z(a[1])),)))
        C.extern("cb_none", lambda E, st, a: E.oblige(st, "post: there is a result", False))
        C.args(b)
        ty = [(i + sch) // 2 for i in range(k)]
        want = {t: ty.index(t) for t in ty}
        C.post(lambda st, r: [("post: every field of the target is bound", z3.BoolVal([t for t, _ in st.gh["got"]] == sorted(want)))] +
               [(f"post: field {t} is the first one of its type", x == b + 4 * want[t]) for t, x in st.gh["got"] if t in want])


for _s in (0, 1):
    for _k in range(1, 32):
        fields(_s, _k)
