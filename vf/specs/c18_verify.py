"""C18: a failed verification throws, with the formatted message; a successful one does nothing."""
from ..spec import *
from .. import llparse as L

H = "verify"
RT = "_ZTISt13runtime_error"
STR = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s?>::"


def thrown(C):
    """the exception object, its type and what it was made of"""
    C.ghost("fails", ())
    C.ghost("format", ())
    C.ghost("what", {})
    C.ghost("exn", ())

    def throw(E, st, a):
        st.gh["exn"] = (a[0], getattr(a[1], "o", a[1]))
        return [("throw", st, (a[0], 1))]
    C.extern("__cxa_throw", throw)
    C.regex(r"^std::runtime_error::runtime_error\(std::runtime_error( const&|&&)\)", lambda E, st, a: st.gh.__setitem__("what", dict(st.gh["what"], **{str((a[0].o, a[0].f)): st.gh["what"].get(str((a[1].o, a[1].f)), False)})))
    C.ghost("log", ())       # what is written to streams: (stream, is it the message?)
    C.ghost("text", {})      # strings that hold the formatted message

    def raw(E, st, a):
        st.gh["log"] = st.gh["log"] + ((getattr(a[0], "o", a[0]), z3.BoolVal(isText(st, a[1]) if len(a) > 1 else False)),)
        return a[0]
    C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::(operator<<|__ostream_insert|endl|flush)", raw)
    C.regex(r"^std::(basic_)?ostream(<.*>)?::(operator<<|_M_insert<.*>|write|put|flush)\(", raw)
    C.regex(r"^std::basic_ostream<.*>& std::(basic_)?ostream(<.*>)?::_M_insert<", raw)
    C.regex(r"^std::runtime_error::~runtime_error", lambda E, st, a: None)
    C.regex(r"^std::runtime_error::what\(\) const", lambda E, st, a: Loc(f"{a[0].o}!what!text", 0) if isText(st, a[0]) else E.mod_fresh(st, "what", 62))
    C.regex(r"^std::(logic_error|domain_error|invalid_argument|length_error|out_of_range|range_error|overflow_error|underflow_error)::(\w+)\(", lambda E, st, a: None)
    C.extern("_ZSt24__throw_out_of_range_fmtPKcz", lambda E, st, a: [("throw", st, (0, 1))])


def isText(st, p):
    return isinstance(p, Loc) and (str(p.o).endswith("!text") or st.gh["text"].get(str((p.o, p.f)), False))


def same(a, b):
    if isinstance(a, Loc) or isinstance(b, Loc):
        return z3.BoolVal(isinstance(a, Loc) and isinstance(b, Loc) and a.o == b.o and a.f == b.f)
    return Z(a) == Z(b)


def fail_contract(C):
    """fail(msg, args...): a runtime_error made from msg and args (proved in the unit `fail`)"""
    def fail(E, st, a):
        st.gh["fails"] = st.gh["fails"] + (tuple(a),)
        st.gh["what"] = dict(st.gh["what"], **{str((a[0].o, a[0].f)): True})
        s2 = st.copy()
        s2.gh["format_error"] = True
        return [("ret", st, None), ("throw", s2, (0, 1))]
    C.ghost("format_error", False)
    C.regex(r"(^| )utl::fail<", fail)


def once(C, c, msg, args, want_type=RT):
    C.post(lambda st, r: [("post: returns only if the condition holds", c), ("post: a successful verification does nothing", z3.BoolVal(not st.gh["fails"] and not st.gh["exn"] and not st.gh["log"]))])

    def ex(st, v):
        if st.gh["format_error"]:
            return [("post: throws only if the condition does not hold", Not(c))]
        f = st.gh["fails"]
        ok = len(f) == 1 and len(st.gh["exn"]) == 2
        return [("post: throws only if the condition does not hold", Not(c)),
                ("post: the exception is the std::runtime_error made by fail", z3.And(made(st), z3.BoolVal(ok and want_type in str(st.gh["exn"][1])))),
                ("post: fail gets exactly the message and the arguments", z3.And(Z(f[0][1]) == msg[1], Z(f[0][2]) == msg[0], *[Z(x) == y for x, y in zip(f[0][3:], args)]) if ok and len(f[0]) == 3 + len(args) else z3.BoolVal(False))]
    C.on_throw(ex)


def cond(C):
    b = C.boolv("condition")
    return b, z3.If(b, z3.IntVal(1), z3.IntVal(0))


@unit("C18", H, "verify")
def _(C):
    b, e = cond(C)
    m = C.view("message")
    C.args(e, m.base, m.n)
    thrown(C)
    fail_contract(C)
    once(C, b, (m.base, m.n), ())


@unit("C18", H, "verify_args")
def _(C):
    b, e = cond(C)
    m = C.view("message")
    x, y = C.sym("x"), C.sym("y")
    C.args(e, m.base, m.n, x, y)
    thrown(C)
    fail_contract(C)
    once(C, b, (m.base, m.n), (x, y))


def formatting(C, msg=None, args=()):
    """vformat(msg, args) yields a text (trusted); the exception must be made from it.  Everything written to a stream is recorded in "log"."""
    C.opaque_bytes = True

    def given(E, st, a, at):
        """format and arguments a formatting function gets from a[at] on: text, length, kinds of the arguments (4 bit each), arguments"""
        kinds, vals = a[at + 2], []
        while isinstance(kinds, int) and 0 < kinds < (1 << 63):
            p = a[at + 3]
            vals.append((kinds & 15, E.load(st, Loc(p.o, p.f + 16 * len(vals)), L.IntTy(64) if kinds & 15 not in (12, 13, 14, 15) else L.PTR)))
            kinds >>= 4
        return (a[at], a[at + 1]), vals

    def is_message(f, vals):
        if len(vals) != len(args) or (msg is None and not isinstance(f[0], Loc)):
            return z3.BoolVal(False)
        return z3.And(*([same(x, y) for x, y in zip(f, msg)] if msg is not None else []), *[same(v[1], x) for v, x in zip(vals, args)])

    def vformat(E, st, a):
        f, vals = given(E, st, a, 1)
        if msg is not None:
            E.oblige(st, "callback: exactly the message is formatted", z3.And(*[same(x, y) for x, y in zip(f, msg)]))
        E.oblige(st, "callback: the number of arguments is the given one", z3.BoolVal(len(vals) == len(args)))
        for k, (v, x) in enumerate(zip(vals, args)):
            E.oblige(st, f"callback: argument {k} is formatted", same(v[1], x))
        st.gh["format"] = st.gh["format"] + (a[0],)
        st.gh["text"] = dict(st.gh["text"], **{str((a[0].o, a[0].f)): True})
        s2 = st.copy()
        s2.gh["format_error"] = True
        return [("ret", st, None), ("throw", s2, (0, 1))]
    C.ghost("format_error", False)
    C.regex(r"(^| )fmt::v\d+::vformat\b", vformat)

    def vprint(E, st, a):
        f, vals = given(E, st, a, 1)
        whole = [v for k, v in vals if k in (12, 13) and isinstance(v, Loc) and str(v.o).endswith("!text")]
        st.gh["log"] = st.gh["log"] + ((getattr(a[0], "o", a[0]), z3.Or(is_message(f, vals), z3.BoolVal(len(whole) == 1))),)
        s2 = st.copy()
        s2.gh["format_error"] = True
        return [("ret", st, None), ("throw", s2, (0, 1))]
    C.regex(r"(^| )void fmt::v\d+::vprint<", vprint)

    def data(E, st, a):
        if not isText(st, a[0]):
            raise Unsupported("characters of an unknown string")
        return Loc(f"{a[0].o}!{a[0].f}!text", 0)
    C.regex(STR + r"(data|c_str|begin|cbegin)\(\)", data)
    C.regex(STR + r"(size|length)\(\)", lambda E, st, a: E.mod_fresh(st, "size", 62))
    C.regex(STR + r"operator std::basic_string_view", lambda E, st, a: (E.mod_fresh(st, "size", 62), data(E, st, a)))

    def take(E, st, a):
        st.gh["text"] = dict(st.gh["text"], **{str((a[0].o, a[0].f)): isText(st, a[1])})
    C.regex(STR + r"basic_string\(std::__cxx11::basic_string<.*> const&\)", take)

    def move(E, st, a):
        t = isText(st, a[1])
        st.gh["text"] = dict(st.gh["text"], **{str((a[1].o, a[1].f)): False}) | {str((a[0].o, a[0].f)): t}
    C.regex(STR + r"basic_string\(std::__cxx11::basic_string<.*>&&\)", move)

    def ctor(E, st, a):
        st.gh["what"] = dict(st.gh["what"], **{str((a[0].o, a[0].f)): isText(st, a[1])})
    C.regex(r"^std::runtime_error::runtime_error\((std::__cxx11::basic_string<.*> const&|char const\*)\)", ctor)
    C.regex(STR + r"~basic_string", lambda E, st, a: None)
    C.extern("gmtime_r", lambda E, st, a: a[1])
    C.regex(r"^std::chrono::_V2::system_clock::now", lambda E, st, a: E.fresh("now"))


def made(st):
    """the exception that is thrown was made from the text that was formatted"""
    x = st.gh["exn"]
    return z3.BoolVal(len(x) == 2 and isinstance(x[0], Loc) and st.gh["what"].get(str((x[0].o, x[0].f)), False) is True)


def throws(C, c, logged):
    C.post(lambda st, r: [("post: returns only if the condition holds", c), ("post: a successful verification does nothing", z3.BoolVal(not st.gh["what"] and not st.gh["exn"] and not st.gh["format"] and not st.gh["log"]))])

    def log(st):
        l = st.gh["log"]
        if not logged:
            return [("post: nothing is logged", z3.BoolVal(not l))]
        return [("post: only the log stream is written to", z3.BoolVal(all("clog" in str(s) for s, m in l))),
                ("post: the message is logged exactly once", z3.PbEq([(m, 1) for s, m in l], 1) if l else z3.BoolVal(False))]
    C.on_throw(lambda st, v: [("post: throws only if the condition does not hold", Not(c))] + ([] if st.gh["format_error"] else
                             [("post: the exception is a std::runtime_error with the formatted text", z3.And(made(st), z3.BoolVal(len(st.gh["exn"]) == 2 and RT in str(st.gh["exn"][1]))))] + log(st)))


@unit("C18", H, "verify_silent")
def _(C):
    b, e = cond(C)
    x = C.sym("x")
    C.args(e, x)
    thrown(C)
    formatting(C, None, (x,))
    throws(C, b, False)


@unit("C18", H, "fail")
def _(C):
    m = C.view("message")
    x = C.sym("x")
    C.args(m.base, m.n, x)
    thrown(C)
    formatting(C, (m.base, m.n), (x,))
    throws(C, z3.BoolVal(False), True)


@unit("C18", H, "fail0")
def _(C):
    """also without arguments the message is a format string ({{ stands for {)"""
    m = C.view("message")
    C.args(m.base, m.n)
    thrown(C)
    formatting(C, (m.base, m.n))
    throws(C, z3.BoolVal(False), True)


@unit("C18", H, "verify_macro")
def _(C):
    x = C.sym("x")
    C.args(x)
    thrown(C)
    fail_contract(C)
    b = C.boolv("condition")
    C.ghost("asked", 0)
    C.ghost("after", 0)

    def cb(E, st, a):
        st.gh["asked"] += 1
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))
    C.extern("cb_cond", cb)
    C.extern("cb_after", lambda E, st, a: st.gh.__setitem__("after", st.gh["after"] + 1))
    C.post(lambda st, r: [("post: goes on exactly if the condition holds", z3.And(b, z3.BoolVal(st.gh["after"] == 1))), ("post: the condition is evaluated exactly once", z3.BoolVal(st.gh["asked"] == 1))])
    C.on_throw(lambda st, v: [("post: throws exactly if the condition does not hold", z3.And(Not(b), z3.BoolVal(st.gh["after"] == 0))), ("post: the condition is evaluated exactly once", z3.BoolVal(st.gh["asked"] == 1))] + ([] if st.gh["format_error"] else
               [("post: fail gets the argument", Z(st.gh["fails"][0][3]) == x if len(st.gh["fails"]) == 1 else z3.BoolVal(False)), ("post: the exception is the std::runtime_error made by fail", z3.And(made(st), z3.BoolVal(RT in str(st.gh["exn"][1]))))]))


for e in ("verify_ex", "verify_ex_ref"):
    @unit("C18", H, e)
    def _(C, e=e):
        b, c = cond(C)
        if e == "verify_ex":
            x = C.sym("x")
            C.args(c, x)
        else:
            r = C.region("e", 8, count=z3.IntVal(1))
            x = SEL(C.E.mem(C.st, "m8"), r.base)
            C.args(c, r.base)
        thrown(C)
        C.post(lambda st, r: [("post: returns only if the condition holds", b), ("post: nothing is logged", z3.BoolVal(not st.gh["log"]))])

        def ex(st, v):
            return [("post: throws only if the condition does not hold", Not(b)), ("post: nothing is logged", z3.BoolVal(not st.gh["log"])), ("post: the exception is the given one", z3.And(z3.BoolVal("8my_error" in str(st.gh["exn"][1])), Z(C.E.load(st, st.gh["exn"][0], L.IntTy(64))) == x))]
        C.on_throw(ex)
