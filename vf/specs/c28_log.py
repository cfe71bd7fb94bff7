"""C28: log lines, timers, timing macros and thread names."""
from ..spec import *
from .. import llparse as L
import re as _re

H = "log"
STR = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s?>::"
LEVELS = ["emrg", "alrt", "crit", "erro", "warn", "note", "info", "debg"]
FORMAT = "%FT%TZ%z"          # 2011-10-08T07:07:09Z+0000: 25 characters for years with four digits, up to 32 for others


def literal(st, p):
    """the characters of a string literal"""
    if not isinstance(p, Loc) or not isinstance(p.f, int) or p.o not in st.objs:
        return None
    o, r, k = st.objs[p.o], "", p.f
    while True:
        c = o.cells.get(k)
        v = c[1] if c else next((b for lo, hi, b in o.fill if lo <= k < hi), None)
        if not isinstance(v, int):
            return None
        if v == 0:
            return r
        r += chr(v)
        k += 1


class Log:
    """what is written to the log stream, as literal text and values; texts are values too"""

    def __init__(t, C):
        t.C = C
        C.fp_real = True
        for k, v in (("out", ()), ("strs", {}), ("bufs", {}), ("tms", {}), ("clock", ()), ("nows", ()), ("did", ()), ("n", 0)):
            C.ghost(k, v)
        C.regex(r"^std::chrono::_V2::steady_clock::now", t.clock)
        C.extern("time", t.now)
        C.extern("gmtime_r", lambda E, st, a: t.broken_down(E, st, a, "utc"))
        C.extern("localtime_r", lambda E, st, a: t.broken_down(E, st, a, "local"))
        C.extern("strftime", t.strftime)
        C.extern("strrchr", t.strrchr)
        C.extern("cb_do", t.do)
        C.extern("cb_end", lambda E, st, a: t.did(st, "end"))
        C.regex(STR + r"basic_string\(std::__cxx11::basic_string<.*> const&\)", lambda E, st, a: t.put(st, a[0], t.get(st, a[1])))
        C.regex(STR + r"basic_string\(std::__cxx11::basic_string<.*>&&\)", t.move)
        C.regex(STR + r"basic_string<std::allocator<char>\s?>\(char const\*, ", t.from_chars)
        C.regex(STR + r"basic_string\(char const\*, unsigned long, ", t.from_part)
        C.regex(STR + r"~basic_string\(", lambda E, st, a: None)
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<<<.*\(std::basic_ostream<.*>&, char const\*\)", lambda E, st, a: t.write(E, st, a, literal(st, a[1]) if literal(st, a[1]) is not None else t.buf(st, a[1])))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<<<.*\(std::basic_ostream<.*>&, char\)", lambda E, st, a: t.write(E, st, a, chr(a[1]) if isinstance(a[1], int) else ("char", a[1])))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<<<.*\(std::basic_ostream<.*>&, std::__cxx11::basic_string<", lambda E, st, a: t.write(E, st, a, t.get(st, a[1])))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<<<.*\(std::basic_ostream<.*>&, std::basic_string_view<", lambda E, st, a: t.write(E, st, a, ("text", a[2], a[1])))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::__ostream_insert<", lambda E, st, a: t.write(E, st, a, ("text", a[1], a[2])))
        C.regex(r"^std::(basic_)?ostream(<.*>)?::operator<<\((int|long|unsigned int|unsigned long|short)\)", lambda E, st, a: t.write(E, st, a, str(a[1]) if isinstance(a[1], int) else ("int", a[1])))
        C.regex(r"^std::(basic_)?ostream(<.*>)?& std::(basic_)?ostream(<.*>)?::_M_insert<(double|long double)>", lambda E, st, a: t.write(E, st, a, ("real", a[1])))
        C.regex(r"^std::(basic_)?ostream(<.*>)?& std::(basic_)?ostream(<.*>)?::_M_insert<(long|unsigned long)>", lambda E, st, a: t.write(E, st, a, str(a[1]) if isinstance(a[1], int) else ("int", a[1])))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::endl<", lambda E, st, a: t.write(E, st, a, "\n"))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::flush<", lambda E, st, a: a[0])
        C.regex(r"^std::(basic_)?ostream(<.*>)?::flush\(\)", lambda E, st, a: a[0])
        C.E.assumed.add("std::clog: what is written appears in order; std::string: a value; steady_clock never goes back; gmtime_r, strftime: the given time in UTC and its text")
        C.on_throw(lambda st, v: [("post: no exception leaves the unit", z3.BoolVal(False))])

    def string(t, name):
        p = t.C.object(name, 32)
        t.C.st.gh["strs"] = dict(t.C.st.gh["strs"], **{str((p.o, p.f)): ("string", name)})
        return p

    def put(t, st, p, v):
        st.gh["strs"] = dict(st.gh["strs"], **{str((p.o, p.f)): v})

    def get(t, st, p):
        v = st.gh["strs"].get(str((p.o, p.f)))
        if v is None:
            raise Unsupported("unknown string")
        return v

    def move(t, E, st, a):
        t.put(st, a[0], t.get(st, a[1]))
        t.put(st, a[1], ("string", "moved from"))

    def did(t, st, what):
        st.gh["did"] = st.gh["did"] + ((what, len(st.gh["out"]), len(st.gh["clock"])),)

    def do(t, E, st, a):
        t.did(st, "do")

    def clock(t, E, st, a):
        v = E.fresh("clock")
        st.assume(v >= 0, v < (1 << 62), *([v >= st.gh["clock"][-1]] if st.gh["clock"] else []))
        st.gh["clock"] = st.gh["clock"] + (v,)
        return v

    def now(t, E, st, a):
        v = E.mod_fresh(st, "now", 64)
        st.gh["nows"] = st.gh["nows"] + (v,)
        if isinstance(a[0], Loc):
            E.store(st, a[0], v, L.IntTy(64))
        return v

    def broken_down(t, E, st, a, zone):
        v = E.load(st, a[0], L.IntTy(64))
        st.gh["tms"] = dict(st.gh["tms"], **{str((a[1].o, a[1].f)): (zone, v)})
        return a[1]

    def strftime(t, E, st, a):
        """the text if it fits, else 0 and an undefined buffer"""
        zone, v = st.gh["tms"].get(str((a[3].o, a[3].f)), ("?", 0))
        E.oblige(st, "value: the time is formatted as YYYY-MM-DDThh:mm:ssZ+zone", z3.BoolVal(literal(st, a[2]) == FORMAT))
        o = st.objs.get(getattr(a[0], "o", None))
        E.oblige(st, "memory: the text gets a writable block of that size", z3.BoolVal(isinstance(a[0], Loc) and isinstance(a[1], int) and o is not None and o.size is not None and a[0].f + a[1] <= o.size))
        n = E.fresh("length")
        st.assume(n >= 25, n <= 32)
        s2 = st.copy()
        k = str((a[0].o, a[0].f))
        st.assume(n < a[1])
        st.gh["bufs"] = dict(st.gh["bufs"], **{k: ("time", zone, v, n)})
        s2.assume(n >= a[1])
        s2.gh["bufs"] = dict(s2.gh["bufs"], **{k: ("undefined",)})
        return [("ret", s, r) for s, r in ((st, n), (s2, 0)) if E.sol.check(s.pc, [], 2000)[0] != z3.unsat]

    def buf(t, st, p):
        return st.gh["bufs"].get(str((getattr(p, "o", p), getattr(p, "f", 0))), ("undefined",))

    def from_chars(t, E, st, a):
        l = literal(st, a[1])
        v = l if l is not None else t.buf(st, a[1])
        E.oblige(st, "memory: only a text that was written is used", z3.BoolVal(v != ("undefined",)))
        t.put(st, a[0], v)

    def from_part(t, E, st, a):
        v = t.buf(st, a[1])
        if v[0] == "undefined":
            E.oblige(st, "memory: only a text that was written is used", Z(a[2]) == 0)
            v = ""
        else:
            E.oblige(st, "memory: exactly the text that was written is used", Z(a[2]) == v[3])
        t.put(st, a[0], v)

    def strrchr(t, E, st, a):
        s = literal(st, a[0])
        if s is None or not isinstance(a[1], int):
            raise Unsupported("strrchr of an unknown text")
        k = s.rfind(chr(a[1]))
        return 0 if k < 0 else Loc(a[0].o, a[0].f + k)

    def write(t, E, st, a, v):
        E.oblige(st, "callback: only the log stream is written to", z3.BoolVal("clog" in str(getattr(a[0], "o", a[0]))))
        st.gh["out"] = st.gh["out"] + (v,)
        return a[0]

    # ---- lines
    def line(t, st, out, level, where, *msg):
        """-> conditions: the pieces are one line of that level, place and message.  Values in msg: tuples"""
        pat, vals, got = "", [], []
        for x in out:
            if isinstance(x, str):
                pat += x.replace("\1", "?")
            else:
                pat += "\1"
                got.append(x)
        want = _re.escape("[" + level + "][") + "\1" + _re.escape("]") + r"\[" + where + r"\] "
        for m in msg:
            want += _re.escape(m) if isinstance(m, str) else "\1"
        want += "\n"
        ok = bool(_re.fullmatch(want, pat)) and len(got) == 1 + sum(not isinstance(m, str) for m in msg)
        fs = [("post: the line is [level][time][file:line] message, ended by a newline", z3.BoolVal(ok))]
        if ok:
            fs.append(("post: the line tells the present time, in UTC", z3.BoolVal(got[0][0] == "time" and got[0][1] == "utc" and any(got[0][2] is n for n in st.gh["nows"]))))
            fs.append(("post: the line tells the given values", And(*[t.eq(g, m) for g, m in zip(got[1:], [m for m in msg if not isinstance(m, str)])])))
        return fs

    def eq(t, g, m):
        if g[0] != m[0] or len(g) != len(m):
            return z3.BoolVal(False)
        return And(z3.BoolVal(True), *[z3.BoolVal(x == y) if isinstance(x, str) or isinstance(y, str) else x == y for x, y in zip(g[1:], m[1:])])

    def lines(t, st):
        r, cur = [], []
        for x in st.gh["out"]:
            cur.append(x)
            if x == "\n":
                r.append(cur)
                cur = []
        return r + ([cur] if cur else [])

    def ms(t, st, i, j):
        """milliseconds between two readings of the clock: whole microseconds, divided by 1000"""
        return ("real", z3.ToReal((st.gh["clock"][j] - st.gh["clock"][i]) / 1000) / 1000)


@unit("C28", H, "line")
def _(C):
    "one line: level, time, place, message, newline"
    t = Log(C)
    x = C.sym("x")
    C.args(t.string("a"), x)
    sx = z3.If(x < (1 << 63), x, x - (1 << 64))
    C.post(lambda st, r: [("post: one line is written", z3.BoolVal(len(t.lines(st)) == 1 and st.gh["did"][0][1] == len(st.gh["out"])))] + t.line(st, st.gh["out"], "warn", r"log\.cc:\d+", ("string", "a"), " is ", ("int", x)))


@unit("C28", H, "levels")
def _(C):
    "every level has its name"
    t = Log(C)
    C.args()

    def post(st, r):
        ls = t.lines(st)
        return [("post: one line is written for each level", z3.BoolVal(len(ls) == 8))] + [f for k, l in zip(LEVELS, ls) for f in t.line(st, l, k, r"log\.cc:\d+", k)]
    C.post(post)


for nm in ("time_at", "time_now"):
    @unit("C28", H, nm)
    def _(C, nm=nm):
        "a time, whatever its year, is told in UTC"
        t = Log(C)
        x = C.sym("x")
        if nm == "time_at":
            C.args(x)
        C.ghost("ret", None)
        C.extern("cb_ret", lambda E, st, a: st.gh.__setitem__("ret", t.get(st, a[0])))

        def post(st, r):
            v = st.gh["ret"]
            ok = isinstance(v, tuple) and v[0] == "time" and v[1] == "utc"
            return [("post: the text is that of the time, in UTC", z3.BoolVal(ok)), ("post: the time is the given one" if nm == "time_at" else "post: the time is the present one",
                    Z(v[2]) == x if ok and nm == "time_at" else z3.BoolVal(ok and any(v[2] is n for n in st.gh["nows"])))]
        C.post(post)


def timer(name, view, msgs):
    @unit("C28", H, name)
    def _(C):
        "one line when the timer starts, one for each stop; elapsed time: from its construction"
        t = Log(C)
        n = t.string("name")
        if view:
            p, k = C.sym("text"), C.sym("length")
            C.args(n, p, k)
        else:
            C.args(n)

        def post(st, r):
            ls, T = t.lines(st), r"timer\.cc:\d+"
            ok = len(ls) == 1 + len(msgs) and len(st.gh["clock"]) == 1 + len(msgs)
            out = [("post: one line for the start and one for each further message", z3.BoolVal(ok))]
            if not ok:
                return out
            # each line, and its reading of the clock, in its place between the steps of the program
            at, did = [sum(len(l) for l in ls[:i + 1]) for i in range(len(ls))], st.gh["did"]
            more = len(did) - len(ls)
            out.append(("post: each line is written at its time", z3.BoolVal(more >= 0 and [d[1] for d in did] == at + at[-1:] * more)))
            out.append(("post: the clock is read at the start and at each message", z3.BoolVal([d[2] for d in did] == list(range(1, len(ls) + 1)) + [len(ls)] * more)))
            out += t.line(st, ls[0], "info", T, "[", ("string", "name"), "] starting")
            for i, m in enumerate(msgs):
                w = ["finished"] if m == "finished" else [("text", p, k)]
                out += t.line(st, ls[i + 1], "info", T, "[", ("string", "name"), "] ", *w, " (", t.ms(st, 0, i + 1), "ms)") if w[0] != "finished" else \
                    t.line(st, ls[i + 1], "info", T, "[", ("string", "name"), "] finished (", t.ms(st, 0, i + 1), "ms)")
            return out
        C.post(post)


timer("scoped", False, ["finished"])
timer("scoped_print", True, ["print", "finished"])


timer("manual", True, ["print", "finished"])


for nm, div in (("timing_ms", 1000000), ("timing_us", 1000), ("get_timing_ms", 1000000), ("get_timing_us", 1000)):
    @unit("C28", H, nm)
    def _(C, nm=nm, div=div):
        "whole units between the start and the stop"
        t = Log(C)
        C.ghost("val", None)
        C.extern("out_i", lambda E, st, a: st.gh.__setitem__("val", Z(a[0])))

        def post(st, r):
            c = st.gh["clock"]
            ok = len(c) == 2 and st.gh["val"] is not None and [d[2] for d in st.gh["did"]] == [1, 2][:len(st.gh["did"])]
            return [("post: the clock is read at the start and at the stop", z3.BoolVal(ok)), ("post: the whole units that passed", st.gh["val"] == (c[1] - c[0]) / div if ok else z3.BoolVal(False))]
        C.post(post)


for nm in ("thread_name", "current_thread_name"):
    @unit("C28", H, nm)
    def _(C, nm=nm):
        "the thread gets the name"
        t = Log(C)
        n = t.string("name")
        C.ghost("named", ())
        h = C.sym("handle")
        self = z3.Int("this thread")
        C.args(*([C.object("thread", 8, o0_8=h)] if nm == "thread_name" else []), n)
        C.extern("pthread_self", lambda E, st, a: self)
        C.regex(STR + r"(data|c_str)\(\)", lambda E, st, a: Loc("chars of " + str(t.get(st, a[0])), 0))

        def setname(E, st, a):
            st.gh["named"] = st.gh["named"] + ((a[0], getattr(a[1], "o", a[1])),)
            return E.mod_fresh(st, "result", 32)
        C.extern("pthread_setname_np", setname)
        C.post(lambda st, r: [("post: exactly this thread gets exactly this name", z3.And(z3.BoolVal(len(st.gh["named"]) == 1 and st.gh["named"][0][1] == "chars of " + str(("string", "name"))), Z(st.gh["named"][0][0]) == (h if nm == "thread_name" else self)) if st.gh["named"] else z3.BoolVal(False))])


# ---------------------------------------------------------------- printable enums
@unit("C28", "penum", "name")
def _(C):
    """the name of each enumerator, for every list of names (identifiers separated by a comma and any blanks)"""
    I = z3.IntSort()
    s = C.region("list", 1)
    v, K = C.sym("value", 32), C.sym("number of names", 32)
    C.args(v)
    C.bytes_typed()
    M = C.E.mem(C.st, "m1")
    end = s.base + s.n
    B, S, F, D, nm = (z3.Function(n, I, I) for n in ("place of name", "name starts", "name ends", "comma behind", "name at"))
    at = lambda i: SEL(M, i)
    C.require(v < K, s.n < (1 << 31), s.base > 0, B(0) == s.base, K > 0, D(v) <= end)
    C.require(Forall(1, lambda k: Imp(z3.And(k >= 0, k < K), z3.And(s.base <= B(k), B(k) <= S(k), S(k) < F(k), F(k) <= D(k), D(k) <= end,
                                      z3.If(k + 1 == K, D(k) >= end - 1, z3.And(D(k) < end, B(k + 1) == D(k) + 1)))), lambda k: [D(k), S(k), F(k)]))
    C.require(Forall(1, lambda i: Imp(z3.And(i >= s.base, i < end), z3.And(nm(i) >= 0, nm(i) < K, B(nm(i)) <= i, i <= D(nm(i)),
                                      z3.If(i == D(nm(i)), at(i) == 44, z3.If(z3.And(S(nm(i)) <= i, i < F(nm(i))), z3.And(at(i) != 32, at(i) != 44, at(i) != 0), at(i) == 32)))), lambda i: at(i)))
    C.require(Forall(2, lambda i, k: Imp(z3.And(k >= 0, k < K, B(k) <= i, i <= D(k)), nm(i) == k), lambda i, k: [(at(i), D(k))]))
    C.ghost("ret", None)
    C.extern("cb_ret", lambda E, st, a: None)
    C.regex(STR + r"basic_string<std::allocator<char>\s?>\(char const\*, ", lambda E, st, a: None)
    C.regex(STR + r"(begin|data|c_str|cbegin)\(\)", lambda E, st, a: s.base)
    C.regex(STR + r"(end|cend)\(\)", lambda E, st, a: end)
    C.regex(STR + r"(size|length)\(\)", lambda E, st, a: s.n)
    C.regex(STR + r"~basic_string\(", lambda E, st, a: None)

    def part(E, st, a):
        st.gh["ret"] = (Z(a[1]), Z(a[2]))
    C.regex(STR + r"basic_string<(__gnu_cxx::__normal_iterator<char( const)?\*, .*>|char( const)?\*), void>\(", part)
    C.regex(STR + r"basic_string\(char const\*, unsigned long, ", lambda E, st, a: st.gh.__setitem__("ret", (Z(a[1]), Z(a[1]) + Z(a[2]))))
    C.regex(STR + r"basic_string\(std::__cxx11::basic_string<.*>( const&|&&)\)", lambda E, st, a: None)

    def cands(E, Hd):
        out = []
        ints = [(n, g) for n, g in Hd.ints if not n.startswith("cell")] + [(n, g) for n, g in Hd.const if n.startswith("%")]
        for n, g in Hd.pos:
            p = lambda st, g=g: Z(g(st))
            out.append((f"{n} in the list", lambda st, p=p: z3.And(p(st) >= s.base, p(st) <= end)))
            for m, h in ints:
                i = lambda st, h=h: Z(h(st))
                ok = lambda st, i=i: z3.And(i(st) <= v, D(i(st)) <= end)
                prev = lambda st, i=i: z3.And(i(st) <= v + 1, Imp(i(st) > 0, z3.And(D(i(st) - 1) <= end)))
                out += [(f"{n} is the start of the name before {m}", lambda st, p=p, i=i, prev=prev: z3.And(prev(st), Imp(i(st) > 0, p(st) == S(i(st) - 1)))),
                        (f"{n} is the comma before {m}", lambda st, p=p, i=i, prev=prev: z3.And(prev(st), Imp(i(st) > 0, p(st) == D(i(st) - 1)), Imp(i(st) == 0, p(st) == s.base))),
                        (f"{n} is the end of the name before {m}", lambda st, p=p, i=i, prev=prev: z3.And(prev(st), Imp(i(st) > 0, p(st) == F(i(st) - 1)), Imp(i(st) == 0, p(st) == s.base))),
                        (f"{n} is between the names before {m}", lambda st, p=p, i=i, ok=ok: z3.And(ok(st), p(st) <= S(i(st)), z3.If(i(st) == 0, p(st) >= s.base, z3.And(D(i(st) - 1) <= p(st), D(i(st) - 1) < end)))),
                        (f"{n} is the start of name {m}", lambda st, p=p, i=i, ok=ok: z3.And(ok(st), p(st) == S(i(st)))),
                        (f"{n} is within name {m} or behind", lambda st, p=p, i=i, ok=ok: z3.And(ok(st), p(st) >= S(i(st)), p(st) <= D(i(st)))),
                        (f"{n} is behind name {m}, before its comma", lambda st, p=p, i=i, ok=ok: z3.And(ok(st), p(st) >= F(i(st)), p(st) <= D(i(st)))),
                        (f"4*{m} = rest/4 from {n}", lambda st, p=p, i=i: z3.And(p(st) + 4 * i(st) <= end, end < p(st) + 4 * i(st) + 4))]
            out += [(f"{n} is behind the name of the value, before its comma", lambda st, p=p: z3.And(p(st) >= F(v), p(st) <= D(v))), (f"{n} is the start of the value's name", lambda st, p=p: p(st) == S(v))]
        return out
    C.inv(cands)
    C.post(lambda st, r: [("post: exactly the name of the enumerator", z3.And(st.gh["ret"][0] == S(v), st.gh["ret"][1] == F(v)) if st.gh["ret"] else z3.BoolVal(False))])


@unit("C28", "penum", "print")
def _(C):
    "an enumerator is printed as its name, once"
    t = Log(C)
    v = C.sym("value", 32)
    out = C.object("out", 8)
    C.args(out, v)
    C.ghost("names", ())

    def name(E, st, a):
        st.gh["names"] = st.gh["names"] + (a[1],)
        t.put(st, a[0], ("name", Z(a[1])))
    C.regex(r"^as_string", name)

    def write(E, st, a, v):
        E.oblige(st, "callback: only the given stream is written to", z3.BoolVal(getattr(a[0], "o", None) == out.o))
        st.gh["out"] = st.gh["out"] + (v,)
        return a[0]
    t.write = write
    C.post(lambda st, r: [("post: exactly the name of the given value is printed", z3.And(z3.BoolVal(len(st.gh["out"]) == 1), st.gh["out"][0][1] == v) if st.gh["out"] and isinstance(st.gh["out"][0], tuple) and st.gh["out"][0][0] == "name" else z3.BoolVal(False)),
                          ("post: the stream is returned", z3.BoolVal(getattr(r, "o", None) == out.o))])


# ---------------------------------------------------------------- compile-time text constants
@unit("C28", "conststr", "literal")
def _(C):
    "for every NUL-terminated text: its first 30 characters, NUL behind them, nothing behind its end is read"
    s = C.region("text", 1)
    n = C.sym("length")
    C.args(s.base)
    C.bytes_typed()
    M = C.E.mem(C.st, "m1")
    C.require(s.n == n + 1, SEL(M, s.base + n) == 0, Forall(1, lambda i: Imp(z3.And(i >= s.base, i < s.base + n), SEL(M, i) != 0), lambda i: SEL(M, i)))
    C.ghost("k", 0)

    def ch(E, st, a):
        k = st.gh["k"]
        E.oblige(st, "post: the characters are told in order", Z(a[0]) == k)
        E.oblige(st, "post: exactly the character of the text, NUL behind its end", (Z(a[1]) % 256) == z3.If(k < n, SEL(M, s.base + k), 0))
        st.gh["k"] = k + 1
    C.extern("cb_char", ch)
    C.post(lambda st, r: [("post: all characters are told", z3.BoolVal(st.gh["k"] == 30))])


@unit("C28", "conststr", "constant")
def _(C):
    "the constant is the text, NUL-terminated"
    C.args()
    C.ghost("texts", ())

    def text(E, st, a):
        st.gh["texts"] = st.gh["texts"] + (literal(st, a[0]),)
    C.extern("cb_text", text)
    C.post(lambda st, r: [("post: exactly the text of the literal", z3.BoolVal(st.gh["texts"] == ("abcdefghijklmnopqrstuvwxyz0123", "some text", "")))])
