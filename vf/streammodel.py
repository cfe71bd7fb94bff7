"""contracts of file input streams (trusted): a stream reads the bytes of its file in order and reports failures in its state"""
import z3
from .engine import *  # noqa
from . import llparse as L

EXC = z3.Int("typeid___ZTISt9exception")
EOFBIT, FAILBIT, BADBIT = 2, 4, 1


def streams(C, names):
    """names: ghost prefix -> region with the bytes; the streams are named in the order they are constructed; "cin" is std::cin"""
    order = [n for n in names if n != "cin"]
    C.throw_sel = EXC
    C.ghost("streams", {})        # object -> name
    C.ghost("masks", {})
    C.ghost("made", 0)
    C.ghost("alive", 0)
    C.ghost("failures", False)    # an operation failed for a reason other than the end of the file
    for n in names:
        C.ghost(n + ".pos", z3.IntVal(0))
        C.ghost(n + ".open", n == "cin")
        for b in ("eof", "fail"):
            C.ghost(n + "." + b, z3.BoolVal(False))
    for o in ("@vt_ifstream", "@vt_cin"):
        vt = Obj(24, o)
        vt.cells[0] = (8, 256)
        C.st.objs[o] = vt
    if "cin" in names:
        o = Obj(None, "cin")
        o.cells[0] = (8, Loc("@vt_cin", 24))
        C.st.objs["g:@_ZSt3cin"] = o
        C.st.gh["streams"] = {"g:@_ZSt3cin": "cin"}

    def name(st, p):
        n = st.gh["streams"].get(getattr(p, "o", None))
        if n is None:
            raise Unsupported("stream operation on an unknown object")
        return n

    def size(st, n):
        """a stream without an open file has no bytes"""
        return names[n].n if st.gh[n + ".open"] else z3.IntVal(0)

    def raised(E, st, n):
        """outcomes of an operation that may have set failure bits: throws where the exception mask asks for it"""
        m = st.gh["masks"].get(n, 0)
        bad = z3.Or(z3.And(z3.BoolVal(bool(m & FAILBIT)), st.gh[n + ".fail"]), z3.And(z3.BoolVal(bool(m & EOFBIT)), st.gh[n + ".eof"]))
        out = []
        t = st.copy()
        t.assume(bad)
        if E.sol.check(t.pc, [], 2000)[0] != z3.unsat:
            out.append((t, True))
        st.assume(z3.Not(bad))
        if E.sol.check(st.pc, [], 2000)[0] != z3.unsat:
            out.append((st, False))
        return out

    def results(E, st, n, v):
        return [("throw", s, (0, EXC)) if thrown else ("ret", s, v) for s, thrown in raised(E, st, n)]

    def op_or(E, st, a):
        if isinstance(a[0], int) and isinstance(a[1], int):
            return a[0] | a[1]
        raise Unsupported("symbolic stream flags")

    def opened(E, st, n, mode):
        """-> states: opened, or failed"""
        t = st.copy()
        t.gh["failures"] = True
        t.gh[n + ".fail"] = z3.BoolVal(True)
        if not isinstance(mode, int):
            raise Unsupported("symbolic open mode")
        st.gh[n + ".pos"] = names[n].n if mode & 2 else z3.IntVal(0)
        st.gh[n + ".open"] = True
        return [("ret", s, None) for s in (t, st)]

    def make(st, p):
        k = st.gh["made"]
        if k >= len(order):
            raise Unsupported("more streams than modelled")
        st.gh["made"] = k + 1
        st.gh["alive"] += 1
        st.gh["streams"] = dict(st.gh["streams"], **{p.o: order[k]})
        o = st.wobj(p.o)
        o.cells[0] = (8, Loc("@vt_ifstream", 24))
        return order[k]

    def ctor(E, st, a):
        make(st, a[0])

    def path_ok(E, st, p):
        E.oblige(st, "callback: the given file is opened", Z(p) == C.path)

    def ctor_open(E, st, a):
        n = make(st, a[0])
        path_ok(E, st, a[1])
        return opened(E, st, n, a[2])

    def open_(E, st, a):
        path_ok(E, st, a[1])
        return opened(E, st, name(st, a[0]), a[2])

    def dtor(E, st, a):
        name(st, a[0])
        st.gh["alive"] -= 1

    def exceptions(E, st, a):
        n = name(st, a[0])
        if not isinstance(a[1], int):
            raise Unsupported("symbolic stream flags")
        st.gh["masks"] = dict(st.gh["masks"], **{n: a[1]})
        return results(E, st, n, None)

    def tellg(E, st, a):
        n = name(st, a[0])
        if not st.gh[n + ".open"]:
            raise Unsupported("position of a stream without a file")
        t = st.copy()
        t.gh["failures"] = True
        t.gh[n + ".fail"] = z3.BoolVal(True)
        out = results(E, t, n, ((1 << 64) - 1, 0))
        st.assume(z3.Not(st.gh[n + ".fail"]))
        if E.sol.check(st.pc, [], 2000)[0] != z3.unsat:
            out.append(("ret", st, (st.gh[n + ".pos"], 0)))
        return out

    def seekg(E, st, a):
        n = name(st, a[0])
        if not st.gh[n + ".open"]:
            raise Unsupported("position of a stream without a file")
        off = E.sgn(st, a[1], 64)
        d = a[2] if len(a) > 2 and isinstance(a[2], int) else 0
        t = st.copy()
        t.gh["failures"] = True
        t.gh[n + ".fail"] = z3.BoolVal(True)
        out = results(E, t, n, a[0])
        st.assume(z3.Not(st.gh[n + ".fail"]))
        if E.sol.check(st.pc, [], 2000)[0] != z3.unsat:
            st.gh[n + ".eof"] = z3.BoolVal(False)
            st.gh[n + ".pos"] = Z(off) + {0: 0, 1: st.gh[n + ".pos"], 2: names[n].n}[d]
            st.assume(st.gh[n + ".pos"] >= 0)
            out.append(("ret", st, a[0]))
        return out

    def read(E, st, a):
        n = name(st, a[0])
        E.oblige(st, "memory: read gets a writable block of that size", E.range_ok(st, a[1], a[2], write=True))
        r = names[n]
        p = st.gh[n + ".pos"]
        rest = z3.If(p < size(st, n), size(st, n) - p, z3.IntVal(0))
        c = E.fresh("read")
        good = z3.And(z3.Not(st.gh[n + ".eof"]), z3.Not(st.gh[n + ".fail"]))
        st.assume(c >= 0, c <= a[2], c <= rest, Imp(z3.Not(good), c == 0))
        m, new = E.region_havoc(st, "m1")
        st.assume(Forall(1, lambda k: z3.Select(new, k) == z3.If(z3.And(k >= a[1], k < Z(a[1]) + c), z3.Select(m, k - Z(a[1]) + r.base + p), z3.Select(m, k)), lambda k: z3.Select(new, k)))
        st.gh[n + ".pos"] = p + c
        st.gh[n + ".count"] = c
        t = st.copy()
        t.assume(c < a[2])
        t.gh["failures"] = z3.Or(Z(t.gh["failures"]) if z3.is_expr(t.gh["failures"]) else z3.BoolVal(t.gh["failures"]), z3.And(c < rest, good))
        t.gh[n + ".fail"] = z3.BoolVal(True)
        t.gh[n + ".eof"] = z3.Or(st.gh[n + ".eof"], c == rest)
        out = []
        if E.sol.check(t.pc, [], 2000)[0] != z3.unsat:
            out += results(E, t, n, a[0])
        st.assume(c == a[2], good)
        if E.sol.check(st.pc, [], 2000)[0] != z3.unsat:
            out.append(("ret", st, a[0]))
        return out

    def peek(E, st, a):
        n = name(st, a[0])
        r, p = names[n], st.gh[n + ".pos"]
        good = z3.And(z3.Not(st.gh[n + ".eof"]), z3.Not(st.gh[n + ".fail"]))
        at_end = z3.And(good, p >= size(st, n))
        st.gh[n + ".eof"] = z3.simplify(z3.Or(st.gh[n + ".eof"], at_end))
        st.gh[n + ".fail"] = z3.simplify(z3.Or(st.gh[n + ".fail"], z3.Not(good)))
        out = []
        for g in (True, False):
            s = st.copy()
            ok = z3.And(good, p < size(st, n))
            s.assume(ok if g else z3.Not(ok))
            if E.sol.check(s.pc, [], 2000)[0] == z3.unsat:
                continue
            if g:
                b = z3.Select(E.mem(s, "m1"), r.base + p)
                s.assume(b >= 0, b < 256)
                out.append(("ret", s, b))
            else:
                out += results(E, s, n, (1 << 32) - 1)
        return out

    def getline(E, st, a):
        """the string becomes the bytes up to the delimiter; the delimiter is consumed"""
        n = name(st, a[0])
        r, p = names[n], st.gh[n + ".pos"]
        d = E.as_int(a[2]) if len(a) > 2 else 10
        M = E.mem(st, "m1")
        good = z3.And(z3.Not(st.gh[n + ".eof"]), z3.Not(st.gh[n + ".fail"]))
        out = []
        s = st.copy()
        s.assume(z3.Not(good))
        if E.sol.check(s.pc, [], 2000)[0] != z3.unsat:
            s.gh[n + ".fail"] = z3.BoolVal(True)
            out += results(E, s, n, a[0])
        st.assume(good)
        if E.sol.check(st.pc, [], 2000)[0] == z3.unsat:
            return out
        ln = E.fresh("line")
        N = size(st, n)
        st.assume(ln >= 0, p + ln <= N, Or(p + ln == N, z3.Select(M, r.base + p + ln) == d),
                  Forall(1, lambda k: Imp(z3.And(k >= r.base + p, k < r.base + p + ln), z3.Select(M, k) != d), lambda k: z3.Select(M, k)))
        hit = p + ln < N
        st.gh["line.at"], st.gh["line.n"] = r.base + p, ln
        st.gh[n + ".pos"] = z3.simplify(z3.If(hit, p + ln + 1, p + ln))
        st.gh[n + ".eof"] = z3.simplify(z3.Not(hit))
        st.gh[n + ".fail"] = z3.simplify(z3.And(z3.Not(hit), ln == 0))
        return out + results(E, st, n, a[0])
    I = r"std::(basic_ifstream<char, std::char_traits<char>>|ifstream)::"
    S = r"std::(basic_istream<char, std::char_traits<char>>|istream)::"
    B = r"std::(basic_ios<char, std::char_traits<char>>|ios)::"
    for rx, f in ((I + r"(basic_ifstream|ifstream)\(\)", ctor), (I + r"(basic_ifstream|ifstream)\((char const\*|std::__cxx11::basic_string<.*> const&), std::_Ios_Openmode\)", ctor_open),
                  (I + r"open\(", open_), (I + r"~", dtor), (I + r"is_open\(", lambda E, st, a: z3.BoolVal(bool(st.gh.get(name(st, a[0]) + ".open")))),
                  (B + r"exceptions\(std::_Ios_Iostate\)", exceptions), (S + r"tellg\(\)", tellg), (S + r"seekg\(", seekg), (S + r"read\(", read), (S + r"peek\(", peek),
                  (S + r"gcount\(", lambda E, st, a: st.gh[name(st, a[0]) + ".count"]),
                  (r"std::getline<", getline), (r"std::operator\|\(", op_or),
                  (r"std::fpos<.*>::operator long", lambda E, st, a: E.load(st, a[0], L.IntTy(64))),
                  (r"std::fpos<.*>::fpos\(long\)", lambda E, st, a: (E.store(st, a[0], a[1], L.IntTy(64)), E.store(st, Loc(a[0].o, a[0].f + 8), 0, L.IntTy(64)))[0]),
                  (B + r"eof\(\)", lambda E, st, a: st.gh[name(st, a[0]) + ".eof"]),
                  (B + r"fail\(\)|" + B + r"operator!\(\)", lambda E, st, a: st.gh[name(st, a[0]) + ".fail"]),
                  (B + r"good\(\)", lambda E, st, a: z3.Not(z3.Or(st.gh[name(st, a[0]) + ".fail"], st.gh[name(st, a[0]) + ".eof"]))),
                  (B + r"operator bool\(\)", lambda E, st, a: z3.Not(st.gh[name(st, a[0]) + ".fail"]))):
        C.regex(r"(^| )" + rx, f)
    C.E.assumed.add("std::ifstream, std::istream, std::getline: read the bytes of the file in order, report failures in the stream state and throw as the exception mask asks; the file does not change meanwhile")
