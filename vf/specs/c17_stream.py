"""C17 (streams): read_file yields the whole content or nothing; for_each_line_in_file delivers every line once."""
from ..spec import *
from ..heapmodel import heap
from ..strmodel import strings, S
from ..streammodel import streams

H = "stream"


@unit("C17", H, "read_file")
def _(C):
    f = C.view("file")
    C.E.regions.remove(f)            # the code reaches the bytes through the stream only
    C.bytes_typed()
    M0 = C.E.mem(C.st, "m1")
    C.path = z3.Int("path")
    C.require(C.path > 0)
    C.args(C.path)
    bs = strings(C, 4)
    for b in bs:
        C.require(Or(b.base + b.size <= f.base, f.base + f.size <= b.base))
    streams(C, {"in": f})
    C.ghost("seen", ())
    C.extern("see", lambda E, st, a: st.gh.__setitem__("seen", st.gh["seen"] + ((a[0], a[1], E.mem(st, "m1")),)))
    k = z3.Int("k")

    def post(st, r):
        g, b = st.gh["seen"], C.E.as_bool(r)
        b = z3.BoolVal(b) if isinstance(b, bool) else b
        fl = st.gh["failures"]
        fl = z3.BoolVal(fl) if isinstance(fl, bool) else fl
        out = [("post: fails only if an operation on the file failed", Or(b, fl)), ("post: the stream is closed", z3.BoolVal(st.gh["alive"] == 0)),
               ("post: all memory is released", z3.BoolVal(not st.gh["strs"]))]
        if len(g) == 1:
            p, n, M = g[0]
            out += [("post: the size is that of the file", Z(n) == f.n), ("post: the content is that of the file", z3.ForAll([k], Imp(z3.And(k >= 0, k < f.n), SEL(M, Z(p) + k) == SEL(M0, f.base + k))))]
        return out
    C.post(post)


@unit("C17", H, "for_each_line")
def _(C):
    """a file that can not be opened has no lines; the name "-" stands for the standard input"""
    f, i = C.view("file"), C.view("input")
    C.E.regions.remove(f)
    C.E.regions.remove(i)
    C.bytes_typed()
    C.path = z3.Int("path")
    C.require(C.path > 0)
    dash = C.boolv("dash")
    C.args(C.path)
    streams(C, {"file": f, "cin": i})
    C.ghost("line.at", z3.IntVal(0))
    C.ghost("line.n", z3.IntVal(0))
    C.ghost("done", z3.IntVal(0))       # bytes of the file whose lines have been delivered
    C.ghost("lines", 0)

    def one(E, st, a):
        st.gh["lines"] += 1
        if st.gh["lines"] > 1:
            raise Unsupported("more strings than modelled")
    C.regex(S + r"basic_string\(\)", one)
    C.regex(S + r"~basic_string\(\)", lambda E, st, a: st.gh.__setitem__("lines", st.gh["lines"] - 1))
    C.regex(S + r"(data|c_str)\(\)", lambda E, st, a: st.gh["line.at"])
    C.regex(S + r"(size|length)\(\)", lambda E, st, a: st.gh["line.n"])

    def is_dash(E, st, a):
        E.oblige(st, "callback: the name is compared to \"-\"", z3.And(Z(a[0]) == C.path, z3.BoolVal(isinstance(a[1], Loc) and [E.load(st, Loc(a[1].o, a[1].f + j), L8) for j in (0, 1)] == [45, 0])))
        return dash
    C.regex(r"(^| )std::operator==<char", is_dash)

    def line(E, st, a):
        p, n = Z(a[0]), Z(a[1])
        M = E.mem(st, "m1")
        d = Z(st.gh["done"])
        E.oblige(st, "callback: nothing is delivered past the end", Or(z3.And(dash, d < i.n), z3.And(Not(dash), d < f.n)))
        base, size = z3.If(dash, i.base, f.base), z3.If(dash, i.n, f.n)
        E.oblige(st, "callback: each line starts behind the previous one and is the text up to the line break",
                 z3.And(p == base + d, n >= 0, d + n <= size, Forall(1, lambda k: Imp(z3.And(k >= p, k < p + n), SEL(M, k) != 10), lambda k: SEL(M, k)), Or(d + n == size, SEL(M, p + n) == 10)))
        st.gh["done"] = z3.simplify(z3.If(d + n < size, d + n + 1, d + n))
        s2 = st.copy()
        return [("ret", st, None), ("throw", s2, (0, 1))]
    C.extern("cb_line", line)
    C.on_throw(lambda st, v: [("post: the stream is closed", z3.BoolVal(st.gh["alive"] == 0))])
    C.post(lambda st, r: [("post: every line was delivered", z3.If(dash, Z(st.gh["done"]) == i.n, Or(Z(st.gh["done"]) == f.n, z3.BoolVal(st.gh["failures"])))),
                          ("post: the stream is closed, memory released", z3.BoolVal(st.gh["alive"] == 0 and st.gh["lines"] == 0))])
    C.inv(lambda E, Hd: [(f"{x}: the stream is behind the last line", lambda st, x=x: Z(st.gh["done"]) == Z(st.gh[x + ".pos"])) for x in ("file", "cin")])
    C.inv(lambda E, Hd: [(f"{x}: at most the whole file", lambda st, x=x, r=r: z3.And(Z(st.gh[x + ".pos"]) >= 0, Z(st.gh[x + ".pos"]) <= r.n)) for x, r in (("file", f), ("cin", i))])
    C.inv(lambda E, Hd: [(f"{x}: eof only at the end", lambda st, x=x, r=r: Imp(Or(st.gh[x + ".eof"], st.gh[x + ".fail"]), Z(st.gh[x + ".pos"]) == r.n)) for x, r in (("file", f), ("cin", i))])
    C.measures = lambda E, Hd: [("bytes left", lambda st, x=x, r=r: r.n - Z(st.gh[x + ".pos"])) for x, r in (("file", f), ("cin", i))]


from .. import llparse as L  # noqa: E402
L8 = L.IntTy(8)
