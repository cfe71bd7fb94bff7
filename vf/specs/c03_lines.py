"""C03: tokens and lines partition the text."""
from ..spec import *
from .c01_cstr import sinks, expect, inside, scan_inv

H = "cstr"
NL, CR = 10, 13


def nodelim(C, st, lo, hi, d):
    return Forall(1, lambda k: Imp(z3.And(k >= lo, k < hi), C.byte(st, k) != d), lambda k: C.byte(st, k))


def token_ok(C, st, s, pos, p, n, d):
    """(p,n) is the raw token that starts at pos"""
    e = s.base + s.n
    return z3.And(p == pos, n >= 0, p + n <= e, nodelim(C, st, p, p + n, d), Or(p + n == e, C.byte(st, p + n) == d))


def line_ok(C, st, s, pos, p, n, strip=True):
    """(p,n) is the line starting at pos without LF / CRLF; returns (formula, length of the raw line)"""
    if not strip:
        return token_ok(C, st, s, pos, p, n, NL), n
    e = s.base + s.n
    plain = z3.And(token_ok(C, st, s, pos, p, n, NL), Or(n == 0, C.byte(st, p + n - 1) != CR))
    crlf = z3.And(p + n < e, token_ok(C, st, s, pos, p, n + 1, NL), C.byte(st, p + n) == CR)
    return Or(plain, crlf), z3.If(z3.And(p + n < e, C.byte(st, p + n) == CR), n + 1, n)


def automaton(C, s, kind, d=None, cb="cb_token", numbered=False, brk=False, strip=True):
    C.bytes_typed()
    scan_inv(C, s, d if kind == "token" else NL)
    C.ghost("pos", s.base)
    if numbered:
        C.ghost("count", z3.IntVal(0))
    if brk:
        C.ghost("stopped", z3.BoolVal(False))

    def h(E, st, a):
        p, n = Z(a[0]), Z(a[1])
        pos = Z(st.gh["pos"])
        e = s.base + s.n
        if brk:
            E.oblige(st, "callback: nothing is delivered after the consumer stopped", z3.Not(Z(st.gh["stopped"])))
        E.oblige(st, "callback: nothing is delivered past the end of the text", pos < e)
        if kind == "token":
            E.oblige(st, "callback: each token starts behind the previous separator and ends at the next one (no gap, overlap or skip)",
                     token_ok(C, st, s, pos, p, n, d))
            raw = n
        else:
            f, raw = line_ok(C, st, s, pos, p, n, strip)
            E.oblige(st, "callback: each line starts behind the previous one and is the text up to LF / CRLF", f)
        nx = pos + raw
        st.gh["pos"] = z3.simplify(z3.If(nx < e, nx + 1, nx))
        if numbered:
            E.oblige(st, "callback: the k-th token carries number k", Z(a[2]) == Z(st.gh["count"]) + 1)
            st.gh["count"] = Z(st.gh["count"]) + 1
        if brk:
            r = E.fresh("stop", z3.BoolSort())
            st.gh["stopped"] = r
            return r
        return None
    C.extern(cb, h)
    end = s.base + s.n
    if brk:
        C.post(lambda st, r: [("post: the whole text was delivered unless the consumer stopped", Or(Z(st.gh["stopped"]), Z(st.gh["pos"]) == end))])
    else:
        C.post(lambda st, r: [("post: the whole text was delivered", Z(st.gh["pos"]) == end)])

    if numbered:
        C.inv(lambda E, Hd: [("count <= bytes consumed", lambda st: Z(st.gh["count"]) <= Z(st.gh["pos"]) - s.base)])


def lookahead(C, s, strip):
    """a reader that already fetched the next line: (P,N) is the line at ghost pos, Q the position behind it"""
    e = s.base + s.n

    def cands(E, Hd):
        out = []
        gp = lambda st: Z(st.gh["pos"])
        ps = [x for x in Hd.pos if x[0] in Hd.raw]
        for pn, pf in ps:
            P = lambda st, pf=pf: Z(pf(st))
            out.append((f"{pn} == 0 or text left", lambda st, P=P: Or(P(st) == 0, gp(st) < e)))
            out.append((f"{pn} != 0 or at end", lambda st, P=P: Or(P(st) != 0, gp(st) == e)))
            for nn, nf in Hd.ints:
                if nn == pn:
                    continue
                N = lambda st, nf=nf: Z(nf(st))
                out.append((f"{pn} == 0 or ({pn},{nn}) is the line at pos", lambda st, P=P, N=N: Or(P(st) == 0, line_ok(C, st, s, gp(st), P(st), N(st), strip)[0])))
                for qn, qf in ps:
                    if qn in (pn, nn):
                        continue
                    Q = lambda st, qf=qf: Z(qf(st))

                    def after(st, P=P, N=N, Q=Q):
                        raw = line_ok(C, st, s, gp(st), P(st), N(st), strip)[1]
                        nx = gp(st) + raw
                        return Q(st) == z3.If(P(st) == 0, e, z3.If(nx < e, nx + 1, nx))
                    out.append((f"{qn} is behind the line ({pn},{nn})", after))
        return out
    C.inv(cands)


@unit("C03", H, "for_each_token")
def _(C):
    s = C.view("s")
    d = C.sym("d", 8)
    C.args(s.base, s.n, d)
    automaton(C, s, "token", d)


@unit("C03", H, "for_each_token_brk")
def _(C):
    s = C.view("s")
    d = C.sym("d", 8)
    C.args(s.base, s.n, d)
    automaton(C, s, "token", d, cb="cb_token_brk", brk=True)


@unit("C03", H, "for_each_token_numbered")
def _(C):
    s = C.view("s")
    d = C.sym("d", 8)
    C.require(s.n < (1 << 31) - 1)
    C.args(s.base, s.n, d)
    automaton(C, s, "token", d, cb="cb_token_num", numbered=True)


@unit("C03", H, "for_each_line")
def _(C):
    s = C.view("s")
    C.args(s.base, s.n)
    automaton(C, s, "line")


@unit("C03", H, "for_each_line_numbered")
def _(C):
    s = C.view("s")
    C.require(s.n < (1 << 31) - 1)
    C.args(s.base, s.n)
    automaton(C, s, "line", cb="cb_token_num", numbered=True)


for e in ("lines", "lines_it"):
    @unit("C03", H, e)
    def _(C):
        s = C.view("s")
        C.args(s.base, s.n)
        automaton(C, s, "line")
        lookahead(C, s, True)


@unit("C03", H, "skip_lines")
def _(C):
    s = C.view("s")
    C.args(s.base, s.n)
    C.bytes_typed()
    scan_inv(C, s, NL)
    C.ghost("pos", s.base)
    C.ghost("stopped", z3.BoolVal(False))
    sinks(C)

    def h(E, st, a):
        p, n = Z(a[0]), Z(a[1])
        pos = Z(st.gh["pos"])
        e = s.base + s.n
        E.oblige(st, "callback: the predicate is asked only until the first line it keeps", z3.Not(Z(st.gh["stopped"])))
        E.oblige(st, "callback: nothing is asked past the end of the text", pos < e)
        f, raw = line_ok(C, st, s, pos, p, n)
        E.oblige(st, "callback: the predicate sees the lines in order, each without LF / CRLF", f)
        r = E.fresh("skip", z3.BoolSort())
        nx = pos + raw
        st.gh["stopped"] = z3.Not(r)
        st.gh["pos"] = z3.simplify(z3.If(r, z3.If(nx < e, nx + 1, nx), pos))
        return r
    C.extern("cb_skip", h)
    expect(C, lambda st, p, n: [
        ("post: result starts at the first line that is not skipped", p == Z(st.gh["pos"])),
        ("post: result extends to the end of the text", p + n == s.base + s.n),
        ("post: a line was kept or the text is exhausted", Or(Z(st.gh["stopped"]), p == s.base + s.n))])


for e in ("buf_reader", "buf_reader_progress", "buf_reader_end"):
    @unit("C03", "lines", e)
    def _(C, e=e):
        s = C.view("s")
        C.require(s.base > 0)
        C.args(s.base, s.n)
        automaton(C, s, "line", cb="cb_line", strip=False)

        if e == "buf_reader_progress":
            C.ghost("reported", s.base)
            line = C.E.externs["cb_line"]

            def h(E, st, a):
                """a line that has an end is delivered after the position behind it was reported"""
                pos = Z(st.gh["pos"])
                line(E, st, a)
                E.oblige(st, "callback: the progress of each finished line was reported", Or(pos + Z(a[1]) == s.base + s.n, Z(st.gh["reported"]) == Z(st.gh["pos"])))
            C.extern("cb_line", h)
            C.inv(lambda E, Hd: [("the progress told is that of the lines delivered", lambda st: Or(Z(st.gh["reported"]) == Z(st.gh["pos"]), Z(st.gh["pos"]) == s.base + s.n))])

        def prog(E, st, a):
            # reported once, after the reader moved past a line feed
            pos = Z(st.gh["pos"])
            E.oblige(st, "callback: progress reports the number of bytes consumed, once for each line",
                     z3.And(Z(a[0]) <= s.n, Z(a[0]) > pos - s.base, C.byte(st, s.base + Z(a[0]) - 1) == NL, nodelim(C, st, pos, s.base + Z(a[0]) - 1, NL), Z(st.gh["reported"]) == pos))
            st.gh["reported"] = s.base + Z(a[0])
        C.extern("cb_progress", prog)

        def oe(E, st, a):
            E.oblige(st, "callback: reading past the end keeps reporting the end", z3.And(Z(a[0]) == 0, Z(a[1]) == 0))
        C.extern("out_end", oe)


@unit("C03", "lines", "line_range")
def _(C):
    s = C.view("s")
    C.require(s.base > 0)
    C.args(s.base, s.n)
    C.bytes_typed()
    scan_inv(C, s, NL)
    C.ghost("pos", s.base)
    lookahead(C, s, False)

    def h(E, st, a):
        p, n = Z(a[0]), Z(a[1])
        pos = Z(st.gh["pos"])
        e = s.base + s.n
        E.oblige(st, "callback: each line of the range is the next line of the text", z3.And(pos < e, token_ok(C, st, s, pos, p, n, NL), n > 0))
        nx = pos + n
        st.gh["pos"] = z3.simplify(z3.If(nx < e, nx + 1, nx))
    C.extern("cb_line", h)
    C.post(lambda st, r: [("post: the range ends at the end of the text or at the first empty line",
                           Or(Z(st.gh["pos"]) == s.base + s.n, C.byte(st, Z(st.gh["pos"])) == NL))])


def filesystem(C, s):
    """contracts of open/fstat/mmap/munmap/close with ghost ownership (no failure here; failures: C18)"""
    C.ghost("fd_open", z3.BoolVal(False))
    C.ghost("mapped", z3.BoolVal(False))

    def op(E, st, a):
        st.gh["fd_open"] = z3.BoolVal(True)
        fd = E.fresh("fd")
        st.assume(fd >= 0, fd < (1 << 31))
        st.gh["fd"] = fd
        return fd

    def fstat(E, st, a):
        E.store(st, E.gepb(a[1], 48), s.n, L.IntTy(64))
        return 0

    def mm(E, st, a):
        E.oblige(st, "system call: mmap maps exactly the file", z3.And(Z(a[1]) == s.n, Z(a[4]) == Z(st.gh["fd"]), Z(a[5]) == 0))
        st.gh["mapped"] = z3.BoolVal(True)
        return s.base

    def mu(E, st, a):
        E.oblige(st, "system call: munmap releases exactly the mapping", z3.And(Z(a[0]) == s.base, Z(a[1]) == s.n, Z(st.gh["mapped"])))
        st.gh["mapped"] = z3.BoolVal(False)
        return 0

    def cl(E, st, a):
        E.oblige(st, "system call: close is called on the open descriptor, once", z3.And(Z(a[0]) == Z(st.gh["fd"]), Z(st.gh["fd_open"])))
        st.gh["fd_open"] = z3.BoolVal(False)
        return 0
    for n, h in (("open", op), ("open64", op), ("fstat", fstat), ("fstat64", fstat), ("mmap", mm), ("mmap64", mm), ("munmap", mu), ("close", cl)):
        C.extern(n, h)
    C.post(lambda st, r: [("post: file and mapping are released", z3.And(z3.Not(Z(st.gh["fd_open"])), z3.Not(Z(st.gh["mapped"]))))])


@unit("C03", "lines", "mmap_lines")
def _(C):
    s = C.view("s")
    C.require(s.base > 0, s.n > 0)
    path = C.sym("path")
    C.args(path)
    automaton(C, s, "line", cb="cb_line", strip=False)
    filesystem(C, s)


@unit("C03", "lines", "mmap_read_n")
def _(C):
    s = C.view("s")
    C.require(s.base > 0, s.n > 0)
    path, a, b = C.sym("path"), C.sym("a"), C.sym("b")
    C.args(path, a, b)
    filesystem(C, s)
    C.ghost("calls", 0)
    C.ghost("pos", s.base)

    def h(E, st, x):
        k = (a, b)[st.gh["calls"]]
        pos = Z(st.gh["pos"])
        rest = s.base + s.n - pos
        want = z3.If(k <= rest, k, rest)
        E.oblige(st, "callback: read returns the next min(requested, remaining) bytes", z3.And(Z(x[0]) == pos, Z(x[1]) == want))
        st.gh["calls"] += 1
        st.gh["pos"] = pos + want
    C.extern("cb_line", h)
