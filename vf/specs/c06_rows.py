"""C06: CSV rows."""
from ..spec import *
from .. import llparse as L
from .c01_cstr import sinks, expect, inside
from .c05_csv import QU, NL, CR

H = "rows"
I = z3.IntSort()
NO, MAXC = 255, 64
B, S, R = (z3.Function(n, I, I) for n in ("content_begin", "content_end", "column_rest"))
W64 = L.IntTy(64)


def fld(E, p, k):
    return E.gepb(p, 8 * k)


def getv(E, st, p):
    return Z(E.load(st, p, L.PTR)), Z(E.load(st, fld(E, p, 1), W64))


def setv(E, st, p, a, n):
    E.store(st, p, a, L.PTR)
    E.store(st, fld(E, p, 1), n, W64)


class Rows:
    """the text s and the contract of parse_column (C05) on it.
    ghosts: next - where the next column has to start; col - number of columns read so far"""
    def __init__(k, C, s, eol=True):
        k.C, k.s, k.e = C, s, s.base + s.n
        C.bytes_typed()
        M = C.E.mem(C.st, "m1")
        k.at = at = lambda i: SEL(M, i)
        k.noeol = lambda lo, hi: Forall(1, lambda i: Imp(z3.And(lo <= i, i < hi), at(i) != NL), lambda i: at(i))
        k.eol = lambda p: Or(at(p) == NL, at(p) == CR)
        k.nx = lambda c: z3.If(z3.And(R(c) < k.e, Nt(k.eol(R(c))) if eol else z3.BoolVal(True)), R(c) + 1, R(c))
        C.ghost("next", s.base)
        C.ghost("col", z3.IntVal(0))
        k.on_column = lambda E, st, c: None
        k.q = z3.Int("line_end")
        C.require(s.base <= k.q, k.q <= k.e, k.noeol(s.base, k.q), Or(k.q == k.e, at(k.q) == NL))

        def parse(E, st, a):
            p, n = getv(E, st, a[0])
            E.oblige(st, "callback: columns are read from the text, one behind the other", z3.And(p == Z(st.gh["next"]), p + n == k.e, n >= 0))
            out = []
            s0 = st.copy()
            s0.assume(n == 0)
            if E.feasible(s0, z3.BoolVal(True)):
                out.append(("ret", s0, None))
            s1 = st.copy()
            s1.assume(n > 0, p <= B(p), B(p) <= p + 1, B(p) <= S(p), S(p) <= R(p), R(p) <= S(p) + 1, R(p) <= k.e, k.noeol(p, R(p)))
            if E.feasible(s1, z3.BoolVal(True)):
                setv(E, s1, a[1], B(p), S(p) - B(p))
                setv(E, s1, a[0], R(p), k.e - R(p))
                k.on_column(E, s1, p)
                s1.gh["next"] = k.nx(p)
                s1.gh["col"] = Z(s1.gh["col"]) + 1
                out.append(("ret", s1, None))
            return out
        C.regex(r"utl::parse_column<utl::cstr", parse)

        def skip(E, st, a):
            p, n = getv(E, st, a[0])
            E.oblige(st, "callback: the rest of the line is skipped behind the last column", z3.And(p + n == k.e, n >= 0))
            r = E.fresh("skipped")
            st.assume(p <= r, r <= k.e, Or(z3.And(r == k.e, k.noeol(p, k.e)), z3.And(r > p, at(r - 1) == NL, k.noeol(p, r - 1))))
            setv(E, st, a[0], r, k.e - r)
        C.regex(r"^utl::skip_line", skip)


Nt = z3.Not


@unit("C06", H, "read_row")
def _(C):
    """columns are read one behind the other; column i goes where the header mapping says; exactly one line is consumed"""
    s = C.view("s")
    m = C.region("map", 1, count=z3.IntVal(MAXC))
    last = C.sym("last")
    C.require(last <= MAXC)
    C.args(s.base, s.n, m.base, last)
    C.copy_w = 1
    k = Rows(C, s)
    sinks(C, 4)
    C.require(Forall(1, lambda i: Imp(z3.And(m.base <= i, i < m.base + MAXC), Or(k.at(i) < 3, k.at(i) == NO)), lambda i: k.at(i)))
    fields(C, k, m, 48)

    def post(st, r):
        out = []
        for j in range(3):
            out.append((f"post: field {j} is the content of the column mapped to it", z3.And(Z(st.gh[f"r{j}p"]) == Z(st.gh[f"p{j}"]), Z(st.gh[f"r{j}n"]) == Z(st.gh[f"n{j}"]))))
        p, n = Z(st.gh["r3p"]), Z(st.gh["r3n"])
        out += [("post: all mapped columns of the row are read", Or(Z(st.gh["col"]) == last, Z(st.gh["next"]) == k.e)),
                ("post: exactly one line is consumed", z3.And(p == z3.If(k.q < k.e, k.q + 1, k.e), p + n == k.e))]
        return out
    C.post(post)


@unit("C06", H, "row_remaining")
def _(C):
    "false exactly for an empty text and a lone line break"
    s = C.view("s")
    C.args(s.base, s.n)
    C.bytes_typed()
    crlf(C, s)
    C.post(lambda st, r: [("post: a row remains unless the text is empty or one line break", C.E.as_bool(r) == Nt(done(C, st, s.base, s.n)))])


def crlf(C, s):
    """line breaks are LF or CRLF: a CR is always followed by LF"""
    M = C.E.mem(C.st, "m1")
    e = s.base + s.n
    C.require(Forall(1, lambda i: Imp(z3.And(s.base <= i, i < e, SEL(M, i) == CR), z3.And(i + 1 < e, SEL(M, i + 1) == NL)), lambda i: SEL(M, i)))


def done(C, st, p, n):
    b = lambda i: C.byte(st, i)
    return Or(n == 0, z3.And(n == 1, b(p) == NL), z3.And(n == 2, b(p) == CR, b(p + 1) == NL))


EQ4 = z3.Function("same_text", I, I, I, I, z3.BoolSort())
CP = z3.Function("column_start", I, I)


def header(C, k, start, eq, size=64):
    """invariants and contract of both header readers; eq(c, j): the column starting at c is named like field j"""
    C.ghost("next", start)
    C.ghost("cur", z3.IntVal(0))
    C.ghost("map", z3.K(I, z3.IntVal(0)))
    C.require(CP(0) == start)
    k.FM = lambda c: z3.If(eq(c, 0), 0, z3.If(eq(c, 1), 1, z3.If(eq(c, 2), 2, z3.IntVal(NO))))

    def col(E, st, c):
        n = Z(st.gh["col"])
        st.assume(CP(n + 1) == k.nx(CP(n)))      # definition of the column starts
        st.gh["cur"] = c
    k.on_column = col
    want = lambda a, n: Forall(1, lambda i: Imp(z3.And(0 <= i, i < MAXC), SEL(a, i) == z3.If(i < n, k.FM(CP(i)), NO)), lambda i: SEL(a, i))

    def cands(E, Hd):
        out = []
        n = lambda st: Z(st.gh["col"])
        for oid, tag, a, w, sz in Hd.arrs:
            if w == 1 and sz == size:
                out.append((f"{tag} maps all columns before", lambda st, a=a: want(a(st), n(st))))
                out.append((f"{tag} maps all columns but the last", lambda st, a=a: want(a(st), n(st) - 1)))
        out.append(("next == start of column", lambda st: Z(st.gh["next"]) == CP(n(st))))
        out.append(("cur == start of column before", lambda st: Z(st.gh["cur"]) == CP(n(st) - 1)))
        out.append(("next <= end of line", lambda st: z3.And(k.s.base <= Z(st.gh["next"]), Z(st.gh["next"]) <= k.q)))
        out.append(("col <= 64", lambda st: z3.And(0 <= n(st), n(st) <= MAXC)))
        out.append(("col >= 1", lambda st: n(st) >= 1))
        for m, f in Hd.ints:
            v = lambda st, f=f: Z(f(st))
            out.append((f"{m} == col", lambda st, v=v: v(st) == n(st)))
            out.append((f"{m} == col-1", lambda st, v=v: v(st) == n(st) - 1))
            out.append((f"fields before {m} have another name", lambda st, v=v: z3.And(v(st) <= 3, v(st) >= 0, *[Imp(j < v(st), Nt(eq(Z(st.gh["cur"]), j))) for j in range(3)])))
        return out
    C.inv(cands)
    C.measures = lambda E, Hd: [(f"{MAXC} - {n}", lambda st, f=f: MAXC - Z(f(st))) for n, f in Hd.ints]
    C.regex(r"utl::fail<", lambda E, st, a: None)
    C.E.assumed.add("utl::fail builds the exception object (C18); only that it is thrown is used here")
    C.on_throw(lambda st, v: [("post: throws exactly when there are more than 64 columns", Z(st.gh["col"]) == MAXC + 1)])

    def outmap(E, st, a):
        st.gh["map"] = st.objs[a[0].o].arr if st.objs[a[0].o].arr is not None else (E.to_array(st, st.wobj(a[0].o), 1), st.objs[a[0].o].arr)[1]
    C.extern("out_map", outmap)
    return lambda st: [("post: at most 64 columns", Z(st.gh["col"]) <= MAXC),
                       ("post: each column is mapped to the first field of that name, all others to none", want(st.gh["map"], Z(st.gh["col"])))]


@unit("C06", H, "read_header")
def _(C):
    """the header line maps each column to the first requested name it equals; exactly the header line is consumed"""
    C.derive = False
    s = C.view("s")
    nm = C.region("names", 8, count=z3.IntVal(6))
    C.args(s.base, s.n, nm.base)
    C.copy_w = 8
    k = Rows(C, s)
    N = C.E.mem(C.st, "m8")
    sinks(C, 1)

    def equal(E, st, a):
        (p, n), (q, m) = getv(E, st, a[0]), getv(E, st, a[1])
        st.assume(EQ4(p, n, q, m) == EQ4(q, m, p, n))       # equal content (C02) is symmetric
        return EQ4(p, n, q, m)
    C.regex(r"^utl::cstr::operator==\(", equal)
    eq = lambda c, j: EQ4(B(c), S(c) - B(c), SEL(N, nm.base + 16 * j), SEL(N, nm.base + 16 * j + 8))
    base = header(C, k, s.base, eq)

    def post(st, r):
        p, n = Z(st.gh["r0p"]), Z(st.gh["r0n"])
        nx = Z(st.gh["next"])
        return base(st) + [("post: all columns of the line are read", Or(nx == k.e, k.eol(nx))),
                           ("post: exactly the header line is consumed", z3.And(p == z3.If(k.q < k.e, k.q + 1, k.e), p + n == k.e))]
    C.post(post)


FIELDS = (b"first", b"second", b"third")


@unit("C06", H, "range_header")
def _(C):
    """the header of a csv range: a byte order mark is skipped, columns are matched with the field names"""
    C.derive = False
    s = C.view("s")
    C.args(s.base, s.n)
    k = Rows(C, s, eol=False)
    bom = z3.And(s.n >= 3, *[k.at(s.base + i) == b for i, b in enumerate(b"\xef\xbb\xbf")])
    EQN = [z3.Function(f"is_{f.decode()}", I, I, z3.BoolSort()) for f in FIELDS]

    def equal(E, st, a):
        q, m = E.load(st, a[1], L.PTR), E.load(st, fld(E, a[1], 1), W64)
        if not (isinstance(q, Loc) and isinstance(m, int)):
            a = [a[1], a[0]]                                  # equal content (C02) is symmetric
            q, m = E.load(st, a[1], L.PTR), E.load(st, fld(E, a[1], 1), W64)
        p, n = getv(E, st, a[0])
        if not (isinstance(q, Loc) and isinstance(m, int)):
            raise Unsupported("column name is not a literal")
        t = bytes(E.load(st, Loc(q.o, q.f + i), L.IntTy(8)) for i in range(m))
        if t in FIELDS:
            st.assume(*[Nt(z3.And(EQN[i](p, n), EQN[j](p, n))) for i in range(3) for j in range(i)])   # different names
            return EQN[FIELDS.index(t)](p, n)
        return z3.And(n == len(t), *[k.at(p + i) == b for i, b in enumerate(t)])     # equal content (C02)
    C.regex(r"^utl::cstr::operator==\(", equal)
    start = z3.If(bom, s.base + 3, s.base)
    base = header(C, k, start, lambda c, j: EQN[j](B(c), S(c) - B(c)))
    C.post(lambda st, r: base(st) + [("post: all columns of the line are read", Z(st.gh["next"]) == k.e)])


@unit("C06", H, "range_row")
def _(C):
    """a row of a csv range: field j gets the content of the column mapped to it; an empty or missing column leaves its default"""
    C.derive = False
    s = C.view("s")
    m = C.region("map", 1, count=z3.IntVal(MAXC))
    C.args(m.base, s.base, s.n)
    k = Rows(C, s, eol=False)
    sinks(C, 3)
    C.require(Forall(1, lambda i: Imp(z3.And(m.base <= i, i < m.base + MAXC), Or(k.at(i) < 3, k.at(i) == NO)), lambda i: k.at(i)))
    fields(C, k, m, 1024)

    def post(st, r):
        out = [("post: all columns (up to 64) are read", Or(Z(st.gh["col"]) == MAXC, Z(st.gh["next"]) == k.e))]
        for j in range(3):
            n, p = Z(st.gh[f"n{j}"]), Z(st.gh[f"p{j}"])
            out.append((f"post: field {j} is the content of the column mapped to it", z3.And(Z(st.gh[f"r{j}n"]) == n, Imp(n > 0, Z(st.gh[f"r{j}p"]) == p))))
        return out
    C.post(post)


def fields(C, k, m, size):
    """ghosts p0,n0,...: the content of the last column mapped to field j so far"""
    for j in range(3):
        C.ghost(f"p{j}", z3.IntVal(0))
        C.ghost(f"n{j}", z3.IntVal(0))

    def col(E, st, c):
        t = k.at(m.base + Z(st.gh["col"]))
        for j in range(3):
            st.gh[f"p{j}"] = z3.If(t == j, B(c), Z(st.gh[f"p{j}"]))
            st.gh[f"n{j}"] = z3.If(t == j, S(c) - B(c), Z(st.gh[f"n{j}"]))
    k.on_column = col

    def cands(E, Hd):
        out = []
        for oid, tag, a, w, sz in Hd.arrs:
            if w == 8 and sz == size:
                for j in range(3):
                    out.append((f"{tag}[{j}] == field {j}", lambda st, a=a, j=j: z3.And(SEL(a(st), 16 * j) == Z(st.gh[f"p{j}"]), SEL(a(st), 16 * j + 8) == Z(st.gh[f"n{j}"]))))
        for j in range(3):
            out.append((f"field {j} is real", lambda st, j=j: Or(Z(st.gh[f"n{j}"]) == 0, z3.And(Z(st.gh[f"n{j}"]) > 0, Z(st.gh[f"p{j}"]) > 0))))
        out.append(("next <= end of line", lambda st: z3.And(k.s.base <= Z(st.gh["next"]), Z(st.gh["next"]) <= k.q)))
        for n, f in Hd.ints:
            out.append((f"{n} == col", lambda st, f=f: Z(f(st)) == Z(st.gh["col"])))
        out.append(("0 <= col <= 64", lambda st: z3.And(0 <= Z(st.gh["col"]), Z(st.gh["col"]) <= MAXC)))
        return out
    C.inv(cands)


@unit("C06", H, "split")
def _(C):
    """field j is the content of the j-th column; missing columns are empty"""
    C.derive = False
    s = C.view("s")
    C.args(s.base, s.n)
    k = Rows(C, s, eol=False)
    sinks(C, 3)
    for j in range(3):
        C.ghost(f"p{j}", z3.IntVal(0))
        C.ghost(f"n{j}", z3.IntVal(0))

    def col(E, st, c):
        for j in range(3):
            t = Z(st.gh["col"]) == j
            st.gh[f"p{j}"] = z3.If(t, B(c), Z(st.gh[f"p{j}"]))
            st.gh[f"n{j}"] = z3.If(t, S(c) - B(c), Z(st.gh[f"n{j}"]))
    k.on_column = col

    def post(st, r):
        out = [("post: all columns (up to 3) are read", Or(Z(st.gh["col"]) == 3, Z(st.gh["next"]) == k.e))]
        for j in range(3):
            out.append((f"post: field {j} is the content of column {j}", z3.And(Z(st.gh[f"r{j}p"]) == Z(st.gh[f"p{j}"]), Z(st.gh[f"r{j}n"]) == Z(st.gh[f"n{j}"]))))
        return out
    C.post(post)


NXL = z3.Function("next_row", I, I)


def vec(C):
    C.regex(r"^std::vector<[^']*>::vector\(\)", lambda E, st, a: None)
    C.regex(r"^std::vector<[^']*>::~vector\(", lambda E, st, a: None)


@unit("C06", H, "read_rows")
def _(C):
    """one row per line until nothing but a final line break is left; rows are kept in order"""
    s = C.view("s")
    m = C.region("map", 1, count=z3.IntVal(MAXC))
    last = C.sym("last")
    C.require(last <= MAXC)
    C.args(s.base, s.n, m.base, last)
    C.bytes_typed()
    C.copy_w = 1
    crlf(C, s)
    sinks(C, 1)
    vec(C)
    e = s.base + s.n
    M = C.E.mem(C.st, "m1")
    C.ghost("next", s.base)
    C.ghost("rows", z3.IntVal(0))
    C.ghost("kept", z3.IntVal(0))
    for i in range(6):
        C.ghost(f"w{i}", z3.IntVal(0))

    def row(E, st, a):
        p, n = getv(E, st, a[1])
        E.oblige(st, "callback: each row starts behind the previous one", z3.And(p == Z(st.gh["next"]), p + n == e))
        E.oblige(st, "callback: a row is read only if more than a line break is left", Nt(done(C, st, p, n)))
        E.oblige(st, "callback: the previous row was kept", Z(st.gh["rows"]) == Z(st.gh["kept"]))
        A = st.objs[a[2].o].arr if isinstance(a[2], Loc) else None
        if A is None:
            E.oblige(st, "callback: the header mapping is used", Z(E.addr_of(st, a[2])) == m.base)
        else:
            E.oblige(st, "callback: the header mapping is used", Forall(1, lambda i: Imp(z3.And(0 <= i, i < MAXC), SEL(A, i) == SEL(M, m.base + i)), lambda i: SEL(A, i)))
        E.oblige(st, "callback: the number of mapped columns is handed on", Z(a[3]) == last)
        for i in range(6):
            w = E.mod_fresh(st, "row", 64)
            E.store(st, fld(E, a[0], i), w, W64)
            st.gh[f"w{i}"] = w
        st.assume(NXL(p) > p, NXL(p) <= e)          # exactly one line (read_row)
        setv(E, st, a[1], NXL(p), e - NXL(p))
        st.gh["next"] = NXL(p)
        st.gh["rows"] = Z(st.gh["rows"]) + 1
    C.regex(r"^[^']* utl::read_row<", row)

    def push(E, st, a):
        E.oblige(st, "callback: exactly the row just read is kept", z3.And(Z(st.gh["kept"]) + 1 == Z(st.gh["rows"]),
                                                                          *[Z(E.load(st, fld(E, a[1], i), W64)) == Z(st.gh[f"w{i}"]) for i in range(6)]))
        st.gh["kept"] = Z(st.gh["kept"]) + 1
    C.regex(r"^std::vector<[^']*>::push_back\(|^[^']*std::vector<[^']*>::emplace_back", push)
    C.inv(lambda E, Hd: [("rows == kept", lambda st: Z(st.gh["rows"]) == Z(st.gh["kept"])), ("next inside", lambda st: z3.And(s.base <= Z(st.gh["next"]), Z(st.gh["next"]) <= e))])

    def post(st, r):
        p, n = Z(st.gh["r0p"]), Z(st.gh["r0n"])
        return [("post: all rows are kept", Z(st.gh["rows"]) == Z(st.gh["kept"])), ("post: at most a final line break is left", done(C, st, p, n)),
                ("post: the rest starts behind the last row", z3.And(p == Z(st.gh["next"]), p + n == e))]
    C.post(post)


@unit("C06", H, "read_rows_last")
def _(C):
    """the rows are read up to the last column that is mapped to a field"""
    C.entry_rx = r"^[^']* utl::read_rows<[^']*\(utl::cstr&, std::array<unsigned char, 64ul>\)$"
    m = C.region("map", 1, count=z3.IntVal(MAXC))
    C.require(m.base > 0)
    sp, out = C.sym("text"), C.sym("result")
    C.args(out, sp, m.base)
    C.bytes_typed()
    C.copy_w = 1
    C.ghost("called", 0)
    M = C.E.mem(C.st, "m1")

    def rows(E, st, a):
        last = Z(a[3])
        E.oblige(st, "callback: the rows are read from the given text with the given mapping, once", z3.And(Z(a[0]) == out, Z(a[1]) == sp, z3.BoolVal(st.gh["called"] == 0)))
        st.gh["called"] = 1
        if isinstance(a[2], Loc):
            A = st.objs[a[2].o].arr
            E.oblige(st, "callback: the header mapping is used", Forall(1, lambda i: Imp(z3.And(0 <= i, i < MAXC), SEL(A, i) == SEL(M, m.base + i)), lambda i: SEL(A, i)))
        else:
            E.oblige(st, "callback: the header mapping is used", Z(a[2]) == m.base)
        E.oblige(st, "callback: no column behind the given number is mapped", z3.And(0 <= last, last <= MAXC, Forall(1, lambda q: Imp(z3.And(m.base + last <= q, q < m.base + MAXC), SEL(M, q) == NO), lambda q: SEL(M, q))))
        E.oblige(st, "callback: the last column read is mapped", Or(last == 0, SEL(M, m.base + last - 1) != NO))
    C.regex(r"^[^']* utl::read_rows<", rows)
    C.inv(lambda E, Hd: [(f"nothing mapped from {n}", lambda st, f=f: Forall(1, lambda q: Imp(z3.And(Z(f(st)) <= q, q < m.base + MAXC), SEL(M, q) == NO), lambda q: SEL(M, q))) for n, f in Hd.pos]
          + [(f"nothing mapped from column {n}", lambda st, f=f: Forall(1, lambda q: Imp(z3.And(m.base + Z(f(st)) <= q, q < m.base + MAXC), SEL(M, q) == NO), lambda q: SEL(M, q))) for n, f in Hd.ints]
          + [(f"{n} + 4*{k} from the front", lambda st, f=f, g=g: Z(f(st)) == m.base + 4 * Z(g(st))) for n, f in Hd.pos for k, g in Hd.ints if n != k])
    C.post(lambda st, r: [("post: the rows are read", z3.BoolVal(st.gh["called"] == 1))])


@unit("C06", H, "read_tuple")
def _(C):
    row = C.region("row", 8, count=z3.IntVal(6), writable=True)
    C.args(row.base)
    sinks(C, 3)
    N = C.E.mem(C.st, "m8")
    C.post(lambda st, r: [(f"post: field {j} is parsed from column {j}", z3.And(Z(st.gh[f"r{j}p"]) == SEL(N, row.base + 16 * j), Z(st.gh[f"r{j}n"]) == SEL(N, row.base + 16 * j + 8))) for j in range(3)])


@unit("C06", H, "read_vec")
def _(C):
    """entry i is parsed from row i, for all rows"""
    v, rows = C.region("v", 8, count=z3.IntVal(3), writable=True), C.region("rows", 8, count=z3.IntVal(3))
    b, n, t = C.sym("rows.begin", 62), C.sym("rows.count", 32), C.sym("entries", 62)
    C.require(b > 0, t > 0, b + 48 * n < (1 << 62), t + 48 * n < (1 << 62))
    N = C.E.mem(C.st, "m8")
    C.require(SEL(N, rows.base) == b, SEL(N, rows.base + 8) == b + 48 * n)
    C.args(v.base, rows.base)
    C.ghost("sized", 0)
    C.ghost("i", z3.IntVal(0))

    def resize(E, st, a):
        E.oblige(st, "callback: there is one entry per row", z3.And(Z(a[0]) == v.base, Z(a[1]) == n))
        st.gh["sized"] = 1
        E.store(st, v.base, t, L.PTR)
        E.store(st, v.base + 8, t + 48 * n, L.PTR)
    C.regex(r"^std::vector<[^']*>::resize\(", resize)

    def read(E, st, a):
        i = Z(st.gh["i"])
        E.oblige(st, "callback: entry i is parsed from row i, in order", z3.And(i < n, Z(a[0]) == t + 48 * i, Z(a[1]) == b + 48 * i, z3.BoolVal(st.gh["sized"] == 1)))
        st.gh["i"] = i + 1
    C.regex(r"^void utl::read<utl::cstr, utl::cstr, utl::cstr>\(std::tuple", read)
    C.inv(lambda E, Hd: [("i <= n", lambda st: z3.And(0 <= Z(st.gh["i"]), Z(st.gh["i"]) <= n)),
                         ("rows stay", lambda st: z3.And(SEL(E.mem(st, "m8"), rows.base) == b, SEL(E.mem(st, "m8"), rows.base + 8) == b + 48 * n, SEL(E.mem(st, "m8"), v.base) == t))]
          + [(f"{m} == i", lambda st, f=f: Z(f(st)) == Z(st.gh["i"])) for m, f in Hd.ints]
          + [(f"{m} at {w} i", lambda st, f=f, x=x: Z(f(st)) == x + 48 * Z(st.gh["i"])) for m, f in Hd.pos if m in Hd.raw for w, x in (("row", b), ("entry", t))])
    C.entry_rx = r"^void utl::read<utl::cstr, utl::cstr, utl::cstr>\(std::vector"
    C.post(lambda st, r: [("post: all rows are parsed", Z(st.gh["i"]) == n), ("post: the entries are sized", z3.BoolVal(st.gh["sized"] == 1))])


def file_text(C, path, s):
    """contracts of file and buffer (C17, C16): a file opened for reading yields a buffer of its bytes; both are released once"""
    C.ghost("open", {})
    C.ghost("files", 0)

    def opened(E, st, a):
        E.oblige(st, "callback: the file named is opened, for reading", z3.And(Z(a[1]) == path, z3.BoolVal(literal(st, a[2]) == "r")))
        t = st.copy()
        st.gh["open"] = dict(st.gh["open"], **{str(a[0]): "file"})
        st.gh["files"] = st.gh["files"] + 1
        return [("ret", st, None), ("throw", t, (0, 1))]

    def content(E, st, a):
        E.oblige(st, "callback: the file is open", z3.BoolVal(st.gh["open"].get(str(a[1])) == "file"))
        t = st.copy()
        st.gh["open"] = dict(st.gh["open"], **{str(a[0]): "buffer"})
        return [("ret", st, None), ("throw", t, (0, 1))]

    def release(what):
        def f(E, st, a):
            E.oblige(st, f"callback: a {what} is released once", z3.BoolVal(st.gh["open"].get(str(a[0])) == what))
            st.gh["open"] = {k: v for k, v in st.gh["open"].items() if k != str(a[0])}
        return f

    def part(v):
        def f(E, st, a):
            E.oblige(st, "callback: the buffer is alive", z3.BoolVal(st.gh["open"].get(str(a[0])) == "buffer"))
            return v
        return f
    C.regex(r"^utl::file::file\(char const\*, char const\*\)", opened)
    C.regex(r"^utl::file::content\(\)", content)
    C.regex(r"^utl::file::~file\(\)", release("file"))
    C.regex(r"^utl::buffer::~buffer\(\)", release("buffer"))
    C.regex(r"^utl::buffer::data\(\)( const)?", part(s.base))
    C.regex(r"^utl::buffer::size\(\)( const)?", part(s.n))
    C.E.assumed.add("file and buffer: their contracts (C17 content, C16)")


def literal(st, p):
    """the text of a string literal"""
    if not isinstance(p, Loc) or not isinstance(p.f, int):
        return None
    r, k = "", p.f
    while (c := st.objs[p.o].cells.get(k)) and isinstance(c[1], int) and c[1]:
        r, k = r + chr(c[1]), k + 1
    return r


for nm in ("read_all", "read_ret", "read_file", "read_file_ret"):
    @unit("C06", H, nm)
    def _(C, ret=nm.endswith("ret"), file="file" in nm):
        """header, then rows, then entries: each from the result of the step before (of the bytes of the file)"""
        s = C.view("s")
        names = C.region("names", 8, count=z3.IntVal(6))
        v = C.sym("v", 62)
        C.require(v > 0)
        if file:
            path = C.sym("path", 62)
            C.args(*([path, names.base] + ([] if ret else [v])))
            file_text(C, path, s)
        else:
            C.args(*([s.base, s.n, names.base] + ([] if ret else [v])))
        C.copy_w = 8
        vec(C)
        C.ghost("step", 0)
        ids = {}

        def same(E, st, x, want):
            A = st.objs[x.o].arr
            return Forall(1, lambda i: Imp(z3.And(0 <= i, i < MAXC), SEL(A, i) == SEL(want, i)), lambda i: SEL(A, i))

        def steps(st):
            """while reading a file, any step may throw: everything is released"""
            if not file:
                return None
            E_ = C.E
            E_.oblige(st, "callback: the text is alive", z3.BoolVal("buffer" in st.gh["open"].values()))
            return [("ret", st, None), ("throw", st.copy(), (0, 1))]

        def hd(E, st, a):
            p, n = getv(E, st, a[1])
            E.oblige(st, "callback: the header is read first, from the start of the text", z3.And(p == s.base, n == s.n, z3.BoolVal(st.gh["step"] == 0)))
            st.gh["step"] = 1
            o = st.wobj(a[0].o)
            o.cells, o.fill, o.aw = {}, [], 1
            o.arr = ids["map"] = E.fresh("map", z3.ArraySort(I, I))
            r = E.fresh("behind_header")
            st.assume(s.base <= r, r <= s.base + s.n)
            setv(E, st, a[1], r, s.base + s.n - r)
            ids["rest"] = r
            return steps(st)
        C.regex(r"^[^']* utl::read_header<", hd)

        def rows(E, st, a):
            p, n = getv(E, st, a[1])
            E.oblige(st, "callback: the rows are read behind the header, with its mapping", z3.And(p == ids["rest"], n == s.base + s.n - p, same(E, st, a[2], ids["map"]), z3.BoolVal(st.gh["step"] == 1)))
            st.gh["step"] = 2
            ids["rows"] = a[0]
            return steps(st)
        C.regex(r"^[^']* utl::read_rows<", rows)

        def fin(E, st, a):
            ok = isinstance(a[1], Loc) and a[1].o == ids["rows"].o and st.gh["step"] == 2
            E.oblige(st, "callback: the entries are parsed from the rows", z3.BoolVal(bool(ok)))
            if not ret:
                E.oblige(st, "callback: the entries go to the caller's vector", Z(a[0]) == v)
            ids["entries"] = a[0]
            st.gh["step"] = 3
            return steps(st)
        C.regex(r"^void utl::read<utl::cstr, utl::cstr, utl::cstr>\(std::vector", fin)
        C.ghost("out", not ret)

        def outv(E, st, a):
            st.gh["out"] = isinstance(a[0], Loc) and a[0].o == ids["entries"].o
        C.extern("out_vec", outv)
        if file:
            C.post(lambda st, r: [("post: file and buffer are released", z3.BoolVal(not st.gh["open"] and st.gh["files"] == 1))])
            C.on_throw(lambda st, x: [("post: file and buffer are released", z3.BoolVal(not st.gh["open"]))])
        C.post(lambda st, r: [("post: all steps are done", z3.BoolVal(st.gh["step"] == 3)), ("post: the entries are returned", z3.BoolVal(bool(st.gh["out"])))])


def line_source(C):
    C.ghost("lines", 0)

    def nxt(E, st, a):
        p, n = E.fresh("line"), E.fresh("line_len")
        st.assume(p >= 0, n >= 0, p + n < (1 << 62), Imp(p == 0, n == 0))
        setv(E, st, a[0], p, n)
        st.gh["lines"] = st.gh["lines"] + 1
        C.line = (p, n)
    C.extern("env_next_line", nxt)


for nm in ("range_begin", "range_next"):
    @unit("C06", H, nm)
    def _(C, nxt=nm == "range_next"):
        """each step takes one line from the line source: its row is delivered, the end of the lines is the end of the rows"""
        m = C.region("map", 1, count=z3.IntVal(MAXC), writable=True)
        C.require(m.base > 0)
        x = C.region("x", 8, count=z3.IntVal(6))
        C.args(*([m.base] + ([x.base] if nxt else [])))
        C.copy_w = 8
        line_source(C)
        C.ghost("row", 0)
        C.ghost("out", 0)

        def row(E, st, a):
            p, n = C.line
            E.oblige(st, "callback: the row is read from the line just fetched", z3.And(Z(a[1]) == m.base, Z(a[2]) == p, Z(a[3]) == n, p != 0, z3.BoolVal(st.gh["lines"] == 1 and st.gh["row"] == 0)))
            st.gh["row"] = 1
            C.words = [E.mod_fresh(st, "row", 64) for _ in range(6)]
            for i in range(6):
                E.store(st, fld(E, a[0], i), C.words[i], W64)
        C.regex(r"^utl::csv_range<[^']*>::read_row\(", row)

        def out(E, st, a):
            E.oblige(st, "callback: exactly the row that was read is delivered", z3.And(z3.BoolVal(st.gh["row"] == 1), *[Z(E.load(st, fld(E, a[0], i), W64)) == C.words[i] for i in range(6)]))
            st.gh["out"] = st.gh["out"] + 1
        C.extern("out_row", out)
        C.post(lambda st, r: [("post: one line is fetched", z3.BoolVal(st.gh["lines"] == 1)),
                              ("post: valid exactly while there are lines", C.E.as_bool(r) == (C.line[0] != 0)),
                              ("post: the row of the line is delivered", Imp(C.E.as_bool(r), z3.BoolVal(st.gh["out"] == 1)))])


@unit("C06", H, "range_make")
def _(C):
    """the first line is the header of the range"""
    line_source(C)
    ids = {}

    def hd(E, st, a):
        E.oblige(st, "callback: the header is read from the first line", z3.And(Z(a[1]) == C.line[0], Z(a[2]) == C.line[1], z3.BoolVal(st.gh["lines"] == 1)))
        o = st.wobj(a[0].o)
        o.cells, o.fill, o.aw = {}, [], 1
        o.arr = ids["map"] = E.fresh("map", z3.ArraySort(I, I))
    C.regex(r"^[^']* utl::read_header<", hd)
    C.ghost("ok", z3.BoolVal(False))

    def outmap(E, st, a):
        A = st.objs[a[0].o].arr
        st.gh["ok"] = z3.BoolVal(A is not None and A.eq(ids["map"]) and a[0].f == 0)
    C.extern("out_map", outmap)
    C.post(lambda st, r: [("post: the range keeps the mapping of its header", st.gh["ok"])])


@unit("C06", H, "col_access")
def _(C):
    """every access reads and writes the one value"""
    x, y, z = C.sym("x"), C.sym("y"), C.sym("z")
    C.args(x, y, z)
    C.ghost("seen", ())

    def seen(E, st, a):
        st.gh["seen"] = st.gh["seen"] + ((a[0], a[1]),)
    C.extern("cb_col", seen)
    C.post(lambda st, r: [("post: every access delivers the value assigned last", z3.And(z3.BoolVal([k for k, v in st.gh["seen"]] == list(range(8))), *[Z(v) == (z if k == 7 else y if k == 6 else x) for k, v in st.gh["seen"]]))])
