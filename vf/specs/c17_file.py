"""C17: files are closed exactly once and yield exactly the bytes they hold."""
from ..spec import *
from ..heapmodel import heap, released
from ..strmodel import strings

H = "file"


def stdio(C, n=1):
    """contracts of stdio on regular files (trusted); file i: ghost state per handle; the bytes are DATA_i[0..len_i)"""
    fs = []
    for i in range(n):
        h, l = z3.Int(f"handle{i}"), z3.Int(f"file{i}.len")
        D = z3.Const(f"DATA{i}", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        C.require(h > 0, h < (1 << 62), l >= 0, l < (1 << 60), *[h != f[0] for f in fs])
        C.require(Forall(1, lambda k: z3.And(SEL(D, k) >= 0, SEL(D, k) < 256), lambda k: SEL(D, k)))
        C.E.params.append((f"file{i}.len", l))
        fs.append((h, l, D))
    C.ghost("files", ("closed",) * n)
    C.ghost("pos", (None,) * n)
    C.ghost("opened", ())
    C.ghost("failed", ())       # operations that reported a failure
    C.ghost("written", ())
    C.ghost("asked", ())

    def put(st, k, i, v):
        t = list(st.gh[k])
        t[i] = v
        st.gh[k] = tuple(t)

    def fail(st, what):
        t = st.copy()
        t.gh["failed"] = t.gh["failed"] + (what,)
        return t

    def fopen(E, st, a):
        i = len(st.gh["asked"])
        if i >= n:
            raise Unsupported("more files than modelled")
        st.gh["asked"] = st.gh["asked"] + ((a[0], a[1]),)
        t = fail(st, "fopen")
        put(st, "files", i, "open")
        put(st, "pos", i, z3.IntVal(0))
        return [("ret", t, 0), ("ret", st, fs[i][0])]

    def handle(E, st, h, what):
        out = []
        E.oblige(st, f"callback: {what} gets an open file", z3.Or(*[Z(h) == f[0] for i, f in enumerate(fs) if st.gh["files"][i] == "open"]))
        for i, f in enumerate(fs):
            if st.gh["files"][i] == "open":
                s = st.copy()
                s.assume(Z(h) == f[0])
                if E.sol.check(s.pc, [], 2000)[0] != z3.unsat:
                    out.append((s, i))
        return out

    def fclose(E, st, a):
        out = []
        for s, i in handle(E, st, a[0], "fclose"):
            put(s, "files", i, "shut")
            out.append(("ret", s, E.mod_fresh(s, "fclose", 32)))
        return out

    def fseek(E, st, a):
        if not isinstance(a[2], int) or a[2] not in (0, 1, 2):
            raise Unsupported("fseek whence")
        out = []
        for s, i in handle(E, st, a[0], "fseek"):
            if a[2] == 0 and isinstance(a[1], int) and a[1] == 0:       # as rewind
                put(s, "pos", i, z3.IntVal(0))
                out.append(("ret", s, 0))
                continue
            t = fail(s, "fseek")
            r = E.mod_fresh(t, "fseek", 32)
            t.assume(r != 0)
            off = E.sgn(s, a[1], 64)
            p = Z(off) + {0: 0, 1: s.gh["pos"][i], 2: fs[i][1]}[a[2]]
            s.assume(p >= 0)
            put(s, "pos", i, p)
            out += [("ret", t, r), ("ret", s, 0)]
        return out

    def ftell(E, st, a):
        return [("ret", s, s.gh["pos"][i]) for s, i in handle(E, st, a[0], "ftell")]

    def rewind(E, st, a):
        out = []
        for s, i in handle(E, st, a[0], "rewind"):
            put(s, "pos", i, z3.IntVal(0))
            out.append(("ret", s, None))
        return out

    def fread(E, st, a):
        if not ((isinstance(a[1], int) and a[1] == 1) or (isinstance(a[2], int) and a[2] == 1)):
            raise Unsupported("fread item size")
        one = isinstance(a[1], int) and a[1] == 1       # items of one byte, or a single item of `size` bytes
        n = a[2] if one else a[1]
        out = []
        for s, i in handle(E, st, a[3], "fread"):
            E.oblige(s, "memory: fread gets a writable block of that size", E.range_ok(s, a[0], n, write=True))
            p, l, D = s.gh["pos"][i], fs[i][1], fs[i][2]
            rest = z3.If(p < l, l - p, z3.IntVal(0))
            r = E.mod_fresh(s, "fread", 64)
            s.assume(r <= n, r <= rest)
            full = z3.If(Z(n) < rest, Z(n), rest)
            m, new = E.region_havoc(s, "m1")
            s.assume(Forall(1, lambda k: z3.Select(new, k) == z3.If(z3.And(k >= a[0], k < Z(a[0]) + r), z3.Select(D, k - Z(a[0]) + p), z3.Select(m, k)), lambda k: z3.Select(new, k)))
            put(s, "pos", i, p + r)
            t = fail(s, "fread")
            t.assume(r < full)
            s.assume(r == full)
            for x in (t, s):
                if E.sol.check(x.pc, [], 2000)[0] != z3.unsat:
                    out.append(("ret", x, r if one else z3.If(Z(n) == 0, z3.IntVal(0), z3.If(r == n, z3.IntVal(1), z3.IntVal(0)))))
        return out

    def fwrite(E, st, a):
        if not ((isinstance(a[1], int) and a[1] == 1) or (isinstance(a[2], int) and a[2] == 1)):
            raise Unsupported("fwrite item size")
        one = isinstance(a[1], int) and a[1] == 1
        n = a[2] if one else a[1]
        out = []
        for s, i in handle(E, st, a[3], "fwrite"):
            E.oblige(s, "memory: fwrite gets a readable block of that size", E.range_ok(s, a[0], n))
            r = E.mod_fresh(s, "fwrite", 64)
            s.assume(r <= n)
            s.gh["written"] = s.gh["written"] + ((i, a[0], r),)
            t = fail(s, "fwrite")
            t.assume(r < n)
            s.assume(r == n)
            for x in (t, s):
                if E.sol.check(x.pc, [], 2000)[0] != z3.unsat:
                    out.append(("ret", x, r if one else z3.If(Z(n) == 0, z3.IntVal(0), z3.If(r == n, z3.IntVal(1), z3.IntVal(0)))))
        return out
    for k, f in dict(fopen=fopen, fclose=fclose, fseek=fseek, ftell=ftell, rewind=rewind, fread=fread, fwrite=fwrite).items():
        C.extern(k, f)
    C.extern("fopen64", fopen)
    C.extern("ftello", ftell)
    C.extern("fseeko", fseek)
    C.E.assumed.add("stdio on regular files: fseek to the end followed by ftell gives the length; fread delivers a prefix of what is left, fwrite takes a prefix; seeking to the start does not fail; the file does not change meanwhile")
    return fs


def setup(C, files=1, blocks=0, strs=1, paths=1):
    C.extern("strlen", lambda E, st, a: E.mod_fresh(st, "strlen", 62))
    ps = []
    for i in range(paths):
        p = z3.Int(f"path{i}")
        C.require(p > 0, p < (1 << 62))
        ps.append(p)
    m = z3.Int("mode")
    C.require(m > 0, m < (1 << 62))
    C.paths, C.mode = ps, m
    heap(C, blocks)
    strings(C, strs)
    fs = stdio(C, files)
    C.ghost("seen", ())
    C.ghost("out", ())
    C.ghost("marks", 0)
    C.regex(r"(^| )utl::fail<", lambda E, st, a: None)
    C.regex(r"^std::runtime_error::~runtime_error", lambda E, st, a: None)
    C.extern("__cxa_throw", lambda E, st, a: [("throw", st, (a[0], 1))])
    C.extern("out_i", lambda E, st, a: st.gh.__setitem__("out", st.gh["out"] + (a[0],)))
    C.extern("cb_mark", lambda E, st, a: st.gh.__setitem__("marks", st.gh["marks"] + 1))
    C.extern("see", lambda E, st, a: st.gh.__setitem__("seen", st.gh["seen"] + ((a[0], a[1], E.mem(st, "m1")),)))
    return fs


def done(C, f):
    def closed(st):
        return [("post: the file is closed exactly once", z3.BoolVal(all(x != "open" for x in st.gh["files"]))), ("post: all memory is released", released(st))]

    def opened(st):
        return [("post: the given file is opened in the given mode", z3.And(*[z3.And(Z(a) == p, Z(b) == C.mode) for (a, b), p in zip(st.gh["asked"], C.paths)]))]
    C.post(lambda st, r: closed(st) + opened(st) + f(st))
    C.on_throw(lambda st, v: closed(st) + opened(st) + [("post: an exception is thrown only if an operation failed", z3.BoolVal(bool(st.gh["failed"]) or st.gh.get("oom", False)))])


def no_failure(st):
    return [("post: a failed operation is reported", z3.BoolVal(not st.gh["failed"]))]


@unit("C17", H, "open", name="file_open")
def _(C):
    setup(C)
    C.args(C.paths[0], C.mode)
    done(C, lambda st: no_failure(st) + [("post: opens exactly one file", z3.BoolVal(len(st.gh["asked"]) == 1))])


@unit("C17", H, "handle", name="file_handle")
def _(C):
    fs = setup(C)
    C.args(C.paths[0], C.mode)
    done(C, lambda st: no_failure(st) + [("post: the handle is that of the file", Z(st.gh["seen"][0][0]) == fs[0][0] if st.gh["seen"] else z3.BoolVal(False))])


@unit("C17", H, "copy", name="file_copy")
def _(C):
    setup(C)
    C.args(C.paths[0], C.mode)
    done(C, lambda st: [])


@unit("C17", H, "assign", name="file_assign")
def _(C):
    setup(C, files=2, paths=2)
    C.args(C.paths[0], C.mode, C.paths[1])
    done(C, lambda st: [])


@unit("C17", H, "size", name="file_size")
def _(C):
    fs = setup(C)
    C.args(C.paths[0], C.mode)
    done(C, lambda st: no_failure(st) + [("post: the size is the length of the file", Z(st.gh["out"][0]) == fs[0][1]), ("post: reading starts at the beginning afterwards", st.gh["pos"][0] == 0)])


def content(C, s, f):
    k = z3.Int("k")
    p, n, M = s
    return [("post: the size is that of the file", Z(n) == f[1]),
            ("post: the content is that of the file", z3.ForAll([k], Imp(z3.And(k >= 0, k < f[1]), SEL(M, Z(p) + k) == SEL(f[2], k))))]


for e in ("content", "content_str"):
    @unit("C17", H, e, name="file_" + e)
    def _(C):
        fs = setup(C, blocks=1)
        C.args(C.paths[0], C.mode)
        done(C, lambda st: no_failure(st) + content(C, st.gh["seen"][0], fs[0]))


@unit("C17", H, "content_twice", name="file_content_twice")
def _(C):
    fs = setup(C, blocks=1)
    C.args(C.paths[0], C.mode)
    done(C, lambda st: no_failure(st) + content(C, st.gh["seen"][0], fs[0]) + content(C, st.gh["seen"][1], fs[0]))


def wrote(st, want):
    w = st.gh["written"]
    return no_failure(st) + [("post: exactly the given bytes are written, in order", z3.And(*[z3.And(Z(a[1]) == b.base, Z(a[2]) == b.n) for a, b in zip(w, want)]) if len(w) == len(want) else z3.BoolVal(False))]


@unit("C17", H, "write", name="file_write")
def _(C):
    v = C.view("bytes")
    setup(C)
    C.args(C.paths[0], C.mode, v.base, v.n)
    done(C, lambda st: wrote(st, [v]))


@unit("C17", H, "write_twice", name="file_write_twice")
def _(C):
    v, w = C.view("bytes"), C.view("more")
    setup(C)
    C.args(C.paths[0], C.mode, v.base, v.n, w.base, w.n)
    done(C, lambda st: wrote(st, [v, w]))
