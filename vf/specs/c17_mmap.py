"""C17 (memory-mapped reader): descriptor and mapping are released exactly once; reading walks through the file."""
from ..spec import *
from .. import llparse as L
from ..heapmodel import released

H = "mmap"
FAILED = (1 << 64) - 1
NOFD = (1 << 32) - 1


def setup(C, n=1):
    """contracts of open/fstat/mmap/munmap/close (trusted); ghost: descriptors and mappings"""
    C.paths, fs, maps = [], [], []
    for i in range(n):
        p, fd = z3.Int(f"path{i}"), z3.Int(f"fd{i}")
        C.require(p > 0, p < (1 << 62), fd >= 0, fd < (1 << 31))
        C.require(*[fd != f for f in fs])
        r = C.region(f"file{i}", 1)
        C.require(r.base >= 4096)
        for o in maps:
            C.require(Or(r.base + r.size <= o.base, o.base + o.size <= r.base), r.base != o.base)
        C.paths.append(p)
        fs.append(fd)
        maps.append(r)
    C.ghost("heap", {r.name: "unused" for r in maps})     # mappings
    C.ghost("fds", ("closed",) * n)
    C.ghost("asked", ())
    C.ghost("failed", ())
    C.ghost("seen", ())
    C.ghost("out", ())
    C.ghost("marks", ())

    def fail(st, what):
        t = st.copy()
        t.gh["failed"] = t.gh["failed"] + (what,)
        return t

    def fdset(st, i, v):
        st.gh["fds"] = tuple(v if j == i else x for j, x in enumerate(st.gh["fds"]))

    def op(E, st, a):
        i = len(st.gh["asked"])
        if i >= n:
            raise Unsupported("more files than modelled")
        st.gh["asked"] = st.gh["asked"] + (a[0],)
        E.oblige(st, "system call: the file is opened read-only", z3.BoolVal(isinstance(a[1], int) and a[1] % 4 == 0))
        t = fail(st, "open")
        fdset(st, i, "open")
        return [("ret", t, NOFD), ("ret", st, fs[i])]

    def which(E, st, fd, what):
        E.oblige(st, f"system call: {what} gets an open descriptor", z3.Or(*[Z(fd) == f for i, f in enumerate(fs) if st.gh["fds"][i] == "open"]))
        out = []
        for i, f in enumerate(fs):
            if st.gh["fds"][i] == "open":
                s = st.copy()
                s.assume(Z(fd) == f)
                if E.sol.check(s.pc, [], 2000)[0] != z3.unsat:
                    out.append((s, i))
        return out

    def fstat(E, st, a):
        out = []
        for s, i in which(E, st, a[0], "fstat"):
            E.store(s, Loc(a[1].o, a[1].f + 48), maps[i].n, L.IntTy(64))
            out.append(("ret", s, 0))
        return out

    def close(E, st, a):
        out = []
        for s, i in which(E, st, a[0], "close"):
            fdset(s, i, "shut")
            out.append(("ret", s, 0))
        return out

    def mm(E, st, a):
        out = []
        for s, i in which(E, st, a[4], "mmap"):
            E.oblige(s, "system call: mmap maps exactly the file", z3.And(Z(a[1]) == maps[i].n, Z(a[5]) == 0))
            E.oblige(s, "system call: the file is mapped once", z3.BoolVal(s.gh["heap"][maps[i].name] == "unused"))
            t = fail(s, "mmap")
            out.append(("ret", t, FAILED))
            s.assume(Z(a[1]) > 0)
            s.gh["heap"] = dict(s.gh["heap"], **{maps[i].name: "live"})
            out.append(("ret", s, maps[i].base))
        return out

    def mu(E, st, a):
        live = [r for r in maps if st.gh["heap"][r.name] == "live"]
        E.oblige(st, "system call: munmap gets a whole mapping that still exists", z3.Or(*[z3.And(Z(a[0]) == r.base, Z(a[1]) == r.size) for r in live]))
        out = []
        for r in live:
            s = st.copy()
            s.assume(Z(a[0]) == r.base)
            if E.sol.check(s.pc, [], 2000)[0] != z3.unsat:
                s.gh["heap"] = dict(s.gh["heap"], **{r.name: "freed"})
                out.append(("ret", s, 0))
        return out
    for k, f in (("open", op), ("open64", op), ("fstat", fstat), ("fstat64", fstat), ("mmap", mm), ("mmap64", mm), ("munmap", mu), ("close", close)):
        C.extern(k, f)
    C.E.assumed.add("open/fstat/mmap/munmap/close: POSIX; fstat on an open descriptor succeeds; the file does not change meanwhile")
    C.regex(r"^std::runtime_error::", lambda E, st, a: None)
    C.extern("__cxa_throw", lambda E, st, a: [("throw", st, (a[0], 1))])
    C.extern("out_i", lambda E, st, a: st.gh.__setitem__("out", st.gh["out"] + (a[0],)))
    C.extern("out_f", lambda E, st, a: st.gh.__setitem__("out", st.gh["out"] + (a[0],)))
    C.extern("cb_mark", lambda E, st, a: st.gh.__setitem__("marks", st.gh["marks"] + ((st.gh["fds"], tuple(st.gh["heap"].values())),)))

    def see(E, st, a):
        E.oblige(st, "post: what was read lies in the mapping", E.range_ok(st, a[0], a[1]))
        st.gh["seen"] = st.gh["seen"] + ((a[0], a[1]),)
    C.extern("see", see)
    return maps


def done(C, f, seen):
    def closed(st):
        return [("post: every file is closed exactly once", z3.BoolVal("open" not in st.gh["fds"])), ("post: every mapping is released exactly once", released(st)),
                ("post: the given files are opened", z3.And(*[Z(a) == p for a, p in zip(st.gh["asked"], C.paths)]))]

    def post(st, r):
        out = closed(st) + [("post: a failed operation is reported", z3.BoolVal(not st.gh["failed"]))]
        if len(st.gh["seen"]) != seen:
            return out + [("post: all operations have taken place", z3.BoolVal(False))]
        return out + f(st, st.gh["seen"])
    C.post(post)
    C.on_throw(lambda st, v: closed(st) + [("post: an exception is thrown only if an operation failed", z3.BoolVal(bool(st.gh["failed"])))])


def chunk(s, r, k, n=None):
    """at most n bytes from position k on (k beyond the end: nothing is left)"""
    at = z3.If(k < r.n, k, r.n)
    left = r.n - at
    want = left if n is None else z3.If(n < left, n, left)
    return [("post: exactly the next bytes are read, as many as asked for or left", z3.And(Z(s[0]) == r.base + at, Z(s[1]) == want))]


@unit("C17", H, "open", name="mmap_open")
def _(C):
    setup(C)
    C.args(*C.paths)
    done(C, lambda st, g: [("post: reading from an open file", z3.BoolVal(len(st.gh["marks"]) >= 1 and st.gh["marks"][0][1] == ("live",)))], 0)


@unit("C17", H, "read", name="mmap_read")
def _(C):
    r, = setup(C)
    k, n = C.sym("k"), C.sym("n")
    C.args(C.paths[0], k, n)
    done(C, lambda st, g: chunk(g[0], r, k, n) + chunk(g[1], r, z3.If(k < r.n, k, r.n) + n), 2)


@unit("C17", H, "all", name="mmap_all")
def _(C):
    r, = setup(C)
    C.args(C.paths[0])
    done(C, lambda st, g: chunk(g[0], r, z3.IntVal(0)) + [("post: nothing is left after the end", Z(g[1][1]) == 0)], 2)


@unit("C17", H, "move_ctor", name="mmap_move_ctor")
def _(C):
    r, = setup(C)
    k, n = C.sym("k"), C.sym("n")
    C.args(C.paths[0], k, n)
    done(C, lambda st, g: chunk(g[0], r, k, n), 1)


@unit("C17", H, "moved_away", name="mmap_moved_away")
def _(C):
    r, = setup(C)
    k, n = C.sym("k"), C.sym("n")
    C.args(C.paths[0], k, n)
    done(C, lambda st, g: chunk(g[0], r, k, n) + [("post: the file is released when its owner goes", z3.BoolVal(st.gh["marks"] == ((("shut",), ("freed",)),)))], 1)


@unit("C17", H, "move_assign", name="mmap_move_assign")
def _(C):
    _, r = setup(C, 2)
    j, k, n = C.sym("j"), C.sym("k"), C.sym("n")
    C.args(*C.paths, j, k, n)
    done(C, lambda st, g: chunk(g[0], r, k, n) + [("post: assignment returns the assigned reader", Z(st.gh["out"][0]) == 1)], 1)


@unit("C17", H, "assign_to_moved", name="mmap_assign_to_moved")
def _(C):
    _, r = setup(C, 2)
    k, n = C.sym("k"), C.sym("n")
    C.args(*C.paths, k, n)
    done(C, lambda st, g: chunk(g[0], r, k, n), 1)


@unit("C17", H, "self_assign", name="mmap_self_assign")
def _(C):
    r, = setup(C)
    k, n = C.sym("k"), C.sym("n")
    C.args(*C.paths, k, n)
    done(C, lambda st, g: chunk(g[0], r, k, n), 1)


@unit("C17", H, "file", name="mmap_file")
def _(C):
    setup(C)
    C.args(*C.paths)
    done(C, lambda st, g: [], 0)


@unit("C17", H, "map", name="mmap_map")
def _(C):
    r, = setup(C)
    C.args(*C.paths)
    done(C, lambda st, g: [("post: pointer and size are those of the mapping", z3.And(Z(g[0][0]) == r.base, Z(g[0][1]) == r.n))], 1)


def marks(st, *want):
    return [("post: files are released by their last owner, not before", z3.BoolVal(tuple(m[0] for m in st.gh["marks"]) == want))]


@unit("C17", H, "file_assign", name="mmap_file_assign")
def _(C):
    setup(C, 2)
    C.args(*C.paths)
    done(C, lambda st, g: marks(st, ("shut", "open"), ("shut", "open")), 0)


@unit("C17", H, "file_move", name="mmap_file_move")
def _(C):
    setup(C)
    C.args(*C.paths)
    done(C, lambda st, g: marks(st, ("open",), ("shut",)), 0)


@unit("C17", H, "map_assign", name="mmap_map_assign")
def _(C):
    _, r = setup(C, 2)
    C.args(*C.paths)
    done(C, lambda st, g: [("post: pointer and size are those of the mapping", z3.And(Z(g[0][0]) == r.base, Z(g[0][1]) == r.n))], 1)


def monotonic(E, st, v, r, s):
    """conversion of integers to floating point (IEEE 754): zero, one and the order are kept"""
    one, zero = z3.FPVal(1, s), z3.FPVal(0, s)
    st.assume(Imp(Z(v) == 0, r == zero), Imp(Z(v) == 1, r == one), Imp(Z(v) >= 1, z3.fpGEQ(r, one)), Imp(Z(v) >= 0, z3.fpGEQ(r, zero)))
    for w, q in st.gh.get("ints", ()):
        st.assume(Imp(Z(v) <= Z(w), z3.fpLEQ(r, q)), Imp(Z(w) <= Z(v), z3.fpLEQ(q, r)))
    st.gh["ints"] = st.gh.get("ints", ()) + ((v, r),)


@unit("C17", H, "progress", name="mmap_progress", opts=dict(prove_ms=120000))
def _(C):
    r, = setup(C)
    k = C.sym("k")
    C.int2fp = monotonic
    C.fp_exact = True
    C.args(C.paths[0], k)

    def f(st, g):
        p = st.gh["out"][0]
        one, zero = z3.FPVal(1, z3.Float32()), z3.FPVal(0, z3.Float32())
        return [("post: progress lies between 0 and 1", z3.And(z3.fpLEQ(zero, p), z3.fpLEQ(p, one))),
                ("post: progress is 0 at the beginning", Imp(k == 0, z3.fpEQ(p, zero))),
                ("post: progress is 1 at the end", Imp(k >= r.n, z3.fpEQ(p, one)))]
    done(C, f, 0)
