"""contracts of malloc, realloc and free (trusted, glibc): a block is live from its allocation to the one call that releases it"""
import z3
from .engine import *  # noqa


def heap(C, count=2):
    """`count` blocks; ghost "heap": block name -> unused | live | freed"""
    blocks = []
    for i in range(count):
        r = C.region(f"heap{i}", 1, writable=True)
        C.require(r.base >= 4096)
        for o in blocks:
            C.require(Or(r.base + r.size <= o.base, o.base + o.size <= r.base), r.base != o.base)
        blocks.append(r)
    C.ghost("heap", {r.name: "unused" for r in blocks})
    C.ghost("oom", False)

    def put(st, r, s):
        st.gh["heap"] = dict(st.gh["heap"], **{r.name: s})

    def new(E, st, n):
        """-> (state, pointer or 0)"""
        free = [r for r in blocks if st.gh["heap"][r.name] == "unused"]
        if not free:
            raise Unsupported("more heap blocks than modelled")
        r = free[0]
        s0 = st.copy()
        s0.gh["oom"] = True
        put(st, r, "live")
        st.assume(Z(n) == r.size)
        return [(s0, 0, None), (st, r.base, r)]

    def malloc(E, st, a):
        return [("ret", s, v) for s, v, _ in new(E, st, a[0])]

    def owner(E, st, p, what):
        """[(state, block or None)]: the live block p points to, None for the null pointer"""
        live = [r for r in blocks if st.gh["heap"][r.name] == "live"]
        E.oblige(st, f"memory: {what} gets null or a live block's address", z3.Or(Z(p) == 0, *[Z(p) == r.base for r in live]))
        out = []
        for r in [None] + live:
            s = st.copy()
            s.assume(Z(p) == (0 if r is None else r.base))
            if E.feasible(s, z3.BoolVal(True)) and E.sol.check(s.pc, [], 2000)[0] != z3.unsat:
                out.append((s, r))
        return out

    def free(E, st, a):
        out = []
        for s, r in owner(E, st, a[0], "free"):
            if r is not None:
                put(s, r, "freed")
            out.append(("ret", s, None))
        return out

    def realloc(E, st, a):
        out = []
        for s, r in owner(E, st, a[0], "realloc"):
            if r is None:
                out += [("ret", x, v) for x, v, _ in new(E, s, a[1])]
                continue
            z = s.copy()
            z.assume(Z(a[1]) == 0)      # glibc: frees the block and returns null
            if E.sol.check(z.pc, [], 2000)[0] != z3.unsat:
                put(z, r, "freed")
                out.append(("ret", z, 0))
            s.assume(Z(a[1]) != 0)
            if E.sol.check(s.pc, [], 2000)[0] == z3.unsat:
                continue
            for x, v, b in new(E, s, a[1]):
                if b is not None:
                    n = z3.If(r.size < b.size, r.size, b.size)
                    E.sym_copy(x, b.base, r.base, n)
                    put(x, r, "freed")
                out.append(("ret", x, v))
        return out
    C.extern("malloc", malloc)
    C.extern("free", free)
    C.extern("realloc", realloc)
    C.E.assumed.add("malloc/realloc/free: null only when memory is out (realloc(p, 0) releases p and returns null, as in glibc); blocks are disjoint; realloc keeps the common prefix")
    return blocks


def released(st):
    """every block allocated has been released (double release is an obligation of free)"""
    return z3.BoolVal(all(v != "live" for v in st.gh["heap"].values()))
