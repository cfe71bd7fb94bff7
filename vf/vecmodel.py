"""contracts of std::vector<T> (trusted): a vector owns a contiguous writable block; appending writes behind the last element"""
import z3
from .engine import *  # noqa
from . import llparse as L

NOINLINE = r"std::vector<T, std::allocator<T> ?>::(vector|emplace_back|push_back|reserve|~vector)"


def field(E, v, k):
    return Loc(v.o, v.f + 8 * k) if isinstance(v, Loc) else v + 8 * k


def ld(E, st, v, k):
    return E.load(st, field(E, v, k), L.PTR)


def st_(E, st, v, k, x):
    E.store(st, field(E, v, k), x, L.PTR)


def vectors(C, ty, w, count=1, elem=None):
    """blocks for the vectors of element type `ty` (regex) and element width w; returns the block regions"""
    blocks = [C.region(f"block{i}", w, writable=True) for i in range(count)]
    C.ghost("vectors", 0)
    T = rf"std::vector<{ty}, std::allocator<{ty}> ?>::"
    ety = elem or L.IntTy(8 * w)

    def ctor(E, st, a):
        i = st.gh["vectors"]
        if i >= len(blocks):
            raise Unsupported("more vectors than modelled")
        st.gh["vectors"] = i + 1
        for k in range(3):
            st_(E, st, a[0], k, blocks[i].base)

    def push(E, st, a):
        b = ld(E, st, a[0], 1)
        st.assume(z3.Or(*[z3.And(r.base <= b, b + w <= r.base + r.size) for r in blocks]))   # memory suffices
        x = E.load(st, a[1], ety)
        E.store(st, b, x, ety)
        if z3.is_expr(x):
            st.assume(z3.Function("appended", x.sort(), z3.BoolSort())(x))      # no content: offers the read as a trigger
        st_(E, st, a[0], 1, b + w)
        return b
    def from_range(E, st, a):
        """vector(first, last): a copy of the range"""
        i = st.gh["vectors"]
        if i >= len(blocks):
            raise Unsupported("more vectors than modelled")
        st.gh["vectors"] = i + 1
        lo, hi, b, k = Z(a[1]), Z(a[2]), blocks[i], f"m{w}"
        E.oblige(st, "memory: the range copied is a range", lo <= hi)
        st.assume(hi - lo <= b.size)                                                         # memory suffices
        M1 = E.mem(st, k)
        M2 = E.fresh("copied_" + k, M1.sort())
        inside = lambda p: z3.And(b.base <= p, p < b.base + (hi - lo))
        q = [z3.Int(f"q!{next(E.cnt)}") for _ in range(2)]
        S = z3.Select
        st.assume(z3.ForAll([q[0]], z3.Implies(inside(q[0]), S(M2, q[0]) == S(M1, lo + (q[0] - b.base))), patterns=[S(M2, q[0])]),
                  z3.ForAll([q[1]], z3.Implies(z3.Not(inside(q[1])), S(M2, q[1]) == S(M1, q[1])), patterns=[S(M2, q[1])]))
        st.mem[k] = M2
        for j, x in enumerate((b.base, b.base + (hi - lo), b.base + (hi - lo))):
            st_(E, st, a[0], j, x)
    C.E.assumed.add("std::vector: the modelled blocks are large enough (no std::bad_alloc); growth moves elements without changing them")
    C.regex("^" + T + r"vector\(\)", ctor)
    C.regex("^" + T + r"vector<.*>\((\S.*), \1, std::allocator", from_range)
    C.regex(T + r"(emplace_back|push_back)", push)
    C.regex(T + r"reserve\(", lambda E, st, a: None)
    C.regex("^" + T + r"~vector\(", lambda E, st, a: None)
    return blocks
