"""C02: comparisons of views depend on the bytes only."""
from ..spec import *

H = "cstr"


def two(C):
    a, b = C.view("a"), C.view("b")
    C.args(a.base, a.n, b.base, b.n)
    C.bytes_typed()
    return a, b


def same(C, st, a, b, n):
    M = C.E.mem(st, "m1")
    return SameBytes(M, a, M, b, n)


def first_diff(C, st, a, b):
    """d = first position where the views differ (or the shorter length); exists for any two byte strings"""
    d = z3.Int("first_difference")
    m = z3.If(a.n <= b.n, a.n, b.n)
    C.require(d >= 0, d <= m, same(C, st, a.base, b.base, d),
              Imp(d < m, C.byte(st, a.base + d) != C.byte(st, b.base + d)))
    return d, m


for e, pos in (("eq", True), ("ne", False)):
    @unit("C02", H, e)
    def _(C, pos=pos):
        a, b = two(C)
        d, m = first_diff(C, C.st, a, b)
        eq = z3.And(a.n == b.n, d == a.n)
        eq_inv(C, a, b)
        C.post(lambda st, r: [("post: true exactly if lengths and all bytes (NUL included) agree",
                               C.E.as_bool(r) == (eq if pos else z3.Not(eq)))])


def eq_inv(C, a, b):
    def cands(E, Hd):
        out = []
        for n, f in Hd.pos:
            out.append((f"equal up to pointer {n} (a)", lambda st, f=f: same(C, st, a.base, b.base, Z(f(st)) - a.base)))
            out.append((f"equal up to pointer {n} (b)", lambda st, f=f: same(C, st, a.base, b.base, Z(f(st)) - b.base)))
            out.append((f"equal up to index {n}", lambda st, f=f: same(C, st, a.base, b.base, Z(f(st)))))
        return out
    C.inv(cands)


@unit("C02", H, "lt")
def _(C):
    a, b = two(C)
    d, m = first_diff(C, C.st, a, b)
    eq_inv(C, a, b)

    def s8(x):
        return z3.If(x >= 128, x - 256, x)
    C.post(lambda st, r: [("post: operator< is the lexicographic order by char value, shorter prefix first",
                           C.E.as_bool(r) == z3.If(d < m, s8(C.byte(st, a.base + d)) < s8(C.byte(st, b.base + d)), a.n < b.n))])


@unit("C02", H, "starts_with")
def _(C):
    a, b = two(C)
    d, m = first_diff(C, C.st, a, b)
    eq_inv(C, a, b)
    C.post(lambda st, r: [("post: true exactly if the view begins with all bytes of the prefix",
                           C.E.as_bool(r) == z3.And(b.n <= a.n, d == b.n))])


def occurrences(C, a, b):
    """occ(i): needle b occurs in a at offset i (definition with explicit mismatch position)"""
    occ = z3.Function("occurs_at", z3.IntSort(), z3.BoolSort())
    mis = z3.Function("mismatch_at", z3.IntSort(), z3.IntSort())
    st = C.st

    def axiom(i):
        return z3.And(
            Imp(occ(i), z3.And(i >= 0, i + b.n <= a.n,
                               same(C, st, a.base + i, b.base, b.n))),
            Imp(z3.And(z3.Not(occ(i)), i >= 0, i + b.n <= a.n),
                z3.And(mis(i) >= 0, mis(i) < b.n, C.byte(st, a.base + i + mis(i)) != C.byte(st, b.base + mis(i)))))
    C.require(Forall(1, axiom, lambda i: occ(i)))

    def mcmp(E, st, args):
        p, q, n = args
        r = EN.c_memcmp(E, st, args)
        for base in (a.base,):
            for x in (p, q):
                if z3.is_expr(Z(x)):
                    st.assume(axiom(z3.simplify(Z(x) - base)))
        return r
    C.extern("memcmp", mcmp)
    C.extern("bcmp", mcmp)

    def cands(E, Hd):
        none = lambda st, hi: Forall(1, lambda i: Imp(z3.And(i >= 0, i < hi), z3.Not(occ(i))), lambda i: occ(i))
        out = []
        for n, f in Hd.pos:
            out.append((f"no occurrence before {n}", lambda st, f=f: none(st, Z(f(st)))))
            out.append((f"no occurrence before pointer {n}", lambda st, f=f: none(st, Z(f(st)) - a.base)))
            for no, o in Hd.const:
                if no.startswith("%"):
                    out.append((f"equal up to {n} at offset {no}", lambda st, f=f, o=o: same(C, st, a.base + Z(o(st)), b.base, Z(f(st)))))
                    out.append((f"equal from {no} up to {n}", lambda st, f=f, o=o: same(C, st, Z(o(st)), b.base, Z(f(st)))))
                    out.append((f"equal from {no} up to pointer {n}", lambda st, f=f, o=o: same(C, st, Z(o(st)), b.base, Z(f(st)) - Z(o(st)))))
        return out
    C.inv(cands)
    return occ, axiom


@unit("C02", H, "contains")
def _(C):
    a, b = two(C)
    occ, ax = occurrences(C, a, b)
    C.require(ax(z3.IntVal(0)))
    j = z3.Int("any_offset")
    C.require(ax(j), Or(occ(j), z3.Not(occ(j))))
    C.post(lambda st, r: [
        ("post: false only if the needle occurs nowhere", Imp(z3.Not(Z(C.E.as_bool(r))), z3.Not(occ(j)))),
        ("post: true only if the needle occurs somewhere",
         Imp(C.E.as_bool(r), z3.Not(Forall(1, lambda i: z3.Not(occ(i)), lambda i: occ(i)))))])


@unit("C02", H, "substr_offset")
def _(C):
    a, b = two(C)
    occ, ax = occurrences(C, a, b)
    eq_inv(C, a, b)
    j = z3.Int("any_offset")
    C.require(ax(j))
    NPOS = (1 << 64) - 1
    C.post(lambda st, r: [
        ("post: the returned offset is inside the view or npos", Or(Z(r) == NPOS, z3.And(Z(r) < a.n, Z(r) + b.n <= a.n))),
        ("post: the needle occurs at the returned offset",
         Imp(Z(r) != NPOS, same(C, st, a.base + Z(r), b.base, b.n))),
        ("post: no earlier occurrence exists", Imp(z3.And(j >= 0, j < a.n, Or(Z(r) == NPOS, j < Z(r))), z3.Not(occ(j))))])
