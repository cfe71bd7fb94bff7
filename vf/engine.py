"""Floyd/Hoare verification-condition generator over LLVM IR compiled from the
real sources in /repo.

A *spec* (see vf/specs/*.py) is a contract for one entry point of the compiled
harness: a precondition over symbolic parameters, contracts for every external
function that the code may call (callbacks, libc), and a postcondition.  Every
loop is cut at its header; the loop invariant is the largest inductive subset
(Houdini) of the candidate clauses proposed by the spec and by the generic
library below.  Candidates talk about whatever values the loop carries, never
about names of locals, so renamed variables / extracted helpers / rewritten
loops give the same proof.

Nothing is bounded: integers are mathematical with explicit 2^w wrap-around,
memory is an unbounded array, loops are cut by invariants.  (Loops whose trip
count folds to a constant are executed fully.)"""
import itertools
import math
import os
import re
import time
import z3
from . import llparse as L

z3.set_param("smt.random_seed", 0)


TRACE = os.environ.get("VF_TRACE")


class Again(Exception):
    """what the unit assumed about the code as a whole does not fit it: start over with these options"""
    def __init__(self, **opts):
        super().__init__(str(opts))
        self.opts = opts


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Loc:
    """pointer into a local/global object"""
    __slots__ = ("o", "f")

    def __init__(s, o, f=0):
        s.o, s.f = o, f

    def __repr__(s):
        return f"Loc({s.o},{s.f})"

    def same(s, t):
        return isinstance(t, Loc) and s.o == t.o and ident(s.f, t.f)


class Fn:
    __slots__ = ("n",)

    def __init__(s, n):
        s.n = n

    def __repr__(s):
        return f"Fn({s.n})"


def ident(a, b):
    if a is b:
        return True
    if isinstance(a, Loc) or isinstance(b, Loc):
        return isinstance(a, Loc) and a.same(b)
    if isinstance(a, Fn) or isinstance(b, Fn):
        return isinstance(a, Fn) and isinstance(b, Fn) and a.n == b.n
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) and all(ident(x, y) for x, y in zip(a, b))
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if z3.is_expr(a) or z3.is_expr(b):
        return False
    return type(a) == type(b) and a == b


def Z(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    return v


def And(*a):
    f = []
    for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a):
        if x is True:
            continue
        if x is False:
            return z3.BoolVal(False)
        f.append(x)
    return z3.And(*f) if len(f) > 1 else (f[0] if f else z3.BoolVal(True))


def Or(*a):
    f = []
    for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a):
        if x is False:
            continue
        if x is True:
            return z3.BoolVal(True)
        f.append(x)
    return z3.Or(*f) if len(f) > 1 else (f[0] if f else z3.BoolVal(False))


def Not(a):
    if isinstance(a, bool):
        return z3.BoolVal(not a)
    return z3.Not(a)


def has_q(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += x.children()
    return False


def Imp(a, b):
    return Or(Not(a), b if not isinstance(b, bool) else z3.BoolVal(b))


_q = itertools.count()


def Forall(n, body, pats=None, lo=None, hi=None):
    """forall k1..kn. body(k..); pats(k..) -> list of trigger terms"""
    ks = [z3.Int(f"q!{next(_q)}") for _ in range(n)]
    b = body(*ks)
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if pats:
        ps = pats(*ks)
        ps = ps if isinstance(ps, list) else [ps]
        try:
            return z3.ForAll(ks, b, patterns=[z3.MultiPattern(*p) if isinstance(p, (tuple,)) else p for p in ps])
        except z3.Z3Exception:
            return z3.ForAll(ks, b)
    return z3.ForAll(ks, b)


def tz(t, w):
    """lower bound of the number of trailing zero bits (syntactic)"""
    if z3.is_int_value(t):
        v = t.as_long()
        return w if v == 0 else (v & -v).bit_length() - 1
    if z3.is_app(t):
        k, ch = t.decl().kind(), t.children()
        if k == z3.Z3_OP_MUL:
            return min(w, sum(tz(c, w) for c in ch))
        if k == z3.Z3_OP_ADD:
            return min(tz(c, w) for c in ch)
        if k == z3.Z3_OP_ITE:
            return min(tz(c, w) for c in ch[1:])
        if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
            return min(tz(ch[0], w), tz(ch[1], w))
    return 0


def SameBytes(M1_, a, M2_, b, n):
    """M1_[a..a+n) == M2_[b..b+n), triggered by a read of either side"""
    return z3.And(
        Forall(1, lambda x: Imp(z3.And(x >= a, x < a + n), z3.Select(M1_, x) == z3.Select(M2_, x - a + b)), lambda x: z3.Select(M1_, x)),
        Forall(1, lambda y: Imp(z3.And(y >= b, y < b + n), z3.Select(M2_, y) == z3.Select(M1_, y - b + a)), lambda y: z3.Select(M2_, y)))


class Obj:
    """local object: concrete-offset cells, or one array when indexed symbolically"""
    __slots__ = ("size", "cells", "fill", "arr", "aw", "ro", "tag")

    def __init__(s, size, tag=""):
        s.size, s.cells, s.fill, s.arr, s.aw, s.ro, s.tag = size, {}, [], None, 0, False, tag

    def copy(s):
        o = Obj(s.size, s.tag)
        o.cells, o.fill, o.arr, o.aw, o.ro = dict(s.cells), list(s.fill), s.arr, s.aw, s.ro
        return o


class State:
    __slots__ = ("env", "pc", "mem", "objs", "gh", "note")

    def __init__(s):
        s.env, s.pc, s.mem, s.objs, s.gh, s.note = {}, [], {}, {}, {}, []

    def copy(s):
        t = State()
        t.env, t.pc, t.mem, t.objs, t.gh, t.note = dict(s.env), list(s.pc), dict(s.mem), dict(s.objs), dict(s.gh), s.note
        return t

    def assume(s, *fs):
        for f in fs:
            if f is True or (z3.is_expr(f) and z3.is_true(f)):
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            s.pc.append(f)

    def obj(s, oid):
        return s.objs[oid]

    def wobj(s, oid):
        o = s.objs[oid].copy()
        s.objs[oid] = o
        return o


class Region:
    def __init__(s, name, base, size, w=1, kind="char", writable=False):
        s.name, s.base, s.size, s.w, s.kind, s.writable = name, base, size, w, kind, writable

    @property
    def end(s):
        return s.base + s.size


class Solver:
    """incremental z3 wrapper with shared-prefix assertion stack"""

    def __init__(s):
        s.s = z3.SolverFor("ALL") if False else z3.Solver()
        s.s.set("auto_config", False)
        s.s.set("smt.mbqi", False)
        s.stack = []
        s.n = 0
        s.t = 0.0

    def sync(s, pc):
        k = 0
        m = min(len(pc), len(s.stack))
        while k < m and s.stack[k] is pc[k]:
            k += 1
        if len(s.stack) > k:
            s.s.pop(len(s.stack) - k)
            del s.stack[k:]
        for f in pc[k:]:
            s.s.push()
            s.s.add(f)
            s.stack.append(f)

    def check(s, pc, extra, timeout=1000):
        t0 = time.time()
        s.sync(pc)
        s.s.push()
        s.s.set("timeout", timeout)
        for e in extra:
            s.s.add(e)
        r = s.s.check()
        m = None
        if r != z3.unsat:
            try:
                m = s.s.model()
            except z3.Z3Exception:
                m = None
        s.s.pop()
        s.n += 1
        s.t += time.time() - t0
        return r, m

    def fresh_check(s, pc, extra, timeout, seed=0, mbqi=False):
        t0 = time.time()
        q = z3.Solver()
        q.set("auto_config", False)
        q.set("smt.mbqi", mbqi)
        q.set("smt.random_seed", seed)
        q.set("timeout", timeout)
        q.add(*pc)
        q.add(*extra)
        r = q.check()
        s.n += 1
        s.t += time.time() - t0
        return r, q


class LoopCtx:
    def __init__(s, header, blocks, parent=None):
        s.header, s.blocks, s.parent = header, blocks, parent


class Frame:
    def __init__(s, fn, loops, depth):
        s.fn, s.loops, s.depth = fn, loops, depth


class Header:
    """what candidate generators see at a loop header"""

    def __init__(s):
        s.pos = []     # (name, fn(st)->Int) address/integer-like terms that vary
        s.const = []   # same, loop-constant
        s.bools = []
        s.ints = []    # plain phi ints
        s.entry = None


class Ob:
    __slots__ = ("name", "status", "paths", "reason", "backends", "model", "cover")

    def __init__(s, name):
        s.name, s.status, s.paths, s.reason, s.backends, s.model, s.cover = name, "discharged", 0, "", set(), None, 0


class Engine:
    def __init__(E, module, spec, opts=None):
        E.m, E.spec = module, spec
        E.o = dict(query_ms=2000, prove_ms=20000, depth=40, maxpaths=20000, wall=600, unroll=600, bound=0)
        E.o.update(opts or {})
        E.sol = Solver()
        E.regions = []
        E.externs = {}
        E.obs = {}
        E.mode = "check"
        E.ninv = 0
        E.inv_checks = 0
        E.cnt = itertools.count()
        E.t0 = time.time()
        E.loopinfo = {}
        E.cut_loops = []
        E.params = []
        E.gpos = []        # ghosts that are position-like
        E.cand_fns = []
        E.measures = []
        E.covers = set()
        E.assumed = set()
        E.inlined = set()
        E.used_contracts = set()
        E.gobj = {}
        E.extra_terms = []
        E.terminated = True
        E.shared = {}
        E.bcalls = []
        E.prov = {}        # fresh loop value -> names of the regions its entry value points into

    fn_addrs = None

    def origin(E, v):
        """names of the caller regions a pointer-like term was computed from (used only to prune invariant candidates)"""
        if not z3.is_expr(v):
            return frozenset()
        bases = {r.base.decl().name(): r.name for r in E.regions if z3.is_expr(r.base) and z3.is_const(r.base)}
        out, todo, seen = set(), [v], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen or z3.is_bool(x):
                continue
            seen.add(x.get_id())
            if z3.is_const(x):
                n = x.decl().name() if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else ""
                if n in bases:
                    out.add(bases[n])
                out |= E.prov.get(n, frozenset())
            elif z3.is_select(x):
                continue
            else:
                todo += x.children()
        return frozenset(out)

    def carry(E, new, old):
        if z3.is_expr(new) and z3.is_const(new):
            o = E.origin(old)
            if o:
                E.prov[new.decl().name()] = o
        return new

    # ---------- values
    def fresh(E, name, sort=None):
        sort = z3.IntSort() if sort is None else sort
        return z3.Const(f"{name}!{next(E.cnt)}", sort)

    def mod_fresh(E, st, name, w):
        v = E.fresh(name)
        st.assume(v >= 0, v < (1 << w))
        return v

    def mod_fresh_fp(E, st, name, sort):
        v = E.fresh(name, sort)
        st.assume(z3.Not(z3.fpIsNaN(v)))
        return v

    def budget(E):
        if time.time() - E.t0 > E.o["wall"]:
            raise Budget("wall budget exhausted")

    def prove(E, st, f, ms=None):
        """quick provability test, used only to simplify terms"""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        r, _ = E.sol.check(st.pc, [z3.Not(f)], ms or 200)
        return r == z3.unsat

    def feasible(E, st, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        r, _ = E.sol.check(st.pc, [f], E.o["query_ms"])
        return r != z3.unsat

    def wrap(E, st, e, w, mul=False):
        M = 1 << w
        if isinstance(e, int):
            return e % M
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long() % M
        if E.prove(st, z3.And(e >= 0, e < M)):
            return e
        if mul:
            return e % M
        return z3.If(e >= M, e - M, z3.If(e < 0, e + M, e))

    def sgn(E, st, x, w):
        H, M = 1 << (w - 1), 1 << w
        if isinstance(x, bool):
            return -1 if x else 0
        if isinstance(x, int):
            return x - M if x >= H else x
        if E.prove(st, x < H):
            return x
        return z3.If(x >= H, x - M, x)

    def unsgn(E, st, x, w):
        M = 1 << w
        if isinstance(x, int):
            return x % M
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long() % M
        if E.prove(st, x >= 0):
            return x
        return z3.If(x < 0, x + M, x)

    def as_int(E, v):
        if isinstance(v, bool):
            return int(v)
        if z3.is_expr(v) and z3.is_bool(v):
            return z3.If(v, 1, 0)
        return v

    def as_bool(E, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v % 2 == 1
        if z3.is_bool(v):
            return v
        return v % 2 == 1

    # ---------- global objects
    def fn_addr(E, name):
        """an address for a function whose pointer the code stores and compares"""
        d = E.fn_addrs
        if name not in d:
            d[name] = 8192 + 16 * len(d)
        return d[name]

    def call_addr(E, st, v, args):
        """call through an address that must be one of the functions of fn_addr"""
        E.oblige(st, "control flow: a function that exists is called", z3.Or(*[Z(v) == x for x in E.fn_addrs.values()]))
        out = []
        for n, x in list(E.fn_addrs.items()):
            s = st.copy()
            s.assume(Z(v) == x)
            if z3.is_false(z3.simplify(Z(v) == x)) or E.sol.check(s.pc, [], 2000)[0] == z3.unsat:
                continue
            out += E.call_fn(s, n, args, 1)
        return out

    def global_ptr(E, st, name):
        name = E.m.aliases.get(name, name)
        if name in E.m.funcs or name in E.m.decls:
            if E.spec.fn_ints is not None and E.spec.fn_ints(name):
                return E.fn_addr(name)
            return Fn(name)
        if name in E.gobj:
            return Loc(E.gobj[name], 0)
        oid = "g:" + name
        if oid not in st.objs:
            g = E.m.globals.get(name)
            o = Obj(None, name)
            if g is not None:
                ty, init, const = g
                try:
                    o.size = E.m.size(ty)
                except ValueError:
                    o.size = None
                if init is None:
                    o.size = None      # external: declared type need not be the full object
                o.ro = const
                if init is not None:
                    try:
                        E.init_obj(st, o, 0, ty, init)
                    except Unsupported:
                        pass
            st.objs[oid] = o
        return Loc(oid, 0)

    def init_obj(E, st, o, off, ty, v):
        t = E.m.res(ty)
        if v.k == "zero":
            o.fill.append((off, off + E.m.size(t), 0))
        elif v.k == "bytes":
            for i, b in enumerate(v.v):
                o.cells[off + i] = (1, b)
        elif v.k == "agg":
            if t.k == "arr":
                for i, e in enumerate(v.v):
                    E.init_obj(st, o, off + i * E.m.size(t.e), t.e, e)
            else:
                for i, e in enumerate(v.v):
                    E.init_obj(st, o, off + E.m.offset(t, i), t.f[i], e)
        elif v.k in ("undef",):
            pass
        else:
            o.cells[off] = (E.m.size(t), E.const(st, v))

    def const(E, st, v):
        t = v.t
        if v.k == "int":
            return bool(v.v) if t.k == "int" and t.w == 1 else v.v
        if v.k == "null":
            return 0
        if v.k == "glob":
            return E.global_ptr(st, v.v)
        if v.k == "undef":
            return E.undef(st, t)
        if v.k == "zero":
            return E.zero(t)
        if v.k == "fp":
            if E.spec.fp_real:
                return E.real_const(v.v, t)
            return z3.FPVal(v.v, E.fsort(t))
        if v.k == "agg":
            return tuple(E.const(st, e) for e in v.v)
        if v.k == "cgep":
            bt, args = v.v
            return E.gep(st, bt, [E.const(st, a) for a in args], args)
        if v.k == "ccast":
            op, x, tt = v.v
            c = E.const(st, x)
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                return c
        raise Unsupported("constant " + repr(v))

    # machine arithmetic treated as mathematical (option fp_real of a contract; reported as an assumption)
    def real_const(E, x, t):
        """the shortest decimal that denotes the constant in its type"""
        import struct as S
        r = repr(x)
        if t.k == "float":
            r = next((f"{x:.{p}g}" for p in range(1, 17) if S.unpack("f", S.pack("f", float(f"{x:.{p}g}")))[0] == x), r)
        if not math.isfinite(x):
            raise Unsupported("a constant that is not a real number")
        return z3.RealVal(r)

    def real_op(E, st, op, a, b):
        E.assumed.add("floating-point arithmetic treated as mathematical (no rounding, no NaN, no overflow; constants denote the shortest decimal)")
        if op == "fadd":
            return z3.simplify(a + b)
        if op == "fsub":
            return z3.simplify(a - b)
        a, b = z3.simplify(a), z3.simplify(b)
        num = lambda x: z3.is_rational_value(x)
        R = z3.RealSort()
        if op == "fmul":
            if num(a) or num(b):
                return z3.simplify(a * b)
            f = z3.Function("times", R, R, R)
            r = f(a, b)
            st.assume(r == f(b, a))
            for x, y in ((a, b), (b, a)):
                st.assume(*[z3.Implies(x == k, r == k * y) for k in (-1, 0, 1)])
            return r
        if op == "fdiv":
            if num(b) and b.as_fraction() != 0:
                return z3.simplify(a / b)
            E.oblige(st, "arithmetic: no division by zero", b != 0)
            r = z3.Function("divided", R, R, R)(a, b)
            st.assume(z3.Implies(b == 1, r == a), z3.Implies(b == -1, r == -a), z3.Implies(a == 0, r == 0))
            return r
        raise Unsupported(op)

    def fsort(E, t):
        if E.spec.fp_real:
            return z3.RealSort()
        return z3.Float32() if t.k == "float" else z3.Float64()

    def zero(E, t):
        t = E.m.res(t)
        if t.k == "int":
            return False if t.w == 1 else 0
        if t.k == "ptr":
            return 0
        if t.k in ("float", "double"):
            return z3.RealVal(0) if E.spec.fp_real else z3.FPVal(0.0, E.fsort(t))
        if t.k == "struct":
            return tuple(E.zero(f) for f in t.f)
        if t.k == "arr":
            return tuple(E.zero(t.e) for _ in range(t.n))
        raise Unsupported("zero " + repr(t))

    def undef(E, st, t):
        t = E.m.res(t)
        if t.k == "int":
            if t.w == 1:
                return E.fresh("undef", z3.BoolSort())
            return E.mod_fresh(st, "undef", t.w)
        if t.k == "ptr":
            return E.mod_fresh(st, "undefp", 64)
        if t.k in ("float", "double"):
            return E.fresh("undeff", E.fsort(t))
        if t.k == "struct":
            return tuple(E.undef(st, f) for f in t.f)
        if t.k == "arr":
            return tuple(E.undef(st, t.e) for _ in range(t.n))
        raise Unsupported("undef " + repr(t))

    def val(E, st, v):
        if v.k == "loc":
            return st.env[v.v]
        return E.const(st, v)

    # ---------- memory
    def gep(E, st, bt, vals, ops):
        p = vals[0]
        m = E.m
        off = 0

        def addscaled(off, idx, opw, sz):
            if not isinstance(idx, int):
                idx = E.sgn(st, idx, opw)
            else:
                idx = idx - (1 << opw) if idx >= (1 << (opw - 1)) else idx
            return off + idx * sz
        off = addscaled(off, vals[1], ops[1].t.w, m.size(bt))
        t = bt
        for v, o in zip(vals[2:], ops[2:]):
            t = m.res(t)
            if t.k == "struct":
                off = off + m.offset(t, v)
                t = t.f[v]
            else:
                off = addscaled(off, v, o.t.w, m.size(t.e))
                t = t.e
        if isinstance(p, Loc):
            f = p.f + off
            if z3.is_expr(f):
                f = z3.simplify(f)
                if z3.is_int_value(f):
                    f = f.as_long()
            return Loc(p.o, f)
        if isinstance(p, Fn):
            raise Unsupported("gep on function")
        r = p + off
        if z3.is_expr(r):
            r = z3.simplify(r)
        return r

    def gepb(E, p, off):
        return Loc(p.o, p.f + off) if isinstance(p, Loc) else p + off

    def memname(E, w, ty):
        if ty.k in ("float", "double"):
            return "f%d" % w
        return "m%d" % w

    def mem(E, st, name):
        if name not in st.mem:
            if name[0] == "f":
                s = z3.ArraySort(z3.IntSort(), z3.Float32() if name == "f4" else z3.Float64())
            else:
                s = z3.ArraySort(z3.IntSort(), z3.IntSort())
            st.mem[name] = z3.Const("M0_" + name, s)
        return st.mem[name]

    def granted(E, st, write=False):
        """the regions code may read (write) now: heap blocks only while they live"""
        h = st.gh.get("heap", {})
        return [r for r in E.regions if (not write or r.writable) and h.get(r.name, "live") == "live"]

    def in_region(E, st, p, w, write=False):
        c = []
        for r in E.granted(st, write):
            if r.w != w:
                continue
            if w == 1:
                c.append(z3.And(r.base <= p, p < r.base + r.size))
            else:
                c.append(z3.And(r.base <= p, p + w <= r.base + r.size, (p - r.base) % w == 0))
        return Or(c) if c else z3.BoolVal(False)

    def range_ok(E, st, p, n, w=1, write=False):
        c = [z3.And(r.base <= p, p + n <= r.base + r.size) for r in E.granted(st, write) if r.w == w]
        return Or([Z(n) <= 0] + c)

    def obj_load(E, st, o, off, size, ty):
        if not isinstance(off, int):
            return E.arr_load(st, o, off, size, ty)
        if o.size is not None and (off < 0 or off + size > o.size):
            E.oblige(st, "memory: local access out of bounds", False)
        if o.arr is not None:
            return E.arr_load(st, o, off, size, ty)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if ty.k == "ptr" or ty.k == "int":
                if ty.k == "int" and ty.w == 1:
                    return E.as_bool(v)
                if z3.is_expr(v) and z3.is_fp(v):
                    raise Unsupported("type pun fp")
                if ty.k == "int":
                    v = E.as_int(v)
                return v
            return v
        for co, (cs, cv) in o.cells.items():
            if co < off + size and off < co + cs:
                # partial overlap: integer bytes
                if co <= off and off + size <= co + cs and ty.k == "int" and not isinstance(cv, (Loc, Fn)):
                    x = E.as_int(cv)
                    sh = 8 * (off - co)
                    if isinstance(x, int):
                        return (x >> sh) % (1 << (8 * size))
                    return (x / (1 << sh)) % (1 << (8 * size))
                bs = []
                for k in range(size):
                    b = None
                    c1 = o.cells.get(off + k)
                    if c1 is not None and c1[0] == 1:
                        b = c1[1]
                    elif not any(co2 <= off + k < co2 + cs2 for co2, (cs2, _) in o.cells.items()):
                        if any(lo <= off + k < hi and fb == 0 for lo, hi, fb in o.fill):
                            b = 0
                    bs.append(b)
                if all(b is not None for b in bs) and ty.k == "int":
                    r = 0
                    for k, b in enumerate(bs):
                        r = r + E.as_int(b) * (1 << (8 * k))
                    return r
                raise Unsupported("partial overlap load")
        for lo, hi, b in o.fill:
            if lo <= off and off + size <= hi:
                if b == 0:
                    return E.zero(ty)
                if ty.k == "int":
                    return sum(b << (8 * i) for i in range(size))
        return E.undef(st, ty)

    def to_array(E, st, o, size):
        if o.arr is not None:
            if o.aw != size:
                raise Unsupported("mixed width symbolic local")
            return
        if o.fill and all(b == 0 for _, _, b in o.fill) and sum(h - l for l, h, _ in o.fill) >= (o.size or 0):
            a = z3.K(z3.IntSort(), z3.IntVal(0))
        elif size == 1 and len(o.fill) == 1 and o.fill[0][0] == 0 and o.fill[0][1] == o.size:
            a = z3.K(z3.IntSort(), z3.IntVal(o.fill[0][2]))
        else:
            a = E.fresh("larr", z3.ArraySort(z3.IntSort(), z3.IntSort()))
            for lo, hi, b in o.fill:
                for k in range(lo, hi, size):
                    a = z3.Store(a, k, sum(b << (8 * i) for i in range(size)))
        for k, (s, v) in sorted(o.cells.items()):
            if s != size:
                raise Unsupported("mixed width local array (%d vs %d)" % (s, size))
            if isinstance(v, (Loc, Fn)) or (z3.is_expr(v) and not z3.is_int(v)):
                raise Unsupported("pointer in symbolic local array")
            a = z3.Store(a, k, Z(v))
        o.arr, o.aw = a, size

    def arr_load(E, st, o, off, size, ty):
        if ty.k in ("float", "double"):
            raise Unsupported("fp in symbolic local array")
        E.to_array(st, o, size)
        if o.size is not None:
            E.oblige(st, "memory: local array index in bounds", z3.And(Z(off) >= 0, Z(off) + size <= o.size, Z(off) % size == 0))
        v = z3.Select(o.arr, Z(off))
        if ty.k == "int" and ty.w == 1:
            return v % 2 == 1
        return v

    def load(E, st, p, ty):
        ty = E.m.res(ty)
        size = E.m.size(ty)
        if ty.k in ("struct", "arr"):
            out = []
            n = len(ty.f) if ty.k == "struct" else ty.n
            for i in range(n):
                o = E.m.offset(ty, i) if ty.k == "struct" else i * E.m.size(ty.e)
                q = Loc(p.o, p.f + o) if isinstance(p, Loc) else p + o
                out.append(E.load(st, q, ty.f[i] if ty.k == "struct" else ty.e))
            return tuple(out)
        if isinstance(p, Loc):
            h = E.spec.local_hook
            if h:
                r = h(E, st, "load", p, size, ty)
                if r is not None:
                    return r
            if isinstance(p.f, int) and st.objs[p.o].arr is None:
                return E.obj_load(st, st.objs[p.o], p.f, size, ty)
            return E.obj_load(st, st.wobj(p.o), p.f, size, ty)
        if isinstance(p, Fn):
            raise Unsupported("load from function")
        h = E.spec.load_hook
        if h:
            r = h(E, st, p, ty, size)
            if r is not None:
                return r
        E.oblige(st, f"memory: every {size}-byte read stays inside a region the caller granted", E.in_region(st, p, size))
        a = z3.Select(E.mem(st, E.memname(size, ty)), Z(p))
        if ty.k == "int":
            if ty.w == 1:
                return a == 1
            if not (size == 1 and E.spec.opaque_bytes):
                st.assume(a >= 0, a < (1 << ty.w))
        elif ty.k == "ptr":
            st.assume(a >= 0, a < (1 << 64))
        return a

    def store(E, st, p, v, ty):
        ty = E.m.res(ty)
        size = E.m.size(ty)
        if ty.k in ("struct", "arr"):
            n = len(ty.f) if ty.k == "struct" else ty.n
            for i in range(n):
                o = E.m.offset(ty, i) if ty.k == "struct" else i * E.m.size(ty.e)
                q = Loc(p.o, p.f + o) if isinstance(p, Loc) else p + o
                E.store(st, q, v[i], ty.f[i] if ty.k == "struct" else ty.e)
            return
        if isinstance(p, Loc):
            if E.spec.local_hook:
                E.spec.local_hook(E, st, "store", p, size, ty)
            o = st.wobj(p.o)
            if o.ro:
                E.oblige(st, "memory: no write to constant data", False)
            if isinstance(p.f, int) and o.arr is None:
                if o.size is not None and (p.f < 0 or p.f + size > o.size):
                    E.oblige(st, "memory: local access out of bounds", False)
                for co in [c for c in o.cells if c < p.f + size and p.f < c + o.cells[c][0]]:
                    if co != p.f or o.cells[co][0] != size:
                        E.split_cell(o, co)
                for co in [c for c in o.cells if c < p.f + size and p.f < c + o.cells[c][0]]:
                    if co < p.f or co + o.cells[co][0] > p.f + size:
                        raise Unsupported("partial overlap store")
                    del o.cells[co]
                o.cells[p.f] = (size, v)
            else:
                E.to_array(st, o, size)
                if isinstance(v, (Loc, Fn)) or (z3.is_expr(v) and not z3.is_int(v) and not z3.is_bool(v)):
                    raise Unsupported("non-int in symbolic local array")
                if o.size is not None:
                    E.oblige(st, "memory: local array index in bounds",
                             z3.And(Z(p.f) >= 0, Z(p.f) + size <= o.size, Z(p.f) % size == 0))
                o.arr = z3.Store(o.arr, Z(p.f), Z(E.as_int(v)))
            return
        if isinstance(p, Fn):
            raise Unsupported("store to function")
        h = E.spec.store_hook
        if h and h(E, st, p, v, ty, size):
            return
        E.oblige(st, f"memory: every {size}-byte write stays inside a region the caller made writable",
                 E.in_region(st, p, size, True))
        if isinstance(v, (Loc, Fn)):
            v = E.addr_of(st, v)
        nm = E.memname(size, ty)
        st.mem[nm] = z3.Store(E.mem(st, nm), Z(p), Z(E.as_int(v)))

    def split_cell(E, o, co):
        s, v = o.cells[co]
        if isinstance(v, (Loc, Fn)) or s == 1 or (z3.is_expr(v) and not z3.is_int(v)):
            return
        del o.cells[co]
        for k in range(s):
            b = (v >> (8 * k)) % 256 if isinstance(v, int) else (v / (1 << (8 * k))) % 256
            o.cells[co + k] = (1, b)

    def addr_of(E, st, v):
        if isinstance(v, Loc):
            a = z3.Int(f"addr_{v.o}")
            return a + v.f
        if isinstance(v, Fn):
            return z3.Int(f"fnaddr_{v.n}")
        return v

    def region_havoc(E, st, name):
        """fresh memory array of the same name"""
        a = E.mem(st, name)
        st.mem[name] = E.fresh("M_" + name, a.sort())
        return a, st.mem[name]

    def memcpy(E, st, d, s, n, move=False):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(d, Loc) and isinstance(s, Loc) and isinstance(n, int) and isinstance(d.f, int) and isinstance(s.f, int):
            if E.spec.local_hook:
                E.spec.local_hook(E, st, "load", s, n, None)
                E.spec.local_hook(E, st, "store", d, n, None)
            so, do = st.objs[s.o], st.wobj(d.o)
            if so.arr is not None and d.f == s.f == 0 and n == so.size == do.size:
                do.arr, do.aw, do.cells, do.fill = so.arr, so.aw, {}, []
                return
            if so.arr is not None or do.arr is not None:
                raise Unsupported("memcpy of symbolic array object")
            if do.size is not None and d.f + n > do.size or so.size is not None and s.f + n > so.size:
                E.oblige(st, "memory: local access out of bounds", False)
            cells = {}
            for co, (cs, cv) in so.cells.items():
                if s.f <= co and co + cs <= s.f + n:
                    cells[co - s.f + d.f] = (cs, cv)
                elif co < s.f + n and s.f < co + cs:
                    raise Unsupported("memcpy splits cell")
            for co in [c for c in do.cells if c < d.f + n and d.f < c + do.cells[c][0]]:
                if co < d.f or co + do.cells[co][0] > d.f + n:
                    raise Unsupported("memcpy splits dest cell")
                del do.cells[co]
            fill = []
            for lo, hi, b in do.fill:
                if lo < d.f:
                    fill.append((lo, min(hi, d.f), b))
                if hi > d.f + n:
                    fill.append((max(lo, d.f + n), hi, b))
            for lo, hi, b in so.fill:
                a, z = max(lo, s.f), min(hi, s.f + n)
                if a < z:
                    fill.append((a - s.f + d.f, z - s.f + d.f, b))
            do.fill = fill
            do.cells.update(cells)
            return
        if E.spec.copy_w and isinstance(d, Loc) and not isinstance(s, (Loc, Fn)) and isinstance(n, int) and d.f == 0 and st.objs[d.o].size == n:
            # a whole local array is a copy of granted memory
            w = E.spec.copy_w
            E.oblige(st, "memory: copied source range is readable", E.range_ok(st, s, n, w))
            o = st.wobj(d.o)
            M = E.mem(st, "m%d" % w)
            o.arr, o.aw, o.cells, o.fill = E.fresh("larr", z3.ArraySort(z3.IntSort(), z3.IntSort())), w, {}, []
            A = o.arr
            st.assume(Forall(1, lambda k: Imp(z3.And(k >= 0, k < n, k % w == 0) if w > 1 else z3.And(k >= 0, k < n), z3.Select(A, k) == z3.Select(M, Z(s) + k)), lambda k: z3.Select(A, k)))
            return
        if isinstance(d, Loc) or isinstance(s, Loc):
            if isinstance(n, int) and n <= 64:
                # byte/word-wise through typed cells
                w = 8 if n % 8 == 0 else 1
                if not (isinstance(d, Loc) and isinstance(s, Loc)):
                    w = E.spec.copy_w or w
                for k in range(0, n, w):
                    t = L.IntTy(8 * w)
                    q = Loc(s.o, s.f + k) if isinstance(s, Loc) else s + k
                    r = Loc(d.o, d.f + k) if isinstance(d, Loc) else d + k
                    E.store(st, r, E.load(st, q, t), t)
                return
            raise Unsupported("memcpy local<->external with symbolic size")
        E.oblige(st, "memory: copied source range is readable", E.range_ok(st, s, n))
        E.oblige(st, "memory: copied destination range is writable", E.range_ok(st, d, n, write=True))
        if isinstance(n, int) and n <= 4:
            M = E.mem(st, "m1")
            vs = [z3.Select(M, z3.simplify(Z(s) + k)) for k in range(n)]
            for k, v in enumerate(vs):
                M = z3.Store(M, z3.simplify(Z(d) + k), v)
            st.mem["m1"] = M
            for v in vs:      # no content: offers the read as a quantifier trigger
                st.assume(z3.Function("touched", z3.IntSort(), z3.BoolSort())(v))
            return
        E.sym_copy(st, d, s, n)

    def sym_copy(E, st, d, s, n, name="m1"):
        old, new = E.region_havoc(st, name)
        E.assume_copy(st, old, new, d, s, n)

    def assume_copy(E, st, old, new, d, s, n):
        st.assume(Forall(1, lambda k: z3.Select(new, k) == z3.If(z3.And(k >= d, k < d + n), z3.Select(old, k - d + s), z3.Select(old, k)),
                         lambda k: z3.Select(new, k)))

    def memset(E, st, d, v, n):
        if isinstance(d, Loc) and isinstance(n, int) and isinstance(v, int) and isinstance(d.f, int):
            if E.spec.local_hook:
                E.spec.local_hook(E, st, "store", d, n, None)
            o = st.wobj(d.o)
            if o.arr is not None:
                raise Unsupported("memset on symbolic object")
            for co in [c for c in o.cells if c < d.f + n and d.f < c + o.cells[c][0]]:
                if co < d.f or co + o.cells[co][0] > d.f + n:
                    raise Unsupported("memset splits cell")
                del o.cells[co]
            fill = []
            for lo, hi, b in o.fill:
                if lo < d.f:
                    fill.append((lo, min(hi, d.f), b))
                if hi > d.f + n:
                    fill.append((max(lo, d.f + n), hi, b))
            o.fill = fill + [(d.f, d.f + n, v % 256)]
            return
        raise Unsupported("memset")

    # ---------- obligations
    def oblige(E, st, name, f, quiet=False):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = z3.simplify(f) if z3.is_expr(f) and not z3.is_quantifier(f) else f
        if E.mode != "check":
            st.assume(f)
            return
        ob = E.obs.get(name)
        if ob is None:
            ob = E.obs[name] = Ob(name)
        ob.paths += 1
        if z3.is_true(f):
            ob.backends.add("simplifier")
            ob.cover += 1
            return
        E.budget()
        if ob.status == "failed":
            st.assume(f)
            return
        r, m = E.sol.check(st.pc, [z3.Not(f)], E.o["query_ms"])
        if r != z3.unsat:
            # retries: fresh solver, different seeds, split conjunctions
            ok = True
            parts = E.split(f)
            for g in parts:
                okg = False
                for seed in range(E.o.get("retries", 2)):
                    rr, q = E.sol.fresh_check(st.pc, [z3.Not(g)], E.o["prove_ms"] if seed else 4000, seed)
                    if rr == z3.unsat:
                        okg = True
                        break
                    if rr == z3.sat:
                        break
                if not okg:
                    ok = False
                    ob.status = "failed"
                    ob.reason = ("solver: " + str(rr) + (" (" + q.reason_unknown() + ")" if rr == z3.unknown else ""))
                    try:
                        mm = q.model()
                        ob.model = E.render_model(mm, st)
                    except z3.Z3Exception:
                        pass
                    ob.reason += "; clause: " + str(z3.simplify(g))[:600]
                    break
            if ok:
                ob.backends.add("z3")
        else:
            ob.backends.add("z3")
        if ob.status == "discharged" and E.o.get("dump") is not None:
            E.o["dump"].append((name, list(st.pc), f))
        if not ob.cover:
            rr, _ = E.sol.check(st.pc, [], E.o["query_ms"])
            if rr != z3.unsat:
                ob.cover += 1
        st.assume(f)

    def split(E, f):
        if z3.is_and(f):
            out = []
            for c in f.children():
                out += E.split(c)
            return out
        return [f]

    def render_model(E, m, st):
        out = {}
        for nm, t in E.params:
            try:
                out[nm] = str(m.eval(Z(t), model_completion=True))
            except z3.Z3Exception:
                pass
        for k, g in st.gh.items():
            try:
                out["ghost " + k] = str(m.eval(Z(g), model_completion=True))[:200] if g is not None and not isinstance(g, (tuple, dict, list, str, frozenset)) else str(g)[:200]
            except z3.Z3Exception:
                pass
        return out

    # ---------- execution
    def finfo(E, name):
        f = E.m.funcs[name]
        L.ensure_parsed(E.m, f)
        if name not in E.loopinfo:
            E.loopinfo[name] = L.loops(f)
        return f, E.loopinfo[name]

    def call_fn(E, st, name, args, depth=0):
        """symbolically execute a defined function: -> [(kind, st, val)]"""
        if depth > E.o["depth"]:
            raise Unsupported("recursion depth in " + name)
        f, lp = E.finfo(name)
        fr = Frame(f, lp, depth)
        saved = st.env
        st.env = {}
        for p, a in zip(f.params, args):
            st.env[p] = a
        out = []
        for o in E.run(fr, st, f.order[0], None, None):
            if o[0] in ("ret", "throw"):
                o[1].env = dict(saved)
                out.append(o)
            elif o[0] == "dead":
                pass
            else:
                raise Unsupported("stray outcome " + o[0])
        return out

    def apply_phis(E, st, blk, prev):
        new = []
        for i in blk.ins:
            if i.op != "phi":
                break
            if prev not in i.x["inc"]:
                raise Unsupported("phi without incoming")
            new.append((i.res, E.val(st, i.x["inc"][prev])))
        for r, v in new:
            st.env[r] = v

    def run(E, fr, st, blk, prev, ctx, first=True):
        """worklist execution; returns outcomes"""
        out = []
        work = [("edge", st, blk, prev)] if prev is not None else [("block", st, blk, None)]
        while work:
            kind, st, to, frm = work.pop()
            E.budget()
            if kind == "edge":
                if ctx is not None:
                    if to == ctx.header:
                        E.apply_phis(st, fr.fn.blocks[to], frm)
                        out.append(("back", st, None))
                        continue
                    if to not in ctx.blocks:
                        out.append(("exit", st, (to, frm)))
                        continue
                if to in fr.loops and not (ctx is not None and to == ctx.header):
                    E.apply_phis(st, fr.fn.blocks[to], frm)
                    for o in E.handle_loop(fr, st, to, ctx):
                        if o[0] == "exit":
                            work.append(("edge", o[1], o[2][0], o[2][1]))
                        elif o[0] == "back":
                            raise Unsupported("stray back edge")
                        else:
                            out.append(o)
                    continue
                E.apply_phis(st, fr.fn.blocks[to], frm)
            elif kind == "block" and to in fr.loops and ctx is None:
                # function entry is a loop header (cannot happen in LLVM: entry has no preds)
                pass
            for o in E.block(fr, st, fr.fn.blocks[to]):
                if o[0] == "goto":
                    work.append(("edge", o[1], o[2], to))
                else:
                    out.append(o)
            if len(out) + len(work) > E.o["maxpaths"]:
                raise Budget("too many paths")
        return out

    def block(E, fr, st, b):
        """execute the non-phi instructions of a block; returns list of outcomes"""
        states = [(st, 0)]
        out = []
        while states:
            st, k = states.pop()
            ins = b.ins
            while k < len(ins):
                i = ins[k]
                k += 1
                op = i.op
                if op == "phi":
                    continue
                if op == "br":
                    if len(i.a) == 0:
                        out.append(("goto", st, i.x["succ"][0]))
                        break
                    c = E.as_bool(E.val(st, i.a[0]))
                    t, f = i.x["succ"]
                    if z3.is_expr(c):
                        c = z3.simplify(c)
                        if z3.is_true(c):
                            c = True
                        elif z3.is_false(c):
                            c = False
                    if isinstance(c, bool):
                        out.append(("goto", st, t if c else f))
                        break
                    tf = E.feasible(st, c)
                    ff = E.feasible(st, z3.Not(c))
                    if not tf and not ff:
                        out.append(("dead", st, None))
                    if tf and ff:
                        s2 = st.copy()
                        s2.assume(z3.Not(c))
                        out.append(("goto", s2, f))
                        st.assume(c)
                        out.append(("goto", st, t))
                    elif tf:
                        st.assume(c)
                        out.append(("goto", st, t))
                    elif ff:
                        st.assume(z3.Not(c))
                        out.append(("goto", st, f))
                    break
                if op == "switch":
                    v = E.as_int(E.val(st, i.a[0]))
                    if isinstance(v, int):
                        out.append(("goto", st, next((b_ for c, b_ in i.x["cases"] if c == v), i.x["def"])))
                        break
                    tg = {}
                    for c, b_ in i.x["cases"]:
                        tg.setdefault(b_, []).append(v == c)
                    dflt = z3.And(*[v != c for c, _ in i.x["cases"]])
                    alts = [(b_, Or(cs)) for b_, cs in tg.items() if b_ != i.x["def"]]
                    d = [dflt] + (tg.get(i.x["def"]) or [])
                    alts.append((i.x["def"], Or(d)))
                    for b_, c in alts:
                        if E.feasible(st, c):
                            s2 = st.copy()
                            s2.assume(c)
                            out.append(("goto", s2, b_))
                    break
                if op == "ret":
                    out.append(("ret", st, E.val(st, i.a[0]) if i.a else None))
                    break
                if op == "unreachable":
                    E.oblige(st, "control flow: code marked unreachable is never reached", False)
                    out.append(("dead", st, None))
                    break
                if op == "resume":
                    out.append(("throw", st, E.val(st, i.a[0])))
                    break
                if op in ("call", "invoke"):
                    res = E.do_call(fr, st, i)
                    cont = []
                    for kind, s2, v in res:
                        if kind == "ret":
                            if i.res is not None:
                                s2.env[i.res] = v
                            if op == "invoke":
                                out.append(("goto", s2, i.x["succ"][0]))
                            else:
                                cont.append(s2)
                        elif kind == "throw":
                            if op == "invoke":
                                s2.env["%exn"] = v
                                out.append(("goto", s2, i.x["succ"][1]))
                            else:
                                out.append(("throw", s2, v))
                        elif kind == "dead":
                            out.append(("dead", s2, None))
                        elif kind == "end":
                            out.append(("ret", s2, v))
                        else:
                            raise Unsupported("call outcome " + kind)
                    if op == "invoke":
                        break
                    if len(cont) == 1:
                        st = cont[0]
                        continue
                    for s2 in cont:
                        states.append((s2, k))
                    break
                r = E.simple(fr, st, i)
                if r is not None:  # fork: list of states
                    for s2 in r:
                        states.append((s2, k))
                    break
            else:
                raise Unsupported("block falls through")
        return out

    def simple(E, fr, st, i):
        op, x = i.op, i.x
        if op == "UNSUPPORTED":
            raise Unsupported("instruction: " + i.line.strip()[:200])
        if op in L.BIN:
            a, b = E.val(st, i.a[0]), E.val(st, i.a[1])
            st.env[i.res] = E.binop(st, op, a, b, i.ty, x["fl"])
            return
        if op == "icmp":
            a, b = E.val(st, i.a[0]), E.val(st, i.a[1])
            st.env[i.res] = E.icmp(st, x["pred"], a, b, i.a[0].t)
            return
        if op == "fcmp":
            a, b = E.val(st, i.a[0]), E.val(st, i.a[1])
            st.env[i.res] = E.fcmp(x["pred"], a, b)
            return
        if op == "fneg":
            st.env[i.res] = -E.val(st, i.a[0]) if E.spec.fp_real else z3.fpNeg(E.val(st, i.a[0]))
            return
        if op in L.CAST:
            st.env[i.res] = E.cast(st, op, E.val(st, i.a[0]), i.a[0].t, i.ty)
            return
        if op == "freeze":
            st.env[i.res] = E.val(st, i.a[0])
            return
        if op == "alloca":
            n = 1
            if x["n"] is not None:
                n = E.val(st, x["n"])
                if not isinstance(n, int):
                    raise Unsupported("dynamic alloca")
            oid = f"l{fr.depth}:{i.res}"
            # distinct identity per activation
            k = 0
            while oid in st.objs and fr.depth == 0 and k < 1:
                k += 1
            oid = f"{oid}#{next(E.cnt)}"
            st.objs[oid] = Obj(E.m.size(x["ty"]) * n, i.res)
            st.env[i.res] = Loc(oid, 0)
            return
        if op == "load":
            p = E.val(st, i.a[0])
            if x.get("atomic") and E.spec.atomic_hook:
                r = E.spec.atomic_hook(E, st, "load", p, None, i)
                if r is not None:
                    st.env[i.res] = r
                    return
            st.env[i.res] = E.load(st, p, i.ty)
            return
        if op == "store":
            v, p = E.val(st, i.a[0]), E.val(st, i.a[1])
            if x.get("atomic") and E.spec.atomic_hook:
                r = E.spec.atomic_hook(E, st, "store", p, v, i)
                if r is not None:
                    return
            E.store(st, p, v, i.a[0].t)
            return
        if op == "getelementptr":
            st.env[i.res] = E.gep(st, x["ty"], [E.val(st, a) for a in i.a], i.a)
            return
        if op == "select":
            c = E.as_bool(E.val(st, i.a[0]))
            a, b = E.val(st, i.a[1]), E.val(st, i.a[2])
            if z3.is_expr(c):
                c = z3.simplify(c)
                c = True if z3.is_true(c) else False if z3.is_false(c) else c
            if isinstance(c, bool):
                st.env[i.res] = a if c else b
                return
            if ident(a, b):
                st.env[i.res] = a
                return
            if isinstance(a, (Loc, Fn, tuple)) or isinstance(b, (Loc, Fn, tuple)):
                r = []
                for cc, v in ((c, a), (z3.Not(c), b)):
                    if E.feasible(st, cc):
                        s2 = st.copy()
                        s2.assume(cc)
                        s2.env[i.res] = v
                        r.append(s2)
                return r
            if E.prove(st, c):
                st.env[i.res] = a
            elif E.prove(st, z3.Not(c)):
                st.env[i.res] = b
            else:
                # fork: keeps terms small and lets region reasoning stay path-wise
                if E.spec.fork_selects:
                    s2 = st.copy()
                    s2.assume(z3.Not(c))
                    s2.env[i.res] = b
                    st.assume(c)
                    st.env[i.res] = a
                    return [s2, st]
                st.env[i.res] = z3.If(c, Z(a), Z(b))
            return
        if op == "extractvalue":
            v = E.val(st, i.a[0])
            for k in x["idx"]:
                v = v[k]
            st.env[i.res] = v
            return
        if op == "insertvalue":
            v, w = E.val(st, i.a[0]), E.val(st, i.a[1])

            def ins(v, idx, w):
                l = list(v)
                l[idx[0]] = w if len(idx) == 1 else ins(l[idx[0]], idx[1:], w)
                return tuple(l)
            st.env[i.res] = ins(v, x["idx"], w)
            return
        if op == "landingpad":
            v = st.env.get("%exn")
            sel = 1
            if isinstance(v, tuple) and len(v) == 2:
                st.env[i.res] = v
            else:
                st.env[i.res] = (v, sel)
            # selector: catch-all (null) matches anything -> nonzero
            return
        if op == "atomicrmw":
            p, v = E.val(st, i.a[0]), E.val(st, i.a[1])
            if E.spec.atomic_hook:
                r = E.spec.atomic_hook(E, st, "rmw." + x["rmw"], p, v, i)
                if r is not None:
                    st.env[i.res] = r
                    return
            old = E.load(st, p, i.a[1].t)
            w = i.a[1].t.w
            if x["rmw"] == "xchg":
                new = v
            elif x["rmw"] in ("add", "sub"):
                new = E.wrap(st, old + v if x["rmw"] == "add" else old - v, w)
            else:
                raise Unsupported("atomicrmw " + x["rmw"])
            E.store(st, p, new, i.a[1].t)
            st.env[i.res] = old
            return
        if op == "cmpxchg":
            p, c, n = (E.val(st, a) for a in i.a)
            if E.spec.atomic_hook:
                r = E.spec.atomic_hook(E, st, "cmpxchg", p, (c, n), i)
                if r is not None:
                    if isinstance(r, list):
                        out = []
                        for s2, v in r:
                            s2.env[i.res] = v
                            out.append(s2)
                        return out
                    st.env[i.res] = r
                    return
            raise Unsupported("cmpxchg without hook")
        if op == "fence":
            return
        raise Unsupported("opcode " + op)

    def ieee(E, st, op, a, b, r):
        """IEEE 754: when an operation gives no NaN and no infinity"""
        nan, inf, zero = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero
        if op in ("fadd", "fmul"):
            st.assume(r == r.decl()(b, a))
        bad = {"fadd": z3.And(inf(a), inf(b)), "fsub": z3.And(inf(a), inf(b)), "fmul": z3.Or(z3.And(zero(a), inf(b)), z3.And(inf(a), zero(b))),
               "fdiv": z3.Or(z3.And(zero(a), zero(b)), z3.And(inf(a), inf(b)))}.get(op)
        if bad is None:
            return
        st.assume(z3.Implies(z3.Not(z3.Or(nan(a), nan(b), bad)), z3.Not(nan(r))))
        if op == "fdiv":
            one = z3.FPVal(1.0, a.sort())
            st.assume(z3.Implies(z3.And(z3.Not(nan(a)), z3.fpGEQ(z3.fpAbs(b), one)), z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(a))))
        E.assumed.add("IEEE 754: which operations give a NaN; division by one or more does not increase")

    def binop(E, st, op, a, b, ty, fl):
        if op[0] == "f" and op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            if E.spec.fp_real:
                return E.real_op(st, op, a, b)
            if E.spec.fp_exact:
                rm = z3.RNE()
                if op == "fadd":
                    return z3.fpAdd(rm, a, b)
                if op == "fsub":
                    return z3.fpSub(rm, a, b)
                if op == "fmul":
                    return z3.fpMul(rm, a, b)
                if op == "fdiv":
                    return z3.fpDiv(rm, a, b)
            s = E.fsort(ty)
            f = z3.Function(op + ("32" if ty.k == "float" else "64"), s, s, s)
            E.assumed.add("floating-point " + op + " is an uninterpreted function (only comparisons are interpreted)")
            r = f(a, b)
            if E.spec.fp_facts:
                E.ieee(st, op, a, b, r)
            return r
        if ty.k != "int":
            raise Unsupported("vector op")
        w = ty.w
        if w == 1:
            a, b = E.as_bool(a), E.as_bool(b)
            if isinstance(a, bool) and isinstance(b, bool):
                return {"and": a and b, "or": a or b, "xor": a != b, "add": a != b, "sub": a != b, "mul": a and b}[op]
            return z3.simplify({"and": And(a, b), "or": Or(a, b), "xor": z3.Xor(Z(a), Z(b))}[op])
        if isinstance(a, (Loc, Fn)) or isinstance(b, (Loc, Fn)):
            if op == "sub" and isinstance(a, Loc) and isinstance(b, Loc) and a.o == b.o:
                return E.wrap(st, a.f - b.f, w)
            a, b = E.addr_of(st, a), E.addr_of(st, b)
        a, b = E.as_int(a), E.as_int(b)
        M = 1 << w
        if isinstance(a, int) and isinstance(b, int):
            sa = a - M if a >= M // 2 else a
            sb = b - M if b >= M // 2 else b
            if op in ("add", "sub", "mul"):
                r = {"add": sa + sb, "sub": sa - sb, "mul": sa * sb}[op]
                if "nsw" in fl and not (-M // 2 <= r < M // 2):
                    E.oblige(st, "arithmetic: no signed overflow", False)
                return r % M
            if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
                E.oblige(st, "arithmetic: no division by zero", False)
                return 0
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            if op == "sdiv":
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) % M
            if op == "srem":
                q = abs(sa) // abs(sb)
                q = q if (sa < 0) == (sb < 0) else -q
                return (sa - q * sb) % M
            if op in ("shl", "lshr", "ashr"):
                if b >= w:
                    E.oblige(st, "arithmetic: shift amount below width", False)
                    return 0
                return {"shl": (a << b) % M, "lshr": a >> b, "ashr": (sa >> b) % M}[op]
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        if E.spec.bit_hook and op in ("shl", "lshr", "ashr", "and", "or", "xor"):
            r = E.spec.bit_hook(E, st, op, a, b, w)
            if r is not None:
                return r
        if op in ("add", "sub", "mul"):
            if "nsw" in fl:
                sa, sb = E.sgn(st, a, w), E.sgn(st, b, w)
                r = {"add": lambda: sa + sb, "sub": lambda: sa - sb, "mul": lambda: sa * sb}[op]()
                r = z3.simplify(Z(r))
                E.oblige(st, "arithmetic: no signed overflow", z3.And(r >= -(M // 2), r < M // 2))
                return E.unsgn(st, r, w)
            if op == "add" and isinstance(b, int) and b >= M // 2:
                return E.wrap(st, a - (M - b), w)
            if op == "add" and isinstance(a, int) and a >= M // 2:
                return E.wrap(st, b - (M - a), w)
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}[op]()
            return E.wrap(st, r, w, mul=(op == "mul"))
        if op in ("udiv", "urem"):
            E.oblige(st, "arithmetic: no division by zero", Z(b) != 0)
            return z3.simplify(Z(a) / Z(b) if op == "udiv" else Z(a) % Z(b))
        if op in ("sdiv", "srem"):
            E.oblige(st, "arithmetic: no division by zero", Z(b) != 0)
            sa, sb = E.sgn(st, a, w), E.sgn(st, b, w)
            if isinstance(sb, int) and sb > 0:
                if "exact" in fl:
                    q = sa / sb
                else:
                    q = z3.If(sa >= 0, sa / sb, -((-sa) / sb))
                return E.unsgn(st, q if op == "sdiv" else sa - q * sb, w)
            raise Unsupported("sdiv by variable")
        if op in ("shl", "lshr", "ashr"):
            if not isinstance(b, int):
                E.oblige(st, "arithmetic: shift amount below width", Z(b) < w)
                if op == "shl" and isinstance(a, int):
                    r = z3.IntVal((a << (w - 1)) % M)
                    for k in range(w - 2, -1, -1):
                        r = z3.If(Z(b) == k, z3.IntVal((a << k) % M), r)
                    return r
                if op == "lshr":
                    r = z3.IntVal(0)
                    for k in range(w - 1, -1, -1):
                        r = z3.If(Z(b) == k, a / (1 << k), r)
                    return r
                raise Unsupported("symbolic shift")
            if b >= w:
                E.oblige(st, "arithmetic: shift amount below width", False)
                return 0
            if op == "shl":
                return E.wrap(st, a * (1 << b), w, mul=True)
            if op == "lshr":
                return z3.simplify(a / (1 << b))
            sa = E.sgn(st, a, w)
            return E.unsgn(st, sa / (1 << b), w)
        if op in ("and", "or", "xor"):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if op == "and":
                    return E.and_const(a, b, w)
                if op == "xor" and b == M - 1:
                    return z3.simplify((M - 1) - a)
                if op == "or":
                    return z3.simplify(a + b - E.and_const(a, b, w))
                if op == "xor":
                    return z3.simplify(a + b - 2 * E.and_const(a, b, w))
            if op == "or" and "disjoint" in fl:
                return E.wrap(st, a + b, w)
            for x, y in ((a, b), (b, a)):
                k = tz(Z(x), w)
                if k and E.prove(st, Z(y) < (1 << k)):         # no common bit
                    return 0 if op == "and" else z3.simplify(Z(x) + Z(y))
            if E.spec.bitwise:
                A, B = z3.Int2BV(Z(a), w), z3.Int2BV(Z(b), w)
                return z3.BV2Int({"and": A & B, "or": A | B, "xor": A ^ B}[op])
            f = z3.Function("bit" + op + str(w), z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f(Z(a), Z(b))
            st.assume(r >= 0, r < M)
            if op == "and":
                st.assume(r <= Z(a), r <= Z(b))
            return r
        raise Unsupported(op)

    def and_const(E, a, c, w):
        """a & c for constant c, as sum of contiguous bit fields"""
        if c == 0:
            return 0
        r = None
        k = 0
        while k < w:
            if (c >> k) & 1:
                lo = k
                while k < w and (c >> k) & 1:
                    k += 1
                t = a / (1 << lo) if lo else a
                if k < w:
                    t = t % (1 << (k - lo))
                t = t * (1 << lo) if lo else t
                r = t if r is None else r + t
            else:
                k += 1
        return z3.simplify(Z(r))

    def icmp(E, st, pr, a, b, ty):
        if isinstance(a, Fn) or isinstance(b, Fn):
            e = ident(a, b)
            if pr == "eq":
                return e
            if pr == "ne":
                return not e
            raise Unsupported("fn compare")
        if isinstance(a, Loc) or isinstance(b, Loc):
            if isinstance(a, Loc) and isinstance(b, Loc):
                if a.o != b.o:
                    if pr in ("eq", "ne"):
                        return pr == "ne"
                    a, b = E.addr_of(st, a), E.addr_of(st, b)
                else:
                    a, b = a.f, b.f
            else:
                if pr in ("eq", "ne"):
                    return pr == "ne"
                a, b = E.addr_of(st, a), E.addr_of(st, b)
        t = E.m.res(ty)
        w = t.w if t.k == "int" else 64
        if w == 1:
            a, b = E.as_bool(a), E.as_bool(b)
            if isinstance(a, bool) and isinstance(b, bool):
                a, b = int(a), int(b)
            elif pr in ("eq", "ne"):
                r = Z(a) == Z(b)
                return z3.simplify(r if pr == "eq" else z3.Not(r))
            else:
                a, b = E.as_int(a), E.as_int(b)
        if pr[0] == "s":
            if isinstance(a, bool) or isinstance(b, bool):
                a, b = E.as_int(a), E.as_int(b)
            a, b = E.sgn(st, a, w), E.sgn(st, b, w)
        if isinstance(a, int) and isinstance(b, int):
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pr[-2:]]
        a, b = Z(E.as_int(a)), Z(E.as_int(b))
        k = pr[-2:]
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k]

    def fcmp(E, pr, a, b):
        if pr == "true":
            return True
        if pr == "false":
            return False
        if E.spec.fp_real:
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "rd": z3.BoolVal(True), "no": z3.BoolVal(False)}[pr[1:]]
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pr == "ord":
            return z3.Not(nan)
        if pr == "uno":
            return nan
        c = {"eq": z3.fpEQ, "ne": lambda x, y: z3.Not(z3.fpEQ(x, y)), "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}[pr[1:]](a, b)
        if pr[0] == "o":
            return z3.And(z3.Not(nan), c)
        return z3.Or(nan, c)

    def cast(E, st, op, v, ft, tt):
        if op in ("bitcast", "addrspacecast"):
            return v
        if op == "ptrtoint":
            return v
        if op == "inttoptr":
            return v
        if op == "trunc":
            if tt.w == 1:
                return E.as_bool(v)
            if isinstance(v, (Loc, Fn)):
                raise Unsupported("trunc of pointer")
            v = E.as_int(v)
            if isinstance(v, int):
                return v % (1 << tt.w)
            if E.prove(st, v < (1 << tt.w)):
                return v
            return v % (1 << tt.w)
        if op == "zext":
            return E.as_int(v)
        if op == "sext":
            if ft.w == 1:
                b = E.as_bool(v)
                if isinstance(b, bool):
                    return ((1 << tt.w) - 1) if b else 0
                return z3.If(b, z3.IntVal((1 << tt.w) - 1), z3.IntVal(0))
            if isinstance(v, int):
                return v if v < (1 << (ft.w - 1)) else v - (1 << ft.w) + (1 << tt.w)
            if E.prove(st, v < (1 << (ft.w - 1))):
                return v
            return z3.If(v >= (1 << (ft.w - 1)), v - (1 << ft.w) + (1 << tt.w), v)
        if op in ("sitofp", "uitofp"):
            s = E.fsort(tt)
            v = E.as_int(v)
            if op == "sitofp":
                v = E.sgn(st, v, ft.w)
            if E.spec.fp_real:
                return z3.RealVal(v) if isinstance(v, int) else z3.ToReal(v)
            if isinstance(v, int):
                return z3.FPVal(v, s)
            f = z3.Function(f"int2{tt.k}", z3.IntSort(), s)
            r = f(Z(v))
            st.assume(z3.Not(z3.fpIsNaN(r)), z3.Not(z3.fpIsInf(r)))
            h = E.spec.int2fp
            if h:
                h(E, st, v, r, s)
            return r
        if op in ("fpext", "fptrunc") and E.spec.fp_real:
            return v if op == "fpext" else z3.Function("rounded to float", z3.RealSort(), z3.RealSort())(v)
        if op in ("fpext", "fptrunc"):
            return z3.fpFPToFP(z3.RNE(), v, E.fsort(tt))
        if op in ("fptosi", "fptoui"):
            c = z3.simplify(v) if E.spec.fp_exact else None
            if c is not None and z3.is_fp_value(c) and not c.isNaN() and not c.isInf():
                q = z3.simplify(z3.fpToReal(c)).as_fraction()
                n = abs(q.numerator) // q.denominator * (-1 if q < 0 else 1)
                if -(1 << (tt.w - 1)) * (op == "fptosi") <= n < (1 << (tt.w - (op == "fptosi"))):
                    return n % (1 << tt.w)
            f = z3.Function(f"fp2int{ft.k}{tt.w}{op}", E.fsort(ft), z3.IntSort())
            r = f(v)
            st.assume(r >= 0, r < (1 << tt.w))
            return r
        raise Unsupported("cast " + op)

    # ---------- calls
    def do_call(E, fr, st, i):
        c = i.x["callee"]
        name = None
        if c.k == "glob":
            name = E.m.aliases.get(c.v, c.v)
        elif c.k == "loc":
            v = st.env[c.v]
            if isinstance(v, Fn):
                name = v.n
            else:
                h = E.spec.icall
                if h:
                    r = h(E, st, v, [E.val(st, a) for a in i.a], i)
                    if r is not None:
                        return E.norm_res(st, r, i)
                raise Unsupported("indirect call")
        else:
            raise Unsupported("callee " + c.k)
        nm = name[1:].strip('"')
        if nm.startswith("llvm."):
            return E.intrinsic(st, nm, i)
        h = E.lookup(nm)
        if h is not None:
            args = [E.val(st, a) if a.k != "meta" else None for a in i.a]
            E.used_contracts.add(nm)
            r = h(E, st, args)
            return E.norm_res(st, r, i)
        if name in E.m.funcs:
            E.inlined.add(nm)
            args = [E.val(st, a) if a.k != "meta" else None for a in i.a]
            return E.call_fn(st, name, args, fr.depth + 1)
        raise Unsupported("call to external function without contract: " + demangle(nm))

    def lookup(E, nm):
        h = E.externs.get(nm)
        if h is not None:
            return h
        h = LIB.get(nm)
        if h is not None:
            return h
        if E.spec.rx or E.spec.named or LIBRX:
            d = demangle(nm)
            for rx, h in E.spec.named:
                if re.search(rx, d):
                    return lambda E, st, a, h=h: h(E, st, a, "@" + nm if "@" + nm in E.m.funcs else f'@"{nm}"')
            for rx, h in itertools.chain(E.spec.rx, LIBRX):
                if re.search(rx, d):
                    return h
        return None

    def norm_res(E, st, r, i):
        if isinstance(r, list):
            return r
        return [("ret", st, r)]

    def intrinsic(E, st, nm, i):
        if E.spec.bit_hook and nm.startswith(("llvm.cttz", "llvm.ctlz", "llvm.ctpop")):
            r = E.spec.bit_hook(E, st, nm.split(".")[1], E.as_int(E.val(st, i.a[0])), None, int(nm.rsplit("i", 1)[1]))
            if r is not None:
                return [("ret", st, r)]
        def ret(v=None):
            return [("ret", st, v)]
        if nm.startswith("llvm.lifetime.end") and E.spec.local_hook:
            p = E.val(st, i.a[1])
            if isinstance(p, Loc):
                E.spec.local_hook(E, st, "end", p, st.objs[p.o].size, None)
            return ret()
        if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume", "llvm.prefetch",
                          "llvm.stackrestore", "llvm.donothing", "llvm.sideeffect", "llvm.invariant")):
            return ret()
        a = [E.val(st, x) if x.k != "meta" else None for x in i.a]
        w = i.ty.w if i.ty is not None and i.ty.k == "int" else 0
        if nm.startswith(("llvm.memcpy", "llvm.memmove")):
            E.memcpy(st, a[0], a[1], a[2], "move" in nm)
            return ret()
        if nm.startswith("llvm.memset"):
            h = E.spec.memset_hook
            if h and h(E, st, a[0], a[1], a[2]):
                return ret()
            E.memset(st, a[0], a[1], a[2])
            return ret()
        if nm.startswith("llvm.expect") or nm.startswith("llvm.launder") or nm.startswith("llvm.strip"):
            return ret(a[0])
        if nm.startswith("llvm.umax"):
            return ret(E.ite(st, E.icmp(st, "uge", a[0], a[1], i.ty), a[0], a[1]))
        if nm.startswith("llvm.umin"):
            return ret(E.ite(st, E.icmp(st, "ule", a[0], a[1], i.ty), a[0], a[1]))
        if nm.startswith("llvm.smax"):
            return ret(E.ite(st, E.icmp(st, "sge", a[0], a[1], i.ty), a[0], a[1]))
        if nm.startswith("llvm.smin"):
            return ret(E.ite(st, E.icmp(st, "sle", a[0], a[1], i.ty), a[0], a[1]))
        if nm.startswith("llvm.abs"):
            s = E.sgn(st, a[0], w)
            return ret(E.unsgn(st, abs(s) if isinstance(s, int) else z3.If(s < 0, -s, s), w))
        if nm.startswith("llvm.trap") or nm.startswith("llvm.ubsantrap"):
            E.oblige(st, "control flow: trap is never reached", False)
            return [("dead", st, None)]
        if nm.startswith("llvm.eh.typeid.for"):
            return ret(z3.Int("typeid_" + re.sub(r"\W", "_", str(i.a[0].v))))
        if nm.startswith("llvm.is.constant"):
            return ret(False)
        if nm.startswith("llvm.objectsize"):
            return ret((1 << w) - 1)
        if nm.startswith("llvm.stacksave"):
            return ret(0)
        if nm.startswith("llvm.fabs"):
            return ret(z3.If(a[0] >= 0, a[0], -a[0]) if E.spec.fp_real else z3.fpAbs(a[0]))
        m = re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", nm)
        if m:
            w = int(m.group(3))
            x, y = a
            if m.group(1) == "s":
                x, y = E.sgn(st, x, w), E.sgn(st, y, w)
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[m.group(2)]()
            lo, hi = (0, 1 << w) if m.group(1) == "u" else (-(1 << (w - 1)), 1 << (w - 1))
            ov = z3.simplify(z3.Or(Z(r) < lo, Z(r) >= hi))
            return ret((Z(r) % (1 << w), ov))
        if nm.startswith(("llvm.round.", "llvm.floor.", "llvm.ceil.", "llvm.trunc.")):
            s = E.fsort(i.ty)
            f = z3.Function(nm, s, s)
            if E.spec.fp_facts:
                st.assume(z3.fpIsNaN(f(a[0])) == z3.fpIsNaN(a[0]), z3.fpIsInf(f(a[0])) == z3.fpIsInf(a[0]))
            return ret(f(a[0]))
        if nm.startswith("llvm.fmuladd") and E.spec.fp_real:
            return ret(E.real_op(st, "fadd", E.real_op(st, "fmul", a[0], a[1]), a[2]))
        if nm.startswith("llvm.fmuladd"):
            s = E.fsort(i.ty)
            f = z3.Function(nm, s, s, s, s)
            return ret(f(*a))
        if nm.startswith("llvm.va_"):
            raise Unsupported(nm)
        h = E.externs.get(nm) or LIB.get(nm)
        if h:
            return E.norm_res(st, h(E, st, a), i)
        raise Unsupported("intrinsic " + nm)

    def ite(E, st, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if ident(a, b):
            return a
        if E.prove(st, c):
            return a
        if E.prove(st, z3.Not(c)):
            return b
        return z3.If(c, Z(a), Z(b))

    # ---------- loops
    def try_unroll(E, fr, st, h, lc, force=False):
        """execute a loop whose exit is decided by constants; None if not decided"""
        nobs = None
        saved_mode = E.mode
        saved_obs = {k: (o.status, o.paths, o.reason, set(o.backends), o.model, o.cover) for k, o in E.obs.items()}
        saved_dump = len(E.o["dump"]) if E.o.get("dump") is not None else 0
        phis = [i for i in fr.fn.blocks[h].ins if i.op == "phi"]
        if not any(isinstance(st.env[i.res], (int, Loc)) and not isinstance(st.env[i.res], bool) for i in phis):
            return None
        few = E.few(fr, st, h, lc, phis)
        cur = [st.copy()]
        out = []

        def restore():
            E.mode = saved_mode
            E.obs = {k: v for k, v in E.obs.items() if k in saved_obs}
            for k, (a, b, c, d, e, f) in saved_obs.items():
                o = E.obs[k]
                o.status, o.paths, o.reason, o.backends, o.model, o.cover = a, b, c, d, e, f
            if E.o.get("dump") is not None:
                del E.o["dump"][saved_dump:]
        for it in range(40 if force else E.o["unroll"]):
            nxt = []
            for s in cur:
                pcn = len(s.pc)
                E.exit_forked = False
                outs = E.run_body(fr, s, h, lc)
                backs = [o for o in outs if o[0] == "back"]
                exits = [o for o in outs if o[0] == "exit"]
                if backs and exits and not force and not few:
                    # undecided: restore obligations
                    restore()
                    return None
                out += [o for o in outs if o[0] not in ("back",)]
                nxt += [o[1] for o in backs]
            if not nxt:
                return out
            cur = E.joined(nxt, phis) if E.spec.join_paths else nxt
            if len(cur) > 8 and not force:
                restore()
                return None
            if len(cur) > 64:
                raise Budget("unroll paths")
        raise Budget("unroll limit")

    def joined(E, sts, phis):
        """states at the head of a loop that differ only in what they know become one, which knows what each of them does"""
        def same(x, y):
            if set(x.gh) != set(y.gh) or any(not ident(v, y.gh[k]) for k, v in x.gh.items()) or x.mem.keys() != y.mem.keys():
                return False
            if any(not o.ro for a, b in ((x, y), (y, x)) for k, o in a.objs.items() if k not in b.objs):
                return False      # (constants come into being when first used)
            if any(not x.mem[k].eq(y.mem[k]) for k in x.mem) or any(not ident(x.env.get(i.res), y.env.get(i.res)) for i in phis):
                return False
            for k, o in x.objs.items():
                p = y.objs.get(k)
                if o is p or p is None:
                    continue
                if o.size != p.size or o.ro != p.ro or o.arr is not None or p.arr is not None or o.fill != p.fill or o.cells.keys() != p.cells.keys():
                    return False
                if any(o.cells[c][0] != p.cells[c][0] or not ident(o.cells[c][1], p.cells[c][1]) for c in o.cells):
                    return False
            return True
        out = []
        for y in sts:
            x = next((x for x in out if same(x, y)), None)
            if x is None:
                out.append(y)
                continue
            n = 0
            while n < min(len(x.pc), len(y.pc)) and x.pc[n].eq(y.pc[n]):
                n += 1
            a, b = z3.And(*x.pc[n:]) if x.pc[n:] else z3.BoolVal(True), z3.And(*y.pc[n:]) if y.pc[n:] else z3.BoolVal(True)
            # the first path's own values are gone: what differs is not known in the joined state
            x.objs = dict(y.objs, **x.objs)
            x.env = {k: v for k, v in x.env.items() if k in y.env and (v is y.env[k] or ident(v, y.env[k]))}
            x.pc = x.pc[:n]
            d = z3.simplify(z3.Or(a, b))
            if not z3.is_true(d):
                x.assume(d)
        return out

    def few(E, fr, st, h, lc, phis):
        """a loop that counts between two constants, at most 16 times, and may leave early"""
        ds = E.steps(fr, lc, phis)
        cmps = [i for bn in lc.blocks for i in fr.fn.blocks[bn].ins if i.op == "icmp"]
        for i in phis:
            v = st.env.get(i.res)
            if i.res not in ds or not isinstance(v, int) or isinstance(v, bool):
                continue
            w = E.m.res(i.ty).w
            for c in cmps:
                if c.a[1].k != "int" or c.a[0].k != "loc":
                    continue
                k = E.advance(fr, lc, i.res, c.a[0])
                if k is None:
                    continue
                n = ((c.a[1].v - v - k) % (1 << w)) / (ds[i.res] % (1 << w)) if ds[i.res] > 0 else ((v + k - c.a[1].v) % (1 << w)) / -ds[i.res]
                if n <= 16:
                    return True
        return False

    def advance(E, fr, lc, name, o, d=0):
        """o == name + constant (bytes or units), following additions within the loop"""
        if o.k != "loc" or d > 8:
            return None
        if o.v == name:
            return 0
        i = next((i for bn in lc.blocks for i in fr.fn.blocks[bn].ins if i.res == o.v), None)
        if i is not None and i.op == "add" and i.a[1].k == "int":
            w = 1 << E.m.res(i.a[1].t).w
            c, r = i.a[1].v % w, E.advance(fr, lc, name, i.a[0], d + 1)
            return None if r is None else r + (c if c < w // 2 else c - w)
        if i is not None and i.op == "getelementptr" and len(i.a) == 2 and i.a[1].k == "int":
            c, r = i.a[1].v % (1 << 64), E.advance(fr, lc, name, i.a[0], d + 1)
            return None if r is None else r + (c if c < 1 << 63 else c - (1 << 64)) * E.m.size(i.x["ty"])
        return None

    def steps(E, fr, lc, phis):
        """the values that advance by a constant in every iteration"""
        r = {}
        for i in phis:
            ds = {E.advance(fr, lc, i.res, o) for bn, o in i.x["inc"].items() if bn in lc.blocks}
            if len(ds) == 1 and None not in ds and ds != {0}:
                r[i.res] = ds.pop()
        return r

    def run_body(E, fr, st, h, lc):
        out = []
        b = fr.fn.blocks[h]
        # execute header's body then the rest within lc
        work = E.block(fr, st, b)
        for o in work:
            if o[0] == "goto":
                out += E.run(fr, o[1], o[2], h, lc)
            else:
                out.append(o)
        return out

    def handle_loop(E, fr, st, h, ctx):
        E.budget()
        lc = LoopCtx(h, fr.loops[h], ctx)
        r = E.try_unroll(fr, st, h, lc)
        if r is not None:
            return r
        if E.o["bound"]:
            return E.bounded_loop(fr, st, h, lc)
        mode, entry = E.mode, st.copy()
        try:
            return E.inv_loop(fr, st, h, lc)
        except Unsupported as e:
            if "local pointer" not in str(e):
                raise
            # a loop over local objects: complete symbolic execution (every path must leave the loop within the limit)
            E.mode = mode
            return E.try_unroll(fr, entry, h, lc, force=True)

    def bounded_loop(E, fr, st, h, lc):
        cur, out = [st], []
        for it in range(E.o["bound"] + 1):
            nxt = []
            for s in cur:
                for o in E.run_body(fr, s, h, lc):
                    if o[0] == "back":
                        nxt.append(o[1])
                    else:
                        out.append(o)
            cur = nxt
            if not cur:
                break
        return out

    def inv_loop(E, fr, st, h, lc):
        blk = fr.fn.blocks[h]
        phis = [i for i in blk.ins if i.op == "phi"]
        entry = st
        outer_mode = E.mode
        mod_mem, mod_gh, mod_cells = set(), set(), set()   # cells: (oid, off) ; arrays (oid,'arr')
        key = (fr.fn.name, h)
        lid = f"{len(E.cut_loops)}"

        def mk_header():
            s = entry.copy()
            for i in phis:
                v0 = entry.env[i.res]
                if isinstance(v0, (Loc, Fn)):
                    if i.res in bad_ptr:
                        raise Unsupported("local pointer varies in loop: " + i.res)
                    continue
                if i.res in const_phi:
                    continue
                t = E.m.res(i.ty)
                if t.k == "int" and t.w == 1:
                    s.env[i.res] = E.fresh("phi", z3.BoolSort())
                elif t.k == "int":
                    s.env[i.res] = E.carry(E.mod_fresh(s, "phi", t.w), v0)
                elif t.k == "ptr":
                    s.env[i.res] = E.carry(E.mod_fresh(s, "phip", 64), v0)
                elif t.k in ("float", "double"):
                    s.env[i.res] = E.fresh("phif", E.fsort(t))
                else:
                    raise Unsupported("phi type " + repr(t))
            for n in mod_mem:
                a = E.mem(s, n)
                s.mem[n] = E.fresh("M_" + n, a.sort())
            for g in mod_gh:
                v = Z(s.gh[g])
                s.gh[g] = E.carry(E.fresh("gh_" + g, v.sort()), v)
            for oid, off in mod_cells:
                o = s.wobj(oid)
                if off == "arr":
                    o.arr = E.fresh("larr", o.arr.sort())
                else:
                    sz, v = o.cells[off]
                    if isinstance(v, (Loc, Fn)):
                        raise Unsupported("local pointer cell varies in loop")
                    v = Z(v)
                    nv = E.carry(E.fresh("cell", v.sort()), v)
                    if z3.is_int(nv):
                        s.assume(nv >= 0, nv < (1 << (8 * sz)))
                    o.cells[off] = (sz, nv)
            return s

        bad_ptr = set()
        const_phi = {i.res for i in phis}   # discovered to vary -> removed
        cands = None
        E.mode = "houdini"
        rounds = 0
        # conditional pre-state so entry memory arrays exist
        while True:
            rounds += 1
            E.budget()
            if rounds > 400:
                raise Budget("houdini rounds")
            hs = mk_header()
            hs0pc = len(hs.pc)
            if cands is None:
                H = E.make_header(fr, entry, hs, h, lc, phis, const_phi, mod_gh, mod_cells, mod_mem)
                cands = E.gen_cands(H, entry, hs)
                # init filter
                cands = E.filter(entry, [(n, f, f(entry)) for n, f in cands], "init")
            for n, f in cands:
                hs.assume(f(hs))
            head = hs.copy()
            outs = E.run_body(fr, hs, h, lc)
            backs = [o[1] for o in outs if o[0] == "back"]
            # discover modified components
            changed = False
            for b in backs:
                for i in phis:
                    if i.res in const_phi and not ident(b.env[i.res], head.env[i.res]):
                        if isinstance(head.env[i.res], (Loc, Fn)) or isinstance(b.env[i.res], (Loc, Fn)):
                            raise Unsupported("local pointer varies in loop: " + i.res)
                        const_phi.discard(i.res)
                        changed = True
                for n, a in b.mem.items():
                    if n not in head.mem:
                        # created lazily inside the loop: initial array is shared constant
                        if not a.eq(z3.Const("M0_" + n, a.sort())):
                            if n not in mod_mem:
                                E.mem(entry, n)
                                mod_mem.add(n)
                                changed = True
                    elif not a.eq(head.mem[n]) and n not in mod_mem:
                        mod_mem.add(n)
                        changed = True
                for g, v in b.gh.items():
                    if g not in head.gh:
                        raise Unsupported("ghost created in loop: " + g)
                    if not ident(v, head.gh[g]) and g not in mod_gh:
                        mod_gh.add(g)
                        changed = True
                for oid, o in head.objs.items():
                    bo = b.objs.get(oid)
                    if bo is o or bo is None:
                        continue
                    if bo.arr is not None and o.arr is None:
                        # became symbolic inside: convert at entry
                        eo = entry.wobj(oid)
                        E.to_array(entry, eo, bo.aw)
                        changed = True
                        continue
                    if o.arr is not None:
                        if not bo.arr.eq(o.arr) and (oid, "arr") not in mod_cells:
                            mod_cells.add((oid, "arr"))
                            changed = True
                        continue
                    for off, (sz, v) in bo.cells.items():
                        if off not in o.cells or o.cells[off][0] != sz:
                            # first written in the loop: if never read before write it is scratch
                            eo = entry.wobj(oid)
                            if off in o.cells:
                                raise Unsupported("cell size changes in loop")
                            cover = [c for c in eo.cells if c < off + sz and off < c + eo.cells[c][0]]
                            if cover == [off] and eo.cells[off][0] == sz and not isinstance(eo.cells[off][1], (Loc, Fn)):
                                mod_cells.add((oid, off))      # an earlier back edge already introduced it
                                changed = True
                                continue
                            if cover:
                                raise Unsupported(f"cell overlap in loop: {eo.tag} of {eo.size} bytes, {off}+{sz} over {[(c, eo.cells[c]) for c in cover]}")
                            if isinstance(v, (Loc, Fn)):
                                continue
                            fb = [bb for lo, hi, bb in eo.fill if lo <= off and off + sz <= hi]
                            zf = bool(fb) and (fb[0] == 0 or sz == 1)
                            v = Z(v)
                            if z3.is_int(v):
                                eo.cells[off] = (sz, fb[0] if zf else E.mod_fresh(entry, "uninit", 8 * sz))
                            elif z3.is_bool(v):
                                eo.cells[off] = (sz, False if zf and fb[0] == 0 else E.fresh("uninit", z3.BoolSort()))
                            else:
                                eo.cells[off] = (sz, E.fresh("uninit", v.sort()))
                            mod_cells.add((oid, off))
                            changed = True
                        elif not ident(v, o.cells[off][1]) and (oid, off) not in mod_cells:
                            if isinstance(v, (Loc, Fn)) or isinstance(o.cells[off][1], (Loc, Fn)):
                                raise Unsupported("local pointer cell varies in loop")
                            mod_cells.add((oid, off))
                            changed = True
            if changed:
                cands = None
                continue
            # preservation
            alive = cands
            for b in backs:
                alive = E.filter(b, [(n, f, f(b)) for n, f in alive], "keep")
            if len(alive) == len(cands):
                break
            cands = alive
        E.mode = outer_mode
        if E.o.get("verbose"):
            print(f"  loop {h}: {rounds} rounds, {len(cands)} invariants")
            if E.o["verbose"] > 1:
                for n, f in cands:
                    print("     ", n)
        # final pass
        hs = mk_header()
        for n, f in cands:
            hs.assume(f(hs))
        head = hs.copy()
        outs = E.run_body(fr, hs, h, lc)
        backs = [o[1] for o in outs if o[0] == "back"]
        if E.mode == "check":
            E.ninv += len(cands)
            E.inv_checks += len(cands) * (1 + len(backs))
            E.cut_loops.append((fr.fn.name, h, len(cands)))
            if E.spec.check_termination:
                E.termination(fr, entry, head, backs, phis, h, lc)
        return [o for o in outs if o[0] != "back"]

    def termination(E, fr, entry, head, backs, phis, h, lc):
        H = E.make_header(fr, entry, head, h, lc, phis, set(), set(), set(), set())
        terms = H.pos + H.const
        varying = []
        ms = list(E.spec.measures(E, H)) if E.spec.measures else []
        for (na, fa) in H.ints:
            ms.append((na, fa))
        for (na, fa) in terms:
            for (nb, fb) in terms:
                if na != nb:
                    ms.append((f"{na}-{nb}", lambda s, fa=fa, fb=fb: Z(fa(s)) - Z(fb(s))))
        for (na, fa) in H.ints:
            # counters that start at -1 or end there
            for w in (32, 64):
                ms.append((f"{na}+1", lambda s, fa=fa, w=w: (Z(fa(s)) + 1) % (1 << w)))
                for (nb, fb) in H.const:
                    ms.append((f"{nb}-({na}+1)", lambda s, fa=fa, fb=fb, w=w: Z(fb(s)) - (Z(fa(s)) + 1) % (1 << w)))
        name = "termination: some measure decreases on every loop iteration"
        ob = E.obs.setdefault(name, Ob(name))
        ob.paths += 1
        if not backs:
            ob.cover += 1
            ob.backends.add("simplifier")
            return
        tried = set()
        for n, f in ms:
            try:
                m0 = Z(f(head))
            except KeyError:
                continue
            ok = True
            for b in backs:
                m1 = Z(f(b))
                g = z3.simplify(z3.And(m0 >= 0, m1 < m0))
                if z3.is_false(g):
                    ok = False
                    break
                r, _ = E.sol.check(b.pc, [z3.Not(g)], 1000)
                if r != z3.unsat:
                    ok = False
                    break
            if ok:
                ob.cover += 1
                ob.backends.add("z3")
                return
        ob.status = "failed"
        ob.reason = "no candidate measure is well-founded for a loop of " + demangle(fr.fn.name[1:])
        E.terminated = False

    def make_header(E, fr, entry, hs, h, lc, phis, const_phi, mod_gh, mod_cells, mod_mem):
        H = Header()
        H.entry, H.head, H.E = entry, hs, E
        H.raw = set()    # names of values the loop itself carries (not ghosts, not derived)
        H.mod_mem, H.mod_gh = set(mod_mem), set(mod_gh)
        H.arrs = [(oid, o.tag, (lambda st, oid=oid: st.objs[oid].arr), o.aw, o.size) for oid, o in hs.objs.items() if o.arr is not None]
        H.reals = []
        H.cells = []     # scalar cells of local objects that the loop does not change
        for oid, o in hs.objs.items():
            if o.arr is None:
                for off, (sz, v) in o.cells.items():
                    if (oid, off) not in mod_cells and z3.is_expr(v) and z3.is_int(v) and not z3.is_int_value(v):
                        H.cells.append((f"cell[{oid}:{o.tag}+{off}]", lambda s, oid=oid, off=off: s.objs[oid].cells[off][1], sz))
        seen = set()

        def isint(v):
            return isinstance(v, int) and not isinstance(v, bool) or (z3.is_expr(v) and z3.is_int(v))

        for i in phis:
            if i.res in const_phi:
                continue
            t = E.m.res(i.ty)
            g = (lambda s, r=i.res: s.env[r])
            v = entry.env[i.res]
            if t.k == "ptr" and isint(v):
                H.pos.append((i.res, g))
                H.raw.add(i.res)
            elif t.k == "int" and t.w == 1:
                H.bools.append((i.res, lambda s, r=i.res: E.as_bool(s.env[r])))
            elif z3.is_expr(v) and z3.is_real(v):
                H.reals.append((i.res, g))
            elif t.k == "int" and isint(v):
                H.ints.append((i.res, g))
                if t.w >= 32:
                    H.pos.append((i.res, g))
                    H.raw.add(i.res)
        for oid, off in sorted(mod_cells, key=str):
            if off == "arr":
                continue
            sz, v = entry.objs[oid].cells[off]
            g = (lambda s, oid=oid, off=off: s.objs[oid].cells[off][1])
            nm = f"cell[{oid}+{off}]"
            if z3.is_bool(Z(v)):
                H.bools.append((nm, g))
            elif z3.is_expr(v) and z3.is_real(v):
                H.reals.append((nm, g))
            elif isint(v):
                if sz >= 4:
                    H.pos.append((nm, g))
                    H.raw.add(nm)
                    if sz == 4:
                        H.ints.append((nm, g))
                H.ints.append((nm, g)) if sz != 4 else None
        for g in mod_gh:
            v = Z(entry.gh[g])
            f = (lambda s, g=g: s.gh[g])
            if z3.is_bool(v):
                H.bools.append(("ghost " + g, f))
            elif z3.is_int(v):
                H.pos.append(("ghost " + g, f))
        # loop constants
        for g, v in entry.gh.items():
            if g not in mod_gh and z3.is_expr(Z(v)) and z3.is_int(Z(v)):
                H.const.append(("ghost " + g, lambda s, g=g: s.gh[g]))
        for r in E.regions:
            H.const.append((r.name + ".begin", lambda s, r=r: r.base))
            H.const.append((r.name + ".end", lambda s, r=r: r.base + r.size))
        for nm, t in E.params:
            if z3.is_expr(t) and z3.is_int(t) and not any(t.eq(r.base) for r in E.regions if z3.is_expr(r.base)):
                H.const.append((nm, lambda s, t=t: t))
        # values that advance by a constant in every iteration
        H.step = E.steps(fr, lc, phis)
        # live-in SSA values
        used, defd = set(), set()
        for bn in lc.blocks:
            for i in fr.fn.blocks[bn].ins:
                if i.res:
                    defd.add(i.res)
                ops = list(i.a)
                if i.op == "phi":
                    ops = list(i.x["inc"].values())
                for o in ops:
                    if o.k == "loc":
                        used.add(o.v)
        H.consts = set()
        for bn in lc.blocks:
            for i in fr.fn.blocks[bn].ins:
                if i.op == "icmp":
                    for o in i.a:
                        if o.k == "int" and o.t.k == "int" and 1 < o.t.w and 1 < o.v < (1 << (o.t.w - 1)):
                            H.consts.add(o.v)
        outer_phis = set()
        c = lc.parent
        while c is not None:
            for i in fr.fn.blocks[c.header].ins:
                if i.op == "phi":
                    outer_phis.add(i.res)
            c = c.parent
        live = set(used - defd) | (outer_phis - defd)
        for r in sorted(live):
            v = entry.env.get(r)
            if v is None or not z3.is_expr(v) or not z3.is_int(v):
                continue
            if any(v.eq(Z(f(entry))) for _, f in H.const):
                continue
            H.const.append((r, lambda s, r=r: s.env[r]))
        for n, f in E.extra_terms:
            H.const.append((n, f))
        # derived positions from plain integers: base+i, end-i
        der = []
        for n, g in H.ints:
            for r in E.regions:
                if r.w == 1:
                    der.append((f"{r.name}.begin+{n}", lambda s, g=g, r=r: Z(r.base) + Z(g(s))))
                    der.append((f"{r.name}.end-{n}", lambda s, g=g, r=r: Z(r.base) + Z(r.size) - Z(g(s))))
                elif E.spec.scaled:
                    der.append((f"{r.name}.begin+{r.w}*{n}", lambda s, g=g, r=r: Z(r.base) + r.w * Z(g(s))))
        if E.spec.derive and len(H.ints) <= 6:
            H.pos += der
        return H

    def gen_cands(E, H, entry, hs):
        cs = []
        if E.spec.generic:
            P = H.pos
            C = H.const
            seen = set()
            og = {}
            for n, f in P + C:
                try:
                    og[n] = E.origin(f(entry))
                except KeyError:
                    og[n] = frozenset()

            def apart(x, y):
                return bool(og[x] and og[y] and not (og[x] & og[y]))
            H.og = og
            for a in range(len(P)):
                na, fa = P[a]
                for b in range(len(P)):
                    if a == b or apart(na, P[b][0]):
                        continue
                    nb, fb = P[b]
                    cs.append((f"{na} <= {nb}", lambda s, fa=fa, fb=fb: Z(fa(s)) <= Z(fb(s))))
                    if a < b:
                        cs.append((f"{na} == {nb}", lambda s, fa=fa, fb=fb: Z(fa(s)) == Z(fb(s))))
                for nb, fb in C:
                    if apart(na, nb):
                        continue
                    cs.append((f"{na} <= {nb}", lambda s, fa=fa, fb=fb: Z(fa(s)) <= Z(fb(s))))
                    cs.append((f"{na} >= {nb}", lambda s, fa=fa, fb=fb: Z(fa(s)) >= Z(fb(s))))
                    if na in H.raw and nb.endswith(".end"):
                        cs.append((f"{na} < {nb}", lambda s, fa=fa, fb=fb: Z(fa(s)) < Z(fb(s))))
                # relative to the loop entry value
                v0 = Z(fa(entry))
                cs.append((f"{na} >= {na}@entry", lambda s, fa=fa, v0=v0: Z(fa(s)) >= v0))
                cs.append((f"{na} <= {na}@entry", lambda s, fa=fa, v0=v0: Z(fa(s)) <= v0))
            for (na, fa), (nb, fb) in itertools.combinations(P, 2):
                d0 = z3.simplify(Z(fa(entry)) - Z(fb(entry)))
                cs.append((f"{na}-{nb} const", lambda s, fa=fa, fb=fb, d0=d0: Z(fa(s)) - Z(fb(s)) == d0))
                s0 = z3.simplify(Z(fa(entry)) + Z(fb(entry)))
                cs.append((f"{na}+{nb} const", lambda s, fa=fa, fb=fb, s0=s0: Z(fa(s)) + Z(fb(s)) == s0))
            steps = [(n, f, H.step[n]) for n, f in P if n in H.step]
            for (na, fa, da), (nb, fb, db) in itertools.combinations(steps, 2):
                if abs(da) != abs(db):
                    l0 = z3.simplify(db * Z(fa(entry)) - da * Z(fb(entry)))
                    cs.append((f"{db}*{na}-{da}*{nb} const", lambda s, fa=fa, fb=fb, da=da, db=db, l0=l0: db * Z(fa(s)) - da * Z(fb(s)) == l0))
            for na, fa in H.ints:
                cs.append((f"{na} >= 1", lambda s, fa=fa: Z(fa(s)) >= 1))
                for c in sorted(H.consts)[:4]:
                    cs.append((f"{na} <= {c}", lambda s, fa=fa, c=c: Z(fa(s)) <= c))
            for na, fa in H.bools:
                cs.append((na, lambda s, fa=fa: Z(fa(s))))
                cs.append(("not " + na, lambda s, fa=fa: z3.Not(Z(fa(s)))))
            for (na, fa), (nb, fb) in itertools.combinations(H.bools, 2):
                cs.append((f"{na} == {nb}", lambda s, fa=fa, fb=fb: Z(fa(s)) == Z(fb(s))))
        for fn in E.cand_fns:
            cs += list(fn(E, H))
        out = []
        for n, f in cs:
            try:
                t = z3.simplify(f(hs)) if not z3.is_quantifier(f(hs)) else f(hs)
            except KeyError:
                continue
            if z3.is_true(t):
                continue
            out.append((n, f))
        return out

    def filter(E, st, cs, what):
        """keep the candidates valid in st: [(name, fn, formula)] -> [(name, fn)]"""
        ok, todo = [], []
        for n, f, t in cs:
            if isinstance(t, bool):
                t = z3.BoolVal(t)
            todo.append((n, f, t))
        alive = {id(f): True for n, f, t in todo}
        verified = set()
        work = [x for x in todo]
        while work:
            E.budget()
            r, m = E.sol.check(st.pc, [z3.Not(z3.And(*[t for _, _, t in work]))], E.o["query_ms"])
            if r == z3.unsat:
                for n, f, t in work:
                    verified.add(id(f))
                break
            F = []
            if m is not None:
                for x in work:
                    if z3.is_quantifier(x[2]):
                        continue
                    try:
                        v = m.eval(x[2], model_completion=True)
                    except z3.Z3Exception:
                        continue
                    if z3.is_false(v):
                        F.append(x)
            if F and r == z3.sat:
                Fi = {id(x[1]) for x in F}
                work = [x for x in work if id(x[1]) not in Fi]
                continue
            # undecided by the model: test one by one
            if not F:
                F = [x for x in work if has_q(x[2])] or work
            Fi = {id(x[1]) for x in F}
            for x in F:
                r1, _ = E.sol.check(st.pc, [z3.Not(x[2])], 600)
                if r1 == z3.unsat:
                    verified.add(id(x[1]))
            work = [x for x in work if id(x[1]) not in Fi]
        if TRACE:
            for n, f, t in todo:
                if re.search(TRACE, n):
                    print("   trace", what, n, id(f) in verified, "" if id(f) in verified else str(z3.simplify(t)) + "\n      WHERE " + "\n            ".join(str(c).replace("\n", " ")[:400] for c in st.pc[-30:]), flush=True)
        return [(n, f) for n, f, t in todo if id(f) in verified]


# ---------- library contracts (trusted)
LIB = {}
LIBRX = []


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def librx(*rxs):
    def d(f):
        for n in rxs:
            LIBRX.append((n, f))
        return f
    return d


def M1(E, st):
    return E.mem(st, "m1")


def low8(E, st, c):
    if isinstance(c, int):
        return c % 256
    return z3.simplify(c % 256)


@lib("memchr")
def c_memchr(E, st, a):
    p, c, n = a
    c = low8(E, st, c)
    if isinstance(p, Loc):
        raise Unsupported("memchr on local")
    E.oblige(st, "memory: memchr range is readable", E.range_ok(st, p, n))
    M = M1(E, st)
    out = []
    s1 = st.copy()
    r = E.fresh("memchr")
    s1.assume(Z(n) > 0, r >= p, r < p + n, z3.Select(M, r) == c,
              Forall(1, lambda k: Imp(z3.And(k >= p, k < r), z3.Select(M, k) != c), lambda k: z3.Select(M, k)))
    if E.feasible(s1, z3.BoolVal(True)) and E.sol.check(s1.pc, [], E.o["query_ms"])[0] != z3.unsat:
        out.append(("ret", s1, r))
    s2 = st.copy()
    s2.assume(Forall(1, lambda k: Imp(z3.And(k >= p, k < p + n), z3.Select(M, k) != c), lambda k: z3.Select(M, k)))
    if E.sol.check(s2.pc, [], E.o["query_ms"])[0] != z3.unsat:
        out.append(("ret", s2, 0))
    return out


def local_bytes(E, st, p, n):
    return [E.load(st, Loc(p.o, p.f + k), L.IntTy(8)) for k in range(n)]


@lib("memcmp", "bcmp")
def c_memcmp(E, st, a):
    p, q, n = a
    r = E.mod_fresh(st, "memcmp", 32)
    if isinstance(n, int) and n <= 64:
        fs = []
        for k in range(n):
            x = E.load(st, Loc(p.o, p.f + k) if isinstance(p, Loc) else p + k, L.IntTy(8))
            y = E.load(st, Loc(q.o, q.f + k) if isinstance(q, Loc) else q + k, L.IntTy(8))
            fs.append(Z(x) == Z(y))
        st.assume((r == 0) == And(fs))
        return r
    for x in (p, q):
        if isinstance(x, Loc):
            o = st.objs[x.o]
            if o.size is None or not isinstance(x.f, int):
                raise Unsupported("memcmp on local")
            E.oblige(st, "memory: memcmp range is readable", Z(n) <= o.size - x.f)
        else:
            E.oblige(st, "memory: memcmp range is readable", E.range_ok(st, x, n))

    def at(x, k):
        if isinstance(x, Loc):
            o = st.wobj(x.o)
            E.to_array(st, o, 1)
            return z3.Select(o.arr, x.f + k)
        return z3.Select(M1(E, st), x + k)

    def mb(x):
        if isinstance(x, Loc):
            at(x, 0)
            return st.objs[x.o].arr, Z(x.f)
        return M1(E, st), Z(x)
    d = E.fresh("diff")
    (A, pa), (B, qa) = mb(p), mb(q)
    st.assume(d >= 0, d <= n, SameBytes(A, pa, B, qa, d), (r == 0) == (d == Z(n)),
              Imp(r != 0, z3.And(z3.Select(A, pa + d) != z3.Select(B, qa + d),
                                 (r >= (1 << 31)) == (z3.Select(A, pa + d) < z3.Select(B, qa + d)))))
    return r


@lib("strncmp")
def c_strncmp(E, st, a):
    p, q, n = a
    for x in (p, q):
        if isinstance(x, Loc):
            raise Unsupported("strncmp on local")
        E.oblige(st, "memory: strncmp range is readable", E.range_ok(st, x, n))
    M = M1(E, st)
    r = E.mod_fresh(st, "strncmp", 32)
    d = E.fresh("strncmp_stop")
    at = lambda x, k: z3.Select(M, x + k)
    # d: first difference, or first common NUL, or n
    st.assume(d >= 0, d <= n,
              Forall(1, lambda k: Imp(z3.And(k >= 0, k < d), z3.And(at(p, k) == at(q, k), at(p, k) != 0)), lambda k: [at(p, k), at(q, k)]),
              Imp(d < n, z3.Or(at(p, d) != at(q, d), at(p, d) == 0)),
              (r == 0) == z3.Or(Z(d) == n, at(p, d) == at(q, d)),
              Imp(r != 0, (r >= (1 << 31)) == (at(p, d) < at(q, d))))
    return r


@lib("strlen")
def c_strlen(E, st, a):
    p = a[0]
    if isinstance(p, Loc):
        o = st.objs[p.o]
        if isinstance(p.f, int) and o.arr is None:
            for k in range(p.f, o.size or 0):
                c = o.cells.get(k)
                if c is None or c[0] != 1 or not isinstance(c[1], int):
                    if any(lo <= k < hi and b == 0 for lo, hi, b in o.fill):
                        return k - p.f
                    break
                if c[1] == 0:
                    return k - p.f
        raise Unsupported("strlen of a local buffer")
    n = E.fresh("strlen")
    M = M1(E, st)
    E.oblige(st, "memory: strlen argument is NUL-terminated inside a granted region",
             z3.Or(*[z3.And(r.base <= p, p < r.base + r.size, z3.Select(M, r.base + r.size - 1) == 0) for r in E.regions if r.w == 1] or [z3.BoolVal(False)]))
    st.assume(n >= 0, z3.Select(M, p + n) == 0, Forall(1, lambda x: Imp(z3.And(x >= p, x < p + n), z3.Select(M, x) != 0), lambda x: z3.Select(M, x)))
    for r in E.regions:
        if r.w == 1:
            st.assume(Imp(z3.And(r.base <= p, p < r.base + r.size, z3.Select(M, r.base + r.size - 1) == 0), p + n < r.base + r.size))
    return n


@lib("__assert_fail")
def c_assert(E, st, a):
    E.oblige(st, "assert() in the code holds", False)
    return [("dead", st, None)]


@lib("_ZSt9terminatev", "abort", "__clang_call_terminate")
def c_term(E, st, a):
    E.oblige(st, "control flow: the process is never terminated", False)
    return [("dead", st, None)]


@lib("__cxa_begin_catch")
def c_bc(E, st, a):
    return a[0]


@lib("__cxa_end_catch")
def c_ec(E, st, a):
    return None


@lib("__cxa_allocate_exception")
def c_ae(E, st, a):
    oid = f"exn#{next(E.cnt)}"
    st.objs[oid] = Obj(a[0] if isinstance(a[0], int) else None, "exception")
    return Loc(oid, 0)


@lib("__cxa_free_exception")
def c_fe(E, st, a):
    return None


@lib("__cxa_throw")
def c_throw(E, st, a):
    return [("throw", st, (a[0], 1))]


@lib("__cxa_rethrow")
def c_rethrow(E, st, a):
    return [("throw", st, (0, 1))]


_dm = {}


def demangle(n):
    n = n.strip('"')
    if n in _dm:
        return _dm[n]
    import subprocess
    try:
        r = subprocess.run(["llvm-cxxfilt", n], capture_output=True, text=True).stdout.strip()
    except OSError:
        r = n
    _dm[n] = r
    return r


def demangle_all(names):
    import subprocess
    names = [n.strip('"') for n in names if n.strip('"') not in _dm]
    if not names:
        return
    r = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    for a, b in zip(names, r):
        _dm[a] = b
