"""Contract framework: a unit = one harness entry point + its contract."""
import re
import z3
from .engine import *  # noqa
from . import engine as EN

REG = {}      # property -> [Unit]


class Unit:
    def __init__(u, prop, harness, entry, fn, kw):
        u.prop, u.harness, u.entry, u.fn, u.kw = prop, harness, entry, fn, kw
        u.name = kw.get("name") or entry[3:]
        u.about = kw.get("about") or (fn.__doc__ or "").strip()


def unit(prop, harness, entry, **kw):
    def d(fn):
        REG.setdefault(prop, []).append(Unit(prop, harness, "vf_" + entry, fn, kw))
        return fn
    return d


SEL = z3.Select


class Ctx:
    """builder handed to a unit function; doubles as engine spec object"""
    load_hook = store_hook = local_hook = atomic_hook = memset_hook = bit_hook = icall = fn_ints = None
    opaque_bytes = False
    fork_selects = True
    join_paths = False
    fp_exact = False
    fp_facts = False
    fp_real = False
    bitwise = False
    int2fp = None
    check_termination = True
    measures = None
    generic = True
    derive = True
    scaled = False
    entry_rx = None
    copy_w = None         # element width of fixed-size copies between locals and granted memory

    def __init__(C, u, module, opts):
        C.u = u
        C.rx = []
        C.named = []      # like rx; the handler also gets the function's name
        C.opts = opts
        C.E = Engine(module, C, opts)
        C.E.fn_addrs = {}
        C.st = State()
        C.argv = []
        C.posts = []
        C.throw_posts = None
        C.entry = u.entry
        C.regs = {}

    # ---- state
    def require(C, *f):
        C.st.assume(*f)

    def param(C, name, t):
        C.E.params.append((name, t))
        return t

    def sym(C, name, w=64):
        v = z3.Int(name)
        C.require(v >= 0, v < (1 << w))
        return C.param(name, v)

    def sint(C, name, w):
        """signed parameter: returns (bit-pattern term, signed term)"""
        v = z3.Int(name)
        C.require(v >= -(1 << (w - 1)), v < (1 << (w - 1)))
        C.param(name, v)
        return z3.If(v >= 0, v, v + (1 << w)), v

    def boolv(C, name):
        b = z3.Bool(name)
        C.E.params.append((name, z3.If(b, z3.IntVal(1), z3.IntVal(0))))
        return b

    def region(C, name, w=1, writable=False, count=None, disjoint=True):
        base, n = z3.Int(name), z3.Int(name + ".len") if count is None else count
        size = n * w if w != 1 else n
        C.require(base >= 0, base + size < (1 << 62))
        if count is None:
            C.require(n >= 0)
        C.require(Imp(Z(n) > 0, base >= 4096))
        if w > 1:
            C.require(base % w == 0)
        r = Region(name, base, size, w, writable=writable)
        r.n = n
        if disjoint:
            for o in C.E.regions:
                if writable or o.writable:
                    C.require(Or(Z(r.size) == 0, Z(o.size) == 0, r.base + r.size <= o.base, o.base + o.size <= r.base))
        C.E.regions.append(r)
        C.regs[name] = r
        C.param(name, base)
        if count is None:
            C.param(name + ".len", n)
        return r

    def view(C, name, **kw):
        return C.region(name, 1, **kw)

    def object(C, name, size, **cells):
        """an object of the caller's, known field by field (o<offset>_<width>=value): -> pointer"""
        o = Obj(size, name)
        for k, v in cells.items():
            off, w = k[1:].split("_")
            o.cells[int(off)] = (int(w), v)
        C.st.objs["@" + name] = o
        return Loc("@" + name, 0)

    def ghost(C, name, v):
        C.st.gh[name] = v

    def extern(C, name, h):
        C.E.externs[name] = h

    def regex(C, rx, h):
        C.rx.append((rx, h))

    def args(C, *a):
        C.argv = list(a)

    def post(C, f):
        C.posts.append(f)

    def on_throw(C, f):
        C.throw_posts = (C.throw_posts or []) + [f]

    def inv(C, f):
        C.E.cand_fns.append(f)

    def byte(C, st, p):
        """signed/unsigned-agnostic byte value 0..255 at address p"""
        return SEL(C.E.mem(st, "m1"), p)

    def bytes_typed(C):
        """bytes read from memory are in 0..255"""
        M = C.E.mem(C.st, "m1")
        C.require(Forall(1, lambda k: z3.And(SEL(M, k) >= 0, SEL(M, k) < 256), lambda k: SEL(M, k)))

    def check(C, st, name, f):
        C.E.oblige(st, name, f)

    # ---- run
    def run(C):
        E = C.E
        pre = [z3.Not(z3.BoolVal(False))]
        r, _ = E.sol.check(C.st.pc, pre, 5000)
        if r == z3.unsat:
            ob = E.obs.setdefault("vacuity: precondition is satisfiable", Ob("vacuity: precondition is satisfiable"))
            ob.status, ob.reason = "failed", "contradictory precondition"
            return
        st = C.st.copy()
        entry = "@" + C.entry
        if C.entry_rx:      # the contract is stated on a function of the library itself
            hits = [n for n in E.m.funcs if getattr(E.m.funcs[n], "raw", None) and re.search(C.entry_rx, demangle(n[1:]))]
            if len(hits) != 1:
                raise Unsupported(f"{len(hits)} functions match {C.entry_rx}")
            entry = hits[0]
        outs = E.call_fn(st, entry, C.argv)
        reached = 0
        for kind, s, v in outs:
            if kind == "throw":
                if C.throw_posts is None:
                    E.oblige(s, "control flow: no exception escapes", False)
                else:
                    for f in C.throw_posts:
                        for name, t in f(s, v):
                            E.oblige(s, name, t)
                    reached += 1
            else:
                for f in C.posts:
                    for name, t in f(s, v):
                        E.oblige(s, name, t)
                reached += 1
            r, _ = E.sol.check(s.pc, [], 2000)
            if r == z3.unsat:
                reached -= 1
        ob = E.obs.setdefault("vacuity: an exit of the function is reachable under the contract",
                              Ob("vacuity: an exit of the function is reachable under the contract"))
        ob.paths += 1
        if reached <= 0:
            ob.status, ob.reason = "failed", "no exit reachable"
        else:
            ob.cover += 1


def run_unit(u, module, opts=None):
    """-> dict result"""
    t0 = time.time()
    res = dict(unit=u.name, entry=u.entry, about=u.about, obs=[], error=None)
    try:
        C = Ctx(u, module, dict(u.kw.get("opts") or {}, **(opts or {})))
        E = C.E
        if "@" + u.entry not in module.funcs:
            raise Unsupported("harness entry missing: " + u.entry)
        u.fn(C)
        C.run()
    except Again as e:
        return run_unit(u, module, dict(opts or {}, **e.opts))
    except (Unsupported, Budget) as e:
        res["error"] = f"{type(e).__name__}: {e}"
    except RecursionError:
        res["error"] = "recursion limit"
    except z3.Z3Exception as e:
        import traceback
        res["error"] = "z3: " + str(e) + traceback.format_exc()[-600:]
    except Exception as e:  # a construct the generator does not know
        import traceback
        res["error"] = f"internal {type(e).__name__}: {e} " + traceback.format_exc()[-900:]
    E = C.E
    for ob in E.obs.values():
        if ob.status == "discharged" and not ob.cover and not ob.name.startswith("vacuity"):
            # never reachable: holds because no execution gets there
            res["obs"].append(dict(name=ob.name, status="discharged", vcs=ob.paths, backend=sorted(ob.backends) or ["unreachable"], reason="", model=None, covered=False))
            continue
        res["obs"].append(dict(name=ob.name, status=ob.status, vcs=ob.paths, backend=sorted(ob.backends), reason=ob.reason, model=ob.model, covered=bool(ob.cover)))
    res.update(wall=time.time() - t0, queries=E.sol.n, solver_s=E.sol.t, invariants=E.ninv, inv_vcs=E.inv_checks,
               loops=len(E.cut_loops), inlined=sorted(E.inlined), contracts=sorted(E.used_contracts), assumed=sorted(E.assumed))
    return res
