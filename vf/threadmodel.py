"""threads, one at a time (trusted: std::thread, std::mutex): a started thread is verified as a function of its own, against what
the others may do (rely), and every access to the starter's objects is subject to the race rules stated here"""
import z3
from .engine import *  # noqa
from . import llparse as L
from .llparse import PTR

I64 = L.IntTy(64)
TV = r"std::vector<std::thread, std::allocator<std::thread> ?>::"
PAIR = r"std::pair<unsigned long, std::__exception_ptr::exception_ptr>"
EV = rf"std::vector<{PAIR}, std::allocator<{PAIR} ?> ?>::"


def overlap(a, b):
    """(oid, off, size) triples; an offset that is not a number overlaps everything of its object"""
    if a[0] != b[0]:
        return False
    if not all(isinstance(x, int) for x in a[1:] + b[1:]):
        return True
    return a[1] < b[1] + b[2] and b[1] < a[1] + a[2]


class Threads:
    """C.threads: started threads, the vector that holds them and the accesses of the worker to the starter's objects"""

    def __init__(s, C):
        s.C = C
        s.reads = dict(locked=set(), active=set(), free=set())      # plain reads of the workers, by what protects them
        s.writes = dict(locked=set(), atomic=set())
        s.aloads = set()      # atomic reads of the workers
        s.mutex = None
        s.known = set()       # bodies whose accesses are recorded
        E = C.E
        s.T = C.region("threads", 8, writable=True)
        C.require(s.T.base >= 4096)
        for g, v in dict(me="p", shared=frozenset(), spawned=0, joined=0, held=False, dead=False).items():
            C.ghost(g, v)
        C.local_hook = s.access
        C.regex("^" + TV + r"vector\(\)", s.v_ctor)
        C.regex(TV + r"reserve\(", lambda E, st, a: None)
        C.regex("^" + TV + r"~vector\(", s.v_dtor)
        C.named.append((TV + r"(emplace_back|push_back)", s.v_push))
        C.extern("_ZNSt6thread4joinEv", s.join)
        h = z3.Int("hardware_concurrency")
        C.require(h >= 0, h < (1 << 32))
        E.params.append(("hardware_concurrency", h))
        C.extern("_ZNSt6thread20hardware_concurrencyEv", lambda E, st, a: h)
        C.extern("_Znwm", s.new)
        C.extern("_ZdlPv", lambda E, st, a: None)
        C.extern("_ZdlPvm", lambda E, st, a: None)
        C.regex(r"^std::thread::_M_start_thread\(", s.start)
        C.extern("pthread_mutex_lock", s.lock)
        C.extern("pthread_mutex_unlock", s.unlock)
        C.inv(lambda E, H: [(f"{n} is the next thread to join", lambda st, f=f: Z(f(st)) == s.T.base + 8 * Z(st.gh["joined"])) for n, f in H.pos if n in H.raw])
        C.inv(lambda E, H: [(f"{n} counts the started threads", lambda st, f=f: Z(f(st)) == Z(st.gh["spawned"])) for n, f in H.ints])
        C.inv(lambda E, H: [(f"{n} is behind the last started thread", lambda st, f=f: Z(f(st)) == s.T.base + 8 * Z(st.gh["spawned"])) for n, f in H.pos if n in H.raw])
        C.inv(lambda E, H: [("joined <= started", lambda st: Z(st.gh["joined"]) <= Z(st.gh["spawned"])), ("none joined", lambda st: Z(st.gh["joined"]) == 0), ("started > 0", lambda st: Z(st.gh["spawned"]) > 0)])
        E.assumed.add("std::thread: starting a thread runs its function once and starting never fails; join returns after the function returned and orders memory; std::mutex excludes and orders, locking never fails")
        E.assumed.add("std::vector<std::thread>: holds the threads in the order they were appended; no std::bad_alloc")

    # ---- the starter's side
    def running(s, st):
        return Z(st.gh["spawned"]) != Z(st.gh["joined"])

    def ctx(s, st):
        """what protects an access of a worker: the lock, the protocol of the contract (active), nothing (free)"""
        return "locked" if z3.is_true(z3.simplify(Z(st.gh["held"]))) else "free"

    def may_write(s, st):
        """the starter's permission to change what active workers read"""
        return z3.BoolVal(False)

    def access(s, E, st, kind, p, size, ty):
        if s.bypass:
            return None
        if st.gh["me"] == "p":
            a = (p.o, 0 if kind == "end" else p.f, size)
            def hit(k):
                return any(overlap(a, b) for b in s.reads[k])
            quiet = Z(st.gh["spawned"]) == Z(st.gh["joined"])
            if kind == "load":
                if any(overlap(a, b) for b in s.writes["locked"] | s.writes["atomic"]):
                    E.oblige(st, "race: the starter does not read what its threads change while they run", z3.Or(quiet, z3.And(Z(st.gh["held"]), not any(overlap(a, b) for b in s.writes["atomic"]))))
                return None
            what = "write" if kind == "store" else "end the lifetime of"
            ok = []
            if kind == "end" and any(hit(k) for k in s.reads) or any(overlap(a, b) for k in s.writes for b in s.writes[k] if kind == "end" or k == "atomic") or any(overlap(a, b) for b in s.aloads):
                ok.append(z3.BoolVal(False))
            elif hit("free"):
                ok.append(z3.BoolVal(False))
            else:
                if hit("locked") or any(overlap(a, b) for b in s.writes["locked"]):
                    ok.append(Z(st.gh["held"]))
                if hit("active"):
                    ok.append(z3.And(Z(st.gh["held"]), s.may_write(st)))
            if ok:
                E.oblige(st, f"race: the starter does not {what} what its threads use while they run" if not hit("active") or kind == "end" else "race: what running jobs use changes only while none can run", z3.Or(quiet, And(*ok)))
            return None
        if p.o not in st.gh["shared"]:
            return None
        if kind == "end":
            raise Unsupported("a thread ends the lifetime of its starter's object")
        if kind == "store":
            E.oblige(st, "race: threads change the starter's objects only under the lock", Z(st.gh["held"]))
            s.writes["locked"].add((p.o, p.f, size))
            E.oblige(st, "race: threads change only the objects the contract knows", False)
            return None
        s.reads[s.ctx(st)].add((p.o, p.f, size))
        return s.shared_load(E, st, p, size, ty) if s.shared_load and ty is not None else None
    shared_load = None
    bypass = False        # the access is an atomic one, already judged

    # ---- std::vector<std::thread>
    def v_ctor(s, E, st, a):
        for k in range(3):
            E.store(st, Loc(a[0].o, a[0].f + 8 * k), s.T.base, PTR)

    def fin(s, st, v):
        return Loc(v.o, v.f + 8)

    def v_push(s, E, st, a, name):
        f = E.load(st, s.fin(st, a[0]), PTR)
        ctor = [i.x["callee"].v for b in E.finfo(name)[0].blocks.values() for i in b.ins if i.op in ("call", "invoke") and i.x["callee"].k == "glob" and re.match(r"std::thread::thread<", demangle(i.x["callee"].v[1:]))]
        if re.search(r"::push_back\(|emplace_back<std::thread>", demangle(name[1:])):
            idv = E.load(st, a[1], I64)
            E.oblige(st, "threads: what is appended is a started thread", Z(idv) != 0)
            E.store(st, a[1], 0, I64)
            outs = [("ret", st, None)]
        elif ctor:
            oid = f"thread#{next(E.cnt)}"
            st.objs[oid] = Obj(8, "thread")
            outs = E.call_fn(st, ctor[0], [Loc(oid, 0)] + a[1:], 2)
        else:
            raise Unsupported("no thread is made in " + demangle(name[1:]))
        for k, z, v in outs:
            if k == "ret":
                E.store(z, s.fin(z, a[0]), f + 8, PTR)
        return [(k, z, f if k == "ret" else v) for k, z, v in outs]

    def v_dtor(s, E, st, a):
        f = E.load(st, s.fin(st, a[0]), PTR)
        E.oblige(st, "threads: every thread in the vector is joined before the vector goes away", Z(f) == s.T.base + 8 * Z(st.gh["joined"]))

    def join(s, E, st, a):
        E.oblige(st, "threads: each thread is joined once", Z(E.addr_of(st, a[0])) == s.T.base + 8 * Z(st.gh["joined"]))
        E.oblige(st, "threads: only started threads are joined", Z(st.gh["joined"]) < Z(st.gh["spawned"]))
        E.oblige(st, "lock: no thread is waited for under the lock", z3.Not(Z(st.gh["held"])))
        st.gh["joined"] = Z(st.gh["joined"]) + 1

    def new(s, E, st, a):
        oid = f"new#{next(E.cnt)}"
        st.objs[oid] = Obj(a[0] if isinstance(a[0], int) else None, "operator new")
        return Loc(oid, 0)

    def start(s, E, st, a):
        this, up = a[0], a[1]
        state = E.load(st, up, PTR)
        E.store(st, up, 0, PTR)
        vt = E.load(st, state, PTR)
        run = E.load(st, Loc(vt.o, vt.f + 16), PTR)
        E.store(st, this, E.mod_fresh(st, "thread_id", 64), I64)
        v = st.objs[this.o].cells[this.f][1]
        st.assume(v != 0)
        if st.gh["me"] != "p":
            raise Unsupported("a thread starts a thread")
        if E.mode == "check" or run.n not in s.known:
            w = st.copy()
            s.worker(E, w, run, state)
            s.known.add(run.n)
        st.gh["spawned"] = Z(st.gh["spawned"]) + 1

    def worker(s, E, w, run, state):
        w.gh["me"] = "w"
        w.gh["shared"] = frozenset(o for o in w.objs if o != state.o)
        w.gh["held"] = False
        for g, v in s.worker_ghosts.items():
            w.gh[g] = v
        s.begin(E, w)
        outs = E.call_fn(w, run.n, [state], 2)
        n = 0
        for k, z, v in outs:
            if k == "ret":
                n += 1
                E.oblige(z, "lock: released when the thread ends", z3.Not(Z(z.gh["held"])))
                for nm, t in s.exit(z):
                    E.oblige(z, nm, t)
            else:
                E.oblige(z, "worker: no exception escapes the thread", False)
        r = any(overlap(x, y) for k in s.reads for x in s.reads[k] for y in (s.writes["locked"] if k != "locked" else set()) | s.writes["atomic"])
        E.oblige(w, "race: what one thread reads without the lock no other one changes", not r)
        if not n:
            E.oblige(w, "vacuity: a thread can end", False)

    def lock(s, E, st, a):
        E.oblige(st, "lock: not taken twice", z3.Not(Z(st.gh["held"])))
        if st.gh["me"] == "w":
            E.oblige(st, "lock: all threads use the same one", isinstance(a[0], Loc) and a[0].o in st.gh["shared"] and (s.mutex is None or s.mutex == (a[0].o, a[0].f)))
            s.mutex = s.mutex or (a[0].o, a[0].f)
            s.reads["free"].add((a[0].o, a[0].f, 40))
        st.gh["held"] = True
        return 0

    def unlock(s, E, st, a):
        E.oblige(st, "lock: only a held lock is released", Z(st.gh["held"]))
        st.gh["held"] = False
        return 0


def parallel_for(C, n, quit_on_error, progress, job_of=None):
    """the worker contract of parallel_for*: n jobs, indices handed out by one shared counter"""
    t = C.threads = Threads(C)
    E = C.E
    EB = C.region("errors", 8, writable=True)
    C.require(EB.base >= 4096)
    NERR = C.sym("errors recorded")
    C.require(Imp(NERR > 0, n > 0), NERR * 16 <= EB.size)
    FIN = 3 if progress else 2
    # spent: a thread that finds all jobs claimed sets the quit flag too. The flag then means that, or a failure under QUIT_EXEC
    spent = C.opts.get("spent", False)
    t.worker_ghosts = dict(own=z3.IntVal(-1), phase=z3.IntVal(0), sawquit=False, okquit=False, setq=False)
    for g, v in dict(t.worker_ghosts, exn=0, tl=0, tlobj=0).items():
        C.ghost(g, v)
    t.counter = t.quit = None
    t.begin = lambda E, w: None
    t.errs = None

    def ph(st, *ks):
        return z3.Or(*[Z(st.gh["phase"]) == k for k in ks])

    def fin(st):
        """the last claimed job is done with (its failure recorded)"""
        return ph(st, 0, FIN, 5, 6)

    h32 = z3.Int("hardware_concurrency")

    def atomic(E, st, kind, p, v, i):
        w = i.ty.w if i.ty is not None and i.ty.k == "int" else None
        if not isinstance(p, Loc):
            return None
        if st.gh["me"] == "p":
            if kind == "store":
                t.bypass = True
                E.store(st, p, v, i.a[0].t)
                t.bypass = False
                E.oblige(st, "worker: the counter and the flag are the threads' own once they run", Z(st.gh["spawned"]) == Z(st.gh["joined"]))
                return True
            E.oblige(st, "race: the starter does not read what its threads change while they run", Z(st.gh["spawned"]) == Z(st.gh["joined"]))
            return None
        E.oblige(st, "worker: an atomic that is used by all threads", p.o in st.gh["shared"])
        if kind == "load":
            t.aloads.add((p.o, p.f, E.m.size(i.ty)))
        ini = st.objs[p.o].cells.get(p.f) if p.o in st.objs else None
        if kind == "rmw.add":
            t.writes["atomic"].add((p.o, p.f, 8))
            E.oblige(st, "worker: indices are handed out by one counter, one at a time", And(t.counter in (None, (p.o, p.f)), Z(v) == 1))
            t.counter = (p.o, p.f)
            E.oblige(st, "worker: the counter has a value for every job", n + h32 <= (1 << i.a[1].t.w) if i.a[1].t.w < 64 else True)
            E.oblige(st, "worker: the counter starts at 0", ini is not None and Z(ini[1]) == 0)
            E.oblige(st, "worker: the job claimed before is done before the next one is claimed", fin(st))
            E.oblige(st, "worker: under QUIT_EXEC no job is claimed after a failed one", z3.Not(z3.And(quit_on_error, ph(st, 5))))
            E.oblige(st, "lock: not held while claiming a job", z3.Not(Z(st.gh["held"])))
            c = E.mod_fresh(st, "claimed", 64)
            st.assume(c > Z(st.gh["own"]))
            st.gh["own"] = c
            st.gh["phase"] = z3.If(c < n, 1, 6)
            return c
        if kind == "load" and (w or 0) >= 32:
            c = E.mod_fresh(st, "counter", 64)
            st.assume(c > Z(st.gh["own"]))
            if t.counter == (p.o, p.f):
                return c
            return None
        if kind == "load":
            t.quit = t.quit or (p.o, p.f)
            E.oblige(st, "worker: one quit flag, false at first", t.quit == (p.o, p.f) and ini is not None and Z(ini[1]) == 0)
            b = E.fresh("quit", z3.BoolSort())
            st.assume(Imp(b, quit_on_error) if not spent else True, Imp(Z(st.gh["setq"]), b))
            st.gh["sawquit"] = b
            st.gh["okquit"] = z3.Not(b)
            return z3.If(b, z3.IntVal(1), z3.IntVal(0)) if (i.ty.w > 1) else b
        if kind in ("store", "rmw.xchg"):
            t.writes["atomic"].add((p.o, p.f, 1))
            t.quit = t.quit or (p.o, p.f)
            if not spent and E.prove(st, ph(st, 6)):
                raise Again(spent=True)
            one, zero = Z(E.as_int(v)) == 1, Z(E.as_int(v)) == 0
            E.oblige(st, "worker: the quit flag is only set, and only by a failed job under QUIT_EXEC or when all jobs are claimed",
                     And(t.quit == (p.o, p.f), z3.Or(z3.And(one, quit_on_error, ph(st, 4, 5)), z3.And(one, ph(st, 6)) if spent else False, z3.And(zero, z3.Not(quit_on_error)))))
            st.gh["setq"] = z3.Or(Z(st.gh["setq"]), z3.And(quit_on_error, one))
            if kind == "rmw.xchg":
                b = E.fresh("quit", z3.BoolSort())
                st.assume(Imp(b, quit_on_error) if not spent else True)
                return z3.If(b, z3.IntVal(1), z3.IntVal(0)) if i.ty.w > 1 else b
            return True
        raise Unsupported("atomic " + kind)
    C.atomic_hook = atomic

    def thrown(st):
        s2 = st.copy()
        e = E.mod_fresh(s2, "exn", 64)
        s2.assume(e >= 4096)
        s2.gh["phase"], s2.gh["exn"] = z3.IntVal(4), e
        return ("throw", s2, (e, 1))

    def job(E, st, a):
        ix = a[-1] if job_of is None else None
        E.oblige(st, "worker: jobs run in the threads", st.gh["me"] == "w")
        E.oblige(st, "worker: each claimed job is run once, and only that one",
                 z3.And(ph(st, 1), Z(ix) == Z(st.gh["own"]) if job_of is None else job_of(st, a[-1], Z(st.gh["own"])), Z(st.gh["own"]) < n))
        E.oblige(st, "worker: under QUIT_EXEC no job is started without looking for failures", z3.Or(z3.Not(quit_on_error), Z(st.gh["okquit"])))
        E.oblige(st, "lock: not held while a job runs", z3.Not(Z(st.gh["held"])))
        st.gh["okquit"] = False
        t_ = thrown(st)
        st.gh["phase"] = z3.IntVal(2)
        return [("ret", st, None), t_]

    def prog(E, st, a):
        E.oblige(st, "worker: progress is reported once for each job that succeeded", z3.And(ph(st, 2), Z(a[0]) == Z(st.gh["own"])))
        E.oblige(st, "lock: not held while progress is reported", z3.Not(Z(st.gh["held"])))
        t_ = thrown(st)
        st.gh["phase"] = z3.IntVal(3)
        return [("ret", st, None), t_]
    C.extern("cb_job", job)
    C.extern("cb_elem", job)
    C.extern("cb_progress", prog)

    # ---- one object per thread
    def tl_new(E, st, a):
        E.oblige(st, "thread-local: one object per thread, not shared", z3.BoolVal(st.gh["me"] == "w" and isinstance(a[0], Loc) and a[0].o not in st.gh["shared"]) if st.gh["me"] == "w" else False)
        E.oblige(st, "thread-local: made once", Z(st.gh["tl"]) == 0)
        st.gh["tl"], st.gh["tlobj"] = z3.IntVal(1), Z(E.addr_of(st, a[0]))

    def tl_del(E, st, a):
        E.oblige(st, "thread-local: destroyed once", And(Z(st.gh["tl"]) == 1, Z(E.addr_of(st, a[0])) == Z(st.gh["tlobj"])))
        st.gh["tl"] = z3.IntVal(2)

    def tl_job(E, st, a):
        E.oblige(st, "thread-local: every job of a thread gets that thread's object", And(Z(st.gh["tl"]) == 1, Z(E.addr_of(st, a[0])) == Z(st.gh["tlobj"])))
        return job(E, st, a)
    C.extern("cb_tl_new", tl_new)
    C.extern("cb_tl_del", tl_del)
    C.extern("cb_tl_job", tl_job)

    # ---- exceptions
    def current(E, st, a):
        E.oblige(st, "errors: there is a failed job", ph(st, 4, 5))
        E.store(st, a[0], st.gh["exn"], PTR)
    C.regex(r"^std::current_exception\(\)", current)
    C.regex(r"exception_ptr::_M_(addref|release)\(", lambda E, st, a: None)
    C.regex(r"^std::rethrow_exception\(", lambda E, st, a: [("throw", st, (E.load(st, a[0], PTR), 1))])

    # ---- the list of errors
    def e_ctor(E, st, a):
        t.errs = (a[0].o, a[0].f)
        for k, v in enumerate((EB.base, EB.base + 16 * NERR, EB.base + EB.size)):
            E.store(st, Loc(a[0].o, a[0].f + 8 * k), v, PTR)

    def e_push(E, st, a, name):
        E.oblige(st, "errors: recorded by the threads, under the lock", And(st.gh["me"] == "w", Z(st.gh["held"])))
        E.oblige(st, "errors: recorded in the list that is returned", isinstance(a[0], Loc) and (a[0].o, a[0].f) == t.errs)
        t.writes["locked"].add((a[0].o, a[0].f, 24))
        d = demangle(name[1:])
        m = re.search(r"emplace_back<(.*)>\(", d)
        w = 64
        if len(a) == 3:
            if m and re.match(r"unsigned int\b", m.group(1)):
                w = 32
            elif m and not re.match(r"unsigned long\b", m.group(1)):
                raise Unsupported(d)
            ix, ex = a[1], a[2]
        else:
            if m and re.match(r"std::pair<unsigned int\b", m.group(1)):
                w = 32
            elif m and not re.match(r"std::pair<unsigned long\b", m.group(1)):
                raise Unsupported(d)
            ix, ex = a[1], Loc(a[1].o, a[1].f + 8)
        i, e = E.load(st, ix, L.IntTy(w)), E.load(st, ex, PTR)
        E.oblige(st, "errors: exactly the failed job is recorded, with its index and its exception",
                 z3.And(ph(st, 4), Z(i) == Z(st.gh["own"]), Z(e) == Z(st.gh["exn"])))
        st.gh["phase"] = z3.IntVal(5)
        return 0
    C.regex("^" + EV + r"vector\(\)", e_ctor)
    C.regex(EV + r"reserve\(", lambda E, st, a: None)
    C.regex("^" + EV + r"~vector\(", lambda E, st, a: None)
    C.named.append((EV + r"(emplace_back|push_back)", e_push))

    t.exit = lambda st: [
        ("worker: a thread ends only when all jobs are claimed or a job failed under QUIT_EXEC",
         z3.Or(ph(st, 6), Z(st.gh["sawquit"]) if spent else False, z3.And(quit_on_error, z3.Or(Z(st.gh["sawquit"]), z3.And(ph(st, 5), Z(st.gh["setq"])))))),
        ("worker: a claimed job is run, and its failure recorded, before the thread ends", z3.Or(fin(st), z3.And(ph(st, 1), Z(st.gh["sawquit"])) if not spent else False)),
        ("worker: under QUIT_EXEC a failure stops the other threads", Imp(z3.And(quit_on_error, ph(st, 4, 5)), Z(st.gh["setq"]))),
        ("thread-local: destroyed before the thread ends", Z(st.gh["tl"]) != 1)]

    sets = [(0,), (0, FIN), (0, FIN, 5), (0, 2), (0, 5)]

    C.inv(lambda E, H: [(f"phase in {k}", lambda st, k=k: ph(st, *k)) for k in sets] +
          [("a failure under QUIT is announced", lambda st: Imp(z3.And(quit_on_error, ph(st, 4, 5)), Z(st.gh["setq"]))),
           ("phase 5 only under CONTINUE", lambda st: Imp(quit_on_error, z3.Not(ph(st, 5)))),
           ("last claim was a job", lambda st: Z(st.gh["own"]) < n), ("last claim", lambda st: Z(st.gh["own"]) >= -1),
           ("no failure seen", lambda st: z3.Or(z3.Not(quit_on_error), Z(st.gh["okquit"]), z3.Not(Z(st.gh["sawquit"])))),
           ("quit seen implies QUIT", lambda st: Imp(Z(st.gh["sawquit"]), quit_on_error)),
           ("quit set implies QUIT", lambda st: Imp(Z(st.gh["setq"]), quit_on_error))])
    C.measures = lambda E, H: [("jobs left", lambda st: n - Z(st.gh["own"])), ("threads left to join", lambda st: Z(st.gh["spawned"]) - Z(st.gh["joined"]))]
    C.load_hook = None
    M = lambda st: E.mem(st, "m8")

    def result(st, R):
        return [("post: all threads are joined", Z(st.gh["spawned"]) == Z(st.gh["joined"])),
                ("post: at least one thread ran the jobs", z3.Or(n == 0, Z(st.gh["spawned"]) >= 1))]
    C.post(lambda st, r: result(st, r) + [
        ("post: returns normally only if no job failed, or under CONTINUE_EXEC", z3.Or(z3.Not(quit_on_error), NERR == 0)),
        ("post: the list of errors is returned", z3.BoolVal(t.errs == ("@result", 0)) if t.errs else z3.BoolVal(False)),
        ("post: the list returned is the list recorded", And(*[Z(st.objs["@result"].cells[8 * k][1]) == v for k, v in enumerate((EB.base, EB.base + 16 * NERR))]))])
    C.on_throw(lambda st, v: result(st, v) + [
        ("post: throws only under QUIT_EXEC, and the exception recorded first",
         And(quit_on_error, NERR > 0, Z(v[0] if isinstance(v, tuple) else v) == z3.Select(M(st), EB.base + 8)))])
    E.assumed.add("std::vector<pair<size_t, exception_ptr>>: appends at the end; std::current_exception is the exception being handled; no std::bad_alloc")
    E.assumed.add("the job counter does not wrap (fewer than 2^64 claims)")
    return t


class Pool(Threads):
    """the contract of thread_pool: a lock, a condition variable, and these roles, found in the code by how the threads use them:
    active (changed by one under the lock), counter (fetch_add of one while active), stop (a flag read under the lock),
    J, the number of jobs (read with the counter), fn (called while active)"""

    def __init__(t, C, n, run, job):
        super().__init__(C)
        t.n, t.run, t.job = n, run, job
        t.role = {}
        E = C.E
        t.cv = None
        t.worker_ghosts = dict(phase=z3.IntVal(0), own=z3.IntVal(0), S=z3.IntVal(0), J=z3.IntVal(0), readC=False, seenC=z3.IntVal(0), seenS=False, AV=z3.IntVal(0), dirty=False, told=False, init=z3.IntVal(0), fin=z3.IntVal(0))
        for g, v in dict(t.worker_ghosts, quiet=True, A0=False, CJ=False, epoch=False, probe=0, hits=z3.IntVal(0), epochs=z3.IntVal(0)).items():
            C.ghost(g, v)
        C.check_termination = False
        C.atomic_hook = t.atomic
        C.extern("_ZNSt18condition_variableC1Ev", lambda E, st, a: None)
        C.extern("_ZNSt18condition_variableD1Ev", lambda E, st, a: E.oblige(st, "threads: all are joined before the pool goes away", Z(st.gh["spawned"]) == Z(st.gh["joined"])))
        C.extern("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", t.wait)
        C.extern("_ZNSt18condition_variable10notify_allEv", t.notify)
        C.extern("_ZNSt18condition_variable10notify_oneEv", lambda E, st, a: None)     # wakes anyone: proves nothing
        C.extern("_ZSt20__throw_system_errori", t.never("control flow: the lock is used as it must be"))
        C.extern("_ZSt25__throw_bad_function_callv", t.never("control flow: no empty function is called"))
        C.regex(r"utl::fail<", lambda E, st, a: None)
        C.extern("cb_init", t.user("init"))
        C.extern("cb_fin", t.user("fin"))
        C.extern("cb_pjob", t.probed)
        C.extern("cb_mid", t.mid)
        C.extern("cb_returned", t.returned)
        C.extern("vf_published", t.published)
        C.extern("__cxa_throw", lambda E, st, a: [("throw", st, (a[0], 1))])
        C.icall = lambda E, st, f, a, i: t.drop(E, st, f, a)
        C.inv(lambda E, H: [(f"phase == {k}", lambda st, k=k: Z(st.gh["phase"]) == k) for k in (0, 1)])
        C.inv(lambda E, H: [("initialised", lambda st: z3.And(Z(st.gh["init"]) == 1, Z(st.gh["fin"]) == 0)), ("nothing claimed", lambda st: Z(st.gh["own"]) == -1)])
        C.inv(lambda E, H: [(f"{n} is the claimed job", lambda st, f=f: Z(st.gh["own"]) == z3.If(Z(f(st)) < Z(st.gh["J"]), Z(f(st)), -1)) for n, f in H.ints])
        C.inv(lambda E, H: [("started over once", lambda st: Z(st.gh["epochs"]) + z3.If(Z(st.gh["epoch"]), 1, 0) == 1)])
        C.inv(lambda E, H: [("no pending notification", lambda st: z3.Not(Z(st.gh["dirty"])))])
        C.inv(lambda E, H: [("jobs", lambda st: Z(st.gh["J"]) >= 0), ("stop is a flag", lambda st: z3.And(Z(st.gh["S"]) >= 0, Z(st.gh["S"]) <= 1))])
        E.assumed.add("std::condition_variable: wait releases and retakes the lock and may return at any time; notify_all wakes all waiters")
        E.assumed.add("thread_pool: jobs, initializer and finalizer do not throw; execute is called by one thread at a time (or from a job, where it throws); fewer than 2^64 claims")
        t.bounds(C)

    def bounds(t, C):
        pass

    def never(t, what):
        def h(E, st, a):
            E.oblige(st, what, False)
            return [("dead", st, None)]
        return h

    def ctx(t, st):
        if z3.is_true(z3.simplify(Z(st.gh["held"]))):
            return "locked"
        return "active" if z3.is_true(z3.simplify(Z(st.gh["phase"]) == 1)) or t.E_prove(st, Z(st.gh["phase"]) == 1) else "free"

    def E_prove(t, st, f):
        return t.C.E.prove(st, f)

    def may_write(t, st):
        return z3.Or(Z(st.gh["quiet"]), Z(st.gh["A0"]))

    # ---- the lock
    def acquired(t, E, st):
        """what a thread may find when it gets the lock"""
        if st.gh["me"] == "w":
            s = E.mod_fresh(st, "stop", 8)
            st.assume(s <= 1)
            st.gh["S"] = s
            j = E.mod_fresh(st, "jobs", 64)
            st.gh["J"] = z3.If(Z(st.gh["phase"]) == 1, Z(st.gh["J"]), j)
            st.gh["AV"] = E.mod_fresh(st, "active", 64)
            st.assume(Imp(Z(st.gh["phase"]) == 1, Z(st.gh["AV"]) >= 1))
        st.gh["readC"], st.gh["seenS"] = False, False
        st.gh["A0"], st.gh["CJ"] = False, False
        st.gh["told"] = False

    def lock(t, E, st, a):
        if isinstance(a[0], Loc) and t.mutex is None and st.gh["me"] == "p":
            t.mutex = (a[0].o, a[0].f)
        E.oblige(st, "lock: not taken twice", z3.Not(Z(st.gh["held"])))
        E.oblige(st, "lock: there is one lock", isinstance(a[0], Loc) and (t.mutex is None or t.mutex == (a[0].o, a[0].f)) and (st.gh["me"] == "p" or a[0].o in st.gh["shared"]))
        t.mutex = t.mutex or (a[0].o, a[0].f)
        st.gh["held"] = True
        t.acquired(E, st)
        return 0

    def release(t, E, st):
        if st.gh["me"] == "p":
            # quiet: no thread is active and none can become active
            st.gh["quiet"] = z3.Or(Z(st.gh["quiet"]), z3.And(Z(st.gh["A0"]), Z(st.gh["CJ"])))
            e = z3.simplify(Z(st.gh["epoch"]))
            if not z3.is_false(e):
                z = st
                if not z3.is_true(e):
                    z = st.copy()
                    z.assume(e)
                t.published_ok(E, z)
                st.gh["epochs"] = Z(st.gh["epochs"]) + z3.If(e, 1, 0)
                st.gh["epoch"] = False

    def unlock(t, E, st, a):
        E.oblige(st, "lock: only a held lock is released", And(Z(st.gh["held"]), isinstance(a[0], Loc) and t.mutex == (a[0].o, a[0].f)))
        t.release(E, st)
        st.gh["held"] = False
        return 0

    def wait(t, E, st, a):
        t.cv = t.cv or (a[0].o, a[0].f)
        E.oblige(st, "wait: one condition variable, with the lock", And(t.cv == (a[0].o, a[0].f), Z(st.gh["held"]), Z(E.addr_of(st, E.load(st, a[1], PTR))) == Z(E.addr_of(st, Loc(*t.mutex))) if t.mutex else False))
        E.oblige(st, "wait: changes are announced before waiting", z3.Not(Z(st.gh["dirty"])))
        if st.gh["me"] == "w":
            t.reads["free"].add((a[0].o, a[0].f, 48))
            E.oblige(st, "worker: waits only if there is neither a job to claim nor a stop", z3.And(Z(st.gh["seenS"]), Z(st.gh["S"]) == 0, Z(st.gh["readC"]), Z(st.gh["seenC"]) >= Z(st.gh["J"])))
            E.oblige(st, "worker: does not wait while it counts as active", Z(st.gh["phase"]) == 0)
        else:
            E.oblige(st, "execute: waits only while jobs are unfinished", z3.Not(z3.And(Z(st.gh["A0"]), Z(st.gh["CJ"]))))
            E.oblige(st, "execute: waits only if there is a thread that runs the jobs", Z(st.gh["spawned"]) > Z(st.gh["joined"]))
        t.release(E, st)
        t.acquired(E, st)
        return [("ret", st, None)]

    def notify(t, E, st, a):
        t.cv = t.cv or (a[0].o, a[0].f)
        E.oblige(st, "wait: one condition variable, with the lock", t.cv == (a[0].o, a[0].f))
        st.gh["dirty"] = False
        st.gh["told"] = st.gh["held"]

    def change(t, st):
        """a change others may wait for: announced later, or before in the same critical section"""
        st.gh["dirty"] = z3.Not(Z(st.gh["told"]))

    # ---- roles
    def is_role(t, E, st, r, p):
        if r not in t.role and (p.o, p.f) not in t.role.values():
            t.role[r] = (p.o, p.f)
        E.oblige(st, f"pool: one variable is {r}", t.role.get(r) == (p.o, p.f))

    def initial(t, E, st, p):
        c = st.objs[p.o].cells.get(p.f)
        return Z(c[1]) if c is not None else E.mod_fresh(st, "uninit", 64)

    def atomic(t, E, st, kind, p, v, i):
        if not isinstance(p, Loc):
            return None
        g = st.gh
        size = E.m.size(i.a[0].t if kind == "store" else i.a[1].t if kind.startswith("rmw") or kind == "cmpxchg" else i.ty)
        r = next((k for k, x in t.role.items() if x == (p.o, p.f)), None)
        if g["me"] == "w":
            E.oblige(st, "worker: an atomic that is used by all threads", p.o in g["shared"])
            if kind == "load":
                t.aloads.add((p.o, p.f, size))
                if size == 1:
                    return t.flag(E, st, p)
                if r == "active":
                    if z3.is_true(z3.simplify(Z(g["held"]))):
                        return Z(g["AV"])       # changes only under the lock
                    c = E.mod_fresh(st, "active", 64)
                    st.assume(Imp(Z(g["phase"]) == 1, c >= 1))
                    return c
                t.is_role(E, st, "counter", p)
                c = E.mod_fresh(st, "counter", 64)
                g["seenC"], g["readC"] = c, Z(g["held"])
                return c
            if kind == "store":
                E.oblige(st, "worker: threads do not change the counter, the flag or the number of jobs", False)
                return True
            if kind not in ("rmw.add", "rmw.sub"):
                raise Unsupported("atomic " + kind)
            t.writes["atomic"].add((p.o, p.f, 8))
            E.oblige(st, "worker: counts by one", Z(v) == 1)
            if z3.is_true(z3.simplify(Z(g["held"]))):
                t.is_role(E, st, "active", p)
                if kind == "rmw.add":
                    E.oblige(st, "worker: becomes active once, when there is a job to claim", z3.And(Z(g["phase"]) == 0, Z(g["readC"]), Z(g["seenC"]) < Z(g["J"])))
                    g["phase"], g["own"] = z3.IntVal(1), z3.IntVal(-1)
                else:
                    E.oblige(st, "worker: stops being active once, with its claimed jobs done", z3.And(Z(g["phase"]) == 1, Z(g["own"]) == -1))
                    g["phase"] = z3.IntVal(0)
                    # waited for: none active; the last thread to stop being active announces it
                    g["dirty"] = z3.And(z3.Not(Z(g["told"])), Z(g["AV"]) == 1)
                c = Z(g["AV"])
                g["AV"] = c + (1 if kind == "rmw.add" else -1)
                return c
            E.oblige(st, "worker: jobs are claimed by adding to the counter", kind == "rmw.add")
            t.is_role(E, st, "counter", p)
            E.oblige(st, "worker: the counter has a value for every job", size == 8)
            E.oblige(st, "worker: claims only while it counts as active", Z(g["phase"]) == 1)
            E.oblige(st, "worker: a claimed job is run before the next one is claimed", Z(g["own"]) == -1)
            c = E.mod_fresh(st, "claimed", 64)
            g["own"] = z3.If(c < Z(g["J"]), c, -1)
            return c
        running = Z(g["spawned"]) != Z(g["joined"])
        if kind == "load" and r in ("active", "counter"):
            c = E.mod_fresh(st, r, 64)
            if r == "active":
                st.assume(Imp(Z(g["quiet"]), c == 0))
                g["A0"] = z3.And(c == 0, Z(g["held"]))
            else:
                J = t.initial(E, st, Loc(*t.role["J"])) if "J" in t.role else z3.IntVal(0)
                st.assume(Imp(Z(g["quiet"]), c >= J))
                g["CJ"] = z3.And(c >= J, Z(g["held"]))
            return c
        if kind == "store":
            t.bypass = True
            E.store(st, p, v, i.a[0].t)
            t.bypass = False
            if r == "counter":
                E.oblige(st, "execute: starts over under the lock, when no thread is active", Or(Not(running), And(Z(g["held"]), t.may_write(st))))
                t.start_over(st)
            elif r == "stop":
                E.oblige(st, "stop: set under the lock", Or(Not(running), Z(g["held"])))
                t.change(st)
            else:
                E.oblige(st, "execute: changes only the counter, the number of jobs and the function", Not(running))
            return True
        if kind == "load" and r == "stop":
            return None
        raise Unsupported(f"atomic {kind} by the owner of the pool")

    def start_over(t, st):
        g = st.gh
        g["epoch"], g["quiet"], g["CJ"] = True, False, False
        t.change(st)

    def flag(t, E, st, p):
        t.is_role(E, st, "stop", p)
        st.gh["seenS"] = Z(st.gh["held"])
        return Z(st.gh["S"])

    def shared_load(t, E, st, p, size, ty):
        g = st.gh
        v = st.objs[p.o].cells.get(p.f)
        v = v[1] if v is not None else None
        if isinstance(v, (Loc, Fn)):
            return None
        r = next((k for k, x in t.role.items() if x == (p.o, p.f)), None)
        if ty.k == "int" and size == 1:
            E.oblige(st, "race: the stop flag is read under the lock", Z(g["held"]))
            return t.flag(E, st, p)
        if ty.k == "int" and size == 8:
            t.is_role(E, st, "J", p)
            E.oblige(st, "race: the number of jobs is read under the lock or while active", z3.Or(Z(g["held"]), Z(g["phase"]) == 1))
            return Z(g["J"])
        if ty.k == "ptr":
            fn = t.role.get("fn")
            if fn is None or p.f - fn[1] == 16:
                t.is_role(E, st, "fn", Loc(p.o, p.f - 16))
                E.oblige(st, "race: the job function is used only while active", Z(g["phase"]) == 1)
                m = E.mod_fresh(st, "manager", 64)
                st.assume(m != 0)
                return m
            if p.f - fn[1] == 24:
                E.oblige(st, "race: the job function is used only while active", Z(g["phase"]) == 1)
                return Fn("@vf_published")
        raise Unsupported(f"a thread reads a variable whose role is unknown: offset {p.f}, {ty}")

    # ---- the threads
    def begin(t, E, w):
        w.gh["own"] = z3.IntVal(-1)
        w.gh["quiet"] = False

    def user(t, k):
        def h(E, st, a):
            g = st.gh
            E.oblige(st, "worker: the initializer runs first, the finalizer last, once each, in each thread",
                     And(g["me"] == "w", Z(g["init"]) == (0 if k == "init" else 1), Z(g["fin"]) == 0, Z(g["phase"]) == 0, z3.Not(Z(g["dirty"]))))
            E.oblige(st, "lock: not held while callbacks run", z3.Not(Z(g["held"])))
            g[k] = Z(g[k]) + 1
        return h

    def published(t, E, st, a):
        """the worker calls the job function"""
        g = st.gh
        i = E.load(st, a[1], I64)
        E.oblige(st, "worker: each claimed job is run once, and only that one", z3.And(Z(g["phase"]) == 1, Z(i) == Z(g["own"]), Z(g["own"]) >= 0, Z(g["own"]) < Z(g["J"])))
        E.oblige(st, "worker: jobs run between initializer and finalizer", And(Z(g["init"]) == 1 if t.callbacks else True, Z(g["fin"]) == 0))
        E.oblige(st, "lock: not held while callbacks run", z3.Not(Z(g["held"])))
        E.oblige(st, "worker: the function called is the pool's", isinstance(a[0], Loc) and t.role.get("fn") == (a[0].o, a[0].f))
        if E.mode == "check":
            z = st.copy()
            k = E.mod_fresh(z, "nested", 64)
            z.assume(k > 0)
            for kind, y, v in E.call_fn(z, "@vf_reenter", [Loc(*t.pool), k], 3):
                E.oblige(y, "execute: throws when called while jobs are running", kind == "throw")
                E.oblige(y, "lock: released when execute throws", z3.Not(Z(y.gh["held"])))
        g["own"] = z3.IntVal(-1)

    def exit(t, st):
        g = st.gh
        return [("worker: ends only after it was told to stop", z3.And(Z(g["S"]) == 1, Z(g["phase"]) == 0)),
                ("worker: changes are announced before the thread ends", z3.Not(Z(g["dirty"]))),
                ("worker: the initializer and the finalizer ran", z3.And(Z(g["init"]) == 1, Z(g["fin"]) == 1) if t.callbacks else z3.BoolVal(True))]
    callbacks = True

    def worker(t, E, w, run, state):
        v = next((x for _, (sz, x) in sorted(st_cells(w, state)) if isinstance(x, Loc) and x.o.startswith("l")), None)
        t.pool = (v.o, v.f) if v else None
        super().worker(E, w, run, state)
        ini = {r: t.initial(E, w, Loc(*x)) for r, x in t.role.items()}
        E.oblige(w, "pool: starts with no thread active, no job and no stop", And(*[ini[r] == 0 for r in ("active", "stop") if r in ini], And("counter" in ini, "J" in ini) and ini["counter"] >= ini["J"]))
        E.oblige(w, "pool: threads use an active count, a counter, a stop flag, the number of jobs and the job function", set(t.role) == {"active", "counter", "stop", "J", "fn"})

    # ---- the owner's side
    def access(t, E, st, kind, p, size, ty):
        r = super().access(E, st, kind, p, size, ty)
        if st.gh["me"] == "p" and kind == "store" and not t.bypass:
            for k, x in t.role.items():
                if overlap((p.o, p.f, size), x + ({"fn": 32, "stop": 1}.get(k, 8),)):
                    if k in ("J", "fn"):
                        t.start_over(st)
                    elif k == "stop":
                        t.change(st)
        return r

    def mid(t, E, st, a):
        """any later time at which no execute runs"""
        g = st.gh
        for f in ("J", "fn", "counter"):
            if f not in t.role:
                raise Unsupported("the roles are not known yet")
        o = st.wobj(t.role["J"][0])
        o.cells[t.role["J"][1]] = (8, E.mod_fresh(st, "jobs_before", 64))
        o.cells[t.role["counter"][1]] = (8, E.mod_fresh(st, "counter_before", 64))
        for k in range(4):
            o.cells[t.role["fn"][1] + 8 * k] = (8, E.mod_fresh(st, "fn_before", 64))
        st.assume(Z(g["spawned"]) >= 0)
        E.oblige(st, "pool: quiet, unlocked and nothing to announce between calls", z3.And(Z(g["quiet"]), z3.Not(Z(g["held"])), z3.Not(Z(g["dirty"]))))

    def drop(t, E, st, f, a):
        """the manager of an earlier job function destroys it (or does nothing)"""
        return 1

    def published_ok(t, E, st):
        """at the end of the critical section: counter, number of jobs and function belong together"""
        g = st.gh
        J = t.initial(E, st, Loc(*t.role["J"]))
        c = t.initial(E, st, Loc(*t.role["counter"]))
        E.oblige(st, "execute: the counter starts at 0 and the number of jobs is the one given", z3.And(J == t.n, c == 0, t.n > 0))
        o = st.objs[t.role["fn"][0]]
        inv = o.cells.get(t.role["fn"][1] + 24)
        man = o.cells.get(t.role["fn"][1] + 16)
        E.oblige(st, "execute: the function called is the one given", isinstance(inv and inv[1], Fn) and isinstance(man and man[1], Fn))
        if not isinstance(inv and inv[1], Fn):
            return
        z = st.copy()
        x = E.mod_fresh(z, "index", 64)
        z.objs["probe"] = Obj(8, "probe")
        z.objs["probe"].cells[0] = (8, x)
        z.gh["probe"] = x
        z.gh["me"] = "probe"
        for kind, y, v in E.call_fn(z, inv[1].n, [Loc(*t.role["fn"]), Loc("probe", 0)], 2):
            E.oblige(y, "execute: the function called is the one given", And(kind == "ret", Z(y.gh["hits"]) == 1))

    def probed(t, E, st, a):
        if st.gh["me"] != "probe":
            E.oblige(st, "execute: jobs run in the pool's threads", False)
            return None
        E.oblige(st, "execute: the function called is the one given", z3.And(Z(a[0]) == t.run, Z(a[1]) == Z(st.gh["probe"])))
        st.gh["hits"] = Z(st.gh["hits"]) + 1

    def returned(t, E, st, a):
        g = st.gh
        E.oblige(st, "execute: returns when all its jobs are done and no thread is active",
                 z3.And(Z(g["quiet"]), Z(g["epochs"]) == z3.If(t.n > 0, z3.IntVal(1), z3.IntVal(0))))
        E.oblige(st, "execute: lock released, nothing left to announce", z3.And(z3.Not(Z(g["held"])), z3.Not(Z(g["dirty"]))))

    def join(t, E, st, a):
        E.oblige(st, "stop: the threads are told to stop before they are waited for", And("stop" in t.role and t.initial(E, st, Loc(*t.role["stop"])) == 1, z3.Not(Z(st.gh["dirty"]))))
        return super().join(E, st, a)


def st_cells(st, p):
    return list(st.objs[p.o].cells.items())


def pool(C, n, run, callbacks=True):
    t = Pool(C, n, run, None)
    t.callbacks = callbacks
    C.post(lambda st, r: [("post: all threads are joined", Z(st.gh["spawned"]) == Z(st.gh["joined"])),
                          ("post: at least one thread was started", Z(st.gh["spawned"]) >= 1)])
    return t
