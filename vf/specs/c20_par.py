"""C20: parallel_for runs every job once, on joined threads, and reports exactly the failures."""
from ..spec import *
from .. import threadmodel as TM
from .. import llparse as L

H = "par"


def strat(C):
    """the strategy argument: CONTINUE_EXEC = 0, QUIT_EXEC = 1"""
    s = C.sym("strategy", 32)
    C.require(s <= 1)
    return s, s == 1


def result(C):
    return C.object("result", 24)


@unit("C20", H, "run")
def run(C):
    """parallel_for_run: every index below n once, progress after each success, failures recorded"""
    n = C.sym("n")
    s, q = strat(C)
    TM.parallel_for(C, n, q, True)
    C.args(result(C), n, s)


@unit("C20", H, "run_lvalue")
def run_lvalue(C):
    """parallel_for_run with a progress callback that is the caller's"""
    run(C)


@unit("C20", H, "run_default")
def run_default(C):
    """parallel_for_run without progress callback; QUIT_EXEC is the default"""
    n = C.sym("n")
    TM.parallel_for(C, n, z3.BoolVal(True), False)
    C.args(result(C), n)


@unit("C20", H, "local")
def local(C):
    """parallel_for_run_threadlocal: one object per thread, handed to all its jobs"""
    n = C.sym("n")
    s, q = strat(C)
    TM.parallel_for(C, n, q, True)
    C.args(result(C), n, s)


@unit("C20", H, "local_default")
def local_default(C):
    n = C.sym("n")
    TM.parallel_for(C, n, z3.BoolVal(True), False)
    C.args(result(C), n)


def container(C):
    r = C.region("jobs", 1)
    j = C.object("container", 16, o0_8=r.base, o8_8=r.n)
    return r, j


def each_(C, q, progress, pre=(), post=()):
    r, j = container(C)
    t = TM.parallel_for(C, r.n, q, progress, job_of=lambda st, p, own: Z(p) == r.base + own)
    C.args(result(C), *pre, j, *post)
    return r


@unit("C20", H, "each")
def each(C):
    """parallel_for over a container: the job for index i gets element i"""
    s, q = strat(C)
    each_(C, q, True, post=[s])


@unit("C20", H, "each_const")
def each_const(C):
    s, q = strat(C)
    each_(C, q, True, post=[s])


@unit("C20", H, "each_default")
def each_default(C):
    each_(C, z3.BoolVal(True), False)


@unit("C20", H, "each_desc")
def each_desc(C):
    """parallel_for with a description: logs every mod-th index"""
    s, q = strat(C)
    mod = C.sym("mod")
    C.require(mod > 0)
    C.regex(r"__ostream_insert|^std::ostream::|^std::ostream& std::ostream::|^std::ostream& std::operator<<", lambda E, st, a: a[0])
    C.regex(r"utl::log::~log\(", lambda E, st, a: None)
    C.extern("strrchr", lambda E, st, a: 0)

    def now(E, st, a):      # an empty string: the text is not part of any property
        E.store(st, a[0], Loc(a[0].o, a[0].f + 16), L.PTR)
        E.store(st, Loc(a[0].o, a[0].f + 8), 0, L.IntTy(64))
    C.regex(r"^utl::time", now)
    C.E.assumed.add("logging (utl::log, std::clog, utl::time) does not touch the jobs and does not throw")
    each_(C, q, True, pre=[C.object("desc", 32)], post=[mod, s])
