"""C21: the thread pool runs every job of an execute once, on its threads, and returns when all are done."""
from ..spec import *
from .. import threadmodel as TM

H = "pool"


@unit("C21", H, "pool")
def pool(C):
    """a pool with initializer and finalizer: construction, one execute at any time of its life, destruction, and its threads"""
    n, run = C.sym("n"), C.sym("run")
    TM.pool(C, n, run)
    C.args(n, run)


@unit("C21", H, "pool_default")
def pool_default(C):
    """a pool without initializer and finalizer"""
    n, run = C.sym("n"), C.sym("run")
    TM.pool(C, n, run, False)
    C.args(n, run)


@unit("C21", H, "pool_idle")
def pool_idle(C):
    """a pool that is destroyed without any execute"""
    TM.pool(C, z3.IntVal(0), z3.IntVal(0))
