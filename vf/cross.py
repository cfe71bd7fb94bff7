"""thorough tier: every VC discharged by z3 is given to cvc5 as well"""
import os
import time
from multiprocessing import get_context
import z3
from . import spec

UN = []
MO = {}
LIMIT = 400


def one(i):
    u = UN[i]
    dump = []
    spec.run_unit(u, MO[u.harness], dict(dump=dump, wall=400))
    import subprocess, tempfile
    ok = unk = 0
    bad = []
    t0 = time.time()
    skipped = 0
    for n, (name, pc, f) in enumerate(dump):
        if n >= LIMIT or time.time() - t0 > 300:
            skipped += 1
            continue
        s = z3.Solver()
        s.add(*pc)
        s.add(z3.Not(f))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as g:
            g.write(txt)
        try:
            r = subprocess.run(["cvc5", "--tlimit=3000", g.name], capture_output=True, text=True, timeout=10)
            o = r.stdout.strip().split("\n")[0]
        except subprocess.TimeoutExpired:
            o = "timeout"
        os.unlink(g.name)
        if o == "unsat":
            ok += 1
        elif o == "sat":
            bad.append(dict(unit=u.name, obligation=name))
        else:
            unk += 1
    return ok, unk, skipped, bad


def run(prop, units, mods, tmp):
    global UN, MO
    UN, MO = units, mods
    with get_context("fork").Pool(8, maxtasksperchild=4) as p:
        rs = p.map(one, range(len(units)), chunksize=1)
    return dict(confirmed=sum(r[0] for r in rs), undecided=sum(r[1] for r in rs), not_tried=sum(r[2] for r in rs),
                disagreements=[b for r in rs for b in r[3]])
