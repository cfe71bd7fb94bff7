"""debug driver: python3-vt -m vf.smoke PROP [unit-regex] [-v]"""
import importlib, os, re, sys, tempfile, pkgutil, time
from . import spec, build
import vf.specs as SP
for m in pkgutil.iter_modules(SP.__path__):
    importlib.import_module("vf.specs." + m.name)
props, rx = sys.argv[1].split(","), (sys.argv[2] if len(sys.argv) > 2 else ".")
verbose = sys.argv.count("-v") + 2 * sys.argv.count("-vv")
tmp = tempfile.mkdtemp()
cache = {}
from multiprocessing import get_context
us = [u for p in props for u in spec.REG.get(p, []) if re.search(rx, u.name)]
for u in us:
    if u.harness not in cache:
        t = time.time()
        cache[u.harness] = build.load(build.compile_harness(u.harness, tmp))
        print("compiled", u.harness, round(time.time() - t, 1))
if "-all" not in sys.argv:
    seen, keep = {}, []
    fps = {h: build.fingerprints(os.path.join(tmp, h + ".ll")) for h in cache}
    for u in us:
        k = (u.harness, u.kw.get("same"), fps[u.harness].get("vf_" + u.entry[3:]))
        if u.kw.get("same") and k[2] and k in seen:
            print("same as", seen[k], ":", u.name)
            continue
        seen[k] = u.name
        keep.append(u)
    us = keep
def go(u):
    return spec.run_unit(u, cache[u.harness], dict(verbose=verbose))
def goi(i):
    return go(us[i])
def show(u, r):
    bad = [o for o in r["obs"] if o["status"] != "discharged"]
    print(f"{'FAIL' if bad or r['error'] else 'ok  '} {u.prop} {u.name}: {len(r['obs'])} obs, {sum(o['vcs'] for o in r['obs'])} vcs, {r['loops']} loops, {r['invariants']} inv, {r['queries']} q, {r['solver_s']:.1f}/{r['wall']:.1f}s")
    if r["error"]:
        print("   ERROR", r["error"])
    for o in r["obs"]:
        if o["status"] != "discharged" :
            print("   FAILED", o["name"], o["reason"][:500], o["model"])
        elif verbose:
            print("     ", o["name"], o["vcs"], "" if o["covered"] else "(uncovered)")
if verbose:
    for u in us:
        show(u, go(u))
else:
    with get_context("fork").Pool(8) as p:
        for u, r in zip(us, p.imap(goi, range(len(us)))):
            show(u, r)
import shutil; shutil.rmtree(tmp)
