"""check driver:  python3-vt -m vf.run C01 [--tier quick|thorough]"""
import hashlib
import importlib
import json
import os
import pkgutil
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import get_context
from . import spec, build
from .engine import demangle_all, demangle

ROOT = build.ROOT
TRUSTED = [
    "clang 18 front end and the opt passes sroa/early-cse/simplifycfg/inline/instsimplify/loop-simplify (the IR is what is verified; no optimisation that exploits undefined behaviour beyond these)",
    "vf: the VC generator of this framework (llparse.py, engine.py) and its memory model: one mathematical array per access width, caller-granted regions, locals as separate objects, addresses below 2^62",
    "z3 (unsat answers)",
    "contracts of libc/libstdc++ functions in vf/engine.py and vf/specs/*.py (memchr, memcmp, ... listed per run under contracts_used)",
]
MODS = {}
UNITS = []
OPTS = {}


def load_specs():
    import vf.specs as SP
    for m in sorted(pkgutil.iter_modules(SP.__path__), key=lambda m: m.name):
        importlib.import_module("vf.specs." + m.name)


def _go(i):
    u = UNITS[i]
    return spec.run_unit(u, MODS[u.harness], dict(OPTS, wall=u.kw.get("wall", OPTS["wall"])))


def native(prop, seconds, seed, tmp, hints=None):
    """run the native replay driver of the property: -> (found, text, cmd)"""
    src = None
    for f in sorted(os.listdir(os.path.join(ROOT, "replay"))):
        if f.endswith(".cc") and prop in open(os.path.join(ROOT, "replay", f)).readline():
            src = os.path.join(ROOT, "replay", f)
    if src is None:
        return None, "no native replay driver for " + prop, ""
    exe = os.path.join(tmp, "replay_" + os.path.basename(src)[:-3])
    flags = []
    for l in open(src):
        if l.startswith("// FLAGS:"):
            flags += l[9:].split()
    flags = [f.replace("$REPO", build.REPO) for f in flags]
    cmd = ["g++", "-std=c++23", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DFMT_HEADER_ONLY", "-w",
           "-I" + os.path.join(ROOT, "stubs"), "-I" + os.path.join(build.REPO, "include"), "-I" + os.path.join(ROOT, "replay"), src, "-o", exe, "-pthread"] + flags
    if not os.path.exists(exe):
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
        if r.returncode != 0:
            return None, "native replay driver does not build:\n" + r.stderr[:3000], " ".join(cmd)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048", UBSAN_OPTIONS="print_stacktrace=1")
    work = tempfile.mkdtemp(dir=tmp)
    run = [exe, prop, str(seed), str(seconds)] + ([hints] if hints else [])
    try:
        r = subprocess.run(run, capture_output=True, text=True, errors="replace", timeout=seconds + 120, env=env, cwd=work)
        out, rc = r.stdout[-6000:] + r.stderr[-6000:], r.returncode
    except subprocess.TimeoutExpired as e:
        return True, "native replay did not terminate\n" + str((e.stdout or b"")[-2000:]), " ".join(run)
    return rc != 0, out, " ".join(cmd) + " && " + " ".join([exe, prop, str(seed), str(seconds)])


def counterexample(i):
    """bounded unrolling of a failed unit: only to obtain a concrete candidate input"""
    u = UNITS[i]
    best = None
    for b in (2, 4):
        try:
            r = spec.run_unit(u, MODS[u.harness], dict(OPTS, bound=b, wall=25, prove_ms=3000, retries=1, want_model=True))
        except Exception:
            continue
        for o in r["obs"]:
            if o["status"] != "discharged" and o["model"]:
                return dict(unit=u.name, obligation=o["name"], bound=b, model=o["model"])
    return best


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf_")
    try:
        rc = check(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def check(prop, tier, seed, t0, tmp):
    global UNITS, OPTS
    load_specs()
    UNITS = spec.REG.get(prop, [])
    if not UNITS:
        print("no units for", prop)
        return 2
    OPTS = dict(wall=200 if tier == "quick" else 500)
    failed, results, build_err = [], [], None
    hs = sorted({u.harness for u in UNITS})
    files = {}

    def comp(h):
        try:
            files[h] = build.compile_harness(h, tmp)
            return None
        except (build.BuildError, subprocess.TimeoutExpired) as e:
            return str(e)
    with ThreadPoolExecutor(8) as ex:
        errs = dict(zip(hs, ex.map(comp, hs)))
    for h in hs:
        if errs[h]:
            failed.append(dict(unit="harness " + h, obligation="extraction: the harness compiles against the current source", reason=errs[h], model=None))
            build_err = errs[h]
        else:
            MODS[h] = build.load(files[h])
    run_idx = [i for i, u in enumerate(UNITS) if u.harness in MODS]
    run_idx.sort(key=lambda i: -UNITS[i].kw.get("cost", 1))
    # overloads that compile to the very same program under the same contract are verified once
    fps, first, twin = {h: build.fingerprints(files[h]) for h in MODS}, {}, {}
    for i in list(run_idx):
        u = UNITS[i]
        k = u.kw.get("same")
        f = fps[u.harness].get("vf_" + u.entry[3:])
        if k and f:
            j = first.setdefault((u.harness, k, f), i)
            if j != i:
                twin[i] = j
                run_idx.remove(i)
    dead = time.time() + (600 if tier == "quick" else 3000)
    if run_idx:
        with get_context("fork").Pool(8, maxtasksperchild=8) as p:
            pend = [(i, p.apply_async(_go, (i,))) for i in run_idx]
            for i, a in pend:
                try:
                    results.append((i, a.get(timeout=max(1, dead - time.time()))))
                except Exception as e:
                    results.append((i, dict(unit=UNITS[i].name, entry=UNITS[i].entry, about="", obs=[], error=f"verifier gave no answer: {type(e).__name__} {e}", wall=0,
                                            queries=0, solver_s=0, invariants=0, inv_vcs=0, loops=0, inlined=[], contracts=[], assumed=[])))
            p.terminate()
    byi = dict(results)
    for i, j in twin.items():
        r = dict(byi[j], unit=UNITS[i].name, entry=UNITS[i].entry, about=f"identical program and contract as {byi[j]['unit']} (same IR up to value names); discharged there", wall=0, solver_s=0, queries=0,
                 invariants=0, inv_vcs=0, loops=0)
        r["obs"] = [dict(o, vcs=0) for o in r["obs"]]
        results.append((i, r))
    results.sort(key=lambda x: x[0])
    bad_units = []
    for i, r in results:
        if r["error"]:
            failed.append(dict(unit=r["unit"], obligation="verification: every path of the code is within the verifier's reach", reason=r["error"], model=None))
            if i not in twin:
                bad_units.append(i)
        for o in r["obs"]:
            if o["status"] != "discharged":
                failed.append(dict(unit=r["unit"], obligation=o["name"], reason=o["reason"], model=o["model"]))
                if i not in bad_units and i not in twin:
                    bad_units.append(i)
        if not r["error"] and not r["obs"]:
            failed.append(dict(unit=r["unit"], obligation="vacuity: the unit generates obligations", reason="none generated", model=None))
    cross = None
    validation = None
    if tier == "thorough" and not failed:
        from . import cross as CR
        cross = CR.run(prop, UNITS, MODS, tmp)
        for c in cross["disagreements"]:
            failed.append(dict(unit=c["unit"], obligation=c["obligation"], reason="cvc5 finds the obligation falsifiable", model=None))
        found, text, cmd = native(prop, 60, seed, tmp)
        validation = dict(what="the same contracts executed on the real code (g++ -fsanitize=address,undefined), small-scope exhaustive plus random; validates the specifications and the trusted base, decides nothing", ran=found is not None, violation=bool(found), output=text[-400:])
        if found:
            failed.append(dict(unit="native", obligation="the contracts hold on the executed code", reason=text[-2500:], model=None))
    nviol = 1 if failed else 0
    allobs = [(r["unit"], o) for _, r in results for o in r["obs"]]
    vcs = sum(o["vcs"] for _, o in allobs)
    inv = sum(r["inv_vcs"] for _, r in results)
    real = set()
    for h in MODS:
        rs = [r for i, r in results if UNITS[i].harness == h]
        real |= build.reach(files[h], [r["entry"] for r in rs], {c for r in rs for c in r["contracts"]})
    demangle_all(sorted(real) + [n for _, r in results for n in r["contracts"]])
    fns = sorted({demangle(n) for n in real})
    used = sorted({demangle(n) for _, r in results for n in r["contracts"]})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2), violations=nviol,
        coverage=dict(
            obligations=len(allobs) + sum(1 for f in failed if f["unit"] not in {u for u, _ in allobs}),
            discharged=sum(1 for _, o in allobs if o["status"] == "discharged"),
            checker_cmd=f"cd /verif && VERIF_TIER={tier} python3-vt -m vf.run {prop}",
            trusted_base=TRUSTED,
            unbounded=True,
            functions_under_contract=[dict(entry=r["unit"], about=r["about"], obligations=[dict(name=o["name"], path_vcs=o["vcs"], backend=o["backend"], status=o["status"]) for o in r["obs"]],
                                           loops_cut=r["loops"], invariant_clauses=r["invariants"], solver_s=round(r["solver_s"], 2), wall_s=round(r["wall"], 2)) for _, r in results],
            path_vcs=vcs, invariant_vcs=inv, loops_cut=sum(r["loops"] for _, r in results),
            solver_queries=sum(r["queries"] for _, r in results), solver_s=round(sum(r["solver_s"] for _, r in results), 2),
            real_functions_analysed=sorted({re.sub(r"\s+", " ", f)[:200] for f in fns if re.match(r"(\w[\w:<>,*& ]* )?utl::", f) or " utl::" in f.split("(")[0]})[:300],
            other_functions_analysed=len([f for f in fns if "utl::" not in f]),
            contracts_used=used,
            extraction="harness/<name>.cc includes the real headers; clang -O1 -disable-llvm-passes IR, inlined/mem2reg'd by opt; nothing of the called utl code is dropped"),
        assumptions=sorted({a for _, r in results for a in r["assumed"]}) + [
            "callers satisfy the stated preconditions (valid views/containers; callbacks touch only their ghost state)",
            "contracts listed in contracts_used describe code that is not verified here (libc, libstdc++ parts, user callbacks)",
            "distinct access widths do not alias in caller memory"])
    if cross:
        ev["coverage"]["cross_check_cvc5"] = {k: v for k, v in cross.items() if k != "disagreements"}
    if validation:
        ev["coverage"]["runtime_validation"] = validation
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    nob = sum(1 for _, o in allobs if o["status"] == "discharged")
    print(f"{prop}: {len(results)} contracts, {nob}/{len(allobs)} obligations discharged ({vcs} path VCs, {inv} invariant VCs, {ev['coverage']['solver_queries']} solver queries), {time.time() - t0:.1f}s")
    if not failed:
        return 0
    return report(prop, tier, seed, failed, bad_units, build_err, tmp)


def report(prop, tier, seed, failed, bad_units, build_err, tmp):
    for f in failed[:12]:
        print(f"  undischarged: [{f['unit']}] {f['obligation']} -- {str(f['reason'])[:300]}")
    cex = []
    if bad_units:
        try:
            with get_context("fork").Pool(8) as p:
                pend = [p.apply_async(counterexample, (i,)) for i in bad_units[:16]]
                end = time.time() + 80
                for a in pend:
                    try:
                        r = a.get(timeout=max(0.1, end - time.time()))
                        if r:
                            cex.append(r)
                    except Exception:
                        pass
                p.terminate()
        except Exception:
            pass
    hints = os.path.join(tmp, "hints")
    with open(hints, "w") as f:
        for c in cex:
            for k, v in c["model"].items():
                f.write(f"{v}\n")
    found, text, cmd = native(prop, 60 if tier == "quick" else 200, seed, tmp, hints)
    rd = os.path.join(ROOT, "replays")
    os.makedirs(rd, exist_ok=True)
    h = hashlib.sha1(json.dumps([(f["unit"], f["obligation"]) for f in failed]).encode()).hexdigest()[:10]
    path = os.path.join(rd, f"{prop}-{h}.txt")
    with open(path, "w") as f:
        f.write(f"property {prop}\n")
        if found:
            f.write("\nFAILING INPUT on the real code (native replay):\n" + text + "\n\nreproduce: " + cmd + "\n")
        else:
            f.write("\nno failing input found by the native replay: " + ("(replay not runnable) " if found is None else "") + text[-1500:] + "\n")
        f.write("\nundischarged obligations:\n")
        for x in failed:
            f.write(f"- [{x['unit']}] {x['obligation']}\n    verifier: {x['reason']}\n")
            if x["model"]:
                f.write("    solver model: " + json.dumps(x["model"]) + "\n")
        for c in cex:
            f.write("\nsolver counterexample (loops unrolled %d times): %s\n" % (c["bound"], json.dumps(c)))
    if found:
        print("  failing input: " + " | ".join(text.strip().split("\n")[:4])[:600])
    # a program over the public interface which the compiler rejects, with the error inside the library or the program, is a failed obligation
    ours = build_err and re.search(r"(include/utl/|harness/|replay/)[\w/.]*:\d+:\d+: (fatal )?error", text)
    if found is None and build_err and not ours:
        print("ERROR: neither the harness nor the replay driver builds against the current source")
        print(text[:1500])
        return 2
    print(f"VIOLATION property={prop} replay={path}" + ("" if found else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    main()
