import json
import os
import re
import subprocess
from . import llparse as L
from .engine import demangle_all, demangle

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PASSES = "function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,sroa,instsimplify,simplifycfg,loop-simplify)"
# coroutines: split into resume/destroy functions over a heap allocated frame, the way the compiler does it
CORO = ("coro-early,function(sroa,early-cse,simplifycfg),cgscc(inline,coro-split),coro-cleanup,"
        "function(sroa,early-cse,instsimplify,simplifycfg,jump-threading,simplifycfg,loop-simplify),globaldce")
CXX = ["clang++", "-std=c++23", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-ffp-contract=off",
       "-fno-strict-aliasing", "-DFMT_HEADER_ONLY"]


class BuildError(Exception):
    pass


def compile_harness(name, outdir, noinline=()):
    """/verif/harness/<name>.cc + the real headers in /repo -> optimised IR text"""
    src = os.path.join(ROOT, "harness", name + ".cc")
    head = open(src).read().split("\n", 1)[0]
    flags = []
    rx = list(noinline)
    ext = []
    coro = False
    for l in open(src):
        m = re.match(r"//\s*EXTERN:\s*(.*)$", l)
        if m:
            ext.append(m.group(1).strip())
        m = re.match(r"//\s*NOINLINE:\s*(.*)$", l)
        if m:
            rx.append(m.group(1).strip())
        coro |= l.startswith("// PASSES: coro")
        m = re.match(r"//\s*FLAGS:\s*(.*)$", l)
        if m:
            flags += m.group(1).replace("$REPO", REPO).split()
    a = os.path.join(outdir, name + ".raw.ll")
    b = os.path.join(outdir, name + ".ll")
    cmd = CXX + ["-include", os.path.join(ROOT, "stdlib", "find.h"), "-I" + os.path.join(ROOT, "stubs"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "harness")] + flags + ["-S", "-emit-llvm", src, "-o", a]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        raise BuildError(f"harness {name} does not compile against /repo:\n" + r.stderr[:4000])
    if ext:
        # functions used through their contract only: the body is left to the unit that proves it
        txt = open(a).read()
        names = re.findall(r"^define .*?@(\"[^\"]+\"|[\w.$]+)\(", txt, re.M)
        demangle_all(names)
        drop = {n for n in names if any(re.search(p, demangle(n)) for p in ext)}

        def cut(m):
            n = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", m.group(1)).group(1)
            if n not in drop:
                return m.group(0)
            h = re.sub(r"^define (?:(?:linkonce_odr|weak_odr|available_externally|internal|hidden|dso_local|local_unnamed_addr) )*", "declare ", m.group(1))
            i = d = 0
            for i in range(h.index("@" + n) + len(n) + 1, len(h)):
                d += {"(": 1, ")": -1}.get(h[i], 0)
                if d == 0:
                    break
            return h[:i + 1] + "\n"
        txt = re.sub(r"^(define [^\n]*)\{\n.*?^}\n", cut, txt, flags=re.M | re.S)
        open(a, "w").write(txt)
    if rx:
        txt = open(a).read()
        names = re.findall(r"^define .*?@(\"[^\"]+\"|[\w.$]+)\(", txt, re.M)
        demangle_all(names)
        hit = {n for n in names if any(re.search(p, demangle(n)) for p in rx)}

        always = set(re.findall(r"^attributes #(\d+) = \{[^\n]*\balwaysinline\b", txt, re.M))

        def sub(m):
            line = m.group(0)
            if re.search(r" #(\d+)(?: [^{]*)?\{$", line) and re.search(r" #(\d+)(?: [^{]*)?\{$", line).group(1) in always:
                return line
            n = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", line).group(1)
            if n in hit:
                return re.sub(r" #(\d+)((?: [^{]*)?)\{$", r" noinline #\1\2{", line)
            return line
        txt = re.sub(r"^define .*\{$", sub, txt, flags=re.M)
        open(a, "w").write(txt)
    graph(open(a).read(), os.path.join(outdir, name + ".calls.json"))
    r = subprocess.run(["opt-18" if os.path.exists("/usr/bin/opt-18") else "opt", "-S", "-passes=" + ("globaldce," if ext else "") + (CORO if coro else PASSES), "--inline-threshold=100000", a, "-o", b],
                       capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        raise BuildError("opt failed: " + r.stderr[:2000])
    os.unlink(a)
    return b


def graph(txt, out):
    """call graph of the unoptimised IR: which real functions does each entry verify (everything is inlined later)"""
    g, cur = {}, None
    for line in txt.split("\n"):
        m = re.match(r"define .*?@(\"[^\"]+\"|[\w.$]+)\(", line)
        if m:
            cur = m.group(1).strip('"')
            g[cur] = set()
        elif line.startswith("}"):
            cur = None
        elif cur and ("call " in line or "invoke " in line or "@" in line):
            g[cur].update(x.strip('"') for x in re.findall(r"@(\"[^\"]+\"|[\w.$]+)", line))
    for k in g:
        g[k] = sorted(x for x in g[k] if x in g)
    json.dump(g, open(out, "w"))


def reach(path, entries, stop):
    """functions with a body reachable from the entries, not looking behind contracts"""
    g = json.load(open(path.replace(".ll", ".calls.json")))
    seen, todo = set(), [e for e in entries]
    while todo:
        x = todo.pop()
        if x in seen or x not in g or x in stop:
            continue
        seen.add(x)
        todo += g[x]
    return seen


def load(path):
    return L.parse(open(path).read())


def fingerprints(path):
    """entry -> hash of its IR up to value names (callees and constants included): equal hash = the very same program"""
    import hashlib
    txt = open(path).read()
    body, glob = {}, {}
    for m in re.finditer(r"^define ([^\n]*?)@(\"[^\"]+\"|[\w.$]+)(\([^\n]*)\n(.*?)^}", txt, re.M | re.S):
        body[m.group(2)] = (m.group(1) + m.group(3) + "\n" + m.group(4))
    for m in re.finditer(r"^(@(?:\"[^\"]+\"|[\w.$]+)) = (.*)$", txt, re.M):
        glob[m.group(1)[1:]] = m.group(2)

    def norm(t):
        t = re.sub(r"^;.*$|\s;.*$", "", t, flags=re.M)
        t = re.sub(r"(, )?![\w.]+( !\d+)?", "", t)
        t = re.sub(r" #\d+", "", t)
        names = {}

        def nm(m):
            k = m.group(2) or m.group(3)
            return m.group(1) + names.setdefault(k, "v%d" % len(names))
        t = re.sub(r"(%)(\"[^\"]+\"|[\w.$-]+)", nm, t)
        t = re.sub(r"^(\"[^\"]+\"|[\w.$-]+):", lambda m: names.get(m.group(1), m.group(1)) + ":", t, flags=re.M)
        return t
    memo = {}

    def h(n, stack):
        if n in memo:
            return memo[n]
        if n in stack:
            return "rec:" + n
        if n in body:
            t = norm(body[n])
            d = hashlib.sha1(t.encode())
            for r in re.findall(r"@(\"[^\"]+\"|[\w.$]+)", t):
                d.update((r + h(r, stack | {n})).encode())
            memo[n] = d.hexdigest()
            return memo[n]
        return glob.get(n, "")
    return {n: h(n, frozenset()) for n in body if n.startswith("vf_")}
