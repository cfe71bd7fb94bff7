"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that the
verifier consumes.  Every instruction of every defined function is parsed; an
instruction that is not understood is kept as opcode 'UNSUPPORTED' and raises
only if symbolic execution reaches it."""
import re


class Ty:
    __slots__ = ("k", "w", "n", "e", "f")

    def __init__(s, k, w=0, n=0, e=None, f=None):
        s.k, s.w, s.n, s.e, s.f = k, w, n, e, f

    def __repr__(s):
        return {"int": f"i{s.w}", "arr": f"[{s.n} x {s.e}]"}.get(
            s.k, s.k if s.k != "struct" else "{" + ",".join(map(repr, s.f)) + "}")


PTR, VOID = Ty("ptr"), Ty("void")
F32, F64 = Ty("float"), Ty("double")
INTS = {}


def IntTy(w):
    if w not in INTS:
        INTS[w] = Ty("int", w)
    return INTS[w]


class V:  # operand
    __slots__ = ("k", "v", "t")

    def __init__(s, k, v, t):
        s.k, s.v, s.t = k, v, t

    def __repr__(s):
        return f"{s.t}:{s.k}:{s.v}"


class Ins:
    __slots__ = ("op", "res", "ty", "a", "x", "line")

    def __init__(s, op, res=None, ty=None, a=None, x=None, line=""):
        s.op, s.res, s.ty, s.a, s.x, s.line = op, res, ty, a or [], x, line


class Block:
    def __init__(s, name):
        s.name, s.ins, s.preds = name, [], []

    def succs(s):
        t = s.ins[-1]
        return t.x.get("succ", []) if t.x else []


class Func:
    def __init__(s, name, ret, params, ptys, attrs):
        s.name, s.ret, s.params, s.ptys, s.attrs = name, ret, params, ptys, attrs
        s.blocks, s.order = {}, []
        s.sret = None


TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<hash>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?|0x[HKLMR]?[0-9A-Fa-f]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*|:])
''', re.X)
NUMHEX = re.compile(r'0x[HKLMR]?[0-9A-Fa-f]+')


def tokenize(line):
    out, i, n = [], 0, len(line)
    while i < n:
        c = line[i]
        if c in " \t":
            i += 1
            continue
        if c == ";":
            break
        m = NUMHEX.match(line, i)
        if m:
            out.append(m.group())
            i = m.end()
            continue
        m = TOK.match(line, i)
        if not m:
            raise ValueError("tokenize: %r at %d" % (line, i))
        out.append(m.group())
        i = m.end()
    return out


ATTR_PAREN = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval",
              "byref", "inalloca", "elementtype", "nofpclass", "captures", "range",
              "initializes", "preallocated", "memory", "allocsize", "vscale_range",
              "alignstack", "uwtable"}
ATTR_WORDS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture",
              "readonly", "writeonly", "readnone", "returned", "nest", "immarg", "swiftself",
              "swifterror", "nofree", "dead_on_unwind", "writable", "noext", "allocptr",
              "allocalign", "noreturn"}
FLAGS = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract",
         "afn", "reassoc", "disjoint", "nneg", "samesign", "nusw", "inrange"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or",
       "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui",
        "sitofp", "uitofp", "fpext", "fptrunc", "addrspacecast"}
ORDER = {"unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst"}


class P:
    def __init__(s, mod, toks):
        s.m, s.t, s.i = mod, toks, 0

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        s.i += 1
        return s.t[s.i - 1]

    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        if not s.eat(x):
            raise ValueError(f"expected {x} got {s.peek()} in {' '.join(s.t)}")

    def skip_paren(s):
        s.expect("(")
        d = 1
        while d:
            t = s.next()
            d += (t == "(") - (t == ")")

    def type(s):
        t = s.next()
        if t == "ptr":
            r = PTR
            if s.peek() == "addrspace":
                s.next()
                s.skip_paren()
        elif t == "void":
            r = VOID
        elif t == "float":
            r = F32
        elif t == "double":
            r = F64
        elif t in ("half", "x86_fp80", "fp128", "bfloat"):
            r = Ty(t)
        elif t in ("label", "token", "metadata", "opaque"):
            r = Ty(t)
        elif re.fullmatch(r"i\d+", t):
            r = IntTy(int(t[1:]))
        elif t == "[":
            n = int(s.next())
            s.expect("x")
            e = s.type()
            s.expect("]")
            r = Ty("arr", n=n, e=e)
        elif t == "{":
            f = []
            while not s.eat("}"):
                f.append(s.type())
                s.eat(",")
            r = Ty("struct", f=f)
        elif t == "<":
            if s.eat("{"):
                f = []
                while not s.eat("}"):
                    f.append(s.type())
                    s.eat(",")
                s.expect(">")
                r = Ty("struct", f=f, w=1)  # packed
            else:
                n = int(s.next())
                s.expect("x")
                e = s.type()
                s.expect(">")
                r = Ty("vec", n=n, e=e)
        elif t[0] == "%":
            r = s.m.named(t)
        else:
            raise ValueError("type? " + t + " in " + " ".join(s.t))
        if s.peek() == "(":  # function type
            s.skip_paren()
            r = Ty("func", e=r)
        return r

    def attrs(s):
        out = {}
        while True:
            t = s.peek()
            if t in ATTR_WORDS:
                s.next()
                out[t] = True
            elif t in ATTR_PAREN:
                s.next()
                if s.peek() == "(":
                    st = s.i
                    s.skip_paren()
                    out[t] = s.t[st + 1:s.i - 1]
                else:
                    if t == "align":
                        s.next()
                    out[t] = True
            else:
                return out

    def value(s, ty):
        t = s.next()
        if t[0] == "%":
            return V("loc", t, ty)
        if t[0] == "@":
            return V("glob", t, ty)
        if t in ("true", "false"):
            return V("int", int(t == "true"), ty)
        if t == "null":
            return V("null", 0, ty)
        if t in ("undef", "poison"):
            return V("undef", 0, ty)
        if t == "zeroinitializer":
            return V("zero", 0, ty)
        if t == "none":
            return V("none", 0, ty)
        if t[0] == "c" and len(t) > 1 and t[1] == '"':
            raw = t[2:-1]
            b, i = [], 0
            while i < len(raw):
                if raw[i] == "\\" and raw[i + 1] == "\\":
                    b.append(92)
                    i += 2
                elif raw[i] == "\\":
                    b.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(raw[i]))
                    i += 1
            return V("bytes", b, ty)
        if t in ("{", "[", "<"):
            if t == "<" and s.peek() == "{":
                s.next()
            close = {"{": "}", "[": "]", "<": ">"}[t]
            if t == "<" and ty.k == "struct":
                close = "}"
            el = []
            while not s.eat(close):
                et = s.type()
                el.append(s.value(et))
                s.eat(",")
            if t == "<" and ty.k == "struct":
                s.expect(">")
            return V("agg", el, ty)
        if t == "getelementptr":
            while s.peek() in FLAGS:
                f = s.next()
                if s.peek() == "(" and f == "inrange":
                    s.skip_paren()
            s.expect("(")
            bt = s.type()
            s.expect(",")
            args = []
            while True:
                if s.peek() == "inrange":
                    s.next()
                at = s.type()
                args.append(s.value(at))
                if s.eat(")"):
                    break
                s.expect(",")
            return V("cgep", (bt, args), ty)
        if t in CAST:
            s.expect("(")
            ft = s.type()
            v = s.value(ft)
            s.expect("to")
            tt = s.type()
            s.expect(")")
            return V("ccast", (t, v, tt), ty)
        if t in BIN or t in ("icmp",):
            st = s.i
            while s.peek() != "(":
                s.next()
            s.skip_paren()
            return V("cexpr", s.t[st - 1:s.i], ty)
        if t in ("dso_local_equivalent", "no_cfi"):
            return s.value(ty)
        if t == "blockaddress":
            s.skip_paren()
            return V("undef", 0, ty)
        if t == "asm":
            while s.peek() != "(":
                s.next()
            return V("asm", 0, ty)
        if ty.k in ("float", "double"):
            if t.startswith("0x"):
                import struct
                return V("fp", struct.unpack(">d", bytes.fromhex(t[2:].zfill(16)))[0], ty)
            return V("fp", float(t), ty)
        if re.fullmatch(r"-?\d+", t):
            return V("int", int(t) % (1 << ty.w) if ty.k == "int" else int(t), ty)
        raise ValueError("value? " + t + " in " + " ".join(s.t))

    def tv(s):
        ty = s.type()
        s.attrs()
        return s.value(ty)

    def arglist(s):
        s.expect("(")
        args = []
        while not s.eat(")"):
            ty = s.type()
            at = s.attrs()
            if ty.k == "metadata":
                d = 0
                while not (d == 0 and s.peek() in (",", ")")):
                    x = s.next()
                    d += (x == "(") - (x == ")")
                args.append(V("meta", 0, ty))
            else:
                args.append(s.value(ty))
            s.eat(",")
        return args


class Module:
    def __init__(s):
        s.types, s.funcs, s.globals, s.decls, s.aliases = {}, {}, {}, {}, {}
        s.raw_types = {}

    def named(s, n):
        if n not in s.types:
            t = Ty("struct", f=[])
            t.k = "named"
            t.e = n
            s.types[n] = t
        return s.types[n]

    def res(s, t):
        """resolve named types"""
        while t.k == "named":
            r = s.raw_types.get(t.e)
            if r is None:
                raise ValueError("opaque type " + t.e)
            t = r
        return t

    def size(s, t):
        t = s.res(t)
        if t.k == "int":
            b = (t.w + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return p
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k == "arr":
            return t.n * s.size(t.e)
        if t.k == "vec":
            return t.n * s.size(t.e)
        if t.k == "struct":
            o, ma = 0, 1
            for f in t.f:
                a = 1 if t.w else s.align(f)
                ma = max(ma, a)
                o = (o + a - 1) // a * a + s.size(f)
            return (o + ma - 1) // ma * ma
        if t.k == "x86_fp80":
            return 16
        raise ValueError("size of " + repr(t))

    def align(s, t):
        t = s.res(t)
        if t.k == "arr":
            return s.align(t.e)
        if t.k == "struct":
            return 1 if t.w else max([1] + [s.align(f) for f in t.f])
        if t.k == "vec":
            return s.size(t)
        return s.size(t)

    def offset(s, t, i):
        t = s.res(t)
        o = 0
        for j, f in enumerate(t.f):
            a = 1 if t.w else s.align(f)
            o = (o + a - 1) // a * a
            if j == i:
                return o
            o += s.size(f)
        raise IndexError


def parse_ins(m, line):
    p = P(m, tokenize(line))
    res = None
    if p.peek()[0] == "%" and p.peek(1) == "=":
        res = p.next()
        p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    I = lambda ty=None, a=None, x=None, o=op: Ins(o, res, ty, a, x, line)
    if op in BIN:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return I(ty, [a, b], {"fl": fl})
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS:
            p.next()
        pr = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return I(IntTy(1), [a, b], {"pred": pr})
    if op == "fneg":
        while p.peek() in FLAGS:
            p.next()
        a = p.tv()
        return I(a.t, [a])
    if op in CAST:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        a = p.tv()
        p.expect("to")
        return I(p.type(), [a], {"fl": fl})
    if op == "freeze":
        a = p.tv()
        return I(a.t, [a])
    if op == "alloca":
        p.eat("inalloca")
        ty = p.type()
        n = None
        if p.eat(",") and p.peek() != "align":
            n = p.tv()
        return I(PTR, [], {"ty": ty, "n": n})
    if op == "load":
        at = p.eat("atomic")
        p.eat("volatile")
        ty = p.type()
        p.expect(",")
        return I(ty, [p.tv()], {"atomic": at})
    if op == "store":
        at = p.eat("atomic")
        p.eat("volatile")
        v = p.tv()
        p.expect(",")
        return I(VOID, [v, p.tv()], {"atomic": at})
    if op == "getelementptr":
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        bt = p.type()
        args = []
        while p.eat(","):
            if p.peek() and p.peek()[0] == "!":
                break
            args.append(p.tv())
        return I(PTR, args, {"ty": bt, "fl": fl})
    if op == "select":
        while p.peek() in FLAGS:
            p.next()
        c = p.tv()
        p.expect(",")
        a = p.tv()
        p.expect(",")
        b = p.tv()
        return I(a.t, [c, a, b])
    if op == "phi":
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            b = p.next()
            p.expect("]")
            inc[b[1:].strip('"')] = v
            if not p.eat(","):
                break
            if p.peek() and p.peek()[0] == "!":
                break
        return I(ty, [], {"inc": inc})
    if op == "br":
        if p.peek() == "label":
            p.next()
            return I(VOID, [], {"succ": [p.next()[1:].strip('"')]})
        c = p.tv()
        p.expect(",")
        p.expect("label")
        a = p.next()[1:].strip('"')
        p.expect(",")
        p.expect("label")
        b = p.next()[1:].strip('"')
        return I(VOID, [c], {"succ": [a, b]})
    if op == "switch":
        v = p.tv()
        p.expect(",")
        p.expect("label")
        d = p.next()[1:].strip('"')
        p.expect("[")
        cases = []
        while not p.eat("]"):
            c = p.tv()
            p.expect(",")
            p.expect("label")
            cases.append((c.v, p.next()[1:].strip('"')))
        return I(VOID, [v], {"cases": cases, "succ": list(dict.fromkeys([d] + [b for _, b in cases])), "def": d})
    if op == "ret":
        if p.peek() == "void":
            return I(VOID, [], {})
        return I(VOID, [p.tv()], {})
    if op == "unreachable":
        return I(VOID, [], {})
    if op == "resume":
        return I(VOID, [p.tv()], {})
    if op in ("call", "invoke"):
        while p.peek() in FLAGS or p.peek() in ("fastcc", "ccc", "coldcc"):
            p.next()
        rat = p.attrs()
        ty = p.type()
        if ty.k == "func":
            ty = ty.e
        cal = p.value(PTR)
        args = p.arglist()
        x = {"callee": cal, "attrs": rat}
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.next()
            p.expect("label")
            n = p.next()[1:].strip('"')
            p.expect("unwind")
            p.expect("label")
            u = p.next()[1:].strip('"')
            x["succ"] = [n, u]
        return I(ty, args, x)
    if op == "landingpad":
        ty = p.type()
        x = {"cleanup": False, "clauses": []}
        while p.peek():
            if p.eat("cleanup"):
                x["cleanup"] = True
            elif p.peek() in ("catch", "filter"):
                k = p.next()
                x["clauses"].append((k, p.tv()))
            else:
                break
        return I(ty, [], x)
    if op == "extractvalue":
        a = p.tv()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return I(None, [a], {"idx": idx})
    if op == "insertvalue":
        a = p.tv()
        p.expect(",")
        b = p.tv()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return I(a.t, [a, b], {"idx": idx})
    if op == "atomicrmw":
        p.eat("volatile")
        o = p.next()
        a = p.tv()
        p.expect(",")
        b = p.tv()
        return I(b.t, [a, b], {"rmw": o})
    if op == "cmpxchg":
        p.eat("weak")
        p.eat("volatile")
        a = p.tv()
        p.expect(",")
        b = p.tv()
        p.expect(",")
        c = p.tv()
        return I(Ty("struct", f=[b.t, IntTy(1)]), [a, b, c], {})
    if op == "fence":
        return I(VOID, [], {})
    return Ins("UNSUPPORTED", res, None, [], {}, line)


def parse(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    # first pass: types
    for ln in lines:
        if ln.startswith("%") and " = type " in ln:
            name, rest = ln.split(" = type ", 1)
            m.named(name)
            if rest.strip() != "opaque":
                m.raw_types[name] = P(m, tokenize(rest)).type()
    while i < len(lines):
        ln = lines[i]
        i += 1
        if ln.startswith("@"):
            mm = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', ln)
            if not mm:
                continue
            name, rest = mm.groups()
            if re.search(r"\balias\b", rest):
                a = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', rest)
                if a:
                    m.aliases[name] = a[-1]
                continue
            toks = tokenize(rest)
            for k, t in enumerate(toks):
                if t in ("global", "constant"):
                    p = P(m, toks[k + 1:])
                    ty = p.type()
                    init = None
                    if "external" not in toks[:k] and p.peek() is not None:
                        try:
                            init = p.value(ty)
                        except (ValueError, IndexError):
                            init = None
                    m.globals[name] = (ty, init, t == "constant")
                    break
            continue
        if ln.startswith("declare"):
            mm = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
            if mm:
                m.decls[mm.group(1)] = ln
            continue
        if not ln.startswith("define"):
            continue
        mm = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
        name = mm.group(1)
        body = []
        while lines[i] != "}":
            body.append(lines[i])
            i += 1
        i += 1
        toks = tokenize(ln)
        k = toks.index(name)
        # params
        p = P(m, toks)
        p.i = k + 1
        p.expect("(")
        params, ptys, pat = [], [], []
        while not p.eat(")"):
            if p.eat("..."):
                continue
            ty = p.type()
            at = p.attrs()
            params.append(p.next())
            ptys.append(ty)
            pat.append(at)
            p.eat(",")
        # return type: parse from tokens before name: find type
        rt = None
        for st in range(1, k):
            q = P(m, toks[:k])
            q.i = st
            try:
                ty = q.type()
                q.attrs()
                if q.i == k:
                    rt = ty
                    break
            except Exception:
                continue
        f = Func(name, rt, params, ptys, pat)
        f.tail = toks[p.i:]
        f.raw = body
        f.parsed = False
        m.funcs[name] = f
    return m


def ensure_parsed(m, f):
    if f.parsed:
        return
    f.parsed = True
    cur = None
    body, j = f.raw, 0
    n = len(f.params)
    while j < len(body):
        b = body[j]
        j += 1
        s = b.strip()
        if not s or s[0] == ";":
            continue
        if not b.startswith(" "):
            lab = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', b).group(1).strip('"')
            cur = Block(lab)
            f.blocks[lab] = cur
            f.order.append(lab)
            continue
        if cur is None:
            # entry block label: explicit if named, else number = count of params
            cur = Block(str(n))
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
        # multi-line: switch / invoke / landingpad
        if " switch " in " " + s and "[" in s and "]" not in s.split("[", 1)[1]:
            while "]" not in body[j]:
                s += " " + body[j].strip()
                j += 1
            s += " " + body[j].strip()
            j += 1
        if re.search(r"(^|= )invoke ", s):
            while not re.search(r"\bunwind label\b", s):
                s += " " + body[j].strip()
                j += 1
        if re.search(r"= landingpad ", s):
            while j < len(body) and re.match(r"\s+(cleanup|catch|filter)\b", body[j]):
                s += " " + body[j].strip()
                j += 1
        try:
            ins = parse_ins(m, s)
        except (ValueError, IndexError) as e:
            ins = Ins("UNSUPPORTED", None, None, [], {}, s + "   ;; " + str(e))
        cur.ins.append(ins)
    for b in f.blocks.values():
        for t in b.succs():
            f.blocks[t].preds.append(b.name)


def loops(f):
    """natural loops: header -> set(blocks); plus idom"""
    entry = f.order[0]
    # RPO
    seen, post = set(), []
    st = [(entry, iter(f.blocks[entry].succs()))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                st.append((x, iter(f.blocks[x].succs())))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in f.blocks[b].preds if p in idom and p in num]
            n = ps[0]
            for p in ps[1:]:
                a, c = n, p
                while a != c:
                    while num[a] > num[c]:
                        a = idom[a]
                    while num[c] > num[a]:
                        c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    L = {}
    for b in rpo:
        for s in f.blocks[b].succs():
            if s in num and num[s] <= num[b]:
                if not dom(s, b):
                    raise ValueError("irreducible loop in " + f.name)
                body = L.setdefault(s, {s})
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x in body:
                        continue
                    body.add(x)
                    stack += [p for p in f.blocks[x].preds if p in num]
    return L
