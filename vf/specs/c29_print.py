"""C29: printing the registry of progress trackers."""
import re as _re
from ..spec import *
from ..engine import demangle
from .. import llparse as L
from .c28_log import literal

H = "print"
I = z3.IntSort()
F32 = z3.Float32()
S = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
OS = r"^std::(basic_)?ostream(<char, std::char_traits<char> ?>)?"
BAR, CELLS = "■".encode().decode("latin-1"), 55
# the places within a line
START, CLEARED, NAMED, SPACED, BARS, BRACKET, PERCENT, SEPARATED, STATUS, MOVE = 0, 10, 20, 21, 30, 31, 40, 50, 60, 100


class Print:
    """the map: `size` nodes, the i-th in the order of the names at NODE(i), its tracker at TRACKER(i); what is written is followed
    character by character through the line that is due"""

    def __init__(t, C):
        t.C, E = C, C.E
        t.NODE, t.TR = z3.Function("NODE", I, I), z3.Function("TRACKER", I, I)
        t.show, t.empty = z3.Function("shown", I, z3.BoolSort()), z3.Function("status is empty", I, z3.BoolSort())
        t.size, t.silent, t.height = C.sym("size"), C.boolv("silent"), C.sym("height", 32)
        C.require(t.size < (1 << 32))
        t.g = C.sym("registry")
        C.require(t.g >= 4096, t.g < (1 << 62), t.g % 8 == 0)
        t.end_ = None
        for k, v in (("held", z3.IntVal(0)), ("theld", z3.IntVal(0)), ("node", z3.IntVal(0)), ("line", z3.IntVal(0)), ("q", z3.If(t.height == 0, z3.IntVal(START), z3.IntVal(MOVE))),
                     ("cells", z3.IntVal(0)), ("flushed", z3.BoolVal(True)), ("wrote", z3.BoolVal(False)), ("out", z3.FP("output read last", F32)), ("read", z3.IntVal(0)), ("seen", z3.IntVal(0)), ("height", t.height), ("done", z3.BoolVal(False))):
            C.ghost(k, v)
        C.fp_exact = C.join_paths = True
        C.load_hook, C.atomic_hook, C.store_hook = t.load, t.atomic, t.store
        C.extern("cb_layout", t.layout)
        C.extern("cb_reg", t.reg)
        C.extern("cb_end", t.end)
        C.extern("pthread_mutex_lock", t.lock)
        C.extern("pthread_mutex_unlock", t.unlock)
        C.extern("_ZSt20__throw_system_errori", t.never("lock: used as it must be"))
        C.regex(r"^std::_Rb_tree_increment\(", t.increment)
        C.regex(S + r"empty\(\) const", t.is_empty)
        C.regex(S + r"(size|length)\(\) const", t.length)
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<<<.*\(std::basic_ostream<.*>&, char const\*\)", lambda E, st, a: t.write(E, st, a[0], t.text(st, a[1])))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<< <.*\(std::basic_ostream<.*>&, char const\*\)", lambda E, st, a: t.write(E, st, a[0], t.text(st, a[1])))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<< ?<.*\(std::basic_ostream<.*>&, char\)", lambda E, st, a: t.write(E, st, a[0], t.char(a[1])))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<< ?<.*\(std::basic_ostream<.*>&, std::__cxx11::basic_string<", lambda E, st, a: t.write(E, st, a[0], [("string", a[1])]))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<< ?<.*\(std::basic_ostream<.*>&, std::basic_string_view<", lambda E, st, a: t.write(E, st, a[0], t.part(st, a[2], a[1])))
        C.regex(OS + r"::(put)\(char\)", lambda E, st, a: t.write(E, st, a[0], t.char(a[1])))
        C.regex(OS + r"::write\(char const\*, long\)", lambda E, st, a: t.write(E, st, a[0], t.part(st, a[1], a[2])))
        C.regex(OS + r"::operator<<\((int|long|unsigned int|unsigned long|short)\)", lambda E, st, a: t.write(E, st, a[0], [("int", a[1])]))
        C.regex(OS + r"& std::(basic_)?ostream(<.*>)?::_M_insert<(long|unsigned long)>", lambda E, st, a: t.write(E, st, a[0], [("int", a[1])]))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::__ostream_insert<", lambda E, st, a: t.write(E, st, a[0], t.part(st, a[1], a[2])))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::endl<", lambda E, st, a: t.flush(E, st, [t.write(E, st, a[0], ["\n"])]))
        C.regex(r"^std::basic_ostream<char, std::char_traits<char>\s?>& std::flush<", t.flush)
        C.regex(OS + r"::flush\(\)", t.flush)
        C.named.append((r"^(void )?fmt::v\d+::print(ln)?<", t.fmt))
        C.on_throw(lambda st, v: [("post: no exception leaves the unit", z3.BoolVal(False))])
        C.inv(t.cands)
        E.assumed.add("std::map: its nodes from the first to the end in the order of the names (std::_Rb_tree_increment); std::shared_ptr: the pointer in front; std::string: a value")
        E.assumed.add("std::cout: what is written appears in order; fmt::print writes the format with each {...} replaced by the argument (widths and alignment left open)")
        E.assumed.add("std::mutex excludes and orders; locking never fails; every tracker in the registry exists")
        C.post(lambda st, r: [("post: the end is reached", st.gh["seen"] == 1)])
        C.args(t.g)

    # ---- the registry
    def layout(t, E, st, a):
        t.off = dict(mutex=a[0], status=a[1], show=a[2], out=a[3])

    def reg(t, E, st, a):
        t.at = dict(lock=t.offset(a[0]), silent=t.offset(a[1]), height=t.offset(a[2]), map=t.offset(a[3]))
        h = t.at["map"] + 8               # the header: colour, parent, first, last; the number of nodes
        t.end_ = z3.simplify(t.g + h)
        t.cells = {h + 16: (8, t.NODE(0)), h + 24: (8, t.NODE(t.size - 1)), h + 32: (8, t.size)}
        st.assume(t.NODE(t.size) == t.end_, t.end_ >= 4096, t.end_ < (1 << 62))
        t.know(st, z3.IntVal(0))

    def know(t, st, k):
        """the k-th node and its tracker exist; they are none of the others"""
        st.assume(Imp(k < t.size, z3.And(t.NODE(k) != t.end_, t.NODE(k) >= 4096, t.NODE(k) < (1 << 62), t.TR(k) >= 4096, t.TR(k) < (1 << 62))))

    def touch(t, E, st):
        E.oblige(st, "lock: the registry is used under its lock", st.gh["held"] == 1)

    def increment(t, E, st, a):
        t.touch(E, st)
        k = st.gh["node"]
        E.oblige(st, "memory: only a node of the map is advanced", z3.And(k < t.size, Z(E.addr_of(st, a[0])) == t.NODE(k)))
        st.gh["node"] = z3.simplify(k + 1)
        t.know(st, k + 1)
        return t.NODE(z3.simplify(k + 1))

    def node_at(t, E, st, p, offs):
        """(index, offset) of the node that p points into"""
        for k in (st.gh["node"], st.gh["node"] - 1):
            for o in offs:
                if E.prove(st, Z(p) == t.NODE(k) + o):
                    return k, o
        return None, None

    def tracker_at(t, E, st, p, offs):
        for k in (st.gh["node"], st.gh["node"] - 1):
            for o in offs:
                if E.prove(st, Z(p) == t.TR(k) + o):
                    return k, o
        return None, None

    def offset(t, p):
        """the place in the registry"""
        if isinstance(p, (Loc, Fn)):
            return None
        d = z3.simplify(Z(p) - t.g)
        return d.as_long() if z3.is_int_value(d) else None

    def load(t, E, st, p, ty, size):
        o = t.offset(p)
        if o is not None:
            if t.end_ is None:
                raise Unsupported("read before the start")
            if o in t.cells and t.cells[o][0] == size:
                t.touch(E, st)
                return t.cells[o][1]
            if o == t.at["silent"]:
                return t.silent if ty.w == 1 else z3.If(t.silent, z3.IntVal(1), z3.IntVal(0))
            if o == t.at["height"] and size == 4:
                E.oblige(st, "lock: the registry is used under its lock", z3.Or(t.silent, st.gh["held"] == 1, st.gh["done"]))
                return st.gh["height"]
            return None
        if ty.k == "ptr":
            k, o = t.node_at(E, st, p, (64,))
            if k is not None:
                t.touch(E, st)
                E.oblige(st, "memory: only nodes of the map are read", z3.And(k >= 0, k < t.size))
                return t.TR(k)
            return None
        if size == 1:
            k, o = t.tracker_at(E, st, p, (t.off["show"],))
            if k is not None:
                t.known_lock(E, st, k)
                return z3.If(t.show(k), z3.IntVal(1), z3.IntVal(0)) if ty.w != 1 else t.show(k)
        return None

    def store(t, E, st, p, v, ty, size):
        o = t.offset(p)
        if o is not None and o == t.at["height"] and size == 4:
            t.touch(E, st)
            st.gh["height"] = Z(v)
            return True
        E.oblige(st, "frame: nothing but the number of lines printed is changed", False)
        return True

    def known_lock(t, E, st, k):
        E.oblige(st, "lock: a tracker is read under its lock", st.gh["theld"] == k + 1)
        E.oblige(st, "memory: only nodes of the map are read", z3.And(k >= 0, k < t.size))

    def atomic(t, E, st, kind, p, v, i):
        if kind != "load" or isinstance(p, Loc):
            raise Unsupported("atomic " + kind)
        k, o = t.tracker_at(E, st, p, (t.off["out"],))
        if k is None:
            raise Unsupported("an atomic that is not the output of the tracker")
        E.oblige(st, "memory: only trackers of the registry are read", z3.And(k >= 0, k < t.size))
        st.gh["out"], st.gh["read"] = E.fresh("output", F32), z3.simplify(k + 1)
        st.assume(z3.Not(z3.fpIsNaN(st.gh["out"])))
        return st.gh["out"]

    def lock(t, E, st, a):
        if t.offset(a[0]) == t.at["lock"]:
            E.oblige(st, "lock: not taken twice", st.gh["held"] == 0)
            E.oblige(st, "lock: the registry's lock is not taken under a tracker's", st.gh["theld"] == 0)
            st.gh["held"] = z3.IntVal(1)
        else:
            k, o = t.tracker_at(E, st, a[0], (t.off["mutex"],))
            E.oblige(st, "lock: the lock taken is the registry's or a tracker's", z3.And(k >= 0, k < t.size) if k is not None else z3.BoolVal(False))
            if k is not None:
                E.oblige(st, "lock: not taken twice", st.gh["theld"] == 0)
                st.gh["theld"] = z3.simplify(k + 1)
        return 0

    def unlock(t, E, st, a):
        if t.offset(a[0]) == t.at["lock"]:
            E.oblige(st, "lock: only a held lock is released", st.gh["held"] == 1)
            E.oblige(st, "lock: held until everything is written", z3.Or(t.silent, z3.And(st.gh["line"] == t.size, st.gh["flushed"])))
            st.gh["held"], st.gh["done"] = z3.IntVal(0), z3.BoolVal(True)
        else:
            k, o = t.tracker_at(E, st, a[0], (t.off["mutex"],))
            E.oblige(st, "lock: only a held lock is released", st.gh["theld"] == k + 1 if k is not None else z3.BoolVal(False))
            st.gh["theld"] = z3.IntVal(0)
        return 0

    def never(t, what):
        def h(E, st, a):
            E.oblige(st, what, False)
            return [("dead", st, None)]
        return h

    def status_of(t, E, st, p):
        k, o = t.tracker_at(E, st, p, (t.off["status"],))
        if k is None:
            raise Unsupported("unknown string")
        t.known_lock(E, st, k)
        return k

    def is_empty(t, E, st, a):
        return t.empty(t.status_of(E, st, a[0]))

    def length(t, E, st, a):
        k = t.status_of(E, st, a[0])
        n = z3.Function("length of the status", I, I)(k)
        st.assume(n >= 0, n < (1 << 62), (n == 0) == t.empty(k))
        return n

    # ---- the output
    def text(t, st, p):
        l = literal(st, p)
        if l is None:
            raise Unsupported("unknown text")
        return [l]

    def part(t, st, p, n):
        l = literal(st, p)
        if l is None or not isinstance(n, int) or n > len(l):
            raise Unsupported("unknown text")
        return [l[:n]]

    def char(t, c):
        if not isinstance(c, int):
            raise Unsupported("unknown character")
        return [chr(c % 256)]

    def fmt(t, E, st, a, name):
        d = demangle(name[1:].strip('"') if name[:1] == "@" else name)
        f = literal(st, a[1])
        if f is None or not isinstance(a[2], int):
            raise Unsupported("unknown format")
        f = f[:a[2]]
        out, n, i = [], 0, 0
        for m in _re.finditer(r"\{\{|\}\}|\{[^{}]*\}|[^{}]+", f):
            g = m.group(0)
            if g in ("{{", "}}"):
                out.append(g[0])
            elif g[0] == "{":
                if _re.match(r"\{\d", g):
                    raise Unsupported("numbered argument")
                out.append(("arg", a[3 + n], g[1:-1].lstrip(":")))
                n += 1
            else:
                out.append(g)
        if _re.search(r"::println<", d):
            out.append("\n")
        types = t.types(d)
        k = 0
        for j, x in enumerate(out):
            if isinstance(x, tuple):
                ty = types[k]
                k += 1
                if "basic_string<" in ty:
                    out[j] = ("string", x[1], x[2])
                elif _re.match(r"(unsigned )?(int|long|short)\b", ty):
                    out[j] = ("int", E.load(st, x[1], L.IntTy(64 if "long" in ty else 16 if "short" in ty else 32)), x[2])
                else:
                    raise Unsupported("argument of type " + ty)
        t.write(E, st, a[0], out)

    def types(t, d):
        """the template arguments of print<...>"""
        s = d[d.index("<") + 1:]
        out, depth, cur = [], 0, ""
        for c in s:
            if c == "<":
                depth += 1
            if c == ">":
                if depth == 0:
                    break
                depth -= 1
            if c == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
            else:
                cur += c
        return out + [cur.strip()]

    def flush(t, E, st, a):
        st.gh["flushed"] = z3.BoolVal(True)
        return a[0]

    def write(t, E, st, stream, items):
        E.oblige(st, "post: written to the standard output", z3.BoolVal(isinstance(stream, Loc) and "_ZSt4cout" in str(stream.o)))
        E.oblige(st, "lock: lines are written under the registry's lock", st.gh["held"] == 1)
        E.oblige(st, "post: nothing is written in silence", z3.Not(t.silent))
        st.gh["flushed"], st.gh["wrote"] = z3.BoolVal(False), z3.BoolVal(True)
        for x in items:
            if isinstance(x, str):
                while x:
                    n = len(BAR) if x.startswith(BAR) else 1
                    t.step(E, st, x[:n])
                    x = x[n:]
            else:
                t.step(E, st, x)
        return stream

    def place(t, E, st):
        q = z3.simplify(st.gh["q"])
        if z3.is_int_value(q):
            return q.as_long()
        for v in (START, MOVE):
            if E.prove(st, q == v):
                return v
        return None

    def step(t, E, st, x):
        q, line = t.place(E, st), st.gh["line"]
        if isinstance(x, tuple):
            f = x[2] if len(x) > 2 else ""
            E.oblige(st, "post: names are right-aligned in 12 columns, percentages in 3, everything else as it is", z3.BoolVal(f in {CLEARED: (">12",), 33: (">3", "3")}.get(q, ("",))))
        bad = lambda: E.oblige(st, f"post: the line of a tracker is its name and either the bar, the percentage and the status, if there is one, or the status alone", False)

        def go(v, *conds):
            for c in conds:
                E.oblige(st, "post: the line of a tracker is its name and either the bar, the percentage and the status, if there is one, or the status alone", c)
            st.gh["q"] = z3.IntVal(v)
        if q is None:
            E.oblige(st, "post: the cursor goes up by the number of lines printed last, if there are any", False)
            return
        nxt = {START: ("\x1b", 1), 1: ("[", 2), 2: ("K", CLEARED), NAMED: (":", 22), 22: (" ", SPACED), MOVE: ("\x1b", 101), 101: ("[", 102), 103: ("A", START),
               BRACKET: ("]", 32), 32: (" ", 33), PERCENT: ("%", 41), SEPARATED: ("|", 51), 51: (" ", 52)}
        if q >= MOVE and q != 102:
            if x == nxt.get(q, (None,))[0]:
                return go(nxt[q][1])
            E.oblige(st, "post: the cursor goes up by the number of lines printed last, if there are any", False)
        elif q == 102:
            E.oblige(st, "post: the cursor goes up by the number of lines printed last, if there are any", z3.And(z3.BoolVal(isinstance(x, tuple) and x[0] == "int"), Z(x[1] if isinstance(x, tuple) and x[0] == "int" else 0) == t.height))
            st.gh["q"] = z3.IntVal(103)
        elif q == CLEARED and isinstance(x, tuple) and x[0] == "string":
            p = Z(E.addr_of(st, x[1]))
            E.oblige(st, "post: every tracker gets its line, in the order of the names", z3.And(line < t.size, p == t.NODE(line) + 32))
            st.gh["q"] = z3.IntVal(NAMED)
        elif q == SPACED and x == "[":
            go(BARS, t.show(line))
            st.gh["cells"] = z3.IntVal(0)
        elif q == SPACED and isinstance(x, tuple) and x[0] == "string":
            t.status_of(E, st, x[1])
            go(STATUS, z3.Not(t.show(line)), Z(E.addr_of(st, x[1])) == t.TR(line) + t.off["status"])
        elif q == BARS and x in (BAR, " ") and E.prove(st, st.gh["cells"] < CELLS):
            c = z3.simplify(st.gh["cells"])
            if not z3.is_int_value(c):
                raise Unsupported("a cell of unknown position")
            c = c.as_long()
            filled = z3.fpLEQ(z3.FPVal(float(100 * c // CELLS), F32), st.gh["out"])
            E.oblige(st, "post: a cell of the bar is filled exactly if the output has reached its place", z3.And(st.gh["read"] == line + 1, filled == z3.BoolVal(x == BAR)))
            st.gh["cells"] = z3.IntVal(c + 1)
        elif q == BARS and x == " ":
            go(BRACKET, st.gh["cells"] == CELLS)
        elif q == 33 and isinstance(x, tuple) and x[0] == "int":
            out = z3.Function("fp2intfloat32fptosi", F32, I)(st.gh["out"])
            E.oblige(st, "post: the percentage is the whole part of the output", z3.And(st.gh["read"] == line + 1, Z(x[1]) == out))
            st.gh["q"] = z3.IntVal(PERCENT)
        elif q == 41 and x == " ":
            go(SEPARATED, z3.Not(t.empty(line)))
        elif q == 52 and isinstance(x, tuple) and x[0] == "string":
            t.status_of(E, st, x[1])
            go(STATUS, Z(E.addr_of(st, x[1])) == t.TR(line) + t.off["status"])
        elif (q == STATUS or q == 41) and x == "\n":
            go(START, *([t.empty(line)] if q == 41 else []))
            st.gh["line"] = z3.simplify(line + 1)
        elif q in nxt and x == nxt[q][0]:
            go(nxt[q][1])
        else:
            bad()

    # ---- contracts
    def cands(t, E, Hd):
        if t.end_ is None:
            return []
        out = [("the node is that of the line", lambda s: s.gh["node"] == s.gh["line"]),
               ("the node is one of the map, or the end", lambda s: z3.And(s.gh["node"] >= 0, s.gh["node"] <= t.size)),
               ("a line begins", lambda s: s.gh["q"] == START),
               ("no tracker is locked", lambda s: s.gh["theld"] == 0),
               ("the registry is locked", lambda s: s.gh["held"] == 1)]
        for n, f in Hd.pos:
            if not n.startswith("ghost "):
                out.append((f"{n}: the node", lambda s, f=f: Z(f(s)) == t.NODE(s.gh["node"])))
                out.append((f"{n}: the number of the line", lambda s, f=f: Z(f(s)) == s.gh["line"]))

        def facts(s):
            k = s.gh["node"]
            return Imp(z3.And(k >= 0, k < t.size), z3.And(t.NODE(k) != t.end_, t.NODE(k) >= 4096, t.NODE(k) < (1 << 62), t.TR(k) >= 4096, t.TR(k) < (1 << 62)))
        return out + [("the node exists", facts)]

    def end(t, E, st, a):
        g = st.gh
        E.oblige(st, "lock: released at the end", z3.And(g["held"] == 0, g["theld"] == 0))
        E.oblige(st, "post: silence is left as it is", Z(E.as_int(a[0])) == z3.If(t.silent, 1, 0))
        E.oblige(st, "post: every tracker got its line, in the order of the names", z3.Or(t.silent, z3.And(g["line"] == t.size, g["q"] == START)))
        E.oblige(st, "post: the number of lines is remembered", Z(a[1]) == z3.If(t.silent, t.height, t.size))
        E.oblige(st, "post: what is written is flushed", g["flushed"])
        st.gh["seen"] = z3.IntVal(1)


@unit("C29", H, "print")
def print_(C):
    """global_progress_trackers::print"""
    Print(C)
