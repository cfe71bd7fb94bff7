"""contracts of std::string (trusted): a string owns its characters; memory suffices (no std::bad_alloc) unless asked otherwise"""
import z3
from .engine import *  # noqa

S = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::"
EXTERN = r"^std::__cxx11::basic_string<"


def key(p):
    return ("o", p.o, p.f) if isinstance(p, Loc) else ("a", str(z3.simplify(Z(p))))


def strings(C, count=2):
    """ghost "strs": string object -> (address, length) of its characters; constructed strings get one of `count` blocks each time they change"""
    blocks = [C.region(f"chars{i}", 1, writable=True) for i in range(count)]
    C.ghost("strs", {})
    C.ghost("nblk", 0)
    C.ghost("heap", dict(C.st.gh.get("heap", {}), **{r.name: "unused" for r in blocks}))
    C.E.assumed.add("std::string: owns its characters; construction and resize set the length and keep the common prefix; no std::bad_alloc (std::length_error for impossible lengths)")

    def put(st, p, v):
        st.gh["strs"] = dict(st.gh["strs"]) | {key(p): v}

    def get(st, p, what):
        v = st.gh["strs"].get(key(p))
        if v is None:
            raise Unsupported("std::string " + what + " on an unknown object")
        return v

    def block(E, st, n):
        k = st.gh["nblk"]
        if k >= len(blocks):
            raise Unsupported("more string contents than modelled")
        st.gh["nblk"] = k + 1
        st.gh["heap"] = dict(st.gh["heap"], **{blocks[k].name: "live"})
        st.assume(blocks[k].size == n)
        return blocks[k]

    def ctor0(E, st, a):
        put(st, a[0], (0, 0))

    def ctor_cstr(E, st, a):
        n = E.externs["strlen"](E, st, [a[1]]) if "strlen" in E.externs else E.fresh("strlen")
        put(st, a[0], ("copy", a[1], n))

    def resize(E, st, a, fill=0):
        n = a[1]
        t = st.copy()
        t.assume(Z(n) >= (1 << 63))
        st.assume(Z(n) < (1 << 62))
        old = get(st, a[0], "resize")
        if isinstance(old[0], str):
            raise Unsupported("resize of a path")
        r = block(E, st, n)
        m, new = E.region_havoc(st, "m1")
        keep = z3.If(Z(old[1]) < Z(n), Z(old[1]), Z(n))
        st.assume(Forall(1, lambda k: z3.Select(new, k) == z3.If(z3.And(k >= r.base, k < r.base + keep), z3.Select(m, k - r.base + old[0]),
                  z3.If(z3.And(k >= r.base, k < r.base + n), fill, z3.Select(m, k))), lambda k: z3.Select(new, k)))
        put(st, a[0], (r.base, n))
        if not z3.is_expr(n) or E.sol.check(t.pc, [], 2000)[0] == z3.unsat:
            return [("ret", st, None)]
        return [("ret", st, None), ("throw", t, (0, getattr(C, "throw_sel", 1)))]

    def ctor_fill(E, st, a):
        put(st, a[0], (0, 0))
        return resize(E, st, [a[0], a[1]], E.as_int(a[2]))

    def move(E, st, a):
        put(st, a[0], get(st, a[1], "move"))
        put(st, a[1], (0, 0))

    def copy(E, st, a):
        v = get(st, a[1], "copy")
        if not isinstance(v[0], str) and not (isinstance(v[1], int) and v[1] == 0):
            r = block(E, st, v[1])
            E.sym_copy(st, r.base, v[0], v[1])
            v = (r.base, v[1])
        put(st, a[0], v)

    def assign(E, st, a):
        copy(E, st, a)
        return a[0]

    def dtor(E, st, a):
        get(st, a[0], "destructor")
        d = dict(st.gh["strs"])
        v = d.pop(key(a[0]))
        st.gh["strs"] = d
        for r in blocks:
            if v[0] is r.base:
                st.gh["heap"] = dict(st.gh["heap"], **{r.name: "freed"})
    C.regex(S + r"basic_string\(\)", ctor0)
    C.regex(S + r"basic_string<std::allocator<char>>\(char const\*, ", ctor_cstr)
    C.regex(S + r"basic_string(<std::allocator<char>>)?\(unsigned long, char, ", ctor_fill)
    C.regex(S + r"basic_string\(std::__cxx11::basic_string<.*>&&\)", move)
    C.regex(S + r"basic_string\(std::__cxx11::basic_string<.*> const&\)", copy)
    C.regex(S + r"operator=\(std::__cxx11::basic_string<.*> const&\)", assign)
    C.regex(S + r"~basic_string\(\)", dtor)
    C.regex(S + r"resize\(", lambda E, st, a: resize(E, st, a, E.as_int(a[2]) if len(a) > 2 else 0))
    C.regex(S + r"(data|c_str)\(\)", lambda E, st, a: get(st, a[0], "data")[0])
    C.regex(S + r"(size|length)\(\)", lambda E, st, a: get(st, a[0], "size")[1])
    C.regex(S + r"operator\[\]\(", lambda E, st, a: get(st, a[0], "element")[0] + a[1])
    C.regex(S + r"(begin|front)\(\)", lambda E, st, a: get(st, a[0], "begin")[0])
    return blocks
