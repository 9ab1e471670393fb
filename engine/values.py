"""Symbolic values of the verifier, and equality / substitution over them.

Scalars and byte strings are z3 terms (Int, Bool, String).  Everything else is a small immutable
tree.  A `Sym` is an unconstrained value of a MIR type that is expanded field by field on demand;
its leaves are applications of uninterpreted functions, so equal arguments give equal leaves.
"""
import z3

INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
OPQ = z3.DeclareSort("Opaque")


class Unsupported(Exception):
    pass


class Val:
    __slots__ = ()


class Adt(Val):
    """A struct/enum/tuple/closure value whose variant is known."""
    __slots__ = ("ty", "var", "fields")

    def __init__(self, ty, var, fields):
        self.ty, self.var, self.fields = ty, var, tuple(fields)

    def __repr__(self):
        return f"Adt({self.ty}#{self.var}{list(self.fields)})"


class Sym(Val):
    __slots__ = ("ty", "fn", "args")

    def __init__(self, ty, fn, args=()):
        self.ty, self.fn, self.args = ty, fn, tuple(args)

    def __repr__(self):
        return f"Sym({self.fn}{list(self.args) if self.args else ''})"


class Ref(Val):
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return f"Ref({self.cell}{self.path})"


class BoxV(Val):
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


class FnV(Val):
    __slots__ = ("fid", "ty")

    def __init__(self, fid, ty):
        self.fid, self.ty = fid, ty


class Partial(Val):
    """Uninitialised storage that is being filled in (vec![..] lowering)."""
    __slots__ = ("parts",)

    def __init__(self, parts=()):
        self.parts = tuple(parts)


class FmtArg(Val):
    __slots__ = ("kind", "ref", "ty")

    def __init__(self, kind, ref, ty):
        self.kind, self.ref, self.ty = kind, ref, ty


class FmtArgs(Val):
    """pieces: list of bytes literals and FmtArg"""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)


class Seq(Val):
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if isinstance(s, Lit):
                if not s.vals:
                    continue
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].vals + s.vals)
                    continue
            out.append(s)
        self.segs = tuple(out)

    def __repr__(self):
        return f"Seq{list(self.segs)}"


class Lit:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return f"Lit{list(self.vals)}"


class SymSeg:
    """Unconstrained sequence segment: length term n, element i given by the element function."""
    __slots__ = ("fn", "args", "elty")

    def __init__(self, fn, args, elty):
        self.fn, self.args, self.elty = fn, tuple(args), elty

    def __repr__(self):
        return f"SymSeg({self.fn}{list(self.args) if self.args else ''})"


class Comp:
    """Comprehension: for idx in 0..n, contribute the value tuple of the alternative whose
    condition holds at idx (the conditions are exhaustive and exclusive under the path)."""
    __slots__ = ("n", "idx", "alts")

    def __init__(self, n, idx, alts):
        self.n, self.idx, self.alts = n, idx, tuple(alts)

    def __repr__(self):
        return f"Comp({self.n},{self.idx},{list(self.alts)})"


class AccSeg:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f"Acc({self.key})"


class HavocSeg:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f"HavocSeg({self.key})"


class IterV(Val):
    """Iterator value: kind + children (see iters.py)."""
    __slots__ = ("kind", "a")

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return f"Iter.{self.kind}{list(self.a)}"


def is_term(v):
    return isinstance(v, z3.ExprRef)


_fn_cache = {}


def ufn(name, argsorts, sort):
    k = (name, tuple(s.sexpr() for s in argsorts), sort.sexpr())
    f = _fn_cache.get(k)
    if f is None:
        f = z3.Function(name, *argsorts, sort) if argsorts else z3.Const(name, sort)
        _fn_cache[k] = f
    return f


def app(name, args, sort):
    f = ufn(name, [a.sort() for a in args], sort)
    return f(*args) if args else f


_fresh = [0]


def reset_fresh():
    _fresh[0] = 0


def fresh_name(p):
    _fresh[0] += 1
    return f"{p}!{_fresh[0]}"


_str_cache = {}


def sbytes(b):
    """z3 string literal for a byte string (one character per byte)."""
    if isinstance(b, str):
        b = b.encode()
    v = _str_cache.get(b)
    if v is None:
        s = "".join(chr(c) if 32 <= c < 127 and c not in (92,) else "\\u{%x}" % c for c in b)
        v = z3.StringVal(s)
        _str_cache[b] = v
    return v


def str_const(t):
    """bytes of a z3 string literal or None"""
    if z3.is_string_value(t):
        s = t.as_string()
        out = bytearray()
        i = 0
        while i < len(s):
            if s.startswith("\\u{", i):
                j = s.index("}", i)
                out.append(int(s[i + 3:j], 16) & 255)
                i = j + 1
            else:
                out += s[i].encode("latin1", "replace")
                i += 1
        return bytes(out)
    return None


def subst(v, pairs):
    """substitute z3 constants in a value tree"""
    if not pairs:
        return v
    if is_term(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, Adt):
        return Adt(v.ty, v.var, [subst(f, pairs) for f in v.fields])
    if isinstance(v, Sym):
        return Sym(v.ty, v.fn, [subst(a, pairs) for a in v.args])
    if isinstance(v, Seq):
        return Seq([subst_seg(s, pairs) for s in v.segs])
    if isinstance(v, Ref):
        return Ref(v.cell, [(p[0], subst(p[1], pairs)) if isinstance(p, tuple) and p[0] == "i" else p for p in v.path])
    if isinstance(v, IterV):
        return IterV(v.kind, *[subst(x, pairs) if isinstance(x, Val) or is_term(x) else x for x in v.a])
    return v


def subst_seg(s, pairs):
    if isinstance(s, Lit):
        return Lit([subst(x, pairs) for x in s.vals])
    if isinstance(s, SymSeg):
        return SymSeg(s.fn, [subst(a, pairs) for a in s.args], s.elty)
    if isinstance(s, Comp):
        return Comp(z3.substitute(s.n, *pairs), s.idx,
                    [(z3.substitute(c, *pairs), tuple(subst(x, pairs) for x in vs)) for c, vs in s.alts])
    return s


def is_idx(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith(("idx!", "sk!"))


_free_cache = {}


def term_idx(t):
    """index constants occurring in a term, in order of first occurrence"""
    k = t.get_id()
    r = _free_cache.get(k)
    if r is not None:
        return r[1]
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_idx(x):
            out.append(x)
        stack.extend(reversed(x.children()))
    _free_cache[k] = (t, out)
    return out


def val_idx(v, acc=None):
    acc = [] if acc is None else acc

    def add(t):
        for x in term_idx(t):
            if not any(x.eq(y) for y in acc):
                acc.append(x)
    if is_term(v):
        add(v)
    elif isinstance(v, Adt):
        for f in v.fields:
            val_idx(f, acc)
    elif isinstance(v, Sym):
        for a in v.args:
            add(a)
    elif isinstance(v, Seq):
        for s in v.segs:
            if isinstance(s, Lit):
                for x in s.vals:
                    val_idx(x, acc)
            elif isinstance(s, SymSeg):
                for a in s.args:
                    add(a)
            elif isinstance(s, Comp):
                inner = [s.n]
                sub = []
                for t in inner:
                    for x in term_idx(t):
                        sub.append(x)
                for c, vs in s.alts:
                    sub += term_idx(c)
                    for x in vs:
                        sub += val_idx(x)
                for x in sub:
                    if not any(y.eq(s.idx) for y in term_idx(x)) and not any(x.eq(y) for y in acc):
                        acc.append(x)
    elif isinstance(v, FmtArgs):
        pass
    return acc


_keep = []


def tid(t):
    _keep.append(t)
    return t.get_id()


def key(v, d=0):
    """hashable structural key"""
    if is_term(v):
        return ("t", tid(v))
    if isinstance(v, Adt):
        return ("a", v.ty, v.var) + tuple(key(f, d) for f in v.fields)
    if isinstance(v, Sym):
        return ("s", v.ty, v.fn) + tuple(tid(a) for a in v.args)
    if isinstance(v, Seq):
        return ("q",) + tuple(seg_key(s, d) for s in v.segs)
    if isinstance(v, Ref):
        return ("r", v.cell) + tuple((p[0], tid(p[1])) if isinstance(p, tuple) and p[0] == "i" else p for p in v.path)
    if isinstance(v, FnV):
        return ("f", v.fid)
    if isinstance(v, BoxV):
        return ("b", v.cell)
    if isinstance(v, IterV):
        return ("I", v.kind) + tuple(key(x, d) if isinstance(x, Val) or is_term(x) else x for x in v.a)
    if isinstance(v, FmtArg):
        return ("fa", v.kind, v.ty, key(v.ref, d))
    if isinstance(v, FmtArgs):
        return ("fas",) + tuple(p if isinstance(p, bytes) else key(p, d) for p in v.pieces)
    if isinstance(v, Partial):
        return ("p",) + tuple((p, key(x, d)) for p, x in v.parts)
    return ("o", repr(v))


def seg_key(s, d=0):
    if isinstance(s, Lit):
        return ("L",) + tuple(key(x, d) for x in s.vals)
    if isinstance(s, SymSeg):
        return ("S", s.fn) + tuple(tid(a) for a in s.args)
    if isinstance(s, Comp):
        # bound index renamed to a canonical one (one per nesting depth)
        c = z3.Const(f"idx!bound{d}", INT)
        pr = [(s.idx, c)]
        return ("C", tid(z3.substitute(s.n, *pr))) + tuple(
            (tid(z3.substitute(cc, *pr)),) + tuple(key(subst(x, pr), d + 1) for x in vs) for cc, vs in s.alts)
    return (type(s).__name__, s.key)
