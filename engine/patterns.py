"""Specification patterns: the expected shape of a value, matched against a symbolic value under a path.

A pattern is one of
  a z3 term or engine value      equality
  str / int / bool               that constant
  V(variant, fields)             enum variant; fields is a dict, a list, or a single pattern
  S(fields, exact=True)          struct; exact: no further fields may exist
  Enc(kind, type_suffix, pat)    a byte string that is the `kind` encoding of a value of that type
  Cases([(cond, pat)...])        case distinction; the conditions are proved exhaustive
  [items]                        sequence; items are patterns or Each(seq, f)
  ANY                            anything
  a callable p(prover, st, v, path)
"""
import z3
from values import *
from interp import simp, mk_not, conc


class V:
    def __init__(self, name, fields=()):
        self.name, self.fields = name, fields


class S:
    def __init__(self, fields, exact=True):
        self.fields, self.exact = fields, exact


class Enc:
    def __init__(self, kind, suffix, pat):
        self.kind, self.suffix, self.pat = kind, suffix, pat


class Cases:
    def __init__(self, alts):
        self.alts = [(c if z3.is_expr(c) else z3.And(*c) if c else z3.BoolVal(True), p) for c, p in alts]


class Each:
    """for every element e of the sequence value `seq` (in order): f(e) is the pattern of the element
    contributed, or a list of (cond, [patterns]) alternatives"""

    def __init__(self, seq, f):
        self.seq, self.f = seq, f


class EachIx(Each):
    """as Each, with f(e, index)"""


class _Any:
    pass


ANY = _Any()


def Some(p):
    return V("Some", [p])


NONE = V("None")


class Matcher:
    """mixin of Prover"""

    def match(self, st, v, p, path=""):
        from prover import Fail, Lost
        I = self.I
        if p is ANY:
            return
        v = I.snapshot(st, v)
        if isinstance(p, Cases):
            feas = [(c, q) for c, q in p.alts if I.feasible(st, simp(c))]
            if len(feas) != 1 or True:
                self.prove(st, z3.Or(*[c for c, _ in p.alts]) if len(p.alts) > 1 else p.alts[0][0], f"{path}: the cases of the specification")
            for c, q in feas:
                self.match(st.copy().assume(simp(c)), v, q, path)
            return
        if callable(p) and not isinstance(p, (V, S, Enc, Each)):
            return p(self, st, v, path)
        if isinstance(p, Enc):
            if not is_term(v):
                # newtype around bytes
                if isinstance(v, (Adt, Sym)) and self.single(v):
                    return self.match(st, I.field(v, 0), p, path)
                raise Lost(f"{path}: not a byte string")
            e = I.enc_of(v)
            if e is None:
                e = self.enc_via_path(st, v)
            if e is None:
                if self.dead(st):
                    return
                raise Fail(f"{path}: {self.describe(v)} where the {p.kind} encoding of {p.suffix} is expected", self.model(st))
            tn = I.P.types[e[1]]["s"] if isinstance(e[1], int) else ""
            same = not p.suffix or (isinstance(e[1], int) and type_named(I.P.types[e[1]], p.suffix))
            if e[0] != p.kind or not same:
                if self.dead(st):
                    return
                if e[0] == p.kind:
                    raise Lost(f"{path}: {e[0]} encoding of {tn} where the {p.kind} encoding of {p.suffix} is expected")
                raise Fail(f"{path}: {e[0]} encoding of {tn} where the {p.kind} encoding of {p.suffix} is expected", self.model(st))
            return self.match(st, e[2], p.pat, f"{path}<{p.kind}>")
        if isinstance(p, V):
            if not isinstance(v, (Adt, Sym)) or not isinstance(v.ty, int):
                raise Lost(f"{path}: not an enum value")
            try:
                i = I.P.variant_index(v.ty, p.name)
            except KeyError:
                raise Lost(f"{path}: {I.P.types[v.ty]['s']} has no variant {p.name}")
            t = I.tag(v)
            if isinstance(t, int):
                if t != i:
                    if self.dead(st):
                        return
                    raise Fail(f"{path}: variant {self.vn(v, t)} where {p.name} is expected", self.model(st))
            else:
                self.prove(st, t == i, f"{path}: variant {p.name}")
            fds = I.variants(v.ty)[i]["fields"]
            fs = p.fields
            if isinstance(fs, dict):
                return self.match_fields(st, v, i, fds, fs, True, f"{path}.{p.name}")
            if not isinstance(fs, (list, tuple)):
                fs = [fs]
            if len(fs) != len(fds):
                raise Lost(f"{path}: variant {p.name} has {len(fds)} fields")
            for j, q in enumerate(fs):
                self.match(st, I.field(v, j, i), q, f"{path}.{p.name}.{j}")
            return
        if isinstance(p, S):
            if not isinstance(v, (Adt, Sym)):
                raise Lost(f"{path}: not a struct value")
            return self.match_fields(st, v, 0, I.variants(v.ty)[0]["fields"], p.fields, p.exact, path)
        if isinstance(p, list):
            if not isinstance(v, Seq):
                raise Lost(f"{path}: not a sequence ({type(v).__name__})")
            return self.match_seq(st, v, p, path)
        if isinstance(p, bool):
            p = z3.BoolVal(p)
        elif isinstance(p, int):
            p = z3.IntVal(p)
        elif isinstance(p, (str, bytes)):
            p = sbytes(p)
        if is_term(p) and isinstance(v, (Adt, Sym)) and self.single(v):
            return self.match(st, I.field(v, 0), p, path)
        if is_term(v) and isinstance(p, (Adt, Sym)) and self.single(p):
            return self.match(st, v, I.field(p, 0), path)
        self._eq(st, v, I.snapshot(st, p), path)

    def single(self, v):
        try:
            vs = self.I.variants(v.ty)
        except Exception:
            return False
        return len(vs) == 1 and len(vs[0]["fields"]) == 1

    def enc_via_path(self, st, v):
        """a term the path equates with an encoding"""
        for c in st.pc:
            if z3.is_eq(c):
                a, b = c.children()
                if a.eq(v) and self.I.enc_of(b):
                    return self.I.enc_of(b)
                if b.eq(v) and self.I.enc_of(a):
                    return self.I.enc_of(a)
        return None

    def match_fields(self, st, v, var, fds, fs, exact, path):
        from prover import Fail, Lost
        names = [f["name"] for f in fds]
        miss = [n for n in fs if n not in names]
        extra = [n for n in names if n not in fs]
        if miss or (exact and extra):
            raise Lost(f"{path}: fields {names}; the specification names {sorted(fs)}")
        for i, n in enumerate(names):
            if n in fs:
                self.match(st, self.I.field(v, i, var), fs[n], f"{path}.{n}")

    def match_seq(self, st, v, pats, path):
        from prover import Fail, Lost, skolem
        I = self.I
        segs = self.norm_segs(st, v)
        ps = []
        for p in pats:
            if isinstance(p, Each):
                for sg in self.norm_segs(st, p.seq):
                    if isinstance(sg, Lit):
                        if isinstance(p, EachIx) and len(self.norm_segs(st, p.seq)) > 1:
                            raise Lost(f"{path}: indexed specification over a mixed sequence")
                        for n, x in enumerate(sg.vals):
                            r = p.f(x, z3.IntVal(n)) if isinstance(p, EachIx) else p.f(x)
                            if isinstance(r, list):
                                ps.append(("alts", r))
                            else:
                                ps.append(("one", r))
                    else:
                        ps.append(("each", sg, p.f, isinstance(p, EachIx)))
            else:
                ps.append(("one", p))
        return self.match_rest(st, segs, ps, path, 0)

    def match_rest(self, st, segs, ps, path, pos):
        from prover import Fail, Lost, skolem
        I = self.I
        segs, ps = list(segs), list(ps)
        while ps or segs:
            if ps and ps[0][0] == "alts":
                # literal element with alternatives
                alts = ps[0][1]
                self.prove(st, z3.Or(*[conj1(c) for c, _ in alts]), f"{path}[{pos}]: the cases of the specification")
                for c, qs in alts:
                    c = conj1(c)
                    if I.feasible(st, simp(c)):
                        self.match_rest(st.copy().assume(simp(c)), segs, [("one", q) for q in qs] + ps[1:], path, pos)
                return
            if not ps or not segs:
                if self.dead(st):
                    return
                raise Fail(f"{path}: {'more' if segs else 'fewer'} elements than expected", self.model(st))
            sg, p = segs[0], ps[0]
            if isinstance(sg, Lit):
                if p[0] != "one":
                    if self.dead(st):
                        return
                    raise Fail(f"{path}: a fixed element where a mapped sequence is expected at {pos}", self.model(st))
                self.match(st, sg.vals[0], p[1], f"{path}[{pos}]")
                rest = Lit(sg.vals[1:])
                segs = ([rest] if rest.vals else []) + segs[1:]
                ps = ps[1:]
                pos += 1
                continue
            if p[0] == "one":
                if self.dead(st):
                    return
                raise Fail(f"{path}: a mapped sequence where one element is expected at {pos}", self.model(st))
            nx = sg.n if isinstance(sg, Comp) else I.seg_len(sg)
            ny = p[1].n if isinstance(p[1], Comp) else I.seg_len(p[1])
            self.prove(st, nx == ny, f"{path}: number of elements")
            k = skolem("e")
            s2 = st.copy()
            s2.assume(k >= 0)
            s2.assume(simp(k < nx))
            for cy, (elem,) in [(c, vs) for c, vs in self.alts_at(p[1], k)]:
                if not I.feasible(s2, cy):
                    continue
                s3 = s2.copy().assume(cy)
                r = p[2](elem, k) if p[3] else p[2](elem)
                alts = r if isinstance(r, list) else [(z3.BoolVal(True), [r])]
                if len(alts) > 1:
                    self.prove(s3, z3.Or(*[conj1(c) for c, _ in alts]), f"{path}[i]: the cases of the specification")
                for cz, qs in alts:
                    cz = simp(conj1(cz))
                    if not I.feasible(s3, cz):
                        continue
                    s4 = s3.copy().assume(cz)
                    for cx, vx in self.alts_at(sg, k):
                        if not I.feasible(s4, cx):
                            continue
                        s5 = s4.copy().assume(cx)
                        if len(vx) != len(qs):
                            if self.dead(s5):
                                continue
                            raise Fail(f"{path}[i]: {len(vx)} elements where {len(qs)} are expected", self.model(s5))
                        for a, q in zip(vx, qs):
                            self.match(s5, a, q, f"{path}[i]")
            segs, ps = segs[1:], ps[1:]
            pos += 1


def conj1(c):
    if z3.is_expr(c):
        return c
    c = list(c)
    return z3.And(*c) if len(c) > 1 else c[0] if c else z3.BoolVal(True)


def type_named(t, suf):
    return suffix_ok(t["s"], suf) or suffix_ok(t.get("path", t["s"]), suf)


def suffix_ok(tn, suf):
    if not suf:
        return True
    tn = tn.split("<")[0] if not suf.endswith(">") else tn
    return tn == suf or tn.endswith("::" + suf)
