"""Obligations over symbolic outcomes: entailment and structural equality of value trees."""
import time
import z3
from values import *
from interp import mk_not, simp, conc, lits, State
import hooks
from hooks import flat

_sk = [0]


def skolem(hint="q"):
    _sk[0] += 1
    return z3.Const(f"sk!{hint}{_sk[0]}", INT)


class Forall:
    """conjunct: for all 0 <= i < n, body(i)"""

    def __init__(self, n, body):
        self.n, self.body = n, body


class Fail(Exception):
    def __init__(self, msg, model=None):
        Exception.__init__(self, msg)
        self.msg, self.model = msg, model


class Lost(Fail):
    """the specification cannot be anchored in this code (a type or field it names does not exist)"""


from patterns import *


class Prover(Matcher):
    def __init__(self, I, cvc5=False):
        self.I = I
        self.stats = {"queries": 0, "time": 0.0, "trivial": 0, "cvc5": 0, "cvc5_time": 0.0, "max": 0.0, "unknown": 0, "cvc5_disagree": []}
        self.cache = {}
        self.cvc5 = cvc5
        self.log = None

    # ------------------------------------------------------------------ entailment
    def entails(self, st, goal, timeout=20000):
        """None if pc |= goal, else a model (or the string 'unknown')"""
        goal = simp(goal)
        if z3.is_true(goal) or tid(goal) in st.pcset:
            self.stats["trivial"] += 1
            return None
        k = (frozenset(st.pcset), len(st.foralls), tid(goal))
        if k in self.cache:
            return self.cache[k]
        fs = st.pc + [z3.Not(goal)]
        fs = fs + self.I.inst_foralls(st, fs)
        fs = fs + self.I.axioms(fs)
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*fs)
        t0 = time.time()
        r = s.check()
        dt = time.time() - t0
        self.stats["queries"] += 1
        self.stats["time"] += dt
        self.stats["max"] = max(self.stats["max"], dt)
        if r == z3.unsat:
            res = None
            if self.cvc5:
                self.cross(s)
        elif r == z3.sat:
            res = s.model()
        else:
            self.stats["unknown"] += 1
            res = "unknown"
            if self.cross(s) == "unsat":
                res = None
        self.cache[k] = res
        return res

    def cross(self, s):
        """second solver on the same query"""
        import subprocess
        import tempfile
        import os
        txt = "(set-logic ALL)\n" + s.to_smt2()
        f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
        f.write(txt)
        f.close()
        t0 = time.time()
        try:
            p = subprocess.run(["cvc5", "--strings-exp", "--tlimit=20000", f.name], capture_output=True, text=True, timeout=30)
            out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "error"
        except subprocess.TimeoutExpired:
            out = "timeout"
        os.unlink(f.name)
        self.stats["cvc5"] += 1
        self.stats["cvc5_time"] += time.time() - t0
        if out == "sat":
            self.stats["cvc5_disagree"].append(txt[:4000])
        return out

    def prove(self, st, goal, what=""):
        m = self.entails(st, goal)
        if m is not None:
            raise Fail(f"{what}: not implied: {short(goal)}", m if m != "unknown" else None)

    def sat(self, st, extra=None):
        """is the path (with an extra condition) satisfiable? unknown counts as satisfiable"""
        fs = list(st.pc) + ([extra] if extra is not None else [])
        fs = fs + self.I.inst_foralls(st, fs)
        r, _ = self.I.check(fs, 10000)
        return r != z3.unsat

    def prove_all(self, st, conj, what=""):
        for c in conj:
            if isinstance(c, Forall):
                k = skolem()
                s2 = st.copy()
                s2.assume(k >= 0)
                s2.assume(k < c.n)
                b = c.body(k)
                self.prove(s2, b, what + " (at an arbitrary index)")
            else:
                self.prove(st, c, what)

    def assume_all(self, st, conj):
        s = st.copy()
        for c in conj:
            if isinstance(c, Forall):
                ix = z3.Const(fresh_name("idx"), INT)
                s.foralls.append((c.n, ix, c.body(ix)))
            else:
                s.assume(simp(c))
        return s

    def prove_not_all(self, st, conj, what=""):
        """the path excludes the conjunction"""
        s = self.assume_all(st, conj)
        m = self.entails(s, z3.BoolVal(False) if False else z3.BoolVal(False))
        if m is not None:
            raise Fail(f"{what}: the path is compatible with the stated condition", m if m != "unknown" else None)

    # ------------------------------------------------------------------ structural equality
    def eq(self, st, a, b, path=""):
        """prove a == b under st; raises Fail"""
        I = self.I
        a, b = I.snapshot(st, a), I.snapshot(st, b)
        self._eq(st, a, b, path)

    def dead(self, st):
        return not self.sat(st)

    def _eq(self, st, a, b, path):
        I = self.I
        if is_term(a) and is_term(b):
            return self._eq_term(st, a, b, path)
        if key(a) == key(b):
            self.stats["trivial"] += 1
            return
        if isinstance(a, (Adt, Sym)) and isinstance(b, (Adt, Sym)):
            if isinstance(a.ty, int) and isinstance(b.ty, int) and a.ty != b.ty and isinstance(a, Sym) and isinstance(b, Sym):
                raise Fail(f"{path}: different types")
            ta, tb = I.tag(a), I.tag(b)
            if isinstance(ta, int) and isinstance(tb, int):
                if ta != tb:
                    if self.dead(st):
                        return
                    raise Fail(f"{path}: variant {self.vn(a, ta)}, expected {self.vn(b, tb)}", self.model(st))
                return self._eq_fields(st, a, b, ta, path)
            if isinstance(ta, int) or isinstance(tb, int):
                v = ta if isinstance(ta, int) else tb
                t = tb if isinstance(ta, int) else ta
                self.prove(st, t == v, f"{path}: variant {self.vn(a if isinstance(ta, int) else b, v)}")
                return self._eq_fields(st, a, b, v, path)
            self.prove(st, ta == tb, f"{path}: variant")
            for i in I.tag_range[ta.decl().name()]:
                s2 = st.copy().assume(simp(ta == i))
                if I.feasible(st, ta == i):
                    self._eq_fields(s2, a, b, i, path + "." + self.vn(a, i))
            return
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self._eq_seq(st, a, b, path)
        if isinstance(a, FnV) and isinstance(b, FnV) and a.fid == b.fid:
            return
        raise Fail(f"{path}: cannot compare {type(a).__name__} with {type(b).__name__}")

    def vn(self, v, i):
        try:
            return self.I.variants(v.ty)[i]["name"]
        except Exception:
            return str(i)

    def model(self, st):
        fs = list(st.pc)
        fs += self.I.inst_foralls(st, fs)
        r, s = self.I.check(fs, 10000)
        return s.model() if r == z3.sat else None

    def _eq_fields(self, st, a, b, var, path):
        I = self.I
        if isinstance(a, Adt):
            n = len(a.fields)
        elif isinstance(b, Adt):
            n = len(b.fields)
        else:
            n = len(I.variants(a.ty)[var]["fields"])
        for i in range(n):
            try:
                nm = I.variants((a if isinstance(a.ty, int) else b).ty)[var]["fields"][i]["name"]
            except Exception:
                nm = str(i)
            x, y = I.snapshot(st, I.field(a, i, var)), I.snapshot(st, I.field(b, i, var))
            self._eq(st, x, y, f"{path}.{nm}")

    def _eq_term(self, st, a, b, path):
        I = self.I
        if a.eq(b):
            self.stats["trivial"] += 1
            return
        if a.sort() != b.sort():
            raise Fail(f"{path}: different sorts {a.sort()} {b.sort()}")
        if a.sort() == STR:
            fa, fb = flat(a), flat(b)
            if len(fa) == len(fb) and (len(fa) > 1 or I.enc_of(a)):
                ok = True
                for x, y in zip(fa, fb):
                    if x.eq(y):
                        continue
                    ex, ey = I.enc_of(x), I.enc_of(y)
                    if ex and ey and ex[0] == ey[0] and self.same_ty(ex[1], ey[1]):
                        I.used_assumptions.add("codec-congruent")
                        self._eq(st, ex[2], ey[2], f"{path}<{ex[0]}>")
                        continue
                    if len(fa) == 1 and (ex or ey):
                        # an encoding against something that is not that encoding
                        m = self.entails(st, x == y)
                        if m is None:
                            continue
                        raise Fail(f"{path}: {self.describe(x)} where {self.describe(y)} is expected", m if m != "unknown" else None)
                    m = self.entails(st, x == y)
                    if m is not None:
                        ok = False
                        break
                if ok:
                    return
        self.prove(st, a == b, path)

    def same_ty(self, x, y):
        return x == y

    def describe(self, t):
        e = self.I.enc_of(t)
        if e:
            ty = self.I.P.types[e[1]]["s"] if isinstance(e[1], int) and e[1] else ""
            return f"{e[0]}({ty})"
        return short(t)

    def norm_segs(self, st, q):
        out = []
        for s in q.segs:
            if isinstance(s, Lit):
                out.append(s)
                continue
            n = simp(self.I.seg_len(s))
            if conc(n) == 0:
                continue
            if conc(n) is None and self.entails(st, n == 0) is None:
                continue
            if isinstance(s, Comp):
                alts = [(c, vs) for c, vs in s.alts]
                if all(len(vs) == 0 for _, vs in alts):
                    continue
            c = conc(n)
            if c is None:
                # a segment whose length is fixed by the path
                for k in (1, 2, 3):
                    if self.I.feasible(st, n == k) and self.entails(st, n == k) is None:
                        c = k
                        break
            if c is not None and c <= 8 and (isinstance(s, SymSeg) or (isinstance(s, Comp) and all(len(vs) == 1 for _, vs in s.alts) and len(s.alts) == 1)):
                out.append(Lit([self.I.seg_elem(s, z3.IntVal(i)) for i in range(c)]))
                continue
            out.append(s)
        return list(Seq(out).segs)

    def alts_at(self, s, k):
        """[(cond, values)] of segment s at index k"""
        if isinstance(s, SymSeg):
            return [(z3.BoolVal(True), (self.I.seg_elem(s, k),))]
        if isinstance(s, Comp):
            pr = [(s.idx, k)]
            return [(simp(z3.substitute(c, *pr)), tuple(subst(x, pr) for x in vs)) for c, vs in s.alts]
        raise Fail(f"sequence segment {type(s).__name__} is unknown (havoc)")

    def _eq_seq(self, st, a, b, path):
        sa, sb = self.norm_segs(st, a), self.norm_segs(st, b)
        ia = ib = 0
        pos = 0
        while ia < len(sa) and ib < len(sb):
            x, y = sa[ia], sb[ib]
            if isinstance(x, Lit) and isinstance(y, Lit):
                n = min(len(x.vals), len(y.vals))
                for i in range(n):
                    self._eq(st, self.I.snapshot(st, x.vals[i]), self.I.snapshot(st, y.vals[i]), f"{path}[{pos + i}]")
                pos += n
                sa[ia] = Lit(x.vals[n:])
                sb[ib] = Lit(y.vals[n:])
                ia += not sa[ia].vals
                ib += not sb[ib].vals
                continue
            if isinstance(x, Lit) or isinstance(y, Lit):
                if self.dead(st):
                    return
                raise Fail(f"{path}: literal elements against a symbolic run at position {pos}", self.model(st))
            if seg_key(x) == seg_key(y):
                self.stats["trivial"] += 1
                ia += 1
                ib += 1
                continue
            nx = x.n if isinstance(x, Comp) else self.I.seg_len(x)
            ny = y.n if isinstance(y, Comp) else self.I.seg_len(y)
            self.prove(st, nx == ny, f"{path}: number of elements")
            k = skolem("e")
            s2 = st.copy()
            s2.assume(k >= 0)
            s2.assume(simp(k < nx))
            old = self.I.idx_ctx
            ax, ay = self.alts_at(x, k), self.alts_at(y, k)
            for cx, vx in ax:
                if len(ax) > 1 and not self.I.feasible(s2, cx):
                    continue
                s3 = s2.copy().assume(cx)
                for cy, vy in ay:
                    if not self.I.feasible(s3, cy):
                        continue
                    s4 = s3.copy().assume(cy)
                    if len(vx) != len(vy):
                        if self.dead(s4):
                            continue
                        raise Fail(f"{path}[i]: {len(vx)} elements, expected {len(vy)}", self.model(s4))
                    for u, v in zip(vx, vy):
                        self._eq(s4, self.I.snapshot(s4, u), self.I.snapshot(s4, v), f"{path}[i]")
            ia += 1
            ib += 1
        if ia < len(sa) or ib < len(sb):
            if self.dead(st):
                return
            raise Fail(f"{path}: {'more' if ia < len(sa) else 'fewer'} elements than expected", self.model(st))


def short(t, n=300):
    s = str(t).replace("\n", " ")
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "…"
