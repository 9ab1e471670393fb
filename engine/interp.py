"""Symbolic execution of monomorphised MIR.

exec_fn() runs one function body from a symbolic state and returns the list of all its outcomes
(state, kind, value) with kind in {"ret", "panic"}.  Calls are resolved in this order: contract of
the callee if it has one (modular verification), engine contract of a std/dependency function
(hooks.py), body of the callee (inlining), and otherwise havoc, i.e. the contract `true`.
"""
import json
import time
import z3
from values import *

MAXDEPTH = 90
LOOP_LIMIT = 70


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.fns = d["fns"]
        self.roots = {n.split("::")[-1]: f for n, f in d["roots"]}
        self.by_name = {}
        self.by_def = {}
        for i, f in enumerate(self.fns):
            self.by_name.setdefault(f["name"], i)
            self.by_def.setdefault(f["def"], []).append(i)
        self.ty_by_s = {}
        for i, t in enumerate(self.types):
            self.ty_by_s.setdefault(t["s"], i)
        self._bytes = {}
        self._sccs = {}
        self._loops = {}

    def ty(self, s):
        """type id by printed name"""
        return self.ty_by_s[s]

    def tk(self, t):
        return self.types[t]

    def is_bytes(self, t):
        r = self._bytes.get(t)
        if r is None:
            d = self.types[t]
            k = d["k"]
            if k == "str":
                r = True
            elif k in ("slice", "array"):
                e = self.types[d["elem"]]
                r = e["k"] == "int" and e["bits"] == 8 and not e["signed"]
            elif k == "adt" and d["name"] == "std::string::String":
                r = True
            elif k == "adt" and d["name"] == "std::vec::Vec":
                e = self.types[d["args"][0]]
                r = e["k"] == "int" and e["bits"] == 8 and not e["signed"]
            else:
                r = False
            self._bytes[t] = r
        return r

    def seq_elem(self, t):
        d = self.types[t]
        if d["k"] in ("slice", "array"):
            return d["elem"]
        if d["k"] == "adt" and d["name"] == "std::vec::Vec":
            return d["args"][0]
        return None

    def is_uninhabited(self, t, depth=0):
        d = self.types[t]
        if d["k"] == "never":
            return True
        if depth > 3:
            return False
        if d["k"] == "tuple":
            return any(self.is_uninhabited(e, depth + 1) for e in d["elems"])
        if d["k"] == "adt":
            if d["adt_kind"].lower() == "union":
                return False
            return all(any(self.is_uninhabited(f["ty"], depth + 1) for f in v["fields"]) for v in d["variants"])
        return False

    def variant_index(self, t, name):
        for i, v in enumerate(self.types[t]["variants"]):
            if v["name"] == name:
                return i
        raise KeyError(name)

    def field_index(self, t, var, name):
        for i, f in enumerate(self.types[t]["variants"][var]["fields"]):
            if f["name"] == name:
                return i
        raise KeyError(name)

    def scc_of(self, fid, bb):
        """natural loop headed by bb: its strongly connected component once the blocks that
        strictly dominate bb (headers of enclosing loops) are removed"""
        k = (fid, bb)
        r = self._loops.get(k)
        if r is None:
            adj = [succs(b["t"]) for b in self.fns[fid]["body"]["blocks"]]

            def reach(start, banned):
                seen, work = set(), [start]
                while work:
                    v = work.pop()
                    if v in seen or v in banned:
                        continue
                    seen.add(v)
                    work.extend(adj[v])
                return seen
            full = reach(0, ())
            doms = {d for d in full if d != bb and bb not in reach(0, (d,))}
            fwd = reach(bb, doms)
            r = self._loops[k] = frozenset(v for v in fwd if bb in reach_from(adj, v, doms))
        return r


def reach_from(adj, v, banned):
    seen, work = set(), list(adj[v])
    while work:
        x = work.pop()
        if x in seen or x in banned:
            continue
        seen.add(x)
        work.extend(adj[x])
    return seen


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [b for _, b in t["br"]] + [t["other"]]
    if k in ("assert", "call"):
        return [t["t"]] if t.get("t") is not None else []
    return []


def sccs(body):
    n = len(body["blocks"])
    adj = [succs(b["t"]) for b in body["blocks"]]
    index, low, on, st, out, comp = {}, {}, set(), [], [], {}
    cnt = [0]

    def go(v0):
        work = [(v0, 0)]
        while work:
            v, pi = work.pop()
            if pi == 0:
                index[v] = low[v] = cnt[0]
                cnt[0] += 1
                st.append(v)
                on.add(v)
            rec = False
            for j in range(pi, len(adj[v])):
                w = adj[v][j]
                if w not in index:
                    work.append((v, j + 1))
                    work.append((w, 0))
                    rec = True
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            if rec:
                continue
            if low[v] == index[v]:
                c = set()
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.add(w)
                    if w == v:
                        break
                fs = frozenset(c)
                for w in c:
                    comp[w] = fs
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
    for v in range(n):
        if v not in index:
            go(v)
    return comp


class State:
    __slots__ = ("mem", "pc", "pcset", "store", "foralls", "notes")

    def __init__(self):
        self.mem, self.pc, self.pcset, self.store, self.foralls, self.notes = {}, [], set(), {}, [], []

    def copy(self):
        s = State()
        s.mem, s.pc, s.pcset = dict(self.mem), list(self.pc), set(self.pcset)
        s.store, s.foralls, s.notes = dict(self.store), list(self.foralls), list(self.notes)
        return s

    def assume(self, c):
        if z3.is_true(c):
            return self
        for p in conj(c):
            i = tid(p)
            if i not in self.pcset:
                self.pcset.add(i)
                self.pc.append(p)
        return self

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)


def conj(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += conj(x)
        return out
    return [c]


def mk_not(c):
    if z3.is_true(c):
        return z3.BoolVal(False)
    if z3.is_false(c):
        return z3.BoolVal(True)
    if z3.is_not(c):
        return c.children()[0]
    return z3.Not(c)


def simp(c):
    return z3.simplify(c)


def semver_axioms(ts):
    """the order of semantic versions on their numeric components, and the parse of constant texts"""
    import re
    out = []
    g = lambda n, t: app("parse:semver::Version." + n, (t,), INT)
    for t in ts:
        c = str_const(t)
        m = c is not None and re.fullmatch(rb"(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)", c if isinstance(c, bytes) else c.encode())
        if m:
            out.append(app("parse_ok:semver::Version", (t,), BOOL))
            out += [g(n, t) == int(x) for n, x in zip(("major", "minor", "patch"), m.groups())]
    for i, a in enumerate(ts):
        for b in ts[i + 1:]:
            ra, rb = app("semver_rank", (a,), INT), app("semver_rank", (b,), INT)
            A, B = [[g(n, t) for n in ("major", "minor", "patch")] for t in (a, b)]
            lt = z3.Or(A[0] < B[0], z3.And(A[0] == B[0], A[1] < B[1]), z3.And(A[0] == B[0], A[1] == B[1], A[2] < B[2]))
            gt = z3.Or(A[0] > B[0], z3.And(A[0] == B[0], A[1] > B[1]), z3.And(A[0] == B[0], A[1] == B[1], A[2] > B[2]))
            out += [z3.Implies(lt, ra < rb), z3.Implies(gt, ra > rb)]
    return out


class Interp:
    def __init__(self, prog, hooks, contracts=None, opts=None):
        self.P = prog
        self.hooks = hooks              # name -> handler
        self.contracts = contracts or {}   # def name -> summary handler (callee contracts)
        self.opts = opts or {}
        self.defaults = {}              # immutable default contents of cells
        self.const_cache = {}
        self.frame_no = 0
        self.cell_no = 0
        self.int_range = {}             # z3 decl name -> (lo, hi)
        self.tag_range = {}             # z3 decl name -> list of allowed variant indices
        self.nonneg = set()
        self.enc = {}                   # symbol -> (kind, ty, params, tree)
        self.enc_keys = {}
        self.depth = 0
        self.stats = {"solver_calls": 0, "solver_time": 0.0, "steps": 0, "inlined": set(), "hooked": set(),
                      "havoc": {}, "contract_calls": set()}
        self.feas_cache = {}
        self.defaults[("STORAGE",)] = z3.Const("storage", OPQ)
        self.deadline = None
        self.used_assumptions = set()
        self.store_types = {}
        self.idx_ctx = []
        self.clone_cache = {}
        self.local_crates = {"cw_ica_controller", "cw_ica_owner", "callback_counter", "roots"}

    # ---------------------------------------------------------------- symbolic leaves
    def leaf(self, ty, fn, args=()):
        P = self.P
        d = P.types[ty]
        k = d["k"]
        if P.is_bytes(ty):
            return app(fn, args, STR)
        if k == "int":
            t = app(fn, args, INT)
            lo, hi = (-(1 << (d["bits"] - 1)), (1 << (d["bits"] - 1)) - 1) if d["signed"] else (0, (1 << d["bits"]) - 1)
            self.int_range[t.decl().name()] = (lo, hi)
            return t
        if k == "char":
            t = app(fn, args, INT)
            self.int_range[t.decl().name()] = (0, 0x10FFFF)
            return t
        if k == "bool":
            return app(fn, args, BOOL)
        if k in ("ref", "ptr"):
            if self.P.types[d["to"]]["k"] == "dyn" and "Storage" in self.P.types[d["to"]]["s"]:
                return Ref(("STORAGE",))
            cell = ("S", fn, d["to"]) + tuple(tid(a) for a in args)
            if cell not in self.defaults:
                self.defaults[cell] = self.leaf(d["to"], fn + ".*", args)
            return Ref(cell)
        el = P.seq_elem(ty)
        if el is not None:
            return Seq([SymSeg(fn, args, el)])
        if k == "tuple":
            if not d["elems"]:
                return Adt(ty, 0, ())
            return Sym(ty, fn, args)
        if k == "adt":
            if d["adt_kind"].lower() == "union" or not d["variants"]:
                return app(fn, args, OPQ)
            if d["name"] in ("std::boxed::Box",):
                cell = ("S", fn, d["args"][0]) + tuple(tid(a) for a in args)
                if cell not in self.defaults:
                    self.defaults[cell] = self.leaf(d["args"][0], fn + ".*", args)
                return BoxV(cell)
            if len(d["variants"]) == 1 and not d["variants"][0]["fields"]:
                return Adt(ty, 0, ())
            return Sym(ty, fn, args)
        if k == "closure":
            return Sym(ty, fn, args)
        if k == "fndef":
            return FnV(d["fn"], ty)
        return app(fn, args, OPQ)

    def fresh(self, ty, hint="h"):
        return self.leaf(ty, fresh_name(hint), tuple(self.idx_ctx))

    def fresh_term(self, sort, hint="h"):
        return app(fresh_name(hint), tuple(self.idx_ctx), sort)

    def variants(self, ty):
        d = self.P.types[ty]
        if d["k"] == "adt":
            return d["variants"]
        if d["k"] == "tuple":
            return [{"name": "", "discr": "0", "fields": [{"name": str(i), "ty": t} for i, t in enumerate(d["elems"])]}]
        if d["k"] == "closure":
            up = d["upvars"]
            return [{"name": "", "discr": "0", "fields": [{"name": str(i), "ty": t} for i, t in enumerate(self.P.types[up]["elems"])]}]
        raise Unsupported(f"variants of {d['s']}")

    def tag(self, v):
        """variant index of a value as a z3 Int term (or python int)"""
        if isinstance(v, Adt):
            return v.var
        if isinstance(v, Sym):
            vs = self.variants(v.ty)
            ok = [i for i, x in enumerate(vs) if not any(self.P.is_uninhabited(f["ty"]) for f in x["fields"])]
            if len(ok) == 1:
                return ok[0]
            t = app(v.fn + ".tag", v.args, INT)
            self.tag_range[t.decl().name()] = ok
            return t
        raise Unsupported(f"tag of {type(v).__name__}")

    def sym_field(self, v, var, i):
        vs = self.variants(v.ty)
        f = vs[var]["fields"][i]
        nm = f"{v.fn}.{f['name']}" if len(vs) == 1 else f"{v.fn}.{vs[var]['name']}.{f['name']}"
        return self.leaf(f["ty"], nm, v.args)

    def expand(self, v, var=None):
        """Sym -> Adt with the given (or only) variant"""
        if isinstance(v, Adt):
            return v
        vs = self.variants(v.ty)
        if var is None:
            t = self.tag(v)
            if not isinstance(t, int):
                raise Unsupported("expand of a symbolic enum")
            var = t
        return Adt(v.ty, var, [self.sym_field(v, var, i) for i in range(len(vs[var]["fields"]))])

    def field(self, v, i, var=None):
        if isinstance(v, Adt):
            if var is not None and v.var != var:
                raise Unsupported("field of other variant")
            if i >= len(v.fields):
                raise Unsupported("field index")
            return v.fields[i]
        if isinstance(v, Sym):
            if var is None:
                t = self.tag(v)
                if not isinstance(t, int):
                    raise Unsupported("field of symbolic enum")
                var = t
            return self.sym_field(v, var, i)
        if isinstance(v, BoxV) and i == 0:
            return v
        if isinstance(v, Partial):
            for p, x in v.parts:
                if p == (("f", i),):
                    return x
            return Partial([(p[1:], x) for p, x in v.parts if p[:1] == (("f", i),)])
        raise Unsupported(f"field {i} of {type(v).__name__}")

    def F(self, v, *names):
        """field access by name (spec side); a leading 'Variant::' part selects the variant"""
        for nm in names:
            var = None
            if "::" in nm:
                vn, nm = nm.split("::")
                var = self.P.variant_index(v.ty, vn)
            elif isinstance(v, Adt):
                var = v.var
            else:
                var = self.tag(v)
                if not isinstance(var, int):
                    raise Unsupported(f"F({nm}) on enum")
            vs = self.variants(v.ty)
            for i, f in enumerate(vs[var]["fields"]):
                if f["name"] == nm:
                    if isinstance(v, Adt) and v.var != var:
                        raise Unsupported("F: variant mismatch")
                    v = self.field(v, i, var)
                    break
            else:
                raise Unsupported(f"no field {nm} in {self.P.types[v.ty]['s']}")
        return v

    def is_variant(self, v, name):
        """z3 Bool: v is of that variant"""
        i = self.P.variant_index(v.ty, name)
        t = self.tag(v)
        if isinstance(t, int):
            return z3.BoolVal(t == i)
        return t == i

    # ---------------------------------------------------------------- memory
    def new_cell(self):
        self.cell_no += 1
        return ("C", self.cell_no)

    def alloc(self, st, v):
        c = self.new_cell()
        st.mem[c] = v
        return c

    def read_cell(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            v = self.defaults.get(cell)
        if v is None:
            raise Unsupported(f"read of uninitialised cell {cell}")
        return v

    def get_path(self, st, v, path):
        var = None
        for e in path:
            k = e[0]
            if k == "v":
                var = e[1]
                continue
            if k == "f":
                v = self.field(v, e[1], var)
            elif k == "i":
                v = self.seq_get(st, v, e[1])
            elif k == "sub":
                v = self.seq_sub(v, e[1], e[2])
            else:
                raise Unsupported(f"path {e}")
            var = None
        return v

    def set_path(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "v":
            var = e[1]
            f = path[1]
            if isinstance(v, Sym):
                v = self.expand(v, var)
            if isinstance(v, Partial):
                return self.set_path(st, v, path[1:], new)
            if v.var != var:
                raise Unsupported("set field of other variant")
            return self.set_path(st, v, path[1:], new)
        if e[0] == "f":
            if v is None:
                v = Partial()
            if isinstance(v, Partial):
                parts = [(p, x) for p, x in v.parts if p[:len(path)] != tuple(path)]
                return Partial(parts + [(tuple(path), new)])
            if isinstance(v, Sym):
                v = self.expand(v)
            if not isinstance(v, Adt):
                raise Unsupported(f"set field of {type(v).__name__}")
            fs = list(v.fields)
            fs[e[1]] = self.set_path(st, fs[e[1]], path[1:], new)
            return Adt(v.ty, v.var, fs)
        if e[0] == "i":
            i = conc(e[1])
            if isinstance(v, Seq) and i is not None and len(v.segs) == 1 and isinstance(v.segs[0], Lit):
                vals = list(v.segs[0].vals)
                vals[i] = self.set_path(st, vals[i], path[1:], new)
                return Seq([Lit(vals)])
            raise Unsupported("indexed write to a symbolic sequence")
        raise Unsupported(f"set_path {e}")

    def read(self, st, cell, path):
        return self.get_path(st, self.read_cell(st, cell), path)

    def write(self, st, cell, path, v):
        if not path:
            st.mem[cell] = v
            return
        old = st.mem.get(cell)
        if old is None:
            old = self.defaults.get(cell)
        st.mem[cell] = self.set_path(st, old, tuple(path), v)

    def deref(self, st, v):
        n = 0
        while isinstance(v, (Ref, BoxV)):
            v = self.read(st, v.cell, v.path) if isinstance(v, Ref) else self.read(st, v.cell, ())
            n += 1
            if n > 20:
                raise Unsupported("deref loop")
        return v

    def snapshot(self, st, v):
        """replace every reference by what it points to"""
        if isinstance(v, (Ref, BoxV)):
            return self.snapshot(st, self.deref(st, v))
        if isinstance(v, Adt):
            return Adt(v.ty, v.var, [self.snapshot(st, f) for f in v.fields])
        if isinstance(v, Seq):
            out = []
            for s in v.segs:
                if isinstance(s, Lit):
                    out.append(Lit([self.snapshot(st, x) for x in s.vals]))
                elif isinstance(s, Comp):
                    out.append(Comp(s.n, s.idx, [(c, tuple(self.snapshot(st, x) for x in vs)) for c, vs in s.alts]))
                else:
                    out.append(s)
            return Seq(out)
        return v

    # ---------------------------------------------------------------- sequences
    def seg_len(self, s):
        if isinstance(s, Lit):
            return z3.IntVal(len(s.vals))
        if isinstance(s, SymSeg):
            t = app(s.fn + ".len", s.args, INT)
            self.int_range[t.decl().name()] = (0, (1 << 63) - 1)
            return t
        if isinstance(s, Comp):
            if all(len(vs) == 1 for _, vs in s.alts):
                return s.n
            if all(len(vs) == 0 for _, vs in s.alts):
                return z3.IntVal(0)
            return self.fresh_len("complen:" + str(abs(hash(seg_key(s)))))
        return self.fresh_len("len:" + str(s.key))

    def fresh_len(self, nm):
        t = z3.Const(nm, INT)
        self.int_range[nm] = (0, (1 << 63) - 1)
        return t

    def seq_len(self, v):
        if is_term(v):
            return z3.Length(v) if str_const(v) is None else z3.IntVal(len(str_const(v)))
        if isinstance(v, Seq):
            t = z3.IntVal(0)
            for s in v.segs:
                t = t + self.seg_len(s)
            return simp(t)
        raise Unsupported(f"len of {type(v).__name__}")

    def seg_elem(self, s, i):
        if isinstance(s, SymSeg):
            return self.leaf(s.elty, s.fn + ".at", s.args + (i,))
        if isinstance(s, Comp) and len(s.alts) == 1 and len(s.alts[0][1]) == 1:
            return subst(s.alts[0][1][0], [(s.idx, i)])
        raise Unsupported("element of a branching comprehension")

    def seq_get(self, st, v, i):
        if is_term(v):
            be = {"be16": 2, "be32": 4}.get(v.decl().name()) if z3.is_app(v) else None
            if be and conc(i) is not None and 0 <= conc(i) < be:
                return simp((v.arg(0) / 256 ** (be - 1 - conc(i))) % 256)
            return z3.StrToCode(z3.SubString(v, i, 1))
        if not isinstance(v, Seq):
            raise Unsupported(f"index into {type(v).__name__}")
        it = i if is_term(i) else z3.IntVal(i)
        ci = conc(it)
        off = 0
        for n, s in enumerate(v.segs):
            if isinstance(s, Lit):
                if ci is not None:
                    if ci - off < len(s.vals):
                        return s.vals[ci - off]
                    off += len(s.vals)
                    continue
                if len(v.segs) == 1 and len(s.vals) == 1:
                    return s.vals[0]
                raise Unsupported("symbolic index into literal sequence")
            if n == len(v.segs) - 1:
                return self.seg_elem(s, simp(it - off))
            raise Unsupported("index past symbolic segment")
        raise Unsupported("index out of range")

    def seq_sub(self, v, a, b):
        raise Unsupported("subslice")

    # ---------------------------------------------------------------- equality (as a z3 Bool)
    def eq(self, st, a, b):
        if a is b:
            return z3.BoolVal(True)
        if is_term(a) and is_term(b):
            if a.eq(b):
                return z3.BoolVal(True)
            if a.sort() != b.sort():
                raise Unsupported("eq of different sorts")
            ea, eb = self.enc_of(a), self.enc_of(b)
            if ea and eb and ea[0] == eb[0] and ea[1] == eb[1]:
                self.used_assumptions.add("codec-injective")
                return self.eq(st, ea[2], eb[2])
            return a == b
        a, b = self.deref(st, a), self.deref(st, b)
        if is_term(a) and is_term(b):
            return self.eq(st, a, b)
        if isinstance(a, (Adt, Sym)) and isinstance(b, (Adt, Sym)):
            if key(a) == key(b):
                return z3.BoolVal(True)
            if isinstance(a, Sym) and isinstance(b, Sym) and a.fn == b.fn and a.ty == b.ty and len(a.args) == len(b.args):
                # congruence is only sufficient; keep the structural definition
                pass
            ta, tb = self.tag(a), self.tag(b)
            if isinstance(ta, int) and isinstance(tb, int):
                if ta != tb:
                    return z3.BoolVal(False)
                return self.eq_fields(st, a, b, ta)
            if isinstance(ta, int):
                return z3.And(tb == ta, self.eq_fields(st, a, b, ta))
            if isinstance(tb, int):
                return z3.And(ta == tb, self.eq_fields(st, a, b, tb))
            parts = [ta == tb]
            for i in self.tag_range[ta.decl().name()]:
                f = self.eq_fields(st, a, b, i)
                if not z3.is_true(f):
                    parts.append(z3.Implies(ta == i, f))
            return z3.And(*parts)
        if isinstance(a, Seq) and isinstance(b, Seq):
            if key(a) == key(b):
                return z3.BoolVal(True)
            la, lb = lits(a), lits(b)
            if la is not None and lb is not None:
                if len(la) != len(lb):
                    return z3.BoolVal(False)
                return z3.And(*[self.eq(st, x, y) for x, y in zip(la, lb)]) if la else z3.BoolVal(True)
            return z3.Const(f"seqeq:{abs(hash((key(a), key(b))))}", BOOL)
        if isinstance(a, FnV) and isinstance(b, FnV):
            return z3.BoolVal(a.fid == b.fid)
        raise Unsupported(f"eq {type(a).__name__} {type(b).__name__}")

    def eq_fields(self, st, a, b, var):
        if isinstance(a, Adt):
            n = len(a.fields)
        elif isinstance(b, Adt):
            n = len(b.fields)
        else:
            n = len(self.variants(a.ty)[var]["fields"])
        cs = [self.eq(st, self.field(a, i, var), self.field(b, i, var)) for i in range(n)]
        cs = [c for c in cs if not z3.is_true(c)]
        if any(z3.is_false(c) for c in cs):
            return z3.BoolVal(False)
        if not cs:
            return z3.BoolVal(True)
        return z3.And(*cs) if len(cs) > 1 else cs[0]

    # ---------------------------------------------------------------- encodings
    def encode(self, kind, ty, tree):
        """opaque byte string for enc_kind(tree); injective, congruent"""
        params = val_idx(tree)
        canon = [z3.Const(f"idx!p{i}", INT) for i in range(len(params))]
        ct = subst(tree, list(zip(params, canon)))
        k = (kind, ty, key(ct))
        sym = self.enc_keys.get(k)
        if sym is None:
            sym = f"enc!{kind}!{len(self.enc_keys)}"
            self.enc_keys[k] = sym
            self.enc[sym] = (kind, ty, canon, ct)
        return app(sym, params, STR)

    def enc_of(self, t):
        if not is_term(t) or not z3.is_app(t):
            return None
        e = self.enc.get(t.decl().name())
        if e is None:
            return None
        kind, ty, params, tree = e
        return kind, ty, subst(tree, [(p, a) for p, a in zip(params, t.children()) if not p.eq(a)])

    # ---------------------------------------------------------------- solver
    def axioms(self, fs):
        """range facts for the integer and tag leaves occurring in the formulas"""
        out, seen, stack, vers = [], set(), list(fs), {}
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                r = self.int_range.get(nm)
                if nm == "chars.len":
                    a = t.children()[0]
                    out += [t >= 0, t <= z3.Length(a), (t == 0) == (a == z3.StringVal(""))]
                elif nm == "semver_rank" or nm.startswith("parse:semver::Version.") or nm == "parse_ok:semver::Version":
                    vers[tid(t.children()[0])] = t.children()[0]
                if r is not None:
                    out += [t >= r[0], t <= r[1]]
                else:
                    g = self.tag_range.get(nm)
                    if g is not None:
                        if g == list(range(len(g))):
                            out += [t >= 0, t < len(g)]
                        else:
                            out.append(z3.Or(*[t == x for x in g]))
            stack.extend(t.children())
        return out + (semver_axioms(list(vers.values())) if vers else [])

    def inst_foralls(self, st, fs):
        """instantiate the universally quantified facts of the state at the index terms in use"""
        if not st.foralls:
            return []
        idxs = []
        for f in list(fs) + st.pc:
            for x in term_idx(f):
                if not any(x.eq(y) for y in idxs):
                    idxs.append(x)
        out = []
        for n, ix, body in st.foralls:
            for x in idxs:
                if not x.eq(ix):
                    out.append(z3.Implies(z3.And(x >= 0, x < n), z3.substitute(body, (ix, x))))
        return out

    def check(self, fs, timeout=5000):
        s = z3.Solver()
        s.set("timeout", timeout)
        for f in fs:
            s.add(f)
        for a in self.axioms(fs):
            s.add(a)
        t0 = time.time()
        r = s.check()
        self.stats["solver_calls"] += 1
        self.stats["solver_time"] += time.time() - t0
        return r, s

    def feasible(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if tid(c) in st.pcset:
            return True
        nc = simp(z3.Not(c))
        if tid(nc) in st.pcset or any(tid(x) in st.pcset for x in [mk_not(c)]):
            return False
        k = (frozenset(st.pcset), tid(c))
        r = self.feas_cache.get(k)
        if r is None:
            r = self.lengths(st.pc, c)
        if r is None:
            fs = st.pc + [c]
            res, _ = self.check(fs + self.inst_foralls(st, fs), self.opts.get("feas_timeout", 3000))
            r = res != z3.unsat
            self.feas_cache[k] = r
        return r

    def lengths(self, pc, c):
        """feasibility of a condition over integers and lengths of byte strings (each at most isize::MAX long), with the
        lengths as integers of their own; None: not decided"""
        if not has_length(c):
            return None
        subs, fs, exact = {}, [], True
        for f in pc + [c]:
            g = len_free(f, subs)
            if g is None:
                exact = False
            else:
                fs.append(g)
        s = z3.Solver()
        s.set("timeout", 1000)
        for v in subs.values():
            s.add(v >= 0, v < 1 << 63)
        s.add(*fs)
        self.stats["solver_calls"] += 1
        r = s.check()
        return False if r == z3.unsat else True if r == z3.sat and exact else None

    def fork(self, st, conds):
        """conds: list of (cond, payload); yields (state, payload) for the feasible ones"""
        out = []
        live = [(c, p) for c, p in conds if not z3.is_false(simp(c))]
        for c, p in live:
            if self.feasible(st, c):
                s2 = st.copy()
                s2.assume(simp(c))
                out.append((s2, p))
        return out

    # ---------------------------------------------------------------- constants
    def const(self, c):
        k = id(c)
        r = self.const_cache.get(k)
        if r is None:
            r = self.const_cache[k] = (c, self.mkconst(c))
        return r[1]

    def mkconst(self, c):
        P = self.P
        if "int" in c:
            return z3.IntVal(int(c["int"]))
        if "bool" in c:
            return z3.BoolVal(c["bool"])
        if "str" in c:
            return sbytes(bytes(c["str"]))
        if "bytes" in c:
            return sbytes(bytes(c["bytes"]))
        if "fn" in c:
            return FnV(c["fn"], None)
        if "ref" in c:
            cell = self.new_cell()
            self.defaults[cell] = self.const(c["ref"])
            return Ref(cell)
        if "adt" in c:
            if P.is_bytes(c["adt"]):
                return sbytes(b"")
            if P.seq_elem(c["adt"]) is not None:
                return Seq()
            return Adt(c["adt"], c["variant"], [self.const(f) for f in c["fields"]])
        if "tuple" in c:
            return Adt(c["ty"], 0, [self.const(f) for f in c["tuple"]])
        if "array" in c:
            return Seq([Lit([self.const(f) for f in c["array"]])])
        if "slice" in c:
            return Seq([Lit([self.const(f) for f in c["slice"]])])
        if "zst" in c:
            return self.zst(c["zst"])
        if "ty" in c:
            return self.fresh(c["ty"], "const")
        return z3.Const(fresh_name("opaque"), OPQ)

    def zst(self, ty):
        d = self.P.types[ty]
        if d["k"] == "fndef":
            return FnV(d["fn"], ty)
        if self.P.is_bytes(ty):
            return sbytes(b"")
        if self.P.seq_elem(ty) is not None:
            return Seq()
        if d["k"] in ("tuple", "closure"):
            return Adt(ty, 0, [self.zst(f["ty"]) for f in self.variants(ty)[0]["fields"]])
        if d["k"] == "adt" and d["variants"]:
            return Adt(ty, 0, [self.zst(f["ty"]) for f in d["variants"][0]["fields"]])
        return z3.Const(fresh_name("zst"), OPQ)

    # ---------------------------------------------------------------- MIR places, operands, rvalues
    def resolve(self, st, fr, p):
        cell, path = ("L", fr, p["l"]), ()
        for e in p["p"]:
            if e == "*":
                v = self.read(st, cell, path)
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
                elif isinstance(v, BoxV):
                    cell, path = v.cell, ()
                else:
                    raise Unsupported(f"deref of {type(v).__name__}")
            elif e == "opaquecast":
                pass
            elif "f" in e:
                path = path + (("f", e["f"]),)
            elif "v" in e:
                path = path + (("v", e["v"]),)
            elif "idx" in e:
                path = path + (("i", self.read(st, ("L", fr, e["idx"]), ())),)
            elif "cidx" in e:
                if e["from_end"]:
                    n = self.seq_len(self.read(st, cell, path))
                    path = path + (("i", simp(n - e["cidx"])),)
                else:
                    path = path + (("i", z3.IntVal(e["cidx"])),)
            else:
                raise Unsupported(f"projection {e}")
        return cell, path

    def operand(self, st, fr, o):
        if "copy" in o or "move" in o:
            p = o.get("copy") or o.get("move")
            cell, path = self.resolve(st, fr, p)
            return self.read(st, cell, path)
        if "const" in o:
            return self.const(o["const"])
        if "rtcheck" in o:
            return z3.BoolVal(False)
        raise Unsupported(f"operand {o}")

    def wrap(self, t, ty):
        d = self.P.types[ty]
        c = conc(t)
        m = 1 << d["bits"]
        if c is not None:
            c %= m
            if d["signed"] and c >= m // 2:
                c -= m
            return z3.IntVal(c)
        if d["signed"]:
            r = t % m
            return z3.If(r >= m // 2, r - m, r)
        return t % m

    def in_range(self, t, ty):
        d = self.P.types[ty]
        lo, hi = (-(1 << (d["bits"] - 1)), (1 << (d["bits"] - 1)) - 1) if d["signed"] else (0, (1 << d["bits"]) - 1)
        return z3.And(t >= lo, t <= hi)

    def arith(self, op, a, b, ty):
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        ca, cb = conc(a) if z3.is_int(a) else None, conc(b) if z3.is_int(b) else None
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            if ca is None and cb is None:
                raise Unsupported("nonlinear multiplication")
            return a * b
        if op == "Div":
            return a / b if not self.P.types[ty]["signed"] else self.bad("signed div")
        if op == "Rem":
            return a % b if not self.P.types[ty]["signed"] else self.bad("signed rem")
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            if ca is not None and cb is not None:
                m = 1 << self.P.types[ty]["bits"]
                r = {"BitAnd": lambda: ca & cb, "BitOr": lambda: ca | cb, "BitXor": lambda: ca ^ cb,
                     "Shl": lambda: (ca << cb) % m, "Shr": lambda: ca >> cb}[op]()
                return z3.IntVal(r)
            if op == "Shl" and cb is not None:
                return a * (1 << cb)
            if op == "Shr" and cb is not None:
                return a / (1 << cb)
            if op == "BitAnd" and cb is not None and (cb & (cb + 1)) == 0:
                return a % (cb + 1)
            raise Unsupported(f"bit operation {op}")
        raise Unsupported(f"arith {op}")

    def bad(self, m):
        raise Unsupported(m)

    def binop(self, st, op, a, b, ty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            if not (is_term(a) and is_term(b)):
                e = self.eq(st, a, b)
                if op == "Eq":
                    return e
                if op == "Ne":
                    return mk_not(e)
                raise Unsupported("ordering of non-scalars")
            if op == "Eq":
                return self.eq(st, a, b)
            if op == "Ne":
                return mk_not(self.eq(st, a, b))
            if z3.is_bool(a):
                a, b = z3.If(a, 1, 0), z3.If(b, 1, 0)
            if op == "Cmp":
                ot = self.P.ty("std::cmp::Ordering")
                raise Unsupported("Cmp")
            return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
        if z3.is_bool(a) and z3.is_bool(b):
            return {"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[op](a, b)
        r = self.arith(op, a, b, ty)
        if op in ("Add", "Sub", "Mul"):
            return self.wrap(r, ty)
        return r

    def rvalue(self, st, fr, r):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k in ("ref", "addrof"):
            cell, path = self.resolve(st, fr, r["p"])
            return Ref(cell, path)
        if k == "len":
            cell, path = self.resolve(st, fr, r["p"])
            return self.seq_len(self.read(st, cell, path))
        if k == "discr":
            cell, path = self.resolve(st, fr, r["p"])
            return self.discr(self.read(st, cell, path), r.get("ty"))
        if k == "bin":
            return self.binop(st, r["op"], self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"]), r["oty"])
        if k == "cbin":
            a, b = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
            t = self.arith(r["op"], a, b, r["oty"])
            t = simp(t)
            ok = simp(self.in_range(t, r["oty"]))
            return Adt(("cbin",), 0, [self.wrap(t, r["oty"]) if not z3.is_true(ok) and conc(t) is not None else t, mk_not(ok)])
        if k == "un":
            v = self.operand(st, fr, r["o"])
            if r["op"] == "Not":
                if z3.is_bool(v):
                    return mk_not(v)
                raise Unsupported("bitwise not")
            if r["op"] == "Neg":
                return -v
            if r["op"] == "PtrMetadata":
                return self.seq_len(self.deref(st, v))
            raise Unsupported(r["op"])
        if k == "cast":
            return self.cast(st, r, self.operand(st, fr, r["o"]))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r["ops"]]
            ak = r["ak"]
            ty = r["ty"]
            if ak == "array":
                if ty is not None and self.P.is_bytes(ty):
                    return self.bytes_of_ints(ops)
                return Seq([Lit(ops)])
            if ak in ("tuple", "closure"):
                return Adt(ty, 0, ops)
            if ak == "adt":
                if self.P.is_bytes(ty) or self.P.seq_elem(ty) is not None:
                    raise Unsupported("raw construction of a Vec/String")
                return Adt(ty, r["variant"], ops)
            raise Unsupported(f"aggregate {ak}")
        if k == "repeat":
            v = self.operand(st, fr, r["o"])
            if is_term(v) and z3.is_int(v) and conc(v) is not None and r["n"] is not None and r["n"] <= 4096:
                return sbytes(bytes([conc(v)] * r["n"]))
            if r["n"] is not None and r["n"] <= 64:
                return Seq([Lit([v] * r["n"])])
        raise Unsupported(f"rvalue {k}")

    def bytes_of_ints(self, ops):
        if all(conc(o) is not None for o in ops):
            return sbytes(bytes(conc(o) for o in ops))
        return z3.Concat(*[z3.StrFromCode(o) for o in ops]) if len(ops) > 1 else z3.StrFromCode(ops[0])

    def discr(self, v, ty=None):
        vs = self.variants(v.ty)
        t = self.tag(v)
        if ty is not None and self.P.types[ty]["k"] != "int":
            ty = None
        ds = [sval(x["discr"], self.P, ty) for x in vs]
        if isinstance(t, int):
            return z3.IntVal(ds[t])
        if ds == list(range(len(ds))):
            return t
        r = z3.IntVal(ds[-1])
        for i in range(len(ds) - 2, -1, -1):
            r = z3.If(t == i, z3.IntVal(ds[i]), r)
        return r

    def cast(self, st, r, v):
        ck = r["ck"]
        d = self.P.types[r["ty"]]
        if ck.startswith("IntToInt"):
            if z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            fd = self.P.types[r["from"]] if r.get("from") is not None else None
            if isinstance(v, (Adt, Sym)):
                return self.discr(v, r.get("from"))
            if d["k"] == "char":
                return v
            if fd and fd["k"] == "int" and fd["bits"] <= d["bits"] and (fd["signed"] == d["signed"] or (not fd["signed"] and fd["bits"] < d["bits"])):
                return v
            if fd and fd["k"] == "char" and d["bits"] >= 32:
                return v
            if fd and fd["k"] == "int" and not fd["signed"] and not d["signed"] and conc(v) is None and not self.feasible(st, v >= 1 << d["bits"]):
                return v
            return self.wrap(v, r["ty"])
        if "Box" in ck and isinstance(v, BoxV):
            return Ref(v.cell)
        if "Unsize" in ck or "PtrToPtr" in ck or "MutToConst" in ck or "ReifyFnPointer" in ck or "ClosureFnPointer" in ck or "Subtype" in ck or "UnsafeFnPointer" in ck:
            return v
        if ck.startswith("Transmute"):
            fs, ts = (self.P.types[r["from"]]["s"] if r.get("from") is not None else ""), d["s"]
            if isinstance(v, (Ref, BoxV)) and d["k"] in ("ref", "ptr", "adt"):
                return v
            if r.get("from") == r["ty"]:
                return v
            if is_term(v) and d["k"] == "int":
                return v
        raise Unsupported(f"cast {ck}")

    # ---------------------------------------------------------------- function execution
    def exec_fn(self, st, fid, args):
        """run the body of function fid on argument values; returns outcomes"""
        f = self.P.fns[fid]
        body = f["body"]
        if body is None:
            raise Unsupported(f"no body: {f['name']}")
        if self.depth > MAXDEPTH:
            raise Unsupported("call depth")
        self.depth += 1
        self.frame_no += 1
        fr = self.frame_no
        try:
            st = st.copy()
            n = body["argc"]
            if body["spread"] is not None and len(args) != n:
                raise Unsupported("spread arg")
            if len(args) != n:
                raise Unsupported(f"arity {f['name']} {len(args)} != {n}")
            for i, a in enumerate(args):
                st.mem[("L", fr, i + 1)] = a
            outs = self.run_blocks(st, fid, fr, 0, None)
            res = []
            for s2, kind, v in outs:
                self.drop_frame(s2, fr, len(body["locals"]))
                res.append((s2, kind, v))
            return res
        finally:
            self.depth -= 1

    def drop_frame(self, st, fr, n):
        for i in range(n):
            st.mem.pop(("L", fr, i), None)

    def run_blocks(self, st0, fid, fr, bb0, stop, entry_call_result=None):
        """Execute from block bb0.  If `stop` = (scc, header) is given, also stop when control
        returns to `header` (outcome kind "back") or leaves the loop (kind ("exit", bb))."""
        body = self.P.fns[fid]["body"]
        work = [(st0, bb0, {}, True)]
        outs = []
        while work:
            st, bb, visits, first = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            if stop is not None and not first:
                if bb == stop[1]:
                    outs.append((st, "back", None))
                    continue
                if bb not in stop[0]:
                    outs.append((st, ("exit", bb), None))
                    continue
            c = visits.get(bb, 0) + 1
            if c == 1 and not (first and stop is not None and bb == stop[1]) and bb in self.loop_blocks(fid):
                import iters
                r = iters.counter_loop(self, st, fid, fr, bb)
                if r is not None:
                    for s2, kind, v in r:
                        if kind == "resume":
                            work.append((s2, v, visits, False))
                        else:
                            outs.append((s2, kind, v))
                    continue
            if c > LOOP_LIMIT:
                raise Unsupported(f"loop bound in {self.P.fns[fid]['name']}")
            if c > 1 or bb in self.loop_blocks(fid):
                visits = dict(visits)
                visits[bb] = c
            blk = body["blocks"][bb]
            self.stats["steps"] += 1
            for s in blk["s"]:
                if s["k"] == "assign":
                    v = self.rvalue(st, fr, s["r"])
                    cell, path = self.resolve(st, fr, s["p"])
                    self.write(st, cell, path, v)
                elif s["k"] == "setdiscr":
                    raise Unsupported("set_discriminant")
                elif s["k"] == "assume":
                    st.assume(simp(self.operand(st, fr, s["o"])))
                else:
                    raise Unsupported(s.get("s", s["k"]))
            t = blk["t"]
            k = t["k"]
            if k == "goto":
                work.append((st, t["t"], visits, False))
            elif k == "ret":
                outs.append((st, "ret", st.mem.get(("L", fr, 0), Adt(None, 0, ()))))
            elif k == "switch":
                v = self.operand(st, fr, t["o"])
                conds = []
                isb = z3.is_bool(v)
                cv = conc(v) if not isb else (True if z3.is_true(simp(v)) else False if z3.is_false(simp(v)) else None)
                if cv is not None:
                    cv = int(cv)
                    tgt = t["other"]
                    for val, b in t["br"]:
                        if sval(val, self.P, t["ty"]) == cv:
                            tgt = b
                            break
                    work.append((st, tgt, visits, False))
                    continue
                neg = []
                for val, b in t["br"]:
                    x = sval(val, self.P, t["ty"])
                    cnd = (v if x else mk_not(v)) if isb else v == x
                    conds.append((cnd, b))
                    neg.append(mk_not(cnd))
                ot = body["blocks"][t["other"]]
                if not (ot["t"]["k"] == "unreachable" and not ot["s"]):
                    conds.append((z3.And(*neg) if len(neg) > 1 else neg[0], t["other"]))
                for s2, b in reversed(self.fork(st, conds)):
                    work.append((s2, b, visits, False))
            elif k == "assert":
                v = self.operand(st, fr, t["o"])
                good = v if t["exp"] else mk_not(v)
                for s2, ok in self.fork(st, [(good, True), (mk_not(good), False)]):
                    if ok:
                        work.append((s2, t["t"], visits, False))
                    else:
                        outs.append((s2, "panic", t["msg"]))
            elif k == "call":
                for s2, kind, v in self.exec_call(st, fid, fr, bb, t, stop):
                    if kind == "ret":
                        if t["t"] is None:
                            continue
                        cell, path = self.resolve(s2, fr, t["dest"])
                        self.write(s2, cell, path, v)
                        work.append((s2, t["t"], visits, False))
                    elif kind == "panic":
                        outs.append((s2, "panic", v))
                    elif kind == "fnret":
                        outs.append((s2, "ret", v))
                    elif kind == "resume":
                        # continuation of a summarised loop: (block, first-flag)
                        work.append((s2, v, visits, False))
                    else:
                        outs.append((s2, kind, v))
            elif k == "unreachable":
                pass
            elif k == "abort":
                outs.append((st, "panic", "abort"))
            else:
                raise Unsupported(k)
            if len(outs) + len(work) > self.opts.get("max_paths", 6000):
                raise Unsupported("path budget exhausted")
        return outs

    def loop_blocks(self, fid):
        m = self.P._sccs.get(fid)
        if m is None:
            m = self.P._sccs[fid] = sccs(self.P.fns[fid]["body"])
        c = self._lb.get(fid) if hasattr(self, "_lb") else None
        if c is None:
            if not hasattr(self, "_lb"):
                self._lb = {}
            c = {b for b, s in m.items() if len(s) > 1}
            self._lb[fid] = c
        return c

    # ---------------------------------------------------------------- calls
    def exec_call(self, st, fid, fr, bb, t, stop):
        f = t["f"]
        args = [self.operand(st, fr, o) for o in t["args"]]
        if "ptr" in f:
            fv = self.operand(st, fr, f["ptr"])
            return self.call_value(st, fv, args, t["dty"])
        if f.get("name") == "std::iter::Iterator::next" or (f.get("name") or "").endswith("::next"):
            import iters
            r = iters.loop_next(self, st, fid, fr, bb, t, args, stop)
            if r is not None:
                return r
        return self.call(st, f.get("fn"), f["name"], f.get("args"), args, t["dty"], t.get("span"), t.get("atys"))

    def call_value(self, st, fv, args, dty):
        """call a closure / fn item / fn pointer value on an argument list"""
        fv0 = fv
        while isinstance(fv, Ref):
            fv0 = fv
            fv = self.read(st, fv.cell, fv.path)
        if isinstance(fv, FnV):
            if fv.fid is None:
                raise Unsupported("unresolved fn item")
            fn = self.P.fns[fv.fid]
            nm = fn["def"]
            ga = fn["args"]
            if fv.ty is not None:
                d = self.P.types[fv.ty]
                nm, ga = d["name"], d["args"]
            return self.call(st, fv.fid, nm, ga, args, dty)
        if isinstance(fv, (Adt, Sym)) and fv.ty is not None and self.P.types[fv.ty]["k"] == "closure":
            d = self.P.types[fv.ty]
            cf = d["fn"]
            body = self.P.fns[cf]["body"]
            if body is None:
                raise Unsupported("closure body")
            selfty = self.P.types[body["locals"][1]]
            if selfty["k"] == "ref":
                if isinstance(fv0, Ref):
                    sv = fv0
                else:
                    sv = Ref(self.alloc(st, fv))
            else:
                sv = fv
            return self.guarded(st, cf, [sv] + list(args), dty)
        raise Unsupported(f"call of {type(fv).__name__}")

    def guarded(self, st, fid, args, dty):
        f = self.P.fns[fid]
        try:
            self.stats["inlined"].add(f["def"])
            return self.exec_fn(st, fid, args)
        except INCOMPLETE as e:
            if self.opts.get("strict"):
                raise
            return self.havoc_call(st, f["name"], args, dty, f"{type(e).__name__} {e}")

    def call(self, st, fid, name, gargs, args, dty, span=None, atys=None):
        fn = self.P.fns[fid] if fid is not None else None
        d = fn["def"] if fn else name
        ctx = Ctx(self, fid, name, d, gargs or [], dty, fn, atys)
        # 1. callee contract
        c = self.contracts.get(d)
        if c is not None:
            r = c(self, st, ctx, args)
            if r is not None:
                self.stats["contract_calls"].add(d)
                return r
        # 2. engine contract
        for nm in (d, name):
            h = self.hooks.get(nm)
            if h is not None:
                try:
                    r = h(self, st, ctx, args)
                except INCOMPLETE as e:
                    if self.opts.get("strict"):
                        raise
                    return self.havoc_call(st, d, args, dty, f"{type(e).__name__} {e}")
                if r is not None:
                    self.stats["hooked"].add(nm)
                    return r
        # 3. constructor functions of tuple structs / variants
        if fn is not None and fn["body"] is None:
            r = self.ctor(d, args, dty)
            if r is not None:
                return [(st, "ret", r)]
        # 4. inline
        if fn is not None and fn["body"] is not None:
            self.stats["inlined"].add(d)
            st0 = st
            try:
                if fn["body"]["spread"] is not None:
                    raise Unsupported("spread")
                return self.exec_fn(st, fid, args)
            except INCOMPLETE as e:
                if self.opts.get("strict"):
                    raise
                return self.havoc_call(st0, d, args, dty, f"{type(e).__name__} {e}")
        # 5. havoc
        if self.opts.get("strict"):
            raise Unsupported(f"unknown callee {d}")
        return self.havoc_call(st, d, args, dty, "no body")

    def ctor(self, name, args, dty):
        if dty is None:
            return None
        d = self.P.types[dty]
        if d["k"] != "adt":
            return None
        last = name.split("::")[-1]
        for i, v in enumerate(d["variants"]):
            if v["name"] == last and len(v["fields"]) == len(args) and name.startswith((d["name"], "std::prelude::")):
                return Adt(dty, i, args)
        return None

    def havoc_call(self, st, name, args, dty, why):
        st = st.copy()
        self.stats["havoc"].setdefault(name, why)
        st.note(f"havoc {name}: {why}")
        for a in args:
            self.havoc_ref(st, a)
        if dty is None:
            v = self.fresh_term(OPQ, "havoc")
        elif self.P.types[dty]["k"] == "never":
            return [(st, "panic", name)]
        else:
            v = self.fresh(dty, "havoc:" + name.split("::")[-1])
        return [(st, "ret", v)]

    def havoc_ref(self, st, a, depth=0):
        if depth > 3:
            return
        if isinstance(a, Ref):
            if a.cell == ("STORAGE",):
                import hooks
                hooks.havoc_store(self, st)
                return
            try:
                v = self.read(st, a.cell, a.path)
            except Unsupported:
                return
            if a.cell[0] in ("L", "C") and a.cell in st.mem:
                nv = self.havoc_like(v)
                if nv is not None:
                    try:
                        self.write(st, a.cell, a.path, nv)
                    except Unsupported:
                        pass
            self.havoc_ref(st, v, depth + 1)
        elif isinstance(a, Adt):
            for f in a.fields:
                if isinstance(f, (Ref, Adt)):
                    self.havoc_ref(st, f, depth + 1)

    def havoc_like(self, v):
        """fresh value of the same shape, or None when there is nothing to havoc (references)"""
        if is_term(v):
            return self.fresh_term(v.sort(), "hv")
        if isinstance(v, Seq):
            el = None
            for s in v.segs:
                if isinstance(s, SymSeg):
                    el = s.elty
            return Seq([SymSeg(fresh_name("hs"), tuple(self.idx_ctx), el)])
        if isinstance(v, (Adt, Sym)) and isinstance(v.ty, int):
            d = self.P.types[v.ty]
            if any(isinstance(f, (Ref, BoxV, FnV, IterV)) for f in (v.fields if isinstance(v, Adt) else ())):
                return None
            return self.fresh(v.ty, "hv")
        return None


_HL = {}


def has_length(t):
    k = t.get_id()
    r = _HL.get(k)
    if r is None:
        r = z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_SEQ_LENGTH or any(has_length(x) for x in t.children()))
        _HL[k] = (r, t)
        return r
    return r[0]


def len_free(t, subs):
    """t with the length of every string variable or application replaced by an integer; None: t speaks of contents"""
    if not z3.is_app(t):
        return None
    if t.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
        x = t.arg(0)
        if x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return None
        k = x.get_id()
        if k not in subs:
            subs[k] = z3.Int("len!" + x.sexpr())
        return subs[k]
    if t.sort().kind() == z3.Z3_SEQ_SORT or (t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return t if t.num_args() == 0 and t.sort().kind() != z3.Z3_SEQ_SORT else None
    if t.num_args() == 0:
        return t
    ch = [len_free(x, subs) for x in t.children()]
    return None if any(x is None for x in ch) else t.decl()(*ch)


# what makes the symbolic execution of one function incomplete (the call is then abstracted)
INCOMPLETE = (Unsupported, TypeError, AttributeError, KeyError, IndexError, ValueError, z3.Z3Exception)


class Ctx:
    __slots__ = ("I", "fid", "name", "d", "gargs", "dty", "fn", "atys")

    def __init__(self, I, fid, name, d, gargs, dty, fn, atys):
        self.I, self.fid, self.name, self.d, self.gargs, self.dty, self.fn, self.atys = I, fid, name, d, gargs, dty, fn, atys

    def tyarg(self, i):
        """i-th type generic argument of the resolved instance"""
        ts = [a for a in (self.fn["args"] if self.fn else self.gargs) if isinstance(a, int)]
        return ts[i]


def conc(t):
    """python int of a constant term, else None"""
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    return None


def lits(q):
    if not q.segs:
        return ()
    if len(q.segs) == 1 and isinstance(q.segs[0], Lit):
        return q.segs[0].vals
    return None


def sval(s, P, ty):
    v = int(s)
    if ty is not None:
        d = P.types[ty]
        if d["k"] == "int" and d["signed"] and v >= 1 << (d["bits"] - 1):
            v -= 1 << d["bits"]
    return v
