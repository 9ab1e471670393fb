"""Iterators and loops.

An iterator is a pipeline of adaptors over sources.  Elements of a literal segment are processed
one by one.  A symbolic segment (unknown length n) is processed once, for a generic index: the
effect of the iteration on the variables it changes gives the loop invariant (sequence
accumulators are comprehensions over the processed prefix, counters are linear in the index,
everything else is unknown), which is checked to be inductive by running the body again from the
abstracted state.  Early exits are taken at a skolem index whose predecessors all continued.
"""
import z3
from values import *
from interp import State, conj, mk_not, simp, conc, lits

TRUE = z3.BoolVal(True)


# ------------------------------------------------------------------------------- sources
def src(seq, byref=False):
    return IterV("src", seq, byref)


def seg_alts(I, st, seg, i):
    """[(state, values)] contributed by position i of a symbolic segment"""
    if isinstance(seg, SymSeg):
        return [(st, (I.seg_elem(seg, i),))]
    if isinstance(seg, Comp):
        pr = [(seg.idx, i)]
        return [(s, tuple(subst(x, pr) for x in vs))
                for s, vs in I.fork(st, [(z3.substitute(c, *pr), vs) for c, vs in seg.alts])]
    if isinstance(seg, RangeSeg):
        return [(st, (simp(seg.lo + i),))]
    raise Unsupported(f"iteration over {type(seg).__name__}")


class RangeSeg:
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return f"Range({self.lo},{self.hi})"


def seg_count(I, seg):
    if isinstance(seg, SymSeg):
        return I.seg_len(seg)
    if isinstance(seg, Comp):
        return seg.n
    if isinstance(seg, RangeSeg):
        return simp(z3.If(seg.hi >= seg.lo, seg.hi - seg.lo, z3.IntVal(0)))
    raise Unsupported("segment count")


def rev_seg(I, seg):
    if isinstance(seg, Lit):
        return Lit(tuple(reversed(seg.vals)))
    n = seg_count(I, seg)
    ix = z3.Const(fresh_name("idx"), INT)
    if isinstance(seg, SymSeg):
        return Comp(n, ix, [(TRUE, (I.seg_elem(seg, n - 1 - ix),))])
    if isinstance(seg, Comp):
        pr = [(seg.idx, n - 1 - ix)]
        return Comp(n, ix, [(z3.substitute(c, *pr), tuple(subst(x, pr) for x in reversed(vs))) for c, vs in seg.alts])
    raise Unsupported("reverse")


def map_simple(I, seq, f):
    out = []
    for s in seq.segs:
        if isinstance(s, Lit):
            out.append(Lit([f(x) for x in s.vals]))
        elif isinstance(s, SymSeg):
            ix = z3.Const(fresh_name("idx"), INT)
            out.append(Comp(I.seg_len(s), ix, [(TRUE, (f(I.seg_elem(s, ix)),))]))
        elif isinstance(s, Comp):
            out.append(Comp(s.n, s.idx, [(c, tuple(f(x) for x in vs)) for c, vs in s.alts]))
        else:
            raise Unsupported("map over opaque segment")
    return Seq(out)


def is_concrete(it):
    if it.kind == "src":
        return lits(it.a[0]) is not None
    if it.kind in ("once",):
        return True
    return all(is_concrete(x) for x in it.a if isinstance(x, IterV))


# ------------------------------------------------------------------------------- driving
def drive(I, st, it, body):
    """feed every element to body(st, elem); outcomes of body: kind "cont" goes on, every other
    kind ends the iteration with that outcome.  Exhaustion gives kind "done"."""
    k = it.kind
    if k == "src":
        seq, byref = it.a[0], it.a[1]

        def feed(s, v):
            if byref:
                v = Ref(I.alloc(s, v))
            return body(s, v)
        return drive_seq(I, st, seq, feed)
    if k == "map":
        inner, f, rty = it.a
        return drive(I, st, inner, lambda s, e: then(I.call_value(s, f, [e], rty), body))
    if k == "filter":
        inner, f = it.a

        def flt(s, e):
            s = s.copy()
            outs = []
            for s2, kind, v in I.call_value(s, f, [Ref(I.alloc(s, e))], I.P.ty("bool")):
                if kind != "ret":
                    outs.append((s2, kind, v))
                    continue
                for s3, keep in I.fork(s2, [(v, True), (mk_not(v), False)]):
                    outs += body(s3, e) if keep else [(s3, "cont", None)]
            return outs
        return drive(I, st, inner, flt)
    if k in ("filter_map", "map_while", "scan"):
        inner, f, rty = it.a

        def fm(s, e):
            outs = []
            for s2, kind, v in I.call_value(s, f, [e], rty):
                if kind != "ret":
                    outs.append((s2, kind, v))
                    continue
                for s3, var in fork_var(I, s2, v):
                    nm = I.variants(v.ty)[var]["name"]
                    if nm == "Some":
                        outs += body(s3, I.field(v, 0, var))
                    else:
                        outs.append((s3, "cont", None) if k == "filter_map" else (s3, "stop", None))
            return outs
        r = drive(I, st, inner, fm)
        return [(s, "done", None) if kind == "stop" else (s, kind, v) for s, kind, v in r]
    if k in ("take_while", "skip_while"):
        if k == "skip_while":
            raise Unsupported("skip_while")
        inner, f = it.a

        def tw(s, e):
            s = s.copy()
            outs = []
            for s2, kind, v in I.call_value(s, f, [Ref(I.alloc(s, e))], I.P.ty("bool")):
                if kind != "ret":
                    outs.append((s2, kind, v))
                    continue
                for s3, keep in I.fork(s2, [(v, True), (mk_not(v), False)]):
                    outs += body(s3, e) if keep else [(s3, "stop", None)]
            return outs
        r = drive(I, st, inner, tw)
        return [(s, "done", None) if kind == "stop" else (s, kind, v) for s, kind, v in r]
    if k == "cloned":
        return drive(I, st, it.a[0], lambda s, e: body(s, I.read(s, e.cell, e.path)))
    if k == "inspect":
        inner, f = it.a

        def insp(s, e):
            s = s.copy()
            return then(I.call_value(s, f, [Ref(I.alloc(s, e))], None), lambda s2, _: body(s2, e))
        return drive(I, st, inner, insp)
    if k == "enumerate":
        inner, start, tty = it.a
        st = st.copy()
        c = I.alloc(st, z3.IntVal(start))

        def en(s, e):
            s = s.copy()
            n = s.mem[c]
            s.mem[c] = simp(n + 1)
            return body(s, Adt(tty, 0, [n, e]))
        return drive(I, st, inner, en)
    if k == "chain":
        a, b = it.a
        outs = []
        for s, kind, v in drive(I, st, a, body):
            if kind == "done":
                outs += drive(I, s, b, body)
            else:
                outs.append((s, kind, v))
        return outs
    if k == "zip":
        a, b, tty = it.a
        st = st.copy()
        outs = []
        # compare the two lengths first
        na, nb = iter_len(I, a), iter_len(I, b)
        for s, le in I.fork(st, [(na <= nb, True), (na > nb, False)]):
            c = I.alloc(s, z3.IntVal(0))
            base, other, n = (a, b, na) if le else (b, a, nb)

            def zp(s, e):
                s = s.copy()
                i = s.mem[c]
                s.mem[c] = simp(i + 1)
                o = []
                for s2, kind, v in rand_access(I, s, other, i):
                    if kind == "ret":
                        o += body(s2, Adt(tty, 0, [e, v] if le else [v, e]))
                    else:
                        o.append((s2, kind, v))
                return o
            outs += drive(I, s, base, zp)
        return outs
    if k == "take":
        inner, n = it.a
        st = st.copy()
        c = I.alloc(st, z3.IntVal(0))

        def tk(s, e):
            o = []
            i = s.mem[c]
            for s2, go in I.fork(s, [(i < n, True), (i >= n, False)]):
                if go:
                    s2.mem[c] = simp(i + 1)
                    o += body(s2, e)
                else:
                    o.append((s2, "stop", None))
            return o
        r = drive(I, st, inner, tk)
        return [(s, "done", None) if kind == "stop" else (s, kind, v) for s, kind, v in r]
    if k == "skip":
        inner, n = it.a
        st = st.copy()
        c = I.alloc(st, z3.IntVal(0))

        def sk(s, e):
            o = []
            i = s.mem[c]
            for s2, go in I.fork(s, [(i >= n, True), (i < n, False)]):
                s2.mem[c] = simp(i + 1)
                o += body(s2, e) if go else [(s2, "cont", None)]
            return o
        return drive(I, st, inner, sk)
    if k == "flat":
        inner, f, rty = it.a

        def fl(s, e):
            o = []
            rs = I.call_value(s, f, [e], rty) if f is not None else [(s, "ret", e)]
            for s2, kind, v in rs:
                if kind != "ret":
                    o.append((s2, kind, v))
                    continue
                for s3, it2 in to_iter(I, s2, v):
                    for s4, k4, v4 in drive(I, s3, it2, body):
                        o.append((s4, "cont" if k4 == "done" else k4, v4))
            return o
        return drive(I, st, inner, fl)
    raise Unsupported(f"iterator {k}")


def then(outs, f):
    r = []
    for s, kind, v in outs:
        r += f(s, v) if kind == "ret" else [(s, kind, v)]
    return r


def fork_var(I, st, v):
    """fork on the variant of an enum value -> [(state, variant index)]"""
    t = I.tag(v)
    if isinstance(t, int):
        return [(st, t)]
    return I.fork(st, [(t == i, i) for i in I.tag_range[t.decl().name()]])


def iter_len(I, it):
    k = it.kind
    if k == "src":
        n = z3.IntVal(0)
        for s in it.a[0].segs:
            n = n + (seg_count(I, s) if isinstance(s, RangeSeg) else I.seg_len(s))
        return simp(n)
    if k in ("map", "enumerate", "cloned", "inspect"):
        return iter_len(I, it.a[0])
    if k == "zip":
        a, b = iter_len(I, it.a[0]), iter_len(I, it.a[1])
        return simp(z3.If(a <= b, a, b))
    if k == "chain":
        return simp(iter_len(I, it.a[0]) + iter_len(I, it.a[1]))
    raise Unsupported(f"length of iterator {k}")


def rand_access(I, st, it, i):
    k = it.kind
    if k == "src":
        seq, byref = it.a
        if len(seq.segs) == 1 and isinstance(seq.segs[0], RangeSeg):
            return [(st, "ret", simp(seq.segs[0].lo + i))]
        v = I.seq_get(st, seq, i)
        if byref:
            st = st.copy()
            v = Ref(I.alloc(st, v))
        return [(st, "ret", v)]
    if k == "map":
        return then(rand_access(I, st, it.a[0], i), lambda s, e: I.call_value(s, it.a[1], [e], it.a[2]))
    if k == "cloned":
        return then(rand_access(I, st, it.a[0], i), lambda s, e: [(s, "ret", I.read(s, e.cell, e.path))])
    if k == "enumerate":
        return then(rand_access(I, st, it.a[0], i), lambda s, e: [(s, "ret", Adt(it.a[2], 0, [simp(i + it.a[1]), e]))])
    if k == "zip":
        return then(rand_access(I, st, it.a[0], i), lambda s, e: then(
            rand_access(I, s, it.a[1], i), lambda s2, e2: [(s2, "ret", Adt(it.a[2], 0, [e, e2]))]))
    raise Unsupported(f"random access into iterator {k}")


def drive_seq(I, st, seq, feed):
    outs, cur = [], [st]
    for seg in seq.segs:
        nxt = []
        if isinstance(seg, Lit):
            for v in seg.vals:
                new = []
                for s in cur:
                    for s2, kind, r in feed(s, v):
                        if kind == "cont":
                            new.append(s2)
                        else:
                            outs.append((s2, kind, r))
                cur = new
            continue
        for s in cur:
            n = seg_count(I, seg)
            cn = conc(n)
            if cn is not None and cn <= 64:
                # known small length: unroll
                live = [s]
                for j in range(cn):
                    new = []
                    for x in live:
                        for s2, vs in seg_alts(I, x, seg, z3.IntVal(j)):
                            for s3, kind, r in feed_all(s2, vs, feed):
                                if kind == "cont":
                                    new.append(s3)
                                else:
                                    outs.append((s3, kind, r))
                    live = new
                nxt += live
                continue

            def step(s1, i, seg=seg):
                o = []
                for s2, vs in seg_alts(I, s1, seg, i):
                    o += feed_all(s2, vs, feed)
                return o
            for s2, kind, r in summarise(I, s, n, step):
                if kind == "done":
                    nxt.append(s2)
                else:
                    outs.append((s2, kind, r))
        cur = nxt
    return outs + [(s, "done", None) for s in cur]


def feed_all(st, vs, feed):
    outs, cur = [], [st]
    for v in vs:
        new = []
        for s in cur:
            for s2, kind, r in feed(s, v):
                if kind == "cont":
                    new.append(s2)
                else:
                    outs.append((s2, kind, r))
        cur = new
    return outs + [(s, "cont", None) for s in cur]


# ------------------------------------------------------------------------------- loop summaries
class Form:
    __slots__ = ("kind", "old", "key", "c", "alts")

    def __init__(self, kind, old, key=None, c=None):
        self.kind, self.old, self.key, self.c, self.alts = kind, old, key, c, None


def diff(I, a, b, path=()):
    """paths at which b differs from a: [(path, old, new)]"""
    if a is b:
        return []
    if type(a) is type(b) and key(a) == key(b):
        return []
    if isinstance(a, Sym) and isinstance(b, Adt) and a.ty == b.ty:
        t = I.tag(a)
        if isinstance(t, int):
            a = I.expand(a)
    if isinstance(a, Adt) and isinstance(b, Adt) and a.ty == b.ty and a.var == b.var and len(a.fields) == len(b.fields):
        out = []
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            p = path + ((("v", a.var), ("f", i)) if multi(I, a.ty) else (("f", i),))
            out += diff(I, x, y, p)
        return out
    return [(path, a, b)]


def multi(I, ty):
    return isinstance(ty, int) and I.P.types[ty]["k"] == "adt" and len(I.P.types[ty]["variants"]) > 1


def has_ref(v):
    if isinstance(v, (Ref, BoxV, IterV, FmtArg, FmtArgs, Partial)):
        return True
    if isinstance(v, Adt):
        return any(has_ref(f) for f in v.fields)
    if isinstance(v, Seq):
        return any(isinstance(s, Lit) and any(has_ref(x) for x in s.vals) for s in v.segs)
    return False


DBG = False


def summarise(I, st, n, step):
    n = simp(n)
    outs = []
    if I.feasible(st, n <= 0):
        s0 = st.copy()
        s0.assume(simp(n <= 0))
        empty_ok = True
    else:
        empty_ok = False
    if not I.feasible(st, n > 0):
        s0 = st.copy()
        s0.assume(simp(n <= 0))
        return [(s0, "done", None)]
    idx = z3.Const(fresh_name("idx"), INT)
    forms = {}
    cells = list(st.mem.keys())
    rounds = 0
    while True:
        rounds += 1
        if rounds > 8:
            raise Unsupported("no loop invariant found")
        base = abstract(I, st, forms, idx, None, None)
        base.assume(idx >= 0)
        base.assume(idx < n)
        I.idx_ctx.append(idx)
        try:
            res = step(base.copy(), idx)
        finally:
            I.idx_ctx.pop()
        changed = False
        known = {p for p in forms}
        conts, absorb = [], []
        for s2, kind, v in res:
            if kind != "cont":
                continue
            if s2.store is not base.store and store_key(s2.store) != store_key(base.store):
                raise Unsupported("store access inside a loop")
            ch = []
            for c in cells:
                if c not in s2.mem:
                    continue
                if c not in base.mem:
                    continue
                ch += [((c,) + p, o, w) for p, o, w in diff(I, base.mem[c], s2.mem[c])]
            # a cell that did not exist / was dropped before the loop is a temporary; the target of an
            # argument reference did exist
            if any(c[0] not in ("L", "C") and c not in base.mem for c in s2.mem):
                raise Unsupported("a referenced argument is first written inside a loop")
            var_change = [x for x in ch if isinstance(x[1], (Adt, Sym)) and isinstance(x[2], Adt)
                          and not has_ref(x[1]) and not has_ref(x[2]) and multi(I, x[1].ty) and covered(forms, x[0]) is None
                          and not isinstance(x[1], Sym)]
            if var_change and is_absorbing(I, s2, base, idx, n, step, cells, var_change):
                absorb.append((s2, var_change))
                continue
            conts.append((s2, ch))
            for p, o, w in ch:
                f = covered(forms, p)
                if f is None:
                    oldv = I.read(st, p[0], p[1:])
                    if isinstance(o, Seq):
                        forms[p] = Form("seq", oldv, fresh_name("acc"))
                    elif is_term(o) and z3.is_int(o):
                        forms[p] = Form("int?", oldv, z3.Const(fresh_name("ph"), INT))
                    else:
                        forms[p] = Form("havoc", oldv)
                        for q in [q for q in forms if q != p and q[:len(p)] == p]:
                            del forms[q]
                    changed = True
        # verify / refine forms
        for p, f in list(forms.items()):
            if p not in known:          # introduced in this round: its placeholder was not in the base state
                continue
            if f.kind == "seq":
                alts, ok = [], True
                for s2, ch in conts:
                    v = I.read(s2, p[0], p[1:])
                    if not isinstance(v, Seq) or not v.segs or not isinstance(v.segs[0], AccSeg) or v.segs[0].key != f.key \
                            or any(not isinstance(x, Lit) for x in v.segs[1:]):
                        ok = False
                        break
                    vals = tuple(x for sg in v.segs[1:] for x in sg.vals)
                    alts.append((delta(base, s2), tuple(I.snapshot(s2, x) for x in vals)))
                if not ok:
                    if DBG:
                        print("SEQ HAVOC", p, v, f.key)
                    forms[p] = Form("havoc", f.old)
                    changed = True
                else:
                    f.alts = merge_alts(alts)
            elif f.kind == "int?":
                cs = set()
                for s2, ch in conts:
                    d = conc(simp(I.read(s2, p[0], p[1:]) - f.key))
                    cs.add(d)
                if len(cs) == 1 and None not in cs:
                    forms[p] = Form("int", f.old, c=cs.pop())
                elif cs:
                    forms[p] = Form("havoc", f.old)
                changed = True
            elif f.kind == "int":
                for s2, ch in conts:
                    d = simp(I.read(s2, p[0], p[1:]) - (f.old + f.c * (idx + 1)))
                    if conc(d) != 0:
                        forms[p] = Form("havoc", f.old)
                        changed = True
                        break
        if not changed:
            break
    cont_cond = z3.Or(*[delta(base, s2) for s2, _ in conts]) if conts else z3.BoolVal(False)
    cont_cond = simp(cont_cond) if len(conts) < 2 else cont_cond
    # normal completion
    done = abstract(I, st, forms, n, n, idx, havoc_tmp=True)
    if not z3.is_true(cont_cond):
        done.foralls.append((n, idx, cont_cond))
    if not conts:
        done.assume(simp(n <= 0))
        if empty_ok:
            outs.append((done, "done", None))
    else:
        outs.append((done, "done", None))
    # early exits
    if any(kind != "cont" for _, kind, _ in res) or absorb:
        sk = I.fresh_term(INT, "sk")
        ex = abstract(I, st, forms, sk, sk, idx, havoc_tmp=True)
        ex.assume(sk >= 0)
        ex.assume(sk < n)
        if not z3.is_true(cont_cond):
            ex.foralls.append((sk, idx, cont_cond))
        for s2, kind, v in step(ex, sk):
            if kind != "cont":
                outs.append((s2, kind, v))
                continue
            if absorb:
                # variant change that no later iteration alters: the loop is over in effect
                ch = []
                for c in cells:
                    if c in s2.mem and c in ex.mem:
                        ch += [((c,) + p, o, w) for p, o, w in diff(I, ex.mem[c], s2.mem[c])]
                if any(x[0] in [y[0] for _, vc in absorb for y in vc] and isinstance(x[1], Adt) and isinstance(x[2], Adt)
                       and x[1].var != x[2].var for x in ch):
                    outs.append((s2, "done", None))
    return outs


def merge_alts(alts):
    """alternatives contributing the same values are merged"""
    out, pos = [], {}
    for c, vs in alts:
        k = tuple(key(v) for v in vs)
        if k in pos:
            i = pos[k]
            out[i] = (z3.Or(out[i][0], c), vs)
        else:
            pos[k] = len(out)
            out.append((c, vs))
    if len(out) == 1:
        return [(TRUE, out[0][1])] if len(alts) >= 1 else out
    return out


def delta(base, s2):
    d = s2.pc[len(base.pc):]
    return z3.And(*d) if len(d) > 1 else d[0] if d else TRUE


def covered(forms, p):
    for q, f in forms.items():
        if p[:len(q)] == q:
            return f
    return None


def store_key(store):
    return {k: id(v) for k, v in store.items()}


def is_absorbing(I, s2, base, idx, n, step, cells, var_change):
    idx2 = z3.Const(fresh_name("idx"), INT)
    s3 = s2.copy()
    s3.assume(idx2 > idx)
    s3.assume(idx2 < n)
    I.idx_ctx.append(idx2)
    try:
        res = step(s3.copy(), idx2)
    except Unsupported:
        return False
    finally:
        I.idx_ctx.pop()
    for s4, kind, v in res:
        if kind != "cont":
            return False
        for c in cells:
            if c in s4.mem and c in base.mem and c in s3.mem:
                for p, o, w in diff(I, s3.mem[c], s4.mem[c]):
                    if not has_ref(o):
                        return False
    return True


def abstract(I, st, forms, pos, cn, cidx, havoc_tmp=False):
    """state after `pos` iterations.  With cn set, sequence accumulators become comprehensions of
    length cn; otherwise they are the placeholder of the generic iteration."""
    s = st.copy()
    for p, f in forms.items():
        if f.kind == "seq":
            if cn is None:
                v = Seq([AccSeg(f.key)])
            else:
                alts = [a for a in (f.alts or [])]
                if all(not vs for _, vs in alts):
                    v = f.old
                else:
                    ix = z3.Const(fresh_name("idx"), INT)
                    pr = [(cidx, ix)]
                    v = Seq(f.old.segs + (Comp(cn, ix, [(z3.substitute(c, *pr), tuple(subst(x, pr) for x in vs)) for c, vs in alts]),))
        elif f.kind == "int?":
            v = f.key
        elif f.kind == "int":
            v = simp(f.old + f.c * pos)
        else:
            old = f.old
            if has_ref(old):
                if len(p) == 1:
                    s.mem.pop(p[0], None)
                    continue
                raise Unsupported("reference changed inside a loop")
            v = I.havoc_like(old)
            if v is None:
                raise Unsupported("loop-carried value")
        I.write(s, p[0], p[1:], v)
    return s


# ------------------------------------------------------------------------------- next()
def pop_next(I, st, it):
    """[(state, elem or None, rest iterator)]"""
    k = it.kind
    if k == "src":
        seq, byref = it.a
        if not seq.segs:
            return [(st, None, it)]
        seg = seq.segs[0]
        rest = seq.segs[1:]
        if isinstance(seg, Lit):
            v = seg.vals[0]
            if byref:
                st = st.copy()
                v = Ref(I.alloc(st, v))
            return [(st, v, src(Seq((Lit(seg.vals[1:]),) + rest), byref))]
        n = seg_count(I, seg)
        out = []
        for s, more in I.fork(st, [(n > 0, True), (n <= 0, False)]):
            if not more:
                out += pop_next(I, s, src(Seq(rest), byref))
                continue
            if isinstance(seg, RangeSeg):
                out.append((s, seg.lo, src(Seq((RangeSeg(simp(seg.lo + 1), seg.hi),) + rest), byref)))
                continue
            for s2, vs in seg_alts(I, s, seg, z3.IntVal(0)):
                if len(vs) != 1:
                    raise Unsupported("next on a branching sequence")
                v = vs[0]
                if byref:
                    s2 = s2.copy()
                    v = Ref(I.alloc(s2, v))
                out.append((s2, v, src(Seq((tail_seg(I, seg),) + rest), byref)))
        return out
    if k == "map":
        out = []
        for s, e, r in pop_next(I, st, it.a[0]):
            if e is None:
                out.append((s, None, IterV("map", r, *it.a[1:])))
                continue
            for s2, kind, v in I.call_value(s, it.a[1], [e], it.a[2]):
                if kind != "ret":
                    raise Unsupported("panic inside next")
                out.append((s2, v, IterV("map", r, *it.a[1:])))
        return out
    if k == "cloned":
        return [(s, None if e is None else I.read(s, e.cell, e.path), IterV("cloned", r)) for s, e, r in pop_next(I, st, it.a[0])]
    if k == "enumerate":
        return [(s, None if e is None else Adt(it.a[2], 0, [z3.IntVal(it.a[1]), e]), IterV("enumerate", r, it.a[1] + 1, it.a[2]))
                for s, e, r in pop_next(I, st, it.a[0])]
    if k == "chain":
        out = []
        for s, e, r in pop_next(I, st, it.a[0]):
            if e is None:
                out += pop_next(I, s, it.a[1])
            else:
                out.append((s, e, IterV("chain", r, it.a[1])))
        return out
    if k == "zip":
        out = []
        for s, e, r in pop_next(I, st, it.a[0]):
            if e is None:
                out.append((s, None, IterV("zip", r, it.a[1], it.a[2])))
                continue
            for s2, e2, r2 in pop_next(I, s, it.a[1]):
                out.append((s2, None if e2 is None else Adt(it.a[2], 0, [e, e2]), IterV("zip", r, r2, it.a[2])))
        return out
    if k in ("filter", "filter_map"):
        out = []
        work = [(st, it.a[0])]
        while work:
            s, inner = work.pop()
            if not is_concrete(inner):
                raise Unsupported("next of a filtered symbolic iterator")
            for s1, e, r in pop_next(I, s, inner):
                nit = IterV(k, r, *it.a[1:])
                if e is None:
                    out.append((s1, None, nit))
                    continue
                if k == "filter":
                    s1 = s1.copy()
                    for s2, kind, v in I.call_value(s1, it.a[1], [Ref(I.alloc(s1, e))], I.P.ty("bool")):
                        if kind != "ret":
                            raise Unsupported("panic inside next")
                        for s3, keep in I.fork(s2, [(v, True), (mk_not(v), False)]):
                            if keep:
                                out.append((s3, e, nit))
                            else:
                                work.append((s3, r))
                else:
                    for s2, kind, v in I.call_value(s1, it.a[1], [e], it.a[2]):
                        if kind != "ret":
                            raise Unsupported("panic inside next")
                        for s3, var in fork_var(I, s2, v):
                            if I.variants(v.ty)[var]["name"] == "Some":
                                out.append((s3, I.field(v, 0, var), nit))
                            else:
                                work.append((s3, r))
        return out
    raise Unsupported(f"next of iterator {k}")


def tail_seg(I, seg):
    n = seg_count(I, seg)
    ix = z3.Const(fresh_name("idx"), INT)
    if isinstance(seg, SymSeg):
        return Comp(simp(n - 1), ix, [(TRUE, (I.seg_elem(seg, ix + 1),))])
    pr = [(seg.idx, ix + 1)]
    return Comp(simp(n - 1), ix, [(z3.substitute(c, *pr), tuple(subst(x, pr) for x in vs)) for c, vs in seg.alts])


def init_seg(I, seg):
    """all but the last position"""
    n = seg_count(I, seg)
    ix = z3.Const(fresh_name("idx"), INT)
    if isinstance(seg, SymSeg):
        return Comp(simp(n - 1), ix, [(TRUE, (I.seg_elem(seg, ix),))])
    return Comp(simp(n - 1), seg.idx, seg.alts)


def loop_next(I, st, fid, fr, bb, t, args, stop):
    """next() as the head of a MIR loop over a symbolic iterator: summarise the loop"""
    if bb not in I.loop_blocks(fid):
        return None
    r = args[0]
    if not isinstance(r, Ref):
        return None
    try:
        it = I.read(st, r.cell, r.path)
    except Unsupported:
        return None
    if isinstance(it, (Adt, Sym)):
        it = as_range(I, it)
    while isinstance(it, Ref):          # &mut I
        r = it
        it = I.read(st, r.cell, r.path)
    if not isinstance(it, IterV) or is_concrete(it):
        return None
    scc = I.P.scc_of(fid, bb)
    dty = t["dty"]
    dcell, dpath = I.resolve(st, fr, t["dest"])
    some, none = I.P.variant_index(dty, "Some"), I.P.variant_index(dty, "None")
    st = st.copy()
    I.write(st, r.cell, r.path, IterV("inloop"))

    def body(s, e):
        s = s.copy()
        I.write(s, dcell, dpath, Adt(dty, some, [e]))
        outs = []
        for s2, kind, v in I.run_blocks(s, fid, fr, t["t"], (scc, bb)):
            if kind == "back":
                outs.append((s2, "cont", None))
            else:
                outs.append((s2, kind, v))
        return outs
    outs = []
    for s2, kind, v in drive(I, st, it, body):
        if kind == "done":
            s2 = s2.copy()
            I.write(s2, r.cell, r.path, IterV("src", Seq(), False))
            outs.append((s2, "ret", Adt(dty, none, [])))
        elif isinstance(kind, tuple) and kind[0] == "exit":
            outs.append((s2, "resume", kind[1]))
        elif kind == "ret":
            outs.append((s2, "fnret", v))
        else:
            outs.append((s2, kind, v))
    return outs


# ------------------------------------------------------------------------------- counted loops
def plain_header(I, fid, bb):
    """bb heads a natural loop that is not driven by Iterator::next"""
    memo = I.__dict__.setdefault("_hdr", {})
    k = (fid, bb)
    if k in memo:
        return memo[k]
    r = False
    if bb in I.loop_blocks(fid):
        body = I.P.fns[fid]["body"]
        scc = I.P.scc_of(fid, bb)
        from interp import succs
        outer = any(bb in succs(b["t"]) for i, b in enumerate(body["blocks"]) if i not in scc)
        if len(scc) > 1 and bb in scc and outer:
            r, cur, seen = True, bb, set()
            while cur not in seen and cur in scc:
                seen.add(cur)
                t = body["blocks"][cur]["t"]
                if t["k"] == "call" and (t["f"].get("name") or "").endswith("::next"):
                    r = False
                    break
                n = succs(t)
                if t["k"] not in ("goto", "call", "assert") or t.get("t") is None:
                    break
                cur = t["t"]
    memo[k] = r
    return r


def bounds_of(pcs, ph):
    """bounds X such that a path condition says ph < X"""
    out = []
    for c in pcs:
        neg = z3.is_not(c)
        a = c.children()[0] if neg else c
        if not z3.is_app(a) or len(a.children()) != 2 or not z3.is_int(a.children()[0]):
            continue
        op = a.decl().kind()
        e = a.children()[0] - a.children()[1]
        r = simp(z3.substitute(e, (ph, z3.IntVal(0))))
        for sg in (1, -1):
            if conc(simp(e - sg * ph - r)) != 0:
                continue
            LE, LT, GE, GT, EQ = z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ
            if neg:
                op = {LE: GT, LT: GE, GE: LT, GT: LE, EQ: z3.Z3_OP_DISTINCT}.get(op)
            if sg == 1 and op == LT:
                out.append(simp(-r))
            elif sg == 1 and op == LE:
                out.append(simp(1 - r))
            elif sg == -1 and op == GT:
                out.append(r)
            elif sg == -1 and op == GE:
                out.append(simp(r + 1))
            elif op == z3.Z3_OP_DISTINCT:
                out.append(simp(-r) if sg == 1 else r)
    uniq = {}
    for x in out:
        uniq.setdefault(tid(x), x)
    return list(uniq.values())


def counter_loop(I, st, fid, fr, bb):
    """while-loop on a counter: [(state, kind, v)] with kind "resume" for normal exits; None: unroll"""
    if not plain_header(I, fid, bb):
        return None
    scc = I.P.scc_of(fid, bb)
    run = lambda s: I.run_blocks(s, fid, fr, bb, (scc, bb))
    trial = run(st.copy())
    backs = [s for s, k, _ in trial if k == "back"]
    if not backs or not any(isinstance(k, tuple) for _, k, _ in trial):
        return None
    counters = []
    for c in st.mem:
        if c in backs[0].mem:
            for p, o, w in diff(I, st.mem[c], backs[0].mem[c]):
                if is_term(o) and z3.is_int(o) and is_term(w) and z3.is_int(w) and conc(simp(w - o)) == 1:
                    counters.append(((c,) + p, o))
    for p, i0 in counters:
        ph = z3.Const(fresh_name("ph"), INT)
        s = st.copy()
        s.assume(ph >= i0)
        I.write(s, p[0], p[1:], ph)
        cands = []
        base = len(s.pc)
        for s2, k, _ in run(s.copy()):
            if k == "back":
                cands += bounds_of(s2.pc[base:], ph)
        done = set()
        for x in cands:
            if tid(x) in done or uses(x, ph):
                continue
            done.add(tid(x))
            n = simp(z3.If(x >= i0, x - i0, z3.IntVal(0)))

            def step(s1, i):
                return [(s2, "cont" if k == "back" else k, v) for s2, k, v in run(s1)]
            try:
                res = summarise(I, st.copy(), n, step)
                outs = []
                for s2, k, v in res:
                    if k == "done":
                        for s3, k3, v3 in run(s2.copy()):
                            if k3 == "back":
                                raise Unsupported("the guessed trip count is too small")
                            outs.append((s3, "resume", k3[1]) if isinstance(k3, tuple) else (s3, k3, v3))
                    else:
                        outs.append((s2, "resume", k[1]) if isinstance(k, tuple) else (s2, k, v))
                return outs
            except Unsupported:
                continue
    return None


def uses(t, c):
    if t.eq(c):
        return True
    return any(uses(x, c) for x in t.children())


def as_range(I, v):
    """std::ops::Range / RangeInclusive value as an iterator"""
    d = I.P.types[v.ty] if isinstance(v, (Adt, Sym)) and isinstance(v.ty, int) else None
    if d and d["k"] == "adt" and d["name"] == "std::ops::Range":
        lo, hi = I.field(v, 0), I.field(v, 1)
        if is_term(lo) and z3.is_int(lo):
            cl, ch = conc(lo), conc(hi)
            if cl is not None and ch is not None:
                return src(Seq([Lit([z3.IntVal(i) for i in range(cl, ch)])])) if ch - cl <= 64 else v
            return src(Seq([RangeSeg(lo, hi)]))
    return v


# ------------------------------------------------------------------------------- conversions
def to_iter(I, st, v):
    """IntoIterator::into_iter on a value -> [(state, IterV)]"""
    if isinstance(v, IterV):
        return [(st, v)]
    if isinstance(v, Seq):
        return [(st, src(v))]
    if isinstance(v, Ref):
        tgt = I.read(st, v.cell, v.path)
        if isinstance(tgt, Seq):
            return [(st, src(tgt, True))]
        if isinstance(tgt, IterV):
            return [(st, tgt)]
        if is_term(tgt) and tgt.sort() == STR:
            return [(st, src(bytes_seq(I, tgt), True))]
        if isinstance(tgt, Ref):
            return to_iter(I, st, tgt)
        if isinstance(tgt, (Adt, Sym)) and I.P.types[tgt.ty].get("name") == "std::option::Option":
            out = []
            for s, var in fork_var(I, st, tgt):
                if I.variants(tgt.ty)[var]["name"] == "Some":
                    out.append((s, src(Seq([Lit([Ref(v.cell, v.path + (("v", var), ("f", 0)))])]))))
                else:
                    out.append((s, src(Seq())))
            return out
        raise Unsupported("into_iter of reference")
    if is_term(v) and v.sort() == STR:
        return [(st, src(bytes_seq(I, v)))]
    if isinstance(v, (Adt, Sym)):
        r = as_range(I, v)
        if isinstance(r, IterV):
            return [(st, r)]
        d = I.P.types[v.ty]
        if d.get("name") in ("std::option::Option", "std::result::Result"):
            out = []
            for s, var in fork_var(I, st, v):
                if I.variants(v.ty)[var]["name"] in ("Some", "Ok"):
                    out.append((s, src(Seq([Lit([I.field(v, 0, var)])]))))
                else:
                    out.append((s, src(Seq())))
            return out
    raise Unsupported(f"into_iter of {type(v).__name__}")


def bytes_seq(I, t):
    b = str_const(t)
    if b is not None and len(b) <= 64:
        return Seq([Lit([z3.IntVal(x) for x in b])])
    u8 = I.P.ty("u8")
    n = z3.Length(t)
    ix = z3.Const(fresh_name("idx"), INT)
    return Seq([Comp(n, ix, [(TRUE, (I.leaf(u8, "byteat", (t, ix)),))])])


def chars_seq(I, t):
    b = str_const(t)
    if b is not None:
        try:
            return Seq([Lit([z3.IntVal(ord(c)) for c in b.decode()])])
        except UnicodeDecodeError:
            pass
    return Seq([SymSeg("chars", (t,), I.P.ty("char"))])
