"""Engine contracts of std and dependency functions (the assumed part of the base).

A hook is f(I, st, ctx, args) -> outcomes or None (None: not applicable, use the body).
"""
import re
import z3
from values import *
from interp import State, conj, mk_not, simp, conc, lits
import iters
from iters import TRUE, fork_var, to_iter, drive, src, then

H = {}
LOCAL = ("cw_ica_controller", "cw_ica_owner", "callback_counter")


def hook(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def ret(st, v):
    return [(st, "ret", v)]


def D(I, st, v):
    return I.deref(st, v)


def unit(I):
    return Adt(I.P.ty("()"), 0, ())


def mk(I, ty, variant, *fields):
    return Adt(ty, I.P.variant_index(ty, variant), fields)


def strip(I, ty):
    """type behind references and boxes"""
    while True:
        d = I.P.types[ty]
        if d["k"] in ("ref", "ptr"):
            ty = d["to"]
        elif d["k"] == "adt" and d["name"] == "std::boxed::Box":
            ty = d["args"][0]
        else:
            return ty


def is_local(I, ty):
    s = I.P.types[ty]["s"]
    return s.split("::")[0] in LOCAL


def concat(parts):
    out = []
    for p in parts:
        if isinstance(p, (bytes, str)):
            p = sbytes(p)
        for q in flat(p):
            b = str_const(q)
            if b is not None:
                if not b:
                    continue
                if out and str_const(out[-1]) is not None:
                    out[-1] = sbytes(str_const(out[-1]) + b)
                    continue
            out.append(q)
    if not out:
        return sbytes(b"")
    return out[0] if len(out) == 1 else z3.Concat(*out)


def flat(p):
    if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        r = []
        for c in p.children():
            r += flat(c)
        return r
    return [p]


def opt_fork(I, st, dty, cond, v):
    """Some(v) if cond else None"""
    out = []
    for s, yes in I.fork(st, [(cond, True), (mk_not(cond), False)]):
        out.append((s, "ret", mk(I, dty, "Some", v() if callable(v) else v) if yes else mk(I, dty, "None")))
    return out


def err_leaf(I, dty, name, args):
    """an opaque error value of Result type dty: payload determined by the arguments"""
    et = I.P.types[dty]["args"][1]
    return mk(I, dty, "Err", I.leaf(et, name, args))


# =============================================================================== control / mem
@hook("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _call(I, st, cx, a):
    t = a[1]
    if not isinstance(t, Adt):
        t = I.expand(t)
    return I.call_value(st, a[0], list(t.fields), cx.dty)


@hook("std::mem::replace")
def _replace(I, st, cx, a):
    st = st.copy()
    old = I.read(st, a[0].cell, a[0].path)
    I.write(st, a[0].cell, a[0].path, a[1])
    return ret(st, old)


@hook("std::mem::swap")
def _swap(I, st, cx, a):
    st = st.copy()
    x, y = I.read(st, a[0].cell, a[0].path), I.read(st, a[1].cell, a[1].path)
    I.write(st, a[0].cell, a[0].path, y)
    I.write(st, a[1].cell, a[1].path, x)
    return ret(st, unit(I))


@hook("std::mem::take")
def _take(I, st, cx, a):
    v = I.read(st, a[0].cell, a[0].path)
    if is_term(v) and v.sort() == STR:
        nv = sbytes(b"")
    elif isinstance(v, Seq):
        nv = Seq()
    else:
        return None
    st = st.copy()
    I.write(st, a[0].cell, a[0].path, nv)
    return ret(st, v)


@hook("std::mem::drop", "std::mem::forget")
def _drop(I, st, cx, a):
    return ret(st, unit(I))


@hook("std::intrinsics::discriminant_value")
def _discr(I, st, cx, a):
    return ret(st, I.discr(D(I, st, a[0]), cx.dty))


@hook("std::hint::must_use", "std::hint::black_box", "std::convert::identity", "std::intrinsics::black_box")
def _ident(I, st, cx, a):
    return ret(st, a[0])


@hook("std::boxed::Box::<T>::new")
def _box(I, st, cx, a):
    st = st.copy()
    return ret(st, BoxV(I.alloc(st, a[0])))


@hook("std::boxed::Box::<T>::new_uninit", "std::boxed::Box::<T, A>::new_uninit_in")
def _box_uninit(I, st, cx, a):
    st = st.copy()
    return ret(st, BoxV(I.alloc(st, Partial())))


@hook("std::boxed::box_assume_init_into_vec_unsafe")
def _box_vec(I, st, cx, a):
    v = I.read_cell(st, a[0].cell)
    while isinstance(v, Partial):
        if len(v.parts) != 1:
            raise Unsupported("partially initialised box")
        v = v.parts[0][1]
    return ret(st, v)


@hook("std::boxed::Box::<T, A>::into_inner")
def _box_into(I, st, cx, a):
    return ret(st, I.read_cell(st, a[0].cell))


@hook("std::slice::<impl [T]>::into_vec")
def _into_vec(I, st, cx, a):
    return ret(st, D(I, st, a[0]))


for _n in ("std::rt::panic_fmt", "core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::unreachable_default_msg",
           "core::panicking::panic_nounwind", "core::panicking::panic_nounwind_fmt", "std::option::unwrap_failed",
           "std::option::expect_failed", "std::result::unwrap_failed", "core::panicking::assert_failed",
           "core::panicking::assert_failed_inner", "core::panicking::panic_explicit", "core::panicking::panic_display",
           "core::panicking::panic_bounds_check", "core::panicking::panic_str_2015", "core::panicking::unreachable_display",
           "std::process::abort", "core::num::imp::overflow_panic::pow", "core::slice::index::slice_index_fail"):
    H[_n] = lambda I, st, cx, a: [(st, "panic", cx.d)]


# =============================================================================== vectors / slices
@hook("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::string::String::new", "std::string::String::with_capacity",
      "std::vec::Vec::<T, A>::with_capacity_in", "<std::vec::Vec<T> as std::default::Default>::default",
      "<std::string::String as std::default::Default>::default")
def _vec_new(I, st, cx, a):
    return ret(st, sbytes(b"") if I.P.is_bytes(cx.dty) else Seq())


def upd(I, st, r, v):
    st = st.copy()
    while True:
        cur = I.read(st, r.cell, r.path)
        if isinstance(cur, Ref):
            r = cur
        else:
            break
    I.write(st, r.cell, r.path, v)
    return st


@hook("std::vec::Vec::<T, A>::push")
def _push(I, st, cx, a):
    v = D(I, st, a[0])
    if isinstance(v, Seq):
        nv = Seq(v.segs + (Lit([a[1]]),))
    else:
        nv = concat([v, byte_str(a[1])])
    return ret(upd(I, st, a[0], nv), unit(I))


def byte_str(t):
    c = conc(t)
    return sbytes(bytes([c])) if c is not None else z3.StrFromCode(t)


@hook("std::string::String::push")
def _spush(I, st, cx, a):
    v = D(I, st, a[0])
    return ret(upd(I, st, a[0], concat([v, char_str(a[1])])), unit(I))


def char_str(t):
    c = conc(t)
    if c is not None:
        return sbytes(chr(c).encode())
    return app("charstr", (t,), STR)


@hook("std::string::String::push_str", "std::vec::Vec::<T, A>::extend_from_slice")
def _push_str(I, st, cx, a):
    v, w = D(I, st, a[0]), D(I, st, a[1])
    nv = Seq(v.segs + w.segs) if isinstance(v, Seq) else concat([v, w])
    return ret(upd(I, st, a[0], nv), unit(I))


@hook("<std::string::String as std::ops::Add<&str>>::add")
def _str_add(I, st, cx, a):
    x, y = D(I, st, a[0]), D(I, st, a[1])
    return ret(st, concat([x, y]))


@hook("<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def _str_add_assign(I, st, cx, a):
    return ret(upd(I, st, a[0], concat([D(I, st, a[0]), D(I, st, a[1])])), unit(I))


@hook("std::vec::Vec::<T, A>::append")
def _append(I, st, cx, a):
    v, w = D(I, st, a[0]), D(I, st, a[1])
    if isinstance(v, Seq):
        st = upd(I, st, a[0], Seq(v.segs + w.segs))
        return ret(upd(I, st, a[1], Seq()), unit(I))
    st = upd(I, st, a[0], concat([v, w]))
    return ret(upd(I, st, a[1], sbytes(b"")), unit(I))


@hook("std::vec::Vec::<T, A>::clear", "std::string::String::clear")
def _clear(I, st, cx, a):
    v = D(I, st, a[0])
    return ret(upd(I, st, a[0], Seq() if isinstance(v, Seq) else sbytes(b"")), unit(I))


@hook("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::string::String::reserve",
      "std::vec::Vec::<T, A>::reserve_exact")
def _nop(I, st, cx, a):
    return ret(st, unit(I))


@hook("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len", "std::string::String::len",
      "std::slice::<impl [T]>::len")
def _len(I, st, cx, a):
    return ret(st, I.seq_len(D(I, st, a[0])))


@hook("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty",
      "std::string::String::is_empty", "std::slice::<impl [T]>::is_empty")
def _is_empty(I, st, cx, a):
    v = D(I, st, a[0])
    if is_term(v):
        b = str_const(v)
        return ret(st, z3.BoolVal(not b) if b is not None else v == sbytes(b""))
    return ret(st, simp(I.seq_len(v) == 0))


@hook("std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "<std::vec::Vec<T, A> as std::ops::Deref>::deref",
      "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
      "<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str", "std::string::String::as_bytes",
      "core::str::<impl str>::as_bytes", "<std::boxed::Box<T, A> as std::ops::Deref>::deref", "core::array::<impl [T; N]>::as_slice",
      "core::array::<impl std::borrow::Borrow<[T]> for [T; N]>::borrow")
def _as_slice(I, st, cx, a):
    r = a[0]
    if isinstance(r, Ref):
        v = I.read(st, r.cell, r.path)
        if isinstance(v, BoxV):
            return ret(st, Ref(v.cell))
        if isinstance(v, Ref):
            return ret(st, v)
    return ret(st, r)


@hook("std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow")
def _as_ref(I, st, cx, a):
    v = D(I, st, a[0])
    if (is_term(v) and v.sort() == STR) or isinstance(v, Seq):
        r = a[0]
        while isinstance(I.read(st, r.cell, r.path), Ref):
            r = I.read(st, r.cell, r.path)
        return ret(st, r)
    return None


@hook("std::slice::<impl [T]>::to_vec", "std::string::String::into_bytes", "std::string::String::into_boxed_str",
      "std::slice::<impl [T]>::into_vec", "std::str::<impl str>::to_owned", "std::borrow::ToOwned::to_owned",
      "core::slice::<impl [T]>::to_vec", "std::str::<impl str>::into_string")
def _to_vec(I, st, cx, a):
    v = I.snapshot(st, a[0]) if isinstance(a[0], Ref) else a[0]
    return ret(st, v)


def seq_pos(I, st, v, dty, which):
    """Option<&T> to the first/last element"""
    if is_term(v):
        if which == "first":
            val = lambda: app("byteat", (v, z3.IntVal(0)), INT)
        else:
            val = lambda: app("byteat", (v, z3.Length(v) - 1), INT)
        return z3.Length(v) > 0, val
    if not v.segs:
        return z3.BoolVal(False), None
    s = v.segs[0] if which == "first" else v.segs[-1]
    if isinstance(s, Lit):
        return TRUE, lambda: s.vals[0 if which == "first" else -1]
    n = I.seg_len(s)
    if len(v.segs) > 1:
        raise Unsupported(f"{which} of a mixed sequence")
    return n > 0, lambda: I.seg_elem(s, z3.IntVal(0) if which == "first" else simp(n - 1))


@hook("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first", "std::slice::<impl [T]>::last", "std::slice::<impl [T]>::first")
def _last(I, st, cx, a):
    v = D(I, st, a[0])
    c, val = seq_pos(I, st, v, cx.dty, cx.d.split("::")[-1])
    out = []
    for s, yes in I.fork(st, [(c, True), (mk_not(c), False)]):
        out.append((s, "ret", mk(I, cx.dty, "Some", Ref(I.alloc(s, val()))) if yes else mk(I, cx.dty, "None")))
    return out


@hook("std::vec::Vec::<T, A>::pop")
def _pop(I, st, cx, a):
    v = D(I, st, a[0])
    if not isinstance(v, Seq):
        raise Unsupported("pop of bytes")
    if not v.segs:
        return ret(st, mk(I, cx.dty, "None"))
    s = v.segs[-1]
    if isinstance(s, Lit):
        return ret(upd(I, st, a[0], Seq(v.segs[:-1] + (Lit(s.vals[:-1]),))), mk(I, cx.dty, "Some", s.vals[-1]))
    if len(v.segs) > 1:
        raise Unsupported("pop of a mixed sequence")
    n = I.seg_len(s)
    out = []
    for s2, yes in I.fork(st, [(n > 0, True), (n <= 0, False)]):
        if yes:
            out.append((upd(I, s2, a[0], Seq([iters.init_seg(I, s)])), "ret", mk(I, cx.dty, "Some", I.seg_elem(s, simp(n - 1)))))
        else:
            out.append((s2, "ret", mk(I, cx.dty, "None")))
    return out


@hook("std::vec::Vec::<T, A>::insert")
def _insert(I, st, cx, a):
    v = D(I, st, a[0])
    i = conc(a[1])
    if i == 0 and isinstance(v, Seq):
        return ret(upd(I, st, a[0], Seq((Lit([a[2]]),) + v.segs)), unit(I))
    l = lits(v) if isinstance(v, Seq) else None
    if l is not None and i is not None and i <= len(l):
        return ret(upd(I, st, a[0], Seq([Lit(l[:i] + (a[2],) + l[i:])])), unit(I))
    raise Unsupported("insert")


@hook("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def _remove(I, st, cx, a):
    v = D(I, st, a[0])
    i = conc(a[1])
    l = lits(v) if isinstance(v, Seq) else None
    if l is not None and i is not None:
        if i >= len(l):
            return [(st, "panic", "index")]
        if "swap" in cx.d and i != len(l) - 1:
            rest = l[:i] + (l[-1],) + l[i + 1:-1]
        else:
            rest = l[:i] + l[i + 1:]
        return ret(upd(I, st, a[0], Seq([Lit(rest)])), l[i])
    if i == 0 and isinstance(v, Seq) and len(v.segs) == 1 and "swap" not in cx.d:
        n = I.seg_len(v.segs[0])
        out = []
        for s, yes in I.fork(st, [(n > 0, True), (n <= 0, False)]):
            if yes:
                out.append((upd(I, s, a[0], Seq([iters.tail_seg(I, v.segs[0])])), "ret", I.seg_elem(v.segs[0], z3.IntVal(0))))
            else:
                out.append((s, "panic", "index"))
        return out
    raise Unsupported("remove")


@hook("std::vec::Vec::<T, A>::truncate")
def _truncate(I, st, cx, a):
    v = D(I, st, a[0])
    i = conc(a[1])
    l = lits(v) if isinstance(v, Seq) else None
    if l is not None and i is not None:
        return ret(upd(I, st, a[0], Seq([Lit(l[:i])])), unit(I))
    if isinstance(v, Seq) and len(v.segs) == 1:
        s = v.segs[0]
        n = I.seg_len(s)
        ix = z3.Const(fresh_name("idx"), INT)
        nv = Seq([Comp(simp(z3.If(n <= a[1], n, a[1])), ix, [(TRUE, (I.seg_elem(s, ix),))])])
        return ret(upd(I, st, a[0], nv), unit(I))
    raise Unsupported("truncate")


@hook("core::slice::<impl [T]>::reverse")
def _reverse(I, st, cx, a):
    v = D(I, st, a[0])
    if not isinstance(v, Seq):
        raise Unsupported("reverse bytes")
    return ret(upd(I, st, a[0], Seq([iters.rev_seg(I, s) for s in reversed(v.segs)])), unit(I))


def get_at(I, st, v, i, dty):
    n = I.seq_len(v)
    return simp(z3.And(i >= 0, i < n)), n


@hook("core::slice::<impl [T]>::get", "std::slice::<impl [T]>::get")
def _get(I, st, cx, a):
    v = D(I, st, a[0])
    i = a[1]
    if not is_term(i):
        raise Unsupported("get with a range")
    if is_term(v):
        out = []
        for s, yes in I.fork(st, [(i < z3.Length(v), True), (i >= z3.Length(v), False)]):
            out.append((s, "ret", mk(I, cx.dty, "Some", Ref(I.alloc(s, I.leaf(I.P.ty("u8"), "byteat", (v, i))))) if yes else mk(I, cx.dty, "None")))
        return out
    c, n = get_at(I, st, v, i, cx.dty)
    out = []
    for s, yes in I.fork(st, [(c, True), (mk_not(c), False)]):
        if yes:
            for s2, e in elem_at(I, s, v, i):
                out.append((s2, "ret", mk(I, cx.dty, "Some", Ref(I.alloc(s2, e)))))
        else:
            out.append((s, "ret", mk(I, cx.dty, "None")))
    return out


def elem_at(I, st, v, i):
    """[(state, element)] (index known to be in range); literal parts are case split"""
    out = []
    off = z3.IntVal(0)
    rest = st
    cases = []
    for s in v.segs:
        if isinstance(s, Lit):
            for j, x in enumerate(s.vals):
                cases.append((simp(i == off + j), x))
            off = simp(off + len(s.vals))
        else:
            n = I.seg_len(s)
            cases.append((simp(z3.And(i >= off, i < off + n)), I.seg_elem(s, simp(i - off))))
            off = simp(off + n)
    return [(s2.copy(), x) for s2, x in I.fork(rest, cases)]


@hook("std::ops::Index::index")
def _index(I, st, cx, a):
    v = D(I, st, a[0])
    i = a[1]
    if is_term(i) and isinstance(v, Seq):
        n = I.seq_len(v)
        out = []
        for s, yes in I.fork(st, [(i < n, True), (i >= n, False)]):
            if yes:
                for s2, e in elem_at(I, s, v, i):
                    out.append((s2, "ret", Ref(I.alloc(s2, e))))
            else:
                out.append((s, "panic", "index out of bounds"))
        return out
    d = I.P.types[i.ty] if isinstance(i, (Adt, Sym)) and isinstance(i.ty, int) else None
    if d is not None:
        nm = d["name"].split("::")[-1]
        if nm == "RangeFull":
            return ret(st, a[0])
        if is_term(v) and nm in ("Range", "RangeFrom", "RangeTo"):
            n = z3.Length(v)
            lo = I.field(i, 0) if nm != "RangeTo" else z3.IntVal(0)
            hi = I.field(i, 1) if nm == "Range" else I.field(i, 0) if nm == "RangeTo" else n
            ok = simp(z3.And(lo <= hi, hi <= n))
            out = []
            for s, yes in I.fork(st, [(ok, True), (mk_not(ok), False)]):
                if yes:
                    # the char-boundary panic of str slicing is left unmodelled (assumption)
                    out.append((s, "ret", Ref(I.alloc(s, z3.SubString(v, lo, simp(hi - lo))))))
                else:
                    out.append((s, "panic", "slice index"))
            return out
        l = lits(v) if isinstance(v, Seq) else None
        if l is not None and nm in ("Range", "RangeFrom", "RangeTo"):
            lo = conc(I.field(i, 0)) if nm != "RangeTo" else 0
            hi = conc(I.field(i, 1)) if nm == "Range" else conc(I.field(i, 0)) if nm == "RangeTo" else len(l)
            if lo is not None and hi is not None:
                if not 0 <= lo <= hi <= len(l):
                    return [(st, "panic", "slice index")]
                return ret(st, Ref(I.alloc(st, Seq([Lit(list(l[lo:hi]))] if hi > lo else []))))
    raise Unsupported("index")


@hook(*["core::num::<impl u%d>::to_be_bytes" % b for b in (16, 32, 64, 128)])
def _be(I, st, cx, a):
    """big-endian bytes: 8-byte integers stay one term (length 8, injective: assumed), shorter ones go by byte"""
    n = int(re.search(r"<impl u(\d+)>", cx.name).group(1)) // 8
    c = conc(a[0])
    if c is not None:
        return ret(st, sbytes(c.to_bytes(n, "big")))
    if n == 8:
        t = app("be64", (a[0],), STR)
        return ret(st.copy().assume(z3.Length(t) == 8), t)
    return ret(st, app(f"be{n * 8}", (a[0],), STR))


@hook("core::slice::<impl [T]>::contains")
def _contains(I, st, cx, a):
    v = D(I, st, a[0])
    l = lits(v) if isinstance(v, Seq) else None
    if l is None:
        raise Unsupported("contains on a symbolic slice")
    return ret(st, simp(z3.Or(*[I.eq(st, x, a[1]) for x in l])) if l else z3.BoolVal(False))


@hook("std::slice::<impl [T]>::concat", "std::slice::<impl [T]>::join")
def _concat(I, st, cx, a):
    v = I.snapshot(st, a[0])
    sep = I.snapshot(st, a[1]) if len(a) > 1 else sbytes(b"")
    l = lits(v) if isinstance(v, Seq) else None
    if l is not None and all(is_term(x) and x.sort() == STR for x in l) and is_term(sep):
        parts = []
        for j, x in enumerate(l):
            if j:
                parts.append(sep)
            parts.append(x)
        return ret(st, concat(parts))
    if l is not None and all(isinstance(x, Seq) for x in l) and len(a) == 1:
        return ret(st, Seq([s for x in l for s in x.segs]))
    return ret(st, I.encode("join", 0, Adt(("join",), 0, [v, sep])))


# =============================================================================== strings
@hook("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::str::<impl str>::contains",
      "core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with")
def _starts(I, st, cx, a):
    v, p = D(I, st, a[0]), D(I, st, a[1])
    op = cx.d.split("::")[-1]
    if is_term(p) and z3.is_int(p):
        p = char_str(p)
    if not (is_term(p) and p.sort() == STR and is_term(v)):
        raise Unsupported("pattern")
    bv, bp = str_const(v), str_const(p)
    if bv is not None and bp is not None:
        return ret(st, z3.BoolVal({"starts_with": bv.startswith(bp), "ends_with": bv.endswith(bp), "contains": bp in bv}[op]))
    return ret(st, {"starts_with": lambda: z3.PrefixOf(p, v), "ends_with": lambda: z3.SuffixOf(p, v), "contains": lambda: z3.Contains(v, p)}[op]())


@hook("core::str::<impl str>::strip_prefix")
def _strip_prefix(I, st, cx, a):
    v, p = D(I, st, a[0]), D(I, st, a[1])
    if is_term(p) and z3.is_int(p):
        p = char_str(p)
    if not (is_term(p) and p.sort() == STR):
        raise Unsupported("pattern")
    out = []
    c = z3.PrefixOf(p, v)
    for s, yes in I.fork(st, [(c, True), (mk_not(c), False)]):
        out.append((s, "ret", mk(I, cx.dty, "Some", Ref(I.alloc(s, z3.SubString(v, z3.Length(p), z3.Length(v) - z3.Length(p))))) if yes else mk(I, cx.dty, "None")))
    return out


def numeric_text(I, v):
    """a number's text has no blanks and no letters"""
    if z3.is_app(v) and v.decl().name() == "itoa":
        return True
    e = I.enc_of(v)
    return e is not None and e[0] == "display" and I.P.types[e[1]]["s"].split("::")[-1] in (
        "Decimal", "Decimal256", "Uint64", "Uint128", "Uint256", "Uint512", "u8", "u16", "u32", "u64", "u128", "usize")


def strfun(name, refres):
    def f(I, st, cx, a):
        v = D(I, st, a[0])
        b = str_const(v)
        if b is not None:
            try:
                r = sbytes({"trim": lambda x: x.strip(), "lower": lambda x: x.lower(), "upper": lambda x: x.upper(),
                            "ltrim": lambda x: x.lstrip(), "rtrim": lambda x: x.rstrip()}[name](b.decode()).encode())
            except UnicodeDecodeError:
                r = app("str." + name, (v,), STR)
        elif numeric_text(I, v):
            r = v
        else:
            r = app("str." + name, (v,), STR)
        if refres:
            st = st.copy()
            return ret(st, Ref(I.alloc(st, r)))
        return ret(st, r)
    return f


H["core::str::<impl str>::trim"] = strfun("trim", True)
H["core::str::<impl str>::trim_start"] = strfun("ltrim", True)
H["core::str::<impl str>::trim_end"] = strfun("rtrim", True)
H["std::str::<impl str>::to_lowercase"] = strfun("lower", False)
H["std::str::<impl str>::to_uppercase"] = strfun("upper", False)
H["std::str::<impl str>::to_ascii_lowercase"] = strfun("lower", False)
H["std::str::<impl str>::to_ascii_uppercase"] = strfun("upper", False)


@hook("core::str::<impl str>::eq_ignore_ascii_case")
def _eqic(I, st, cx, a):
    x, y = D(I, st, a[0]), D(I, st, a[1])
    return ret(st, app("str.lower", (x,), STR) == app("str.lower", (y,), STR) if str_const(y) is None else
               app("str.lower", (x,), STR) == sbytes(str_const(y).lower()))


@hook("core::str::<impl str>::chars")
def _chars(I, st, cx, a):
    return ret(st, src(iters.chars_seq(I, D(I, st, a[0]))))


@hook("core::str::<impl str>::bytes")
def _bytes(I, st, cx, a):
    return ret(st, src(iters.bytes_seq(I, D(I, st, a[0]))))


@hook("core::str::<impl str>::is_char_boundary")
def _icb(I, st, cx, a):
    return ret(st, app("charboundary", (D(I, st, a[0]), a[1]), BOOL))


@hook("std::string::String::from_utf8", "std::str::from_utf8", "core::str::from_utf8", "std::str::converts::from_utf8")
def _from_utf8(I, st, cx, a):
    v = D(I, st, a[0])
    ok = TRUE if str_const(v) is not None else app("utf8ok", (v,), BOOL)
    isref = I.P.types[I.P.types[cx.dty]["args"][0]]["k"] == "ref"
    out = []
    for s, yes in I.fork(st, [(ok, True), (mk_not(ok), False)]):
        out.append((s, "ret", mk(I, cx.dty, "Ok", Ref(I.alloc(s, v)) if isref else v) if yes else err_leaf(I, cx.dty, "utf8err", (v,))))
    return out


@hook("std::string::String::from_utf8_lossy")
def _lossy(I, st, cx, a):
    raise Unsupported("from_utf8_lossy")


for _n in ("is_alphanumeric", "is_alphabetic", "is_numeric", "is_whitespace", "is_control", "is_uppercase", "is_lowercase"):
    def _mk(nm):
        def f(I, st, cx, a):
            t = D(I, st, a[0])
            c = conc(t)
            if c is not None and c < 128:
                ch = chr(c)
                r = {"is_alphanumeric": ch.isalnum(), "is_alphabetic": ch.isalpha(), "is_numeric": ch.isdigit(), "is_whitespace": ch.isspace(),
                     "is_control": not ch.isprintable(), "is_uppercase": ch.isupper(), "is_lowercase": ch.islower()}[nm]
                return ret(st, z3.BoolVal(bool(r)))
            if nm == "is_alphanumeric":
                # char::is_alphanumeric == is_alphabetic || is_numeric
                return ret(st, z3.Or(uchar("is_alphabetic", t), uchar("is_numeric", t)))
            return ret(st, uchar(nm, t))
        return f
    H[f"core::char::methods::<impl char>::{_n}"] = _mk(_n)
    H[f"std::char::methods::<impl char>::{_n}"] = _mk(_n)


def uchar(nm, t):
    """Unicode predicate; exact on ASCII, uninterpreted beyond"""
    rng = lambda a, b: z3.And(t >= ord(a), t <= ord(b))
    asc = {"is_alphabetic": z3.Or(rng("a", "z"), rng("A", "Z")), "is_numeric": rng("0", "9"),
           "is_whitespace": z3.Or(t == 32, z3.And(t >= 9, t <= 13)), "is_control": z3.Or(t < 32, t == 127),
           "is_uppercase": rng("A", "Z"), "is_lowercase": rng("a", "z")}[nm]
    return z3.If(t < 128, asc, app("uni." + nm, (t,), BOOL))


def ascii_pred(nm, t):
    rng = lambda a, b: z3.And(t >= ord(a), t <= ord(b))
    al, dg = z3.Or(rng("a", "z"), rng("A", "Z")), rng("0", "9")
    return {"is_ascii_alphanumeric": z3.Or(al, dg), "is_ascii_alphabetic": al, "is_ascii_digit": dg, "is_ascii": t < 128,
            "is_ascii_lowercase": rng("a", "z"), "is_ascii_uppercase": rng("A", "Z"),
            "is_ascii_whitespace": z3.Or(t == 32, t == 9, t == 10, t == 12, t == 13),
            "is_ascii_control": z3.Or(t < 32, t == 127),
            "is_ascii_graphic": rng("!", "~"),
            "is_ascii_punctuation": z3.And(rng("!", "~"), z3.Not(z3.Or(al, dg)))}[nm]


for _n in ("is_ascii_alphanumeric", "is_ascii_alphabetic", "is_ascii_digit", "is_ascii", "is_ascii_lowercase", "is_ascii_uppercase",
           "is_ascii_whitespace", "is_ascii_control", "is_ascii_graphic", "is_ascii_punctuation"):
    def _mk2(nm):
        return lambda I, st, cx, a: ret(st, simp(ascii_pred(nm, D(I, st, a[0]))))
    for _p in ("core::char::methods::<impl char>::", "std::char::methods::<impl char>::", "core::num::<impl u8>::", "std::num::<impl u8>::"):
        H[_p + _n] = _mk2(_n)


# =============================================================================== clone / eq / ord
@hook("std::clone::Clone::clone", "std::clone::Clone::clone_from")
def _clone(I, st, cx, a):
    if cx.name.endswith("clone_from"):
        return None
    r = a[0]
    if not isinstance(r, Ref):
        raise Unsupported("clone of non-reference")
    v = I.read(st, r.cell, r.path)
    ty = next((t for t in cx.gargs if isinstance(t, int)), None)
    if ty is not None and I.P.types[ty]["k"] == "ref":
        return ret(st, v)
    if ty is not None and is_local(I, ty) and not clone_is_identity(I, cx.fid, ty):
        return None
    if isinstance(v, Adt) and I.P.types[v.ty]["k"] == "closure":
        return ret(st, v)
    if isinstance(v, IterV):
        return ret(st, v)
    if isinstance(v, BoxV):
        st = st.copy()
        return ret(st, BoxV(I.alloc(st, I.read_cell(st, v.cell))))
    return ret(st, v)


def clone_is_identity(I, fid, ty):
    """prove once per type that the Clone body returns a value equal to its argument"""
    c = I.clone_cache
    if ty in c:
        return c[ty]
    c[ty] = True            # coinductive: nested occurrences of the type itself
    ok = False
    try:
        st = State()
        x = I.leaf(ty, fresh_name("cl"))
        outs = I.exec_fn(st, fid, [Ref(I.alloc(st, x))])
        ok = bool(outs)
        for s, kind, v in outs:
            if kind != "ret":
                ok = False
                break
            e = I.eq(s, v, x)
            r, _ = I.check(s.pc + [z3.Not(e)])
            if r != z3.unsat:
                ok = False
                break
    except Unsupported:
        ok = False
    c[ty] = ok
    return ok


@hook("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _eq(I, st, cx, a):
    if cx.fn is not None and cx.fn["body"] is not None and cx.fn["crate"] in LOCAL:
        return None
    try:
        x, y = D(I, st, a[0]), D(I, st, a[1])
    except Unsupported:
        return None
    if cx.name.endswith("::ne") and isinstance(x, (Adt, Sym)) and isinstance(x.ty, int) and is_local(I, x.ty):
        # default `ne` of a local type: !eq
        return None if cx.fn is not None and cx.fn["body"] is not None else ret(st, mk_not(I.eq(st, x, y)))
    x, y = as_bytes(I, x), as_bytes(I, y)
    if isinstance(x, Sym) and version_key(I, x) is not None and isinstance(y, Sym):
        e = version_key(I, x) == version_key(I, y)
    else:
        e = I.eq(st, x, y)
    e = simp(e)
    return ret(st, mk_not(e) if cx.name.endswith("::ne") else e)


def as_bytes(I, v):
    """newtypes compared with strings (Addr == String, Binary == Vec<u8>) are their content"""
    return v


@hook("<cosmwasm_std::Addr as std::cmp::PartialEq<&str>>::eq", "<cosmwasm_std::Addr as std::cmp::PartialEq<std::string::String>>::eq",
      "<&str as std::cmp::PartialEq<cosmwasm_std::Addr>>::eq", "<std::string::String as std::cmp::PartialEq<cosmwasm_std::Addr>>::eq",
      "<cosmwasm_std::Binary as std::cmp::PartialEq<std::vec::Vec<u8>>>::eq")
def _eq_addr(I, st, cx, a):
    x, y = [D(I, st, v) for v in a]
    x = x if is_term(x) else I.field(x, 0)
    y = y if is_term(y) else I.field(y, 0)
    return ret(st, I.eq(st, x, y))


def version_key(I, v):
    if isinstance(v, Sym) and isinstance(v.ty, int) and I.P.types[v.ty].get("name") == "semver::Version":
        return app("semver_rank", v.args, INT)
    return None


def ordering(I, lt, eq):
    ot = I.P.ty("std::cmp::Ordering")
    return ot


@hook("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge",
      "std::cmp::PartialOrd::partial_cmp", "std::cmp::Ord::cmp")
def _cmp(I, st, cx, a):
    x, y = D(I, st, a[0]), D(I, st, a[1])
    x, y = scalar_key(I, x), scalar_key(I, y)
    if x is None or y is None:
        return None
    op = cx.name.split("::")[-1]
    if op in ("lt", "le", "gt", "ge"):
        return ret(st, simp({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]))
    ot = I.P.ty("std::cmp::Ordering")
    out = []
    for s, nm in I.fork(st, [(x < y, "Less"), (x == y, "Equal"), (x > y, "Greater")]):
        v = mk(I, ot, nm)
        out.append((s, "ret", mk(I, cx.dty, "Some", v) if op == "partial_cmp" else v))
    return out


def scalar_key(I, v):
    """integer key of types whose order is the order of one integer"""
    if is_term(v):
        return v if z3.is_int(v) else None
    k = version_key(I, v)
    if k is not None:
        return k
    n = 0
    while isinstance(v, (Adt, Sym)) and isinstance(v.ty, int) and n < 4:
        d = I.P.types[v.ty]
        if d["k"] == "adt" and len(d["variants"]) == 1 and len(d["variants"][0]["fields"]) == 1 and d["name"].startswith("cosmwasm_std"):
            v = I.field(v, 0)
            n += 1
        else:
            return None
    return v if is_term(v) and z3.is_int(v) else None


@hook("std::cmp::max", "std::cmp::min", "std::cmp::Ord::max", "std::cmp::Ord::min")
def _max(I, st, cx, a):
    x, y = a
    if not (is_term(x) and z3.is_int(x)):
        return None
    return ret(st, simp(z3.If(x >= y, x, y) if cx.d.endswith("max") else z3.If(x <= y, x, y)))


# =============================================================================== conversions
@hook("std::convert::From::from", "std::convert::Into::into")
def _from(I, st, cx, a):
    """identity conversions between the byte-string types; everything else runs its body"""
    v = a[0]
    if cx.name.endswith("into") and cx.fn is not None and cx.fn["body"] is not None and cx.d != "<T as std::convert::Into<U>>::into":
        return None
    if cx.dty is not None:
        if I.P.is_bytes(cx.dty):
            w = D(I, st, v) if isinstance(v, (Ref, BoxV)) else v
            if is_term(w) and w.sort() == STR:
                return ret(st, w)
            if is_term(w) and z3.is_int(w) and I.P.types[cx.dty].get("name") == "std::string::String":
                return ret(st, char_str(w))
        elif I.P.seq_elem(cx.dty) is not None:
            w = D(I, st, v) if isinstance(v, (Ref, BoxV)) else v
            if isinstance(w, Seq):
                return ret(st, w)
        d = I.P.types[cx.dty]
        if d["k"] == "adt" and d["name"] == "std::boxed::Box" and cx.d.startswith("<std::boxed::Box<T> as std::convert::From<T>>"):
            st = st.copy()
            return ret(st, BoxV(I.alloc(st, v)))
        if d["k"] == "int" and is_term(v) and z3.is_int(v):
            return ret(st, v)
    return None


@hook("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _tryfrom(I, st, cx, a):
    v = a[0]
    d = I.P.types[cx.dty]
    if d.get("name") == "std::result::Result" and is_term(v) and z3.is_int(v):
        t = d["args"][0]
        if I.P.types[t]["k"] == "int":
            ok = simp(I.in_range(v, t))
            out = []
            for s, yes in I.fork(st, [(ok, True), (mk_not(ok), False)]):
                out.append((s, "ret", mk(I, cx.dty, "Ok", v) if yes else err_leaf(I, cx.dty, "tryfromint", (v,))))
            return out
    return None


# integer helpers that bottom out in intrinsics
def _int_method(I, st, cx, a, m):
    ty = I.P.types[cx.dty]
    x, y = a[0], (a[1] if len(a) > 1 else None)
    if m.startswith("checked_"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[m[8:]]
        t = ty["args"][0]
        if op in ("Div", "Rem"):
            out = []
            for s, z in I.fork(st, [(y == 0, True), (y != 0, False)]):
                out.append((s, "ret", mk(I, cx.dty, "None") if z else mk(I, cx.dty, "Some", I.arith(op, x, y, t))))
            return out
        r = simp(I.arith(op, x, y, t))
        return opt_fork(I, st, cx.dty, simp(I.in_range(r, t)), r)
    t = cx.dty
    if m.startswith("saturating_"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[m[11:]]
        r = simp(I.arith(op, x, y, t))
        d = I.P.types[t]
        lo, hi = (-(1 << (d["bits"] - 1)), (1 << (d["bits"] - 1)) - 1) if d["signed"] else (0, (1 << d["bits"]) - 1)
        return ret(st, simp(z3.If(r < lo, z3.IntVal(lo), z3.If(r > hi, z3.IntVal(hi), r))))
    if m.startswith("wrapping_"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[m[9:]]
        return ret(st, I.wrap(simp(I.arith(op, x, y, t)), t))
    raise Unsupported(m)


for _t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
    for _m in ("checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem", "saturating_add", "saturating_sub",
               "saturating_mul", "wrapping_add", "wrapping_sub", "wrapping_mul"):
        for _p in ("core::num", "std::num"):
            H[f"{_p}::<impl {_t}>::{_m}"] = (lambda m: lambda I, st, cx, a: _int_method(I, st, cx, a, m))(_m)


@hook("core::str::<impl str>::parse")
def _parse(I, st, cx, a):
    t = I.P.types[cx.dty]["args"][0]
    d = I.P.types[t]
    if d["k"] == "int":
        return parse_int(I, st, cx.dty, t, D(I, st, a[0]))
    return None


@hook("std::str::FromStr::from_str")
def _from_str(I, st, cx, a):
    d = I.P.types[cx.dty]
    if d.get("name") != "std::result::Result":
        return None
    t = d["args"][0]
    v = D(I, st, a[0])
    if I.P.types[t]["k"] == "int":
        return parse_int(I, st, cx.dty, t, v)
    if I.P.is_bytes(t):
        return ret(st, mk(I, cx.dty, "Ok", v))
    s = I.P.types[t]["s"]
    if s in ("semver::Version", "cosmwasm_std::Uint128", "cosmwasm_std::Decimal", "cosmwasm_std::Uint64", "cosmwasm_std::Uint256",
             "cosmwasm_std::Decimal256"):
        I.used_assumptions.add(f"{s}::from_str is a partial function of its text")
        ok = app("parse_ok:" + s, (v,), BOOL)
        out = []
        for s2, yes in I.fork(st, [(ok, True), (mk_not(ok), False)]):
            out.append((s2, "ret", mk(I, cx.dty, "Ok", I.leaf(t, "parse:" + s, (v,))) if yes else err_leaf(I, cx.dty, "parse_err:" + s, (v,))))
        return out
    return None


@hook("semver::Version::parse")
def _semver_parse(I, st, cx, a):
    return _from_str(I, st, cx, a)


def parse_int(I, st, dty, t, v):
    ty = I.P.types[t]
    nm = I.P.types[t]["s"]
    ok = app("parse_ok:" + nm, (v,), BOOL)
    out = []
    for s2, yes in I.fork(st, [(ok, True), (mk_not(ok), False)]):
        out.append((s2, "ret", mk(I, dty, "Ok", I.leaf(t, "parse:" + nm, (v,))) if yes else err_leaf(I, dty, "parse_err:" + nm, (v,))))
    return out


# =============================================================================== formatting
def itoa(t):
    c = conc(t)
    if c is not None:
        return sbytes(str(c))
    return app("itoa", (t,), STR)


def render(I, st, ty, v, debug=False):
    """[(state, string term)] Display rendering of a value"""
    while isinstance(v, (Ref, BoxV)):
        v = I.deref(st, v)
    ty = strip(I, ty) if ty is not None else None
    if isinstance(v, (Adt, Sym)) and isinstance(v.ty, int):
        ty = v.ty
    if debug:
        return [(st, I.encode("debug", ty or 0, I.snapshot(st, v)))]
    if is_term(v):
        if v.sort() == STR:
            return [(st, v)]
        if z3.is_int(v):
            if ty is not None and I.P.types[ty]["k"] == "char":
                return [(st, char_str(v))]
            return [(st, itoa(v))]
        if z3.is_bool(v):
            return [(s, sbytes("true" if b else "false")) for s, b in I.fork(st, [(v, True), (mk_not(v), False)])]
    if isinstance(v, FmtArgs):
        return render_args(I, st, v)
    if isinstance(v, (Adt, Sym)) and isinstance(v.ty, int):
        d = I.P.types[v.ty]
        nm = d.get("name", "")
        if nm in ("cosmwasm_std::Addr", "cosmwasm_std::Uint128", "cosmwasm_std::Uint64", "cosmwasm_std::Binary"):
            if nm == "cosmwasm_std::Binary":
                return [(st, I.encode("base64", 0, I.field(v, 0)))]
            return render(I, st, None, I.field(v, 0))
        f = I.P.by_name.get(f"<{d['s']} as std::fmt::Display>::fmt")
        if f is None and is_local(I, v.ty):
            for i, fn in enumerate(I.P.fns):
                if fn["name"].startswith(f"<{d['s']} as std::fmt::Display>"):
                    f = i
                    break
        if is_local(I, v.ty) and f is not None and I.P.fns[f]["body"] is not None:
            st = st.copy()
            buf = I.alloc(st, sbytes(b""))
            out = []
            for s, kind, r in I.exec_fn(st, f, [Ref(I.alloc(st, v)), Ref(buf)]):
                if kind != "ret":
                    raise Unsupported("panic in Display")
                out.append((s, s.mem[buf]))
            return out
        return [(st, I.encode("display", v.ty, I.snapshot(st, v)))]
    raise Unsupported(f"render {type(v).__name__}")


def render_args(I, st, fa):
    cur = [(st, [])]
    for p in fa.pieces:
        nxt = []
        for s, acc in cur:
            if isinstance(p, bytes):
                nxt.append((s, acc + [p]))
            else:
                for s2, t in render(I, s, p.ty, p.ref, p.kind == "debug"):
                    nxt.append((s2, acc + [t]))
        cur = nxt
    return [(s, concat(acc)) for s, acc in cur]


@hook("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug",
      "std::fmt::rt::Argument::<'_>::new_display", "std::fmt::rt::Argument::<'_>::new_debug")
def _arg(I, st, cx, a):
    return ret(st, FmtArg("debug" if cx.d.endswith("debug") else "display", a[0], next((t for t in cx.gargs if isinstance(t, int)), None)))


@hook("std::fmt::Arguments::<'a>::new")
def _args_new(I, st, cx, a):
    tpl = str_const(D(I, st, a[0]))
    av = D(I, st, a[1])
    l = lits(av)
    if tpl is None or l is None:
        raise Unsupported("format template")
    pieces, i, n = [], 0, 0
    while i < len(tpl):
        b = tpl[i]
        if b == 0:
            break
        if b < 0x80:
            pieces.append(tpl[i + 1:i + 1 + b])
            i += 1 + b
        elif b == 0x80:
            ln = tpl[i + 1] | (tpl[i + 2] << 8)
            pieces.append(tpl[i + 3:i + 3 + ln])
            i += 3 + ln
        elif b == 0xC0:
            pieces.append(l[n])
            n += 1
            i += 1
        elif b == 0xC8:
            ix = tpl[i + 1] | (tpl[i + 2] << 8)
            pieces.append(l[ix])
            n = ix + 1
            i += 3
        else:
            raise Unsupported("format spec")
    return ret(st, FmtArgs(pieces))


@hook("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::Arguments::<'a>::new_const")
def _args_str(I, st, cx, a):
    v = D(I, st, a[0])
    if isinstance(v, Seq):
        l = lits(v)
        return ret(st, FmtArgs([FmtArg("display", x, None) for x in l]))
    b = str_const(v)
    return ret(st, FmtArgs([b] if b is not None else [FmtArg("display", a[0], None)]))


@hook("std::fmt::format", "std::fmt::format::format_inner")
def _format(I, st, cx, a):
    fa = D(I, st, a[0])
    return [(s, "ret", t) for s, t in render_args(I, st, fa)]


def append(I, st, fref, t):
    v = D(I, st, fref)
    if not (is_term(v) and v.sort() == STR):
        raise Unsupported("formatter")
    return upd(I, st, fref, concat([v, t]))


def fmt_ok(I, cx):
    if cx.dty is None:
        return Adt(None, 0, ())
    return mk(I, cx.dty, "Ok", unit(I))


@hook("std::fmt::Formatter::<'a>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "std::fmt::Write::write_str",
      "std::fmt::Formatter::<'a>::pad")
def _write_str(I, st, cx, a):
    return ret(append(I, st, a[0], D(I, st, a[1])), fmt_ok(I, cx))


@hook("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt", "std::fmt::write")
def _write_fmt(I, st, cx, a):
    fa = D(I, st, a[1])
    return [(append(I, s, a[0], t), "ret", fmt_ok(I, cx)) for s, t in render_args(I, st, fa)]


@hook("std::fmt::Write::write_char", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_char")
def _write_char(I, st, cx, a):
    return ret(append(I, st, a[0], char_str(a[1])), fmt_ok(I, cx))


@hook("std::fmt::Display::fmt")
def _disp(I, st, cx, a):
    ty = next((t for t in cx.gargs if isinstance(t, int)), None)
    if cx.fn is not None and cx.fn["crate"] in LOCAL and cx.fn["body"] is not None:
        return None
    return [(append(I, s, a[1], t), "ret", fmt_ok(I, cx)) for s, t in render(I, st, ty, a[0])]


@hook("std::fmt::Debug::fmt")
def _dbg(I, st, cx, a):
    ty = next((t for t in cx.gargs if isinstance(t, int)), None)
    return [(append(I, s, a[1], t), "ret", fmt_ok(I, cx)) for s, t in render(I, st, ty, a[0], True)]


@hook("std::string::ToString::to_string")
def _to_string(I, st, cx, a):
    if cx.fn is not None and cx.fn["crate"] in LOCAL:
        return None
    ty = next((t for t in cx.gargs if isinstance(t, int)), None)
    return [(s, "ret", t) for s, t in render(I, st, ty, a[0])]


@hook("thiserror::display::AsDisplay::as_display")
def _as_display(I, st, cx, a):
    return ret(st, a[0])


# =============================================================================== iterators
def iter_arg(I, st, v):
    """(IterV, ref) of an iterator argument passed by value or by &mut"""
    r = None
    while isinstance(v, Ref):
        r = v
        v = I.read(st, v.cell, v.path)
    if isinstance(v, (Adt, Sym)):
        w = iters.as_range(I, v)
        if isinstance(w, IterV):
            return w, r
    if isinstance(v, IterV):
        return v, r
    return None, None


def ihook(*names):
    def d(f):
        def g(I, st, cx, a):
            it, r = iter_arg(I, st, a[0])
            if it is None:
                return None
            return f(I, st, cx, it, r, a)
        for n in names:
            H["std::iter::Iterator::" + n] = g
        return f
    return d


@hook("std::iter::IntoIterator::into_iter")
def _into_iter(I, st, cx, a):
    return [(s, "ret", it) for s, it in to_iter(I, st, a[0])]


@hook("core::slice::<impl [T]>::iter", "std::slice::<impl [T]>::iter", "std::option::Option::<T>::iter")
def _iter(I, st, cx, a):
    return [(s, "ret", it) for s, it in to_iter(I, st, a[0])]


@hook("core::slice::<impl [T]>::iter_mut")
def _iter_mut(I, st, cx, a):
    v = D(I, st, a[0])
    l = lits(v) if isinstance(v, Seq) else None
    if l is None:
        raise Unsupported("iter_mut over a symbolic slice")
    r = a[0]
    while isinstance(I.read(st, r.cell, r.path), Ref):
        r = I.read(st, r.cell, r.path)
    return ret(st, src(Seq([Lit([Ref(r.cell, r.path + (("i", z3.IntVal(i)),)) for i in range(len(l))])])))


@hook("std::vec::Vec::<T, A>::drain")
def _drain(I, st, cx, a):
    v = D(I, st, a[0])
    d = I.P.types[a[1].ty]
    if d["name"].endswith("RangeFull") and isinstance(v, Seq):
        return ret(upd(I, st, a[0], Seq()), src(v))
    raise Unsupported("drain")


@hook("std::iter::once")
def _once(I, st, cx, a):
    return ret(st, src(Seq([Lit([a[0]])])))


@hook("std::iter::empty")
def _empty(I, st, cx, a):
    return ret(st, src(Seq()))


@hook("std::iter::repeat_n")
def _repeat(I, st, cx, a):
    raise Unsupported("repeat")


def retty(I, f, st):
    """return type of a callable value"""
    while isinstance(f, Ref):
        f = I.read(st, f.cell, f.path)
    if isinstance(f, FnV) and f.fid is not None:
        b = I.P.fns[f.fid]["body"]
        return b["locals"][0] if b else None
    if isinstance(f, (Adt, Sym)) and isinstance(f.ty, int) and I.P.types[f.ty]["k"] == "closure":
        b = I.P.fns[I.P.types[f.ty]["fn"]]["body"]
        return b["locals"][0] if b else None
    return None


def call_rty(I, st, cx, f):
    r = retty(I, f, st)
    if r is not None:
        return r
    # generic arguments of the adaptor: (Self, B, F)
    return None


@ihook("map")
def _map(I, st, cx, it, r, a):
    ts = [t for t in cx.gargs if isinstance(t, int)]
    rty = call_rty(I, st, cx, a[1])
    if rty is None:
        rty = ts[1] if len(ts) > 1 else None
    return ret(st, IterV("map", it, a[1], rty))


@ihook("filter")
def _filter(I, st, cx, it, r, a):
    return ret(st, IterV("filter", it, a[1]))


@ihook("filter_map", "map_while")
def _filter_map(I, st, cx, it, r, a):
    return ret(st, IterV(cx.name.split("::")[-1], it, a[1], call_rty(I, st, cx, a[1])))


@ihook("take_while")
def _take_while(I, st, cx, it, r, a):
    return ret(st, IterV("take_while", it, a[1]))


@ihook("inspect")
def _inspect(I, st, cx, it, r, a):
    return ret(st, IterV("inspect", it, a[1]))


@ihook("flat_map")
def _flat_map(I, st, cx, it, r, a):
    return ret(st, IterV("flat", it, a[1], call_rty(I, st, cx, a[1])))


@ihook("flatten")
def _flatten(I, st, cx, it, r, a):
    return ret(st, IterV("flat", it, None, None))


@ihook("cloned", "copied")
def _cloned(I, st, cx, it, r, a):
    return ret(st, IterV("cloned", it))


@ihook("fuse", "into_iter", "by_ref")
def _fuse(I, st, cx, it, r, a):
    return ret(st, a[0] if cx.name.endswith("by_ref") else it)


@ihook("peekable")
def _peekable(I, st, cx, it, r, a):
    return ret(st, it)


def item_ty(I, cx):
    return None


@ihook("enumerate")
def _enumerate(I, st, cx, it, r, a):
    return ret(st, IterV("enumerate", it, 0, ("tup",)))


@ihook("chain")
def _chain(I, st, cx, it, r, a):
    return [(s, "ret", IterV("chain", it, b)) for s, b in to_iter(I, st, a[1])]


@ihook("zip")
def _zip(I, st, cx, it, r, a):
    return [(s, "ret", IterV("zip", it, b, ("tup",))) for s, b in to_iter(I, st, a[1])]


@hook("std::iter::zip")
def _zip2(I, st, cx, a):
    return [(s2, "ret", IterV("zip", x, y, ("tup",))) for s, x in to_iter(I, st, a[0]) for s2, y in to_iter(I, s, a[1])]


@ihook("take", "skip")
def _take_n(I, st, cx, it, r, a):
    return ret(st, IterV(cx.name.split("::")[-1], it, a[1]))


@ihook("rev")
def _rev(I, st, cx, it, r, a):
    def rv(it):
        if it.kind == "src":
            return src(Seq([iters.rev_seg(I, s) for s in reversed(it.a[0].segs)]), it.a[1])
        if it.kind in ("map", "filter", "filter_map", "cloned", "inspect"):
            return IterV(it.kind, rv(it.a[0]), *it.a[1:])
        if it.kind == "chain":
            return IterV("chain", rv(it.a[1]), rv(it.a[0]))
        raise Unsupported("rev")
    return ret(st, rv(it))


def consumed(I, st, r):
    if r is not None:
        I.write(st, r.cell, r.path, IterV("consumed"))


def finish(outs, done):
    """map drive outcomes: done(state) gives the result outcomes on exhaustion"""
    res = []
    for s, kind, v in outs:
        if kind == "done":
            res += done(s)
        elif kind == "brk":
            res.append((s, "ret", v))
        else:
            res.append((s, kind, v))
    return res


def collect_into(I, st, it, dty, r=None):
    d = I.P.types[dty]
    st = st.copy()
    consumed(I, st, r)
    nm = d.get("name")
    if nm in ("std::result::Result", "std::option::Option"):
        good, badv = ("Ok", "Err") if nm.endswith("Result") else ("Some", "None")
        inner = d["args"][0]
        acc = I.alloc(st, empty_of(I, inner))

        def body(s, e):
            out = []
            for s2, var in fork_var(I, s, e):
                if I.variants(e.ty)[var]["name"] == good:
                    s2 = s2.copy()
                    add_to(I, s2, acc, inner, I.field(e, 0, var))
                    out.append((s2, "cont", None))
                else:
                    fs = [I.field(e, i, var) for i in range(len(I.variants(e.ty)[var]["fields"]))]
                    out.append((s2, "brk", mk(I, dty, badv, *fs)))
            return out
        return finish(drive(I, st, it, body), lambda s: [(s, "ret", mk(I, dty, good, close_acc(I, s, acc, inner)))])
    acc = I.alloc(st, empty_of(I, dty))

    def body(s, e):
        s = s.copy()
        add_to(I, s, acc, dty, e)
        return [(s, "cont", None)]
    return finish(drive(I, st, it, body), lambda s: [(s, "ret", close_acc(I, s, acc, dty))])


def empty_of(I, ty):
    d = I.P.types[ty]
    if d["k"] == "tuple" and not d["elems"]:
        return unit(I)
    if d.get("name") in ("std::vec::Vec", "std::collections::VecDeque", "std::boxed::Box"):
        return Seq()
    if d.get("name") == "std::string::String":
        return sbytes(b"")
    raise Unsupported(f"collect into {d['s']}")


def add_to(I, s, acc, ty, e):
    v = s.mem[acc]
    if isinstance(v, Seq):
        s.mem[acc] = Seq(v.segs + (Lit([e]),))
    elif is_term(v):
        e = I.deref(s, e)
        if z3.is_int(e):
            e = char_str(e)
        s.mem[acc] = concat([v, e])


def close_acc(I, s, acc, ty):
    v = s.mem[acc]
    if isinstance(v, Seq) and I.P.is_bytes(ty):
        l = lits(v)
        if l is None:
            return I.encode("bytesof", 0, v)
        return I.bytes_of_ints(list(l)) if l else sbytes(b"")
    return v


@ihook("collect")
def _collect(I, st, cx, it, r, a):
    return collect_into(I, st, it, cx.dty, r)


@hook("std::iter::FromIterator::from_iter")
def _from_iter(I, st, cx, a):
    out = []
    for s, it in to_iter(I, st, a[0]):
        out += collect_into(I, s, it, cx.dty)
    return out


@hook("std::iter::Extend::extend")
def _extend(I, st, cx, a):
    out = []
    for s, it in to_iter(I, st, a[1]):
        def body(s1, e):
            s1 = s1.copy()
            v = D(I, s1, a[0])
            e2 = e
            if isinstance(v, Seq):
                # Extend<&T> copies
                nv = Seq(v.segs + (Lit([e2]),))
            else:
                e2 = I.deref(s1, e)
                nv = concat([v, char_str(e2) if z3.is_int(e2) else e2])
            return [(upd(I, s1, a[0], nv), "cont", None)]
        out += finish(drive(I, s, it, body), lambda s2: [(s2, "ret", unit(I))])
    return out


@ihook("fold")
def _fold(I, st, cx, it, r, a):
    st = st.copy()
    consumed(I, st, r)
    acc = I.alloc(st, a[1])

    def body(s, e):
        s = s.copy()
        v = s.mem[acc]
        out = []
        for s2, kind, w in I.call_value(s, a[2], [v, e], cx.dty):
            if kind == "ret":
                s2 = s2.copy()
                s2.mem[acc] = w
                out.append((s2, "cont", None))
            else:
                out.append((s2, kind, w))
        return out
    return finish(drive(I, st, it, body), lambda s: [(s, "ret", s.mem[acc])])


@ihook("try_fold", "try_for_each")
def _try_fold(I, st, cx, it, r, a):
    st = st.copy()
    consumed(I, st, r)
    isfold = cx.name.endswith("try_fold")
    acc = I.alloc(st, a[1] if isfold else unit(I))
    f = a[2] if isfold else a[1]
    d = I.P.types[cx.dty]
    good = {"std::result::Result": "Ok", "std::option::Option": "Some", "std::ops::ControlFlow": "Continue"}.get(d.get("name"))
    if good is None:
        raise Unsupported("try_fold")

    def body(s, e):
        s = s.copy()
        out = []
        for s2, kind, w in I.call_value(s, f, [s.mem[acc], e] if isfold else [e], cx.dty):
            if kind != "ret":
                out.append((s2, kind, w))
                continue
            for s3, var in fork_var(I, s2, w):
                if I.variants(w.ty)[var]["name"] == good:
                    s3 = s3.copy()
                    s3.mem[acc] = I.field(w, 0, var)
                    out.append((s3, "cont", None))
                else:
                    out.append((s3, "brk", w if isinstance(w, Adt) else I.expand(w, var)))
        return out
    return finish(drive(I, st, it, body), lambda s: [(s, "ret", mk(I, cx.dty, good, s.mem[acc]))])


@ihook("for_each")
def _for_each(I, st, cx, it, r, a):
    def body(s, e):
        return [(s2, "cont" if k == "ret" else k, v) for s2, k, v in I.call_value(s, a[1], [e], I.P.ty("()"))]
    return finish(drive(I, st, it, body), lambda s: [(s, "ret", unit(I))])


@ihook("all", "any")
def _all(I, st, cx, it, r, a):
    want = cx.name.endswith("any")
    st = st.copy()
    consumed(I, st, r)

    def body(s, e):
        out = []
        for s2, kind, v in I.call_value(s, a[1], [e], I.P.ty("bool")):
            if kind != "ret":
                out.append((s2, kind, v))
                continue
            hit = v if want else mk_not(v)
            for s3, h in I.fork(s2, [(hit, True), (mk_not(hit), False)]):
                out.append((s3, "brk", z3.BoolVal(want)) if h else (s3, "cont", None))
        return out
    return finish(drive(I, st, it, body), lambda s: [(s, "ret", z3.BoolVal(not want))])


@ihook("find", "position", "find_map", "rposition")
def _find(I, st, cx, it, r, a):
    m = cx.name.split("::")[-1]
    if m == "rposition":
        raise Unsupported(m)
    st = st.copy()
    consumed(I, st, r)
    c = I.alloc(st, z3.IntVal(0))

    def body(s, e):
        s = s.copy()
        out = []
        pos = s.mem[c]
        s.mem[c] = simp(pos + 1)
        arg = Ref(I.alloc(s, e)) if m == "find" else e
        for s2, kind, v in I.call_value(s, a[1], [arg], cx.dty if m == "find_map" else I.P.ty("bool")):
            if kind != "ret":
                out.append((s2, kind, v))
                continue
            if m == "find_map":
                for s3, var in fork_var(I, s2, v):
                    if I.variants(v.ty)[var]["name"] == "Some":
                        out.append((s3, "brk", mk(I, cx.dty, "Some", I.field(v, 0, var))))
                    else:
                        out.append((s3, "cont", None))
                continue
            for s3, h in I.fork(s2, [(v, True), (mk_not(v), False)]):
                out.append((s3, "brk", mk(I, cx.dty, "Some", pos if m == "position" else e)) if h else (s3, "cont", None))
        return out
    return finish(drive(I, st, it, body), lambda s: [(s, "ret", mk(I, cx.dty, "None"))])


@ihook("count")
def _count(I, st, cx, it, r, a):
    try:
        return ret(st, iters.iter_len(I, it))
    except Unsupported:
        pass
    st = st.copy()
    c = I.alloc(st, z3.IntVal(0))

    def body(s, e):
        s = s.copy()
        s.mem[c] = simp(s.mem[c] + 1)
        return [(s, "cont", None)]
    return finish(drive(I, st, it, body), lambda s: [(s, "ret", s.mem[c])])


@ihook("last", "nth")
def _lastit(I, st, cx, it, r, a):
    if cx.name.endswith("nth"):
        i = conc(a[1])
        if i is None:
            raise Unsupported("nth")
        cur, out = [(st, it)], []
        for j in range(i + 1):
            nxt = []
            for s, t in cur:
                for s2, e, rest in iters.pop_next(I, s, t):
                    if e is None:
                        out.append((s2, "ret", mk(I, cx.dty, "None")))
                    elif j == i:
                        s2 = s2.copy()
                        if r is not None:
                            I.write(s2, r.cell, r.path, rest)
                        out.append((s2, "ret", mk(I, cx.dty, "Some", e)))
                    else:
                        nxt.append((s2, rest))
            cur = nxt
        return out
    if it.kind == "src" and it.a[0].segs:
        c, val = seq_pos(I, st, it.a[0], cx.dty, "last")
        out = []
        for s, yes in I.fork(st, [(c, True), (mk_not(c), False)]):
            if yes:
                v = val()
                out.append((s, "ret", mk(I, cx.dty, "Some", Ref(I.alloc(s, v)) if it.a[1] else v)))
            else:
                out.append((s, "ret", mk(I, cx.dty, "None")))
        return out
    if it.kind == "src":
        return ret(st, mk(I, cx.dty, "None"))
    raise Unsupported("last")


@ihook("next")
def _next(I, st, cx, it, r, a):
    out = []
    for s, e, rest in iters.pop_next(I, st, it):
        s = s.copy()
        if r is not None:
            I.write(s, r.cell, r.path, rest)
        out.append((s, "ret", mk(I, cx.dty, "None") if e is None else mk(I, cx.dty, "Some", e)))
    return out


@ihook("unzip")
def _unzip(I, st, cx, it, r, a):
    st = st.copy()
    t = I.P.types[cx.dty]
    x, y = I.alloc(st, empty_of(I, t["elems"][0])), I.alloc(st, empty_of(I, t["elems"][1]))

    def body(s, e):
        s = s.copy()
        add_to(I, s, x, t["elems"][0], I.field(e, 0))
        add_to(I, s, y, t["elems"][1], I.field(e, 1))
        return [(s, "cont", None)]
    return finish(drive(I, st, it, body), lambda s: [(s, "ret", Adt(cx.dty, 0, [close_acc(I, s, x, t["elems"][0]), close_acc(I, s, y, t["elems"][1])]))])


@ihook("partition")
def _partition(I, st, cx, it, r, a):
    st = st.copy()
    x, y = I.alloc(st, Seq()), I.alloc(st, Seq())

    def body(s, e):
        s = s.copy()
        out = []
        for s2, kind, v in I.call_value(s, a[1], [Ref(I.alloc(s, e))], I.P.ty("bool")):
            if kind != "ret":
                out.append((s2, kind, v))
                continue
            for s3, yes in I.fork(s2, [(v, True), (mk_not(v), False)]):
                s3.mem[x if yes else y] = Seq(s3.mem[x if yes else y].segs + (Lit([e]),))
                out.append((s3, "cont", None))
        return out
    return finish(drive(I, st, it, body), lambda s: [(s, "ret", Adt(cx.dty, 0, [s.mem[x], s.mem[y]]))])


@hook("std::iter::ExactSizeIterator::len")
def _ilen(I, st, cx, a):
    it, r = iter_arg(I, st, a[0])
    if it is None:
        return None
    return ret(st, iters.iter_len(I, it))


# =============================================================================== codecs
def enc_value(I, kind, ty, v):
    """canonical payload type: the value's own type if it has one"""
    if isinstance(v, (Adt, Sym)) and isinstance(v.ty, int):
        ty = v.ty
    return I.encode(kind, ty, v)


def decode(I, st, kind, ty, b):
    """[(state, ok?, value)]"""
    e = I.enc_of(b)
    if e is not None and e[0] == kind and e[1] == ty:
        I.used_assumptions.add(f"{kind} decode(encode(x)) = x")
        return [(st, True, e[2])]
    s = I.P.types[ty]["s"]
    ok = app(f"{kind}_ok:{s}", (b,), BOOL)
    return [(s2, yes, I.leaf(ty, f"{kind}_dec:{s}", (b,)) if yes else None)
            for s2, yes in I.fork(st, [(ok, True), (mk_not(ok), False)])]


def first_ty(cx):
    t = next((t for t in (cx.fn["args"] if cx.fn else cx.gargs) if isinstance(t, int)), None)
    if t is None and cx.atys:
        t = cx.atys[0]
    if t is None:
        raise Unsupported(f"no type for {cx.d}")
    return t


@hook("cosmwasm_std::to_json_binary", "cosmwasm_std::to_json_vec", "cosmwasm_std::to_json_string", "serde_json_wasm::ser::to_string",
      "serde_json_wasm::ser::to_vec", "serde_json_wasm::to_string", "serde_json_wasm::to_vec")
def _to_json(I, st, cx, a):
    v = I.snapshot(st, a[0])
    I.used_assumptions.add("JSON serialisation of the crate's types never fails and is injective")
    t = enc_value(I, "json", strip(I, first_ty(cx)), v)
    okty = I.P.types[cx.dty]["args"][0]
    if not I.P.is_bytes(okty):
        t = Adt(okty, 0, [t])
    return ret(st, mk(I, cx.dty, "Ok", t))


@hook("cosmwasm_std::from_json", "serde_json_wasm::de::from_str", "serde_json_wasm::de::from_slice", "serde_json_wasm::from_str",
      "serde_json_wasm::from_slice")
def _from_json(I, st, cx, a):
    ty = I.P.types[cx.dty]["args"][0]
    b = D(I, st, a[0])
    if not is_term(b):
        b = I.field(b, 0)
    out = []
    for s, yes, v in decode(I, st, "json", ty, b):
        out.append((s, "ret", mk(I, cx.dty, "Ok", v) if yes else err_leaf(I, cx.dty, "json_err:" + I.P.types[ty]["s"], (b,))))
    return out


@hook("prost::message::Message::encode_to_vec", "prost::Message::encode_to_vec")
def _encode(I, st, cx, a):
    v = I.snapshot(st, a[0])
    return ret(st, enc_value(I, "prost", strip(I, first_ty(cx)), v))


@hook("prost::message::Message::encode", "prost::Message::encode")
def _encode_buf(I, st, cx, a):
    v = I.snapshot(st, a[0])
    t = enc_value(I, "prost", strip(I, first_ty(cx)), v)
    buf = D(I, st, a[1])
    return ret(upd(I, st, a[1], concat([buf, t])), mk(I, cx.dty, "Ok", unit(I)))


@hook("prost::message::Message::encode_raw", "prost::Message::encode_raw")
def _encode_raw(I, st, cx, a):
    v = I.snapshot(st, a[0])
    t = enc_value(I, "prost", strip(I, first_ty(cx)), v)
    buf = D(I, st, a[1])
    if not (is_term(buf) and buf.sort() == STR):
        raise Unsupported("encode into a buffer")
    return ret(upd(I, st, a[1], concat([buf, t])), unit(I))


@hook("prost::message::Message::decode", "prost::Message::decode")
def _decode(I, st, cx, a):
    ty = I.P.types[cx.dty]["args"][0]
    b = D(I, st, a[0])
    if not (is_term(b) and b.sort() == STR):
        raise Unsupported("decode from a buffer")
    out = []
    for s, yes, v in decode(I, st, "prost", ty, b):
        out.append((s, "ret", mk(I, cx.dty, "Ok", v) if yes else err_leaf(I, cx.dty, "prost_err:" + I.P.types[ty]["s"], (b,))))
    return out


@hook("prost::message::Message::encoded_len", "prost::Message::encoded_len")
def _enclen(I, st, cx, a):
    v = I.snapshot(st, a[0])
    return ret(st, z3.Length(enc_value(I, "prost", strip(I, first_ty(cx)), v)))


@hook("cosmwasm_std::Binary::to_base64")
def _b64(I, st, cx, a):
    v = D(I, st, a[0])
    return ret(st, I.encode("base64", 0, I.field(v, 0)))


@hook("cosmwasm_std::Binary::from_base64")
def _unb64(I, st, cx, a):
    b = D(I, st, a[0])
    bty = I.P.types[cx.dty]["args"][0]
    e = I.enc_of(b)
    if e is not None and e[0] == "base64":
        return ret(st, mk(I, cx.dty, "Ok", Adt(bty, 0, [e[2]])))
    ok = app("b64_ok", (b,), BOOL)
    out = []
    for s, yes in I.fork(st, [(ok, True), (mk_not(ok), False)]):
        out.append((s, "ret", mk(I, cx.dty, "Ok", Adt(bty, 0, [app("b64_dec", (b,), STR)])) if yes else err_leaf(I, cx.dty, "b64_err", (b,))))
    return out


@hook("cosmwasm_std::Binary::as_slice", "<cosmwasm_std::Binary as std::ops::Deref>::deref")
def _bin_deref(I, st, cx, a):
    r = a[0]
    v = I.read(st, r.cell, r.path)
    while isinstance(v, Ref):
        r, v = v, I.read(st, v.cell, v.path)
    return ret(st, Ref(r.cell, r.path + (("f", 0),)))


@hook("anybuf::bufany::Bufany::<'a>::deserialize")
def _anybuf(I, st, cx, a):
    b = D(I, st, a[0])
    ty = I.P.types[cx.dty]["args"][0]
    ok = app("anybuf_ok", (b,), BOOL)
    out = []
    for s, yes in I.fork(st, [(ok, True), (mk_not(ok), False)]):
        out.append((s, "ret", mk(I, cx.dty, "Ok", Adt(("bufany",), 0, [b])) if yes else err_leaf(I, cx.dty, "anybuf_err", (b,))))
    return out


@hook("anybuf::bufany::Bufany::<'a>::uint64")
def _anybuf_u64(I, st, cx, a):
    v = D(I, st, a[0])
    if not (isinstance(v, Adt) and v.ty == ("bufany",)):
        raise Unsupported("bufany")
    n = D(I, st, a[1])
    b = v.fields[0]
    c = app("anybuf_has_u64", (b, n), BOOL)
    t = app("anybuf_u64", (b, n), INT)
    I.int_range["anybuf_u64"] = (0, (1 << 64) - 1)
    return opt_fork(I, st, cx.dty, c, t)


# =============================================================================== cosmwasm
@hook("cosmwasm_std::Api::addr_validate")
def _addr_validate(I, st, cx, a):
    s = D(I, st, a[1])
    aty = I.P.types[cx.dty]["args"][0]
    ok = app("addr_valid", (s,), BOOL)
    I.used_assumptions.add("Api::addr_validate returns its argument unchanged when it accepts it")
    out = []
    for s2, yes in I.fork(st, [(ok, True), (mk_not(ok), False)]):
        out.append((s2, "ret", mk(I, cx.dty, "Ok", Adt(aty, 0, [s])) if yes else err_leaf(I, cx.dty, "addr_err", (s,))))
    return out


def partial(I, st, cx, name, args, wrap=None):
    """an uninterpreted partial function of the environment"""
    ok = app(name + ".ok", args, BOOL)
    ty = I.P.types[cx.dty]["args"][0]
    out = []
    for s2, yes in I.fork(st, [(ok, True), (mk_not(ok), False)]):
        out.append((s2, "ret", mk(I, cx.dty, "Ok", I.leaf(ty, name, args)) if yes else err_leaf(I, cx.dty, name + ".err", args)))
    return out


def text_of(I, st, v):
    v = I.snapshot(st, D(I, st, v))
    while not is_term(v):
        if not isinstance(v, (Adt, Sym)):
            raise Unsupported("not a text")
        v = I.snapshot(st, I.field(v, 0))
    return v


@hook("cosmwasm_std::Querier::raw_query")
def _raw_query(I, st, cx, a):
    q = text_of(I, st, a[1])
    I.used_assumptions.add("the chain's answer to a query is a function of the request bytes within one call")
    return ret(st, I.leaf(cx.dty, "chain_answer", (q,)))


@hook("cosmwasm_std::Api::addr_canonicalize")
def _canon(I, st, cx, a):
    return partial(I, st, cx, "addr_canonical", (text_of(I, st, a[1]),))


@hook("cosmwasm_std::Api::addr_humanize")
def _human(I, st, cx, a):
    return partial(I, st, cx, "addr_human", (text_of(I, st, a[1]),))


@hook("cosmwasm_std::instantiate2_address", "cosmwasm_std::addresses::instantiate2_address")
def _inst2(I, st, cx, a):
    return partial(I, st, cx, "instantiate2_address", tuple(text_of(I, st, x) for x in a))


@hook("std::backtrace::Backtrace::capture", "cosmwasm_std::errors::backtrace::BT::capture", "std::backtrace::Backtrace::disabled",
      "cosmwasm_std::errors::backtrace::BT::dummy")
def _bt(I, st, cx, a):
    return ret(st, I.leaf(cx.dty, "backtrace"))


# ---------------------------------------------------------------- storage
def ns_of(v):
    """namespace literal inside an Item / Map constant"""
    if is_term(v):
        b = str_const(v) if v.sort() == STR else None
        return b.decode() if b is not None else None
    if isinstance(v, Adt):
        for f in v.fields:
            r = ns_of(f)
            if r:
                return r
    return None


def item_ns(I, st, r):
    v = I.snapshot(st, r)
    ns = ns_of(v)
    if ns is None:
        raise Unsupported("storage namespace is not a constant")
    return ns


def check_storage(I, st, r):
    while isinstance(r, Ref) and r.cell != ("STORAGE",):
        r = I.read(st, r.cell, r.path)
    if not isinstance(r, Ref):
        raise Unsupported("storage handle")


def item_get(I, st, ns, ty):
    """(present Bool, value)"""
    I.store_types.setdefault(("item", ns), ty)
    v = st.store.get(("item", ns))
    if v is None:
        if st.store.get(("havoc",)):
            g = st.store[("havoc",)]
            return app(f"st{g}!{ns}.present", (), BOOL), I.leaf(ty, f"st{g}!{ns}")
        return app(f"st0!{ns}.present", (), BOOL), I.leaf(ty, f"st0!{ns}")
    if I.store_types[("item", ns)] != ty:
        raise Unsupported(f"storage item {ns} read at two types")
    return v


def havoc_store(I, st):
    g = fresh_name("hv")
    st.store = {("havoc",): g}


@hook("cw_storage_plus::item::Item::<T>::load", "cw_storage_plus::item::Item::<T>::may_load", "cw_storage_plus::item::Item::<T>::exists")
def _load(I, st, cx, a):
    ns = item_ns(I, st, a[0])
    check_storage(I, st, a[1])
    ty = first_ty(cx)
    p, v = item_get(I, st, ns, ty)
    op = cx.d.split("::")[-1]
    if op == "exists":
        return ret(st, p)
    out = []
    for s, yes in I.fork(st, [(p, True), (mk_not(p), False)]):
        if op == "load":
            out.append((s, "ret", mk(I, cx.dty, "Ok", v) if yes else mk(I, cx.dty, "Err", not_found(I, cx.dty, ns))))
        else:
            ot = I.P.types[cx.dty]["args"][0]
            out.append((s, "ret", mk(I, cx.dty, "Ok", mk(I, ot, "Some", v) if yes else mk(I, ot, "None"))))
    return out


def not_found(I, dty, ns):
    et = I.P.types[dty]["args"][1]
    v = I.leaf(et, "notfound:" + ns)
    try:
        i = I.P.variant_index(et, "NotFound")
        return I.expand(v, i)
    except KeyError:
        return v


@hook("cw_storage_plus::item::Item::<T>::save")
def _save(I, st, cx, a):
    ns = item_ns(I, st, a[0])
    check_storage(I, st, a[1])
    ty = first_ty(cx)
    item_get(I, st, ns, ty)
    st = st.copy()
    st.store[("item", ns)] = (TRUE, I.snapshot(st, a[2]))
    return ret(st, mk(I, cx.dty, "Ok", unit(I)))


@hook("cw_storage_plus::item::Item::<T>::remove")
def _rem(I, st, cx, a):
    ns = item_ns(I, st, a[0])
    check_storage(I, st, a[1])
    ty = first_ty(cx)
    _, v = item_get(I, st, ns, ty)
    st = st.copy()
    st.store[("item", ns)] = (z3.BoolVal(False), v)
    return ret(st, unit(I))


def map_key(I, st, k):
    v = I.snapshot(st, k)
    out = []

    def walk(x):
        if is_term(x):
            out.append(x)
        elif isinstance(x, (Adt, Sym)):
            x = I.expand(x) if isinstance(x, Sym) else x
            for f in x.fields:
                walk(f)
        else:
            raise Unsupported("map key")
    walk(v)
    return tuple(out)


def map_init(I, st, ns, ty, k):
    g = st.store.get(("havoc",))
    p = f"st{g}!" if g else "st0!"
    return app(p + ns + ".present", k, BOOL), I.leaf(ty, p + ns, k)


def map_lookup(I, st, ns, ty, k):
    """[(state, present, value)] for key k"""
    I.store_types.setdefault(("map", ns), ty)
    writes = st.store.get(("map", ns), ())
    out = []
    cur = st
    for wk, p, v in reversed(writes):
        e = simp(z3.And(*[x == y for x, y in zip(wk, k)]))
        br = I.fork(cur, [(e, True), (mk_not(e), False)])
        nxt = None
        for s, same in br:
            if same:
                out.append((s, p, v))
            else:
                nxt = s
        if nxt is None:
            return out
        cur = nxt
    p, v = map_init(I, cur, ns, ty, k)
    out.append((cur, p, v))
    return out


@hook("cw_storage_plus::map::Map::<K, T>::load", "cw_storage_plus::map::Map::<K, T>::may_load", "cw_storage_plus::map::Map::<K, T>::has")
def _mload(I, st, cx, a):
    ns = item_ns(I, st, a[0])
    check_storage(I, st, a[1])
    ty = [t for t in cx.fn["args"] if isinstance(t, int)][1]
    k = map_key(I, st, a[2])
    op = cx.d.split("::")[-1]
    out = []
    for s0, p, v in map_lookup(I, st, ns, ty, k):
        if op == "has":
            out.append((s0, "ret", p))
            continue
        for s, yes in I.fork(s0, [(p, True), (mk_not(p), False)]):
            if op == "load":
                out.append((s, "ret", mk(I, cx.dty, "Ok", v) if yes else mk(I, cx.dty, "Err", not_found(I, cx.dty, ns))))
            else:
                ot = I.P.types[cx.dty]["args"][0]
                out.append((s, "ret", mk(I, cx.dty, "Ok", mk(I, ot, "Some", v) if yes else mk(I, ot, "None"))))
    return out


@hook("cw_storage_plus::map::Map::<K, T>::save")
def _msave(I, st, cx, a):
    ns = item_ns(I, st, a[0])
    check_storage(I, st, a[1])
    ty = [t for t in cx.fn["args"] if isinstance(t, int)][1]
    I.store_types.setdefault(("map", ns), ty)
    k = map_key(I, st, a[2])
    st = st.copy()
    st.store[("map", ns)] = st.store.get(("map", ns), ()) + ((k, TRUE, I.snapshot(st, a[3])),)
    return ret(st, mk(I, cx.dty, "Ok", unit(I)))


@hook("cw_storage_plus::map::Map::<K, T>::remove")
def _mrem(I, st, cx, a):
    ns = item_ns(I, st, a[0])
    check_storage(I, st, a[1])
    ty = [t for t in cx.fn["args"] if isinstance(t, int)][1]
    I.store_types.setdefault(("map", ns), ty)
    k = map_key(I, st, a[2])
    st = st.copy()
    _, v = map_init(I, st, ns, ty, k)
    st.store[("map", ns)] = st.store.get(("map", ns), ()) + ((k, z3.BoolVal(False), v),)
    return ret(st, unit(I))


@hook("cw_storage_plus::map::Map::<K, T>::key")
def _mkey(I, st, cx, a):
    """a Path: namespace and key"""
    ns = item_ns(I, st, a[0])
    return ret(st, Adt(cx.dty, 0, [sbytes(ns)] + list(map_key(I, st, a[1]))))


@hook("cw_storage_plus::path::Path::<T>::load", "cw_storage_plus::path::Path::<T>::may_load", "cw_storage_plus::path::Path::<T>::has",
      "cw_storage_plus::path::Path::<T>::save", "cw_storage_plus::path::Path::<T>::remove")
def _path(I, st, cx, a):
    v = I.snapshot(st, a[0])
    if not isinstance(v, Adt) or not is_term(v.fields[0]):
        raise Unsupported("storage path")
    ns = str_const(v.fields[0]).decode()
    k = tuple(v.fields[1:])
    check_storage(I, st, a[1])
    ty = first_ty(cx)
    op = cx.d.split("::")[-1]
    I.store_types.setdefault(("map", ns), ty)
    if op in ("save", "remove"):
        st = st.copy()
        w = (k, TRUE, I.snapshot(st, a[2])) if op == "save" else (k, z3.BoolVal(False), map_init(I, st, ns, ty, k)[1])
        st.store[("map", ns)] = st.store.get(("map", ns), ()) + (w,)
        return ret(st, mk(I, cx.dty, "Ok", unit(I)) if op == "save" else unit(I))
    out = []
    for s0, p, x in map_lookup(I, st, ns, ty, k):
        if op == "has":
            out.append((s0, "ret", p))
            continue
        for s, yes in I.fork(s0, [(p, True), (mk_not(p), False)]):
            if op == "load":
                out.append((s, "ret", mk(I, cx.dty, "Ok", x) if yes else mk(I, cx.dty, "Err", not_found(I, cx.dty, ns))))
            else:
                ot = I.P.types[cx.dty]["args"][0]
                out.append((s, "ret", mk(I, cx.dty, "Ok", mk(I, ot, "Some", x) if yes else mk(I, ot, "None"))))
    return out


def _raw_storage(I, st, cx, a):
    st = st.copy()
    if not cx.d.endswith("get"):
        havoc_store(I, st)
    st.note("raw storage access")
    I.stats["havoc"].setdefault(cx.d, "raw storage access")
    if cx.dty is None:
        return ret(st, unit(I))
    return ret(st, I.fresh(cx.dty, "raw"))


for _n in ("cosmwasm_std::Storage::set", "cosmwasm_std::Storage::remove", "cosmwasm_std::Storage::get"):
    H[_n] = _raw_storage
