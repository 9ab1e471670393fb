"""The encodings of the crate's own wire and storage types, decided on their real (derived) serde and
prost implementations: the code executed is what the derive macros generated in /repo's crate."""
import z3
from values import *
from interp import simp, mk_not, conc, lits
import hooks
from hooks import hook, ret, mk, D as deref, strip, upd, unit, concat
from patterns import *
from prover import Fail, Lost
from specs import And, Or, Not

DEPS = ("cosmwasm_std", "cw_ownable", "cw_utils", "cosmos_sdk_proto")


def json_ty(I):
    t = getattr(I, "_json_ty", 0)
    if t == 0:
        t = next((i for i, d in enumerate(I.P.types) if d["k"] == "adt" and d.get("name", "").endswith("codec::Json")), None)
        I._json_ty = t
    return t


def jv(I, name, *fs):
    t = json_ty(I)
    return Adt(t, I.P.variant_index(t, name), fs)


def is_dep(I, ty):
    d = I.P.types[ty]
    if d["k"] == "adt" and d["name"] in ("std::vec::Vec", "std::option::Option", "std::boxed::Box"):
        return is_dep(I, d["args"][0])
    return d["k"] == "adt" and d["name"].split("::")[0].lstrip("<") in DEPS


def self_ty(I, cx):
    t = next((t for t in cx.gargs if isinstance(t, int)), None)
    if t is None:
        raise Unsupported("no Self type")
    return t


def instance(I, name, ty):
    """the instance of a generic function of the roots crate at a type"""
    for i, f in enumerate(I.P.fns):
        if f["def"] == name and ty in [t for t in f["args"] if isinstance(t, int)]:
            return i
    return None


@hook("serde::Serialize::serialize", "serde::ser::Serialize::serialize")
def _serialize(I, st, cx, a):
    if json_ty(I) is None or cx.dty is None or not I.P.types[cx.dty]["s"].endswith("codec::E>"):
        return None
    ty = self_ty(I, cx)
    d = I.P.types[ty]
    vec = d["k"] == "adt" and d["name"] == "std::vec::Vec"
    if vec and I.P.is_bytes(ty):
        return ret(st, mk(I, cx.dty, "Ok", jv(I, "Bytes", deref(I, st, a[0]))))
    if (is_dep(I, ty) and d["name"] != "std::option::Option"):
        I.used_assumptions.add("serde implementations of dependency types are inverse to each other and injective")
        return ret(st, mk(I, cx.dty, "Ok", jv(I, "Dep", hooks.enc_value(I, "dep", ty, I.snapshot(st, a[0])))))
    if vec:
        f = instance(I, "roots::codec::to_seq", d["args"][0])
        if f is not None:
            I.used_assumptions.add("serde encodes a Vec as the array of its elements' encodings")
            return I.exec_fn(st, f, [a[0]])
    return None


@hook("serde::Deserialize::deserialize", "serde::de::Deserialize::deserialize")
def _deserialize(I, st, cx, a):
    if json_ty(I) is None or cx.dty is None or not I.P.types[cx.dty]["s"].endswith("codec::E>"):
        return None
    d0 = a[0]
    if not (isinstance(d0, (Adt, Sym)) and isinstance(d0.ty, int) and I.P.types[d0.ty]["s"].endswith("codec::D")):
        return None
    ty = self_ty(I, cx)
    d = I.P.types[ty]
    j = I.field(d0, 0)
    if not isinstance(j, Adt):
        return None
    kind = I.variants(j.ty)[j.var]["name"]
    vec = d["k"] == "adt" and d["name"] == "std::vec::Vec"
    err = lambda s: (s, "ret", mk(I, cx.dty, "Err", I.leaf(I.P.types[cx.dty]["args"][1], "codec_err")))
    if vec and I.P.is_bytes(ty):
        if kind == "Bytes":
            return ret(st, mk(I, cx.dty, "Ok", j.fields[0]))
        return [err(st)]
    if is_dep(I, ty) and d["name"] != "std::option::Option":
        if kind != "Dep":
            if vec and kind == "Arr" and not j.fields[0].segs:
                return ret(st, mk(I, cx.dty, "Ok", Seq()))
            return [err(st)]
        return [(s, "ret", mk(I, cx.dty, "Ok", v)) if ok else err(s) for s, ok, v in hooks.decode(I, st, "dep", ty, j.fields[0])]
    if vec:
        f = instance(I, "roots::codec::from_seq", d["args"][0])
        if f is not None:
            if kind != "Arr":
                return [err(st)]
            return I.exec_fn(st, f, [j.fields[0]])
    return None


# ------------------------------------------------------------------------------- JSON patterns
def jstr(t):
    return V("Str", [t])


def jnum(t):
    return V("Num", [t])


def jbool(t):
    return V("Bool", [t])


NULL = V("Null")


def jbytes(t):
    return V("Bytes", [t])


def jdep(v):
    return V("Dep", [Enc("dep", "", v)])


def jarr(items):
    return V("Arr", [items])


def jobj(want):
    """an object with exactly these members, in any order"""
    def m(pr, st, v, path):
        I = pr.I
        if not isinstance(v, Adt):
            raise Lost(f"{path}: not a document")
        if I.variants(v.ty)[v.var]["name"] != "Obj":
            if pr.dead(st):
                return
            raise Fail(f"{path}: {I.variants(v.ty)[v.var]['name']} where an object is expected", pr.model(st))
        es = lits(v.fields[0]) if isinstance(v.fields[0], Seq) else None
        if es is None:
            raise Lost(f"{path}: the members are not fixed")
        got = {}
        for e in es:
            k = str_const(I.field(e, 0))
            if k is None:
                raise Lost(f"{path}: computed member name")
            got[k.decode()] = I.field(e, 1)
        if set(got) != set(want) or len(got) != len(es):
            if pr.dead(st):
                return
            raise Fail(f"{path}: members {sorted(got)} where {sorted(want)} are expected", pr.model(st) or "none")
        for k, p in want.items():
            pr.match(st, got[k], p, f"{path}.{k}")
    return m


def jone(k, p):
    return jobj({k: p})


class Codec:
    """mixin of Props: obligations over the codec dump (world self.CW)"""

    def cx(self, root, argn=("x",)):
        W = self.cworld()
        k = ("codec", root)
        if k not in W.eps:
            W.eps[k] = W.run(root, list(argn))
        return W.eps[k]

    codec_dump = None
    codec_opts = {}

    def cworld(self):
        if self.CW is None:
            import os
            if not self.codec_dump or not os.path.exists(self.codec_dump):
                raise Lost("the encodings could not be extracted")
            from spec import World
            self.CW = World(self.codec_dump, **self.codec_opts)
            self.CW.I.deadline = self.W.I.deadline
        return self.CW

    # ---- generic obligations
    def encodes(self, name, spec, title):
        """every value x: the document of x is spec(x)"""
        res = {}
        ent = f"codec:{name}"
        if not self.ob(f"{name}: its encoder, symbolically", None, lambda: res.__setitem__("e", self.cx("ser_" + name)), ent):
            return
        e, W = res["e"], self.CW
        x = e["x"]
        n = 0
        for o in e.outs:
            def f():
                if o.kind != "ok":
                    if W.pr.dead(o.st):
                        return
                    raise Fail("a value has no encoding", W.pr.model(o.st))
                W.pr.match(o.st, o.v, spec(W, x), name)
            n += o.kind == "ok"
            self.ob(f"{name}#{o.n}: {title}", o.st, f, ent)
        if not n:
            self.ob(f"{name}: encodable", None, lambda: (_ for _ in ()).throw(Fail("no encoding path", "none")), ent)

    def roundtrip(self, name, norm=None):
        """decode(encode(x)) = x for every x"""
        res = {}
        ent = f"codec:{name}"
        if not self.ob(f"{name}: its encoder and decoder, symbolically", None,
                       lambda: res.__setitem__("e", self.cx("rt_c_" + name)), ent):
            return
        e, W = res["e"], self.CW
        for o in e.outs:
            def f():
                if o.kind != "ok":
                    if W.pr.dead(o.st):
                        return
                    raise Fail("an encoded value does not decode", W.pr.model(o.st))
                W.pr.eq(o.st, o.v, e["x"], name)
            self.ob(f"{name}#{o.n}: decoding an encoded value gives it back", o.st, f, ent)

    def decodes(self, name, title, tree, want):
        """the document tree(W, leaf) decodes to want(W, leaf) (None: is rejected)"""
        ent = f"codec:{name}"

        def f():
            W = self.cworld()
            I = W.I
            t = tree(W)
            e = W.run("de_" + name, args={"j": t})
            w = want(W) if want else None
            for o in e.outs:
                if W.pr.dead(o.st):
                    continue
                if o.st.notes:
                    raise Lost("abstracted call: " + "; ".join(list(o.st.notes)[:2]))
                if w is None:
                    if o.kind == "ok":
                        raise Fail("the document is accepted", W.pr.model(o.st) or "none")
                else:
                    if o.kind != "ok":
                        raise Fail("the document is rejected", W.pr.model(o.st) or "none")
                    W.pr.match(o.st, o.v, w, name)
        self.ob(f"{name}: {title}", None, f, ent)

    # ---- documents (spec side)
    def doc(self, W, d):
        """python value -> document tree"""
        I = W.I
        if d is None:
            return jv(I, "Null")
        if isinstance(d, Adt) and d.ty == json_ty(I):
            return d
        if isinstance(d, bool):
            return jv(I, "Bool", z3.BoolVal(d))
        if isinstance(d, int):
            return jv(I, "Num", z3.IntVal(d))
        if isinstance(d, str):
            return jv(I, "Str", sbytes(d))
        if isinstance(d, list):
            return jv(I, "Arr", Seq([Lit([self.doc(W, x) for x in d])]))
        if isinstance(d, dict):
            tt = I.P.types[json_ty(I)]["variants"][I.P.variant_index(json_ty(I), "Obj")]["fields"][0]["ty"]
            pair = I.P.seq_elem(tt)
            return jv(I, "Obj", Seq([Lit([Adt(pair, 0, [sbytes(k), self.doc(W, x)]) for k, x in d.items()])]))
        if is_term(d):
            if d.sort() == STR:
                return jv(I, "Str", d)
            if d.sort() == INT:
                return jv(I, "Num", d)
            return jv(I, "Bool", d)
        raise Lost(f"document of {type(d).__name__}")

    def dep(self, W, ty, name):
        """(document, value) of an arbitrary value of a dependency type"""
        t = next((i for i, d in enumerate(W.P.types) if d["s"] == ty), None)
        if t is None:
            raise Lost(f"type {ty}")
        v = W.I.leaf(t, name)
        return jv(W.I, "Dep", hooks.enc_value(W.I, "dep", t, v)), v

    # ---- protobuf layout of the crate's own messages
    def pb_layout(self, name, fields, title="protobuf field numbers"):
        """fields: {tag: (field name, kind)}; both the encoder and the decoder use these numbers"""
        ent = f"codec:{name}"
        for tag in list(fields) + [max(fields) + 1]:
            def dec():
                W = self.cworld()
                I = W.I
                b = W.P.fns[W.P.roots["pb_dec_" + name]]["body"]
                args = {n: I.leaf(b["locals"][i + 1], f"{name}.{n}") for i, n in enumerate(("m", "tag", "w", "b", "c"))}
                args["tag"] = z3.IntVal(tag)
                cell = args["m"].cell
                with PbHooks(I):
                    e = W.run("pb_dec_" + name, args=args)
                m0 = I.defaults[cell]
                for o in e.outs:
                    if o.st.notes:
                        raise Lost("abstracted call: " + "; ".join(list(o.st.notes)[:2]))
                    if o.kind != "ok" or W.pr.dead(o.st):
                        continue
                    m1 = I.read_cell(o.st, cell)
                    for i, f in enumerate(I.variants(m0.ty)[0]["fields"]):
                        x, y = I.snapshot(o.st, I.field(m1, i)), I.snapshot(o.st, I.field(m0, i))
                        if tag in fields and f["name"] == fields[tag][0]:
                            y = pb_read(I, fields[tag][1], f["ty"])
                        W.pr.eq(o.st, x, y, f"{name}.{f['name']} after reading field {tag}")
                if not any(o.kind == "ok" for o in e.outs):
                    raise Fail(f"field {tag} is never read", "none")
            self.ob(f"{name}: {title}: decoding field {tag}", None, dec, ent)

        def enc():
            W = self.cworld()
            I = W.I
            with PbHooks(I):
                e = W.run("pb_enc_" + name, ["x", "b"], mem={("PB",): Seq()})
            x = e["x"]
            names = [f["name"] for f in I.variants(x.ty)[0]["fields"]]
            if sorted(names) != sorted(f for f, _ in fields.values()):
                raise Lost(f"fields {names}")
            for o in e.outs:
                if o.st.notes:
                    raise Lost("abstracted call: " + "; ".join(list(o.st.notes)[:2]))
                if W.pr.dead(o.st):
                    continue
                if o.kind != "ok":
                    raise Fail("encoding fails", W.pr.model(o.st))
                got = o.st.mem.get(("PB",), Seq())
                want = []
                for tag, (f, kind) in sorted(fields.items()):
                    v = I.F(x, f)
                    if kind == "message*":
                        want.append(Each(v, lambda el, t=tag: pbrec(I, "message", t, el)))
                    elif kind.endswith("*"):
                        want.append([(z3.BoolVal(True), [pbrec(I, kind, tag, v)])])
                    else:
                        zero = v == (z3.IntVal(0) if v.sort() == INT else z3.StringVal(""))
                        want.append([(zero, []), (Not(zero), [pbrec(I, kind, tag, v)])])
                pb_match(W.pr, o.st, got, want, name)
        self.ob(f"{name}: {title}: encoding", None, enc, ent)

    def wrapped_callback(self):
        """the document put into the message to the callback contract is {"receive_ica_callback": <callback>}"""
        ent = "codec:callback"

        def f():
            W = self.cworld()
            I = W.I
            e = W.run("enc_callback", ["x"])
            for o in e.outs:
                if o.st.notes:
                    raise Lost("abstracted call")
                if o.kind != "ok":
                    raise Fail("a callback has no encoding", W.pr.model(o.st))
                b = o.v
                while not is_term(b):
                    b = I.field(b, 0)
                en = I.enc_of(b)
                if en is None:
                    raise Lost("not an encoding")
                fid = next((i for i, fn in enumerate(W.P.fns) if fn["body"] and
                            fn["name"].split("Serialize for ")[-1].startswith(W.P.types[en[1]]["s"] + ">::serialize::<&mut serde_json_wasm")), None)
                if fid is None:
                    raise Lost("serializer of the wrapper")
                seen = []

                def nv(I, st, cx, a):
                    seen.append((str_const(deref(I, st, a[3])), I.snapshot(st, a[4])))
                    return [(st, "ret", I.fresh(cx.dty, "json"))]
                old = dict(I.hooks)
                I.hooks["serde::Serializer::serialize_newtype_variant"] = nv
                I.hooks["serde::ser::Serializer::serialize_newtype_variant"] = nv
                try:
                    s0 = o.st.copy()
                    r = I.exec_fn(s0, fid, [Ref(I.alloc(s0, en[2])), z3.Const("serializer", OPQ)])
                finally:
                    I.hooks.clear()
                    I.hooks.update(old)
                if len(seen) != 1 or any(x[0].notes for x in r):
                    raise Lost("the wrapper is not a one-member object")
                if seen[0][0] != b"receive_ica_callback":
                    raise Fail(f"member {seen[0][0]} where receive_ica_callback is expected", "none")
                W.pr.eq(o.st, seen[0][1], e["x"], "callback")
        self.ob("callback: wrapped as receive_ica_callback", None, f, ent)


def pbrec(I, kind, tag, v):
    """spec-side record of an encoded field"""
    return ("pb", kind, tag, v)


def pb_match(pr, st, got, want, path):
    """got: Seq of (kind, tag, value) tuples; want: list of Each / alternatives of pbrec"""
    conv = []
    for w in want:
        if isinstance(w, Each):
            conv.append(Each(w.seq, lambda el, f=w.f: pb_pat(f(el))))
        else:
            conv.append(w)
    # split on the alternatives
    def go(st, i, acc):
        if i == len(conv):
            pr.match(st, got, acc, path)
            return
        w = conv[i]
        if isinstance(w, Each):
            return go(st, i + 1, acc + [w])
        for c, recs in w:
            if pr.I.feasible(st, simp(c)):
                go(st.copy().assume(simp(c)), i + 1, acc + [pb_pat(r) for r in recs])
    go(st, 0, [])


def pb_pat(r):
    _, kind, tag, v = r

    def m(pr, st, x, path):
        if not isinstance(x, Adt) or x.ty != "pbrec":
            raise Lost(f"{path}: not a field")
        k, t, y = x.fields
        if str_const(k).decode() != kind or conc(t) != tag:
            if pr.dead(st):
                return
            raise Fail(f"{path}: field {conc(t)} ({str_const(k).decode()}) where field {tag} ({kind}) is expected", pr.model(st) or "none")
        pr.eq(st, y, v, f"{path}: field {tag}")
    return m


def pb_read(I, kind, ty):
    return I.leaf(ty, "pbread:" + kind)


PBK = ("string", "bytes", "message", "uint64", "uint32", "int64", "int32", "bool", "sint64", "sint32", "fixed64", "fixed32")


class PbHooks:
    """records of the protobuf primitives: what field number and kind is written or read"""

    def __init__(self, I):
        self.I = I

    def __enter__(self):
        I = self.I
        self.old = dict(I.hooks)
        for n in ("prost::message::Message::encode_raw", "prost::Message::encode_raw"):
            I.hooks.pop(n, None)
        for k in PBK:
            for rep in ("", "_repeated", "_packed"):
                kind = k + ("*" if rep else "") + ("p" if rep == "_packed" else "")
                I.hooks[f"prost::encoding::{k}::encode{rep}"] = self.enc(kind)
                I.hooks[f"prost::encoding::{k}::merge{rep}"] = self.mrg(kind)
        I.hooks["prost::encoding::skip_field"] = lambda I, st, cx, a: ret(st, mk(I, cx.dty, "Ok", unit(I)))

    def __exit__(self, *a):
        self.I.hooks.clear()
        self.I.hooks.update(self.old)

    def enc(self, kind):
        def h(I, st, cx, a):
            st = st.copy()
            cur = st.mem.get(("PB",), Seq())
            rec = Adt("pbrec", 0, [sbytes(kind), a[0], I.snapshot(st, a[1])])
            st.mem[("PB",)] = Seq(cur.segs + (Lit([rec]),))
            return ret(st, unit(I))
        return h

    def mrg(self, kind):
        def h(I, st, cx, a):
            ty = I.P.types[cx.atys[1]]["to"] if cx.atys else None
            if ty is None:
                raise Unsupported("no type")
            st = upd(I, st, a[1], pb_read(I, kind, ty))
            return ret(st, mk(I, cx.dty, "Ok", unit(I)))
        return h
