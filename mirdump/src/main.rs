//! mirdump: a rustc driver that serialises the monomorphised MIR reachable from every non-generic
//! function of the crate being compiled (the "roots" crate) to JSON, with types and constants
//! decoded.  It changes nothing: what is dumped is what the compiler itself would hand to codegen
//! at -Zmir-opt-level=0.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;
extern crate serde_json;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ops::ControlFlow;

struct Cx {
    types: Vec<Value>,
    ty_ids: HashMap<Ty, usize>,
    ty_work: Vec<(Ty, usize)>,
    fns: HashMap<String, usize>,
    fn_out: Vec<Value>,
    fn_work: Vec<(Instance, usize)>,
    allow: Vec<String>,
    deny: Vec<String>,
}

/// the defining path of an item, independent of re-exports
fn true_path(d: rustc_public::DefId) -> String {
    rustc_middle::ty::tls::with(|tcx| {
        let id = rustc_public::rustc_internal::internal(tcx, d);
        rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(id)))
    })
}

fn mutb(m: Mutability) -> bool {
    matches!(m, Mutability::Mut)
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.ty_ids.insert(t, i);
        self.types.push(Value::Null);
        self.ty_work.push((t, i));
        i
    }

    fn args(&mut self, a: &GenericArgs) -> Vec<Value> {
        a.0.iter()
            .map(|g| match g {
                GenericArgKind::Type(t) => json!(self.ty(*t)),
                GenericArgKind::Const(c) => json!({"const": c.eval_target_usize().ok()}),
                GenericArgKind::Lifetime(_) => json!("'"),
            })
            .collect()
    }

    fn inst(&mut self, inst: Instance) -> usize {
        let key = format!("{}|{:?}|{}", inst.mangled_name(), inst.kind, inst.name());
        if let Some(i) = self.fns.get(&key) {
            return *i;
        }
        let i = self.fn_out.len();
        self.fns.insert(key, i);
        self.fn_out.push(Value::Null);
        self.fn_work.push((inst, i));
        i
    }

    fn describe_ty(&mut self, t: Ty) -> Value {
        let s = format!("{t}");
        let kind = match t.kind() {
            TyKind::RigidTy(r) => r,
            k => return json!({"k":"other","s":format!("{k:?}")}),
        };
        match kind {
            RigidTy::Bool => json!({"k":"bool"}),
            RigidTy::Char => json!({"k":"char"}),
            RigidTy::Int(i) => json!({"k":"int","bits": i.num_bytes()*8,"signed":true}),
            RigidTy::Uint(i) => json!({"k":"int","bits": i.num_bytes()*8,"signed":false}),
            RigidTy::Float(_) => json!({"k":"float"}),
            RigidTy::Str => json!({"k":"str"}),
            RigidTy::Never => json!({"k":"never"}),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                json!({"k":"array","elem":e,"len":n.eval_target_usize().ok()})
            }
            RigidTy::Slice(e) => json!({"k":"slice","elem":self.ty(e)}),
            RigidTy::RawPtr(e, m) => json!({"k":"ptr","to":self.ty(e),"mut":mutb(m)}),
            RigidTy::Ref(_, e, m) => json!({"k":"ref","to":self.ty(e),"mut":mutb(m)}),
            RigidTy::Tuple(ts) => {
                let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                json!({"k":"tuple","elems":v})
            }
            RigidTy::FnDef(d, a) => {
                let f = Instance::resolve(d, &a).ok().map(|i| self.inst(i));
                let args = self.args(&a);
                json!({"k":"fndef","name":d.name().to_string(),"args":args,"fn":f,"s":s})
            }
            RigidTy::FnPtr(sig) => {
                let sig = sig.skip_binder();
                let v: Vec<usize> = sig.inputs_and_output.iter().map(|t| self.ty(*t)).collect();
                json!({"k":"fnptr","sig":v})
            }
            RigidTy::Closure(d, a) => {
                let f = Instance::resolve_closure(d, &a, ClosureKind::Fn).ok().map(|i| self.inst(i));
                // the last generic argument is the tuple of captured types
                let up = a.0.iter().rev().find_map(|g| g.ty().copied()).map(|t| self.ty(t));
                json!({"k":"closure","name":d.name().to_string(),"fn":f,"upvars":up,"s":s})
            }
            RigidTy::Dynamic(..) => json!({"k":"dyn","s":s}),
            RigidTy::Adt(d, a) => {
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        fs.push(json!({"name": f.name.to_string(), "ty": self.ty(ft)}));
                    }
                    let disc = if d.kind().is_enum() {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(json!({"name": v.name().to_string(), "discr": disc, "fields": fs}));
                }
                let args = self.args(&a);
                json!({"k":"adt","name":d.name().to_string(),"path":true_path(d.def_id()),"args":args,"adt_kind":d.kind().to_string(),"variants":vs,"s":s})
            }
            other => json!({"k":"other","s":format!("{other:?}")}),
        }
    }

    // ---- constants -------------------------------------------------------------------------
    fn read_bytes(&self, a: &Allocation, off: usize, len: usize) -> Option<Vec<u8>> {
        a.bytes.get(off..off + len)?.iter().copied().collect()
    }
    fn read_uint(&self, a: &Allocation, off: usize, len: usize) -> Option<u128> {
        let b = self.read_bytes(a, off, len)?;
        let mut buf = [0u8; 16];
        buf[..b.len()].copy_from_slice(&b);
        Some(u128::from_le_bytes(buf))
    }
    fn prov_at(&self, a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Value {
        if depth > 12 {
            return json!({"opaque":"depth"});
        }
        let tid = self.ty(t);
        let kind = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return json!({"opaque":"nonrigid"}),
        };
        match kind {
            RigidTy::Bool => match self.read_uint(a, off, 1) {
                Some(v) => json!({"bool": v != 0}),
                None => json!({"opaque":"uninit"}),
            },
            RigidTy::Char => match self.read_uint(a, off, 4) {
                Some(v) => json!({"int": v.to_string(), "ty": tid}),
                None => json!({"opaque":"uninit"}),
            },
            RigidTy::Uint(u) => match self.read_uint(a, off, u.num_bytes()) {
                Some(v) => json!({"int": v.to_string(), "ty": tid}),
                None => json!({"opaque":"uninit"}),
            },
            RigidTy::Int(i) => match self.read_uint(a, off, i.num_bytes()) {
                Some(v) => {
                    let bits = i.num_bytes() * 8;
                    let sh = 128 - bits;
                    let s = ((v << sh) as i128) >> sh;
                    json!({"int": s.to_string(), "ty": tid})
                }
                None => json!({"opaque":"uninit"}),
            },
            RigidTy::Never => json!({"opaque":"never"}),
            RigidTy::Tuple(ts) => {
                let shape = t.layout().unwrap().shape();
                let mut out = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let o = field_off(&shape.fields, i);
                    out.push(self.decode(*ft, a, off + o, depth + 1));
                }
                json!({"tuple": out, "ty": tid})
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                    if let Some(b) = self.read_bytes(a, off, n) {
                        return json!({"bytes": b, "ty": tid});
                    }
                }
                let sz = e.layout().unwrap().shape().size.bytes();
                let mut out = vec![];
                for i in 0..n {
                    out.push(self.decode(e, a, off + i * sz, depth + 1));
                }
                json!({"array": out, "ty": tid})
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let Some(p) = self.prov_at(a, off) else {
                    return json!({"opaque":"ptr-without-provenance","addr": self.read_uint(a, off, 8).map(|v| v.to_string()), "ty": tid});
                };
                let inner_off = self.read_uint(a, off, 8).unwrap_or(0) as usize;
                let target = match GlobalAlloc::from(p) {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(s) => match s.eval_initializer() {
                        Ok(m) => m,
                        Err(_) => return json!({"opaque":"static"}),
                    },
                    GlobalAlloc::Function(i) => return json!({"fn": self.inst(i)}),
                    other => return json!({"opaque": format!("{other:?}").chars().take(80).collect::<String>()}),
                };
                let v = match to.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = self.read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let b = self.read_bytes(&target, inner_off, n).unwrap_or_default();
                        json!({"str": b})
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let n = self.read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let eid = self.ty(e);
                        if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                            json!({"bytes": self.read_bytes(&target, inner_off, n).unwrap_or_default()})
                        } else {
                            let sz = e.layout().unwrap().shape().size.bytes();
                            let mut out = vec![];
                            for i in 0..n {
                                out.push(self.decode(e, &target, inner_off + i * sz, depth + 1));
                            }
                            json!({"slice": out, "elem": eid})
                        }
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => json!({"opaque":"dyn"}),
                    _ => self.decode(to, &target, inner_off, depth + 1),
                };
                json!({"ref": v, "ty": tid})
            }
            RigidTy::FnPtr(_) => match self.prov_at(a, off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => json!({"fn": self.inst(i)}),
                _ => json!({"opaque":"fnptr"}),
            },
            RigidTy::FnDef(..) | RigidTy::Closure(..) => json!({"zst": tid}),
            RigidTy::Adt(d, args) => {
                let Ok(lay) = t.layout() else { return json!({"opaque":"layout"}) };
                let shape = lay.shape();
                if d.kind().is_union() {
                    return json!({"opaque":"union","ty":tid});
                }
                let (vidx, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return json!({"opaque":"empty"}),
                    VariantsShape::Single { index } => {
                        let n = d.variants()[index.to_index()].fields().len();
                        (index.to_index(), (0..n).map(|i| field_off(&shape.fields, i)).collect())
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tag_off = field_off(&shape.fields, *tag_field);
                        let tsz = scalar_size(tag);
                        let isptr = self.prov_at(a, off + tag_off).is_some();
                        let raw = self.read_uint(a, off + tag_off, tsz);
                        let v = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(raw) = raw else { return json!({"opaque":"uninit"}) };
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                match d.variants().iter().position(|v| d.discriminant_for_variant(v.idx()).val & mask == raw) {
                                    Some(v) => v,
                                    None => return json!({"opaque":"tag"}),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if isptr {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(raw) = raw else { return json!({"opaque":"uninit"}) };
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let start = niche_variants.start().to_index();
                                    let end = niche_variants.end().to_index();
                                    if rel <= (end - start) as u128 {
                                        start + rel as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (v, variants[v].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let mut fs = vec![];
                for (i, f) in d.variants()[vidx].fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    fs.push(self.decode(ft, a, off + offs[i], depth + 1));
                }
                json!({"adt": tid, "variant": vidx, "fields": fs})
            }
            _ => json!({"opaque":"kind"}),
        }
    }

    fn mconst(&mut self, c: &MirConst) -> Value {
        let t = c.ty();
        let tid = self.ty(t);
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::ZeroSized => json!({"zst": tid}),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => json!({"int": v.to_string(), "ty": tid}),
                Err(_) => match tc.kind() {
                    TyConstKind::Value(t, a) => self.decode(*t, a, 0, 0),
                    _ => json!({"opaque": format!("{tc:?}")}),
                },
            },
            ConstantKind::Unevaluated(u) => json!({"uneval": u.def.name().to_string(), "ty": tid}),
            ConstantKind::Param(_) => json!({"opaque":"param"}),
        }
    }

    // ---- bodies ----------------------------------------------------------------------------
    fn place(&mut self, p: &Place) -> Value {
        let pr: Vec<Value> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => json!({"f": i, "ty": self.ty(*t)}),
                ProjectionElem::Index(l) => json!({"idx": l}),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!({"cidx": offset, "min": min_length, "from_end": from_end})
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    json!({"sub": [from, to], "from_end": from_end})
                }
                ProjectionElem::Downcast(v) => json!({"v": v.to_index()}),
                ProjectionElem::OpaqueCast(_) => json!("opaquecast"),
            })
            .collect();
        json!({"l": p.local, "p": pr})
    }

    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!({"copy": self.place(p)}),
            Operand::Move(p) => json!({"move": self.place(p)}),
            Operand::Constant(c) => json!({"const": self.mconst(&c.const_)}),
            Operand::RuntimeChecks(r) => json!({"rtcheck": format!("{r:?}")}),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        match r {
            Rvalue::Use(o, _) => json!({"k":"use","o":self.operand(o)}),
            Rvalue::Ref(_, b, p) => json!({"k":"ref","mut":mutb(b.to_mutable_lossy()),"p":self.place(p)}),
            Rvalue::AddressOf(_, p) => json!({"k":"addrof","p":self.place(p)}),
            Rvalue::CopyForDeref(p) => json!({"k":"use","o":{"copy": self.place(p)}}),
            Rvalue::Reborrow(_, m, p) => json!({"k":"use","reborrow":mutb(*m),"o":{"copy": self.place(p)}}),
            Rvalue::Len(p) => json!({"k":"len","p":self.place(p)}),
            Rvalue::Discriminant(p) => {
                let t = r.ty(locals).ok().map(|t| self.ty(t));
                let pt = p.ty(locals).ok().map(|t| self.ty(t));
                json!({"k":"discr","p":self.place(p),"ty":t,"pty":pt})
            }
            Rvalue::UnaryOp(op, o) => {
                let t = r.ty(locals).ok().map(|t| self.ty(t));
                json!({"k":"un","op":format!("{op:?}"),"o":self.operand(o),"ty":t})
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).ok().map(|t| self.ty(t));
                json!({"k":"bin","op":format!("{op:?}"),"a":self.operand(a),"b":self.operand(b),"oty":t})
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).ok().map(|t| self.ty(t));
                json!({"k":"cbin","op":format!("{op:?}"),"a":self.operand(a),"b":self.operand(b),"oty":t})
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).ok().map(|t| self.ty(t));
                json!({"k":"cast","ck":format!("{k:?}"),"o":self.operand(o),"ty":self.ty(*t),"from":from})
            }
            Rvalue::Repeat(o, n) => json!({"k":"repeat","o":self.operand(o),"n":n.eval_target_usize().ok()}),
            Rvalue::ThreadLocalRef(_) => json!({"k":"unsupported","s":"ThreadLocalRef"}),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                let t = r.ty(locals).ok().map(|t| self.ty(t));
                let (kind, variant) = match k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, f) => {
                        if f.is_some() { ("union", 0) } else { ("adt", v.to_index()) }
                    }
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                json!({"k":"agg","ak":kind,"variant":variant,"ops":os,"ty":t})
            }
        }
    }

    fn line(&self, s: &Span) -> Value {
        let l = s.get_lines();
        json!([s.get_filename().to_string(), l.start_line])
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let ls = b.locals().to_vec();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut sts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pv = self.place(p);
                        let rv = self.rvalue(r, &ls);
                        sts.push(json!({"k":"assign","p":pv,"r":rv}))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pv = self.place(place);
                        sts.push(json!({"k":"setdiscr","p":pv,"v":variant_index.to_index()}))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.operand(o);
                        sts.push(json!({"k":"assume","o":o}))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        sts.push(json!({"k":"unsupported","s":"copy_nonoverlapping"}))
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let tv = match &t.kind {
                TerminatorKind::Goto { target } => json!({"k":"goto","t":target}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&ls).ok().map(|t| self.ty(t));
                    let br: Vec<Value> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    json!({"k":"switch","o":self.operand(discr),"ty":ty,"br":br,"other":targets.otherwise()})
                }
                TerminatorKind::Return => json!({"k":"ret"}),
                TerminatorKind::Unreachable => json!({"k":"unreachable"}),
                TerminatorKind::Resume | TerminatorKind::Abort => json!({"k":"abort"}),
                TerminatorKind::Drop { target, .. } => json!({"k":"goto","t":target}),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    json!({"k":"assert","o":self.operand(cond),"exp":expected,"t":target,"msg":msg.description().unwrap_or("assert")})
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&ls).ok();
                    let callee = match fty.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                            let ga = self.args(&a);
                            match Instance::resolve(d, &a) {
                                Ok(i) => {
                                    let id = self.inst(i);
                                    json!({"fn": id, "name": d.name().to_string(), "args": ga})
                                }
                                Err(_) => json!({"unresolved": d.name().to_string(), "name": d.name().to_string(), "args": ga}),
                            }
                        }
                        _ => json!({"ptr": self.operand(func)}),
                    };
                    let av: Vec<Value> = args.iter().map(|o| self.operand(o)).collect();
                    let aty: Vec<Value> = args.iter().map(|o| json!(o.ty(&ls).ok().map(|t| self.ty(t)))).collect();
                    let dv = self.place(destination);
                    let dty = destination.ty(&ls).ok().map(|t| self.ty(t));
                    json!({"k":"call","f":callee,"args":av,"atys":aty,"dest":dv,"dty":dty,"t":target})
                }
                TerminatorKind::InlineAsm { .. } => json!({"k":"unsupported","s":"asm"}),
            };
            let mut tv = tv;
            tv["span"] = self.line(&t.source_info.span);
            blocks.push(json!({"s": sts, "t": tv}));
        }
        let names: Vec<Value> = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| json!([l, v.name.to_string()])))
            .collect();
        json!({"locals": locals, "argc": b.arg_locals().len(), "blocks": blocks, "spread": b.spread_arg(), "names": names, "span": self.line(&b.span)})
    }

    fn want_body(&self, name: &str) -> bool {
        let bare = name.trim_start_matches('<');
        if self.deny.iter().any(|p| bare.starts_with(p.as_str())) {
            return false;
        }
        self.allow.iter().any(|p| p == "*" || bare.starts_with(p.as_str()))
    }

    fn run(&mut self) {
        loop {
            if let Some((inst, i)) = self.fn_work.pop() {
                let name = inst.name().to_string();
                let def = inst.def.name().to_string();
                let krate = inst.def.krate().name.to_string();
                let args = self.args(&inst.args());
                let wanted = !matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic)
                    && self.want_body(&def);
                let body = if wanted && (inst.has_body() || inst.kind == InstanceKind::Shim) {
                    match inst.body() {
                        Some(b) => self.body(&b),
                        None => Value::Null,
                    }
                } else {
                    Value::Null
                };
                self.fn_out[i] = json!({"name": name, "def": def, "crate": krate, "args": args,
                    "kind": format!("{:?}", inst.kind), "body": body});
                continue;
            }
            if let Some((t, i)) = self.ty_work.pop() {
                let mut d = self.describe_ty(t);
                if d.get("s").is_none() {
                    d["s"] = json!(format!("{t}"));
                }
                self.types[i] = d;
                continue;
            }
            break;
        }
    }
}

fn field_off(f: &FieldsShape, i: usize) -> usize {
    match f {
        FieldsShape::Arbitrary { offsets } => offsets.get(i).map(|o| o.bytes()).unwrap_or(0),
        FieldsShape::Array { stride, .. } => stride.bytes() * i,
        _ => 0,
    }
}

fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{IntegerLength, Primitive, Scalar};
    let p = match s {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => match length {
            IntegerLength::I8 => 1,
            IntegerLength::I16 => 2,
            IntegerLength::I32 => 4,
            IntegerLength::I64 => 8,
            IntegerLength::I128 => 16,
        },
        _ => 8,
    }
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let list = |v: &str| -> Vec<String> {
        std::env::var(v)
            .ok()
            .map(|p| {
                std::fs::read_to_string(p).unwrap().lines().map(|l| l.trim().to_string())
                    .filter(|l| !l.is_empty() && !l.starts_with('#')).collect()
            })
            .unwrap_or_default()
    };
    let mut cx = Cx {
        types: vec![], ty_ids: HashMap::new(), ty_work: vec![], fns: HashMap::new(), fn_out: vec![],
        fn_work: vec![], allow: list("MIRDUMP_ALLOW"), deny: list("MIRDUMP_DENY"),
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            roots.push((item.name().to_string(), cx.inst(i)));
        }
    }
    cx.run();
    let v = json!({"roots": roots, "types": cx.types, "fns": cx.fn_out});
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    if krate.as_deref() == Some("roots") && std::env::var("MIRDUMP_OUT").is_ok() {
        match run!(&args, dump) {
            Ok(()) => {}
            Err(_) => std::process::exit(1),
        }
    } else {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
