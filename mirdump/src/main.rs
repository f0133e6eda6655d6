//! mirdump: a rustc driver (nightly, `rustc_public`) that behaves like rustc for every crate and,
//! when MIRDUMP_OUT is set and the crate being compiled is MIRDUMP_CRATE, also writes the
//! monomorphised MIR of everything reachable from the crate's functions to MIRDUMP_OUT (JSON).
//! It is purely mechanical: every function body is printed as rustc holds it (no rewriting).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::crate_def::CrateDefType;
use rustc_public::{CrateDef, CrateItem};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

#[derive(Clone)]
enum J { Null, B(bool), I(i128), U(u128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"), '\n' => out.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(out, "\\u{:04x}", c as u32); }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::U(i) => { let _ = write!(o, "{}", i); }
            J::S(x) => esc(o, x),
            J::A(v) => { o.push('['); for (i, e) in v.iter().enumerate() { if i > 0 { o.push(','); } e.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, e)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(o, k); o.push(':'); e.w(o); } o.push('}'); }
        }
    }
}

struct Ctx {
    tys: HashMap<Ty, usize>,
    tyj: Vec<J>,
    fns: HashMap<String, usize>,
    fnj: Vec<J>,
    queue: VecDeque<(Instance, usize)>,
    stop: Vec<String>,
    aux: Vec<(String, FnDef)>,
    statics: BTreeMap<String, J>,
}

fn us(x: usize) -> J { J::U(x as u128) }

impl Ctx {
    fn tyid(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.tyj.len();
        self.tys.insert(t, i);
        self.tyj.push(J::Null);
        let j = self.tyjson(t);
        self.tyj[i] = j;
        i
    }
    fn ty(&mut self, t: Ty) -> J { let i = self.tyid(t); us(i) }
    fn gargs(&mut self, a: &GenericArgs) -> J {
        J::A(a.0.iter().map(|g| match g {
            GenericArgKind::Type(t) => self.ty(*t),
            GenericArgKind::Const(c) => match c.eval_target_usize() { Ok(n) => s(format!("#{}", n)), _ => s(format!("{:?}", c)) },
            GenericArgKind::Lifetime(_) => s("'"),
        }).collect())
    }
    fn layout(&mut self, t: Ty) -> J {
        let Ok(l) = t.layout() else { return J::Null };
        let sh = l.shape();
        let offs = match &sh.fields {
            FieldsShape::Arbitrary { offsets } => J::A(offsets.iter().map(|o| us(o.bytes())).collect()),
            FieldsShape::Array { stride, count } => J::O(vec![("stride", us(stride.bytes())), ("count", J::U(*count as u128))]),
            _ => J::Null,
        };
        let vars = match &sh.variants {
            VariantsShape::Empty => s("empty"),
            VariantsShape::Single { index } => J::O(vec![("single", us(index.to_index()))]),
            VariantsShape::Multiple { tag_encoding, tag_field, variants, .. } => {
                let off = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                let enc = match tag_encoding { TagEncoding::Direct => s("direct"), TagEncoding::Niche { .. } => s("niche") };
                J::O(vec![("tag_off", us(off)), ("enc", enc),
                    ("offs", J::A(variants.iter().map(|v| J::A(v.offsets.iter().map(|o| us(o.bytes())).collect())).collect()))])
            }
        };
        J::O(vec![("size", us(sh.size.bytes())), ("align", J::U(sh.abi_align as u128)), ("unsized", J::B(sh.is_unsized())), ("offs", offs), ("vars", vars)])
    }
    fn tyjson(&mut self, t: Ty) -> J {
        let nm = s(format!("{}", t));
        let kind = t.kind();
        let mut v: Vec<(&'static str, J)> = vec![("n", nm)];
        let TyKind::RigidTy(r) = kind else { v.push(("k", s("other"))); return J::O(v) };
        match r {
            RigidTy::Bool => v.push(("k", s("bool"))),
            RigidTy::Char => v.push(("k", s("char"))),
            RigidTy::Int(i) => { v.push(("k", s("int"))); v.push(("bits", us(i.num_bytes() * 8))); v.push(("signed", J::B(true))) }
            RigidTy::Uint(i) => { v.push(("k", s("int"))); v.push(("bits", us(i.num_bytes() * 8))); v.push(("signed", J::B(false))) }
            RigidTy::Float(_) => v.push(("k", s("float"))),
            RigidTy::Adt(def, args) => {
                v.push(("k", s("adt")));
                v.push(("def", s(def.name())));
                v.push(("kind", s(format!("{:?}", def.kind()))));
                v.push(("args", self.gargs(&args)));
                if def.kind() != AdtKind::Union {
                    let is_enum = def.kind() == AdtKind::Enum;
                    let vs = def.variants().iter().map(|va| {
                        let fs = va.fields().iter().map(|f| {
                            let ft = f.ty_with_args(&args);
                            J::A(vec![s(f.name.clone()), self.ty(ft)])
                        }).collect();
                        let mut o = vec![("name", s(va.name())), ("fields", J::A(fs))];
                        if is_enum { o.push(("disc", J::U(def.discriminant_for_variant(va.idx()).val))); }
                        J::O(o)
                    }).collect();
                    v.push(("variants", J::A(vs)));
                }
                v.push(("layout", self.layout(t)));
            }
            RigidTy::Str => v.push(("k", s("str"))),
            RigidTy::Array(e, n) => {
                v.push(("k", s("array"))); v.push(("elem", self.ty(e)));
                v.push(("len", match n.eval_target_usize() { Ok(n) => J::U(n as u128), _ => J::Null }));
                v.push(("layout", self.layout(t)));
            }
            RigidTy::Slice(e) => { v.push(("k", s("slice"))); v.push(("elem", self.ty(e))); }
            RigidTy::RawPtr(e, m) => { v.push(("k", s("ptr"))); v.push(("to", self.ty(e))); v.push(("mut", J::B(m == Mutability::Mut))); }
            RigidTy::Ref(_, e, m) => { v.push(("k", s("ref"))); v.push(("to", self.ty(e))); v.push(("mut", J::B(m == Mutability::Mut))); }
            RigidTy::FnDef(d, a) => {
                v.push(("k", s("fndef"))); v.push(("def", s(d.name()))); v.push(("args", self.gargs(&a)));
                if let Ok(i) = Instance::resolve(d, &a) { v.push(("fn", self.inst(i))); }
            }
            RigidTy::FnPtr(_) => v.push(("k", s("fnptr"))),
            RigidTy::Closure(d, a) => {
                v.push(("k", s("closure"))); v.push(("def", s(d.name()))); v.push(("args", self.gargs(&a)));
                let kinds = [("once", ClosureKind::FnOnce), ("mut", ClosureKind::FnMut), ("ref", ClosureKind::Fn)];
                let mut o = vec![];
                for (n, k) in kinds {
                    // resolving a closure with a stronger kind than it has is an error inside rustc: find its own kind
                    let kind_ty = a.0[a.0.len() - 3].clone();
                    let own = match kind_ty { GenericArgKind::Type(t) => format!("{}", t), _ => String::new() };
                    let rank = match own.as_str() { "i8" => 2, "i16" => 1, _ => 0 };
                    let need = match k { ClosureKind::Fn => 2, ClosureKind::FnMut => 1, ClosureKind::FnOnce => 0 };
                    if need > rank { continue; }
                    if let Ok(i) = Instance::resolve_closure(d, &a, k) { o.push((n, self.inst(i))); }
                }
                v.push(("call", J::O(o)));
            }
            RigidTy::Dynamic(..) => v.push(("k", s("dyn"))),
            RigidTy::Never => v.push(("k", s("never"))),
            RigidTy::Tuple(ts) => { v.push(("k", s("tuple"))); v.push(("elems", J::A(ts.iter().map(|t| self.ty(*t)).collect()))); v.push(("layout", self.layout(t))); }
            _ => v.push(("k", s("other"))),
        }
        J::O(v)
    }
    fn inst(&mut self, i: Instance) -> J {
        let key = format!("{}|{:?}", i.mangled_name(), i.kind);
        if let Some(id) = self.fns.get(&key) { return us(*id); }
        let id = self.fnj.len();
        self.fns.insert(key, id);
        self.fnj.push(J::Null);
        self.queue.push_back((i, id));
        us(id)
    }
    fn process(&mut self, i: Instance, id: usize) {
        let name = i.name();
        let def = i.def.name();
        let mut o: Vec<(&'static str, J)> = vec![("name", s(name.clone())), ("def", s(def.clone()))];
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim", _ => "llvm" };
        o.push(("kind", s(kind)));
        if let Some(n) = i.intrinsic_name() { o.push(("intrinsic", s(n))); }
        let args = i.args();
        o.push(("args", self.gargs(&args)));
        let span = i.def.span();
        o.push(("span", s(span.diagnostic())));
        let stopped = self.stop.iter().any(|p| if let Some(x) = p.strip_prefix('~') { name.contains(x) } else { def.starts_with(p.as_str()) || name.starts_with(p.as_str()) });
        if kind != "intrinsic" && kind != "virtual" && !stopped && !i.is_foreign_item() && i.has_body() {
            if let Some(b) = i.body() {
                o.push(("body", self.body(&b)));
            }
        } else if stopped { o.push(("stopped", J::B(true))); }
        // auxiliary trait resolutions for the type arguments (iterator `next`, callables)
        let mut aux = vec![];
        for g in args.0.iter() {
            if let GenericArgKind::Type(t) = g {
                let auxes = self.aux.clone();
                for (nm, fd) in auxes {
                    if let Some(inst) = try_resolve(&fd, *t) {
                        let tid = self.ty(*t);
                        let iid = self.inst(inst);
                        aux.push(J::A(vec![tid, s(nm.clone()), iid]));
                    }
                }
            }
        }
        if !aux.is_empty() { o.push(("aux", J::A(aux))); }
        self.fnj[id] = J::O(o);
    }
    fn body(&mut self, b: &Body) -> J {
        let locals = J::A(b.locals().iter().map(|l| self.ty(l.ty)).collect());
        let blocks = b.blocks.iter().map(|bb| {
            let st = bb.statements.iter().filter_map(|x| self.stmt(x, b)).collect();
            J::O(vec![("s", J::A(st)), ("t", self.term(&bb.terminator, b)), ("l", us(bb.terminator.source_info.span.get_lines().start_line))])
        }).collect();
        let mut o = vec![("locals", locals), ("argc", us(b.arg_locals().len())), ("blocks", J::A(blocks))];
        if let Some(sp) = b.spread_arg() { o.push(("spread", us(sp))); }
        J::O(o)
    }
    fn place(&mut self, p: &Place) -> J {
        if p.projection.is_empty() { return us(p.local); }
        let pr = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => s("*"),
            ProjectionElem::Field(i, t) => J::A(vec![s("f"), us(*i), self.ty(*t)]),
            ProjectionElem::Index(l) => J::A(vec![s("i"), us(*l)]),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), J::U(*offset as u128), J::U(*min_length as u128), J::B(*from_end)]),
            ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), J::U(*from as u128), J::U(*to as u128), J::B(*from_end)]),
            ProjectionElem::Downcast(v) => J::A(vec![s("d"), us(v.to_index())]),
            ProjectionElem::OpaqueCast(_) => s("oc"),
        }).collect();
        J::A(vec![us(p.local), J::A(pr)])
    }
    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => { let v = self.konst(&c.const_); J::A(vec![s("k"), v, self.ty(c.const_.ty())]) }
            Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{:?}", r))]),
        }
    }
    fn konst(&mut self, c: &MirConst) -> J {
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(c.ty(), a, 0),
            ConstantKind::ZeroSized => J::O(vec![("k", s("zst"))]),
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(ty, a) => self.decode(*ty, a, 0),
                TyConstKind::ZSTValue(_) => J::O(vec![("k", s("zst"))]),
                _ => J::O(vec![("k", s("unknown")), ("d", s(format!("{:?}", t)))]),
            },
            k => J::O(vec![("k", s("unknown")), ("d", s(format!("{:?}", k)))]),
        }
    }
    fn ptr_at(a: &Allocation, off: usize) -> Option<AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }
    fn unknown<T: Into<String>>(d: T) -> J { J::O(vec![("k", s("unknown")), ("d", s(d))]) }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize) -> J {
        let TyKind::RigidTy(r) = t.kind() else { return Self::unknown("nonrigid") };
        let rd = |o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        match r {
            RigidTy::Bool => match rd(off, 1) { Some(v) => J::O(vec![("k", s("bool")), ("v", J::B(v != 0))]), None => J::O(vec![("k", s("uninit"))]) },
            RigidTy::Char => match rd(off, 4) { Some(v) => J::O(vec![("k", s("int")), ("v", J::U(v))]), None => J::O(vec![("k", s("uninit"))]) },
            RigidTy::Float(FloatTy::F64) => match rd(off, 8) { Some(v) => J::O(vec![("k", s("f64")), ("v", J::U(v))]), None => J::O(vec![("k", s("uninit"))]) },
            RigidTy::Uint(u) => match rd(off, u.num_bytes()) { Some(v) if Self::ptr_at(a, off).is_none() => J::O(vec![("k", s("int")), ("v", J::U(v))]), _ => J::O(vec![("k", s("uninit"))]) },
            RigidTy::Int(u) => match rd(off, u.num_bytes()) {
                Some(v) => { let n = u.num_bytes() * 8; let v = if n < 128 && (v >> (n - 1)) & 1 == 1 { v as i128 - (1i128 << n) } else { v as i128 }; J::O(vec![("k", s("int")), ("v", J::I(v))]) }
                None => J::O(vec![("k", s("uninit"))]) },
            RigidTy::Array(e, n) => {
                let Ok(n) = n.eval_target_usize() else { return Self::unknown("array len") };
                let Ok(l) = e.layout() else { return Self::unknown("array layout") };
                let sz = l.shape().size.bytes();
                self.seq(e, n as usize, sz, a, off)
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return Self::unknown("tuple layout") };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else { return J::O(vec![("k", s("adt")), ("variant", us(0)), ("fields", J::A(vec![]))]) };
                let fs = ts.iter().enumerate().map(|(i, ft)| self.decode(*ft, a, off + offsets[i].bytes())).collect();
                J::O(vec![("k", s("adt")), ("variant", us(0)), ("fields", J::A(fs))])
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union { return Self::unknown("union"); }
                let Ok(l) = t.layout() else { return Self::unknown("adt layout") };
                let sh = l.shape();
                let vs = def.variants();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return Self::unknown("empty enum"),
                    VariantsShape::Single { index } => (index.to_index(), match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] }),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = off + match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let tsz = scalar_size(tag);
                        let isptr = Self::ptr_at(a, toff).is_some();
                        let tv = if isptr { None } else { rd(toff, tsz) };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tv else { return Self::unknown("tag") };
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                match vs.iter().position(|v| def.discriminant_for_variant(v.idx()).val & mask == tv) { Some(i) => i, None => return Self::unknown("tag value") }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match tv {
                                None if isptr => untagged_variant.to_index(),
                                None => return Self::unknown("niche uninit"),
                                Some(tv) => {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let (lo, hi) = (niche_variants.start().to_index() as u128, niche_variants.end().to_index() as u128);
                                    if rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                }
                            },
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let fs = vs[vi].fields();
                let fj = fs.iter().enumerate().map(|(i, f)| self.decode(f.ty_with_args(&args), a, off + offs.get(i).copied().unwrap_or(0))).collect();
                J::O(vec![("k", s("adt")), ("variant", us(vi)), ("fields", J::A(fj))])
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let Some(id) = Self::ptr_at(a, off) else {
                    let v = rd(off, 8).unwrap_or(0);
                    let meta = rd(off + 8, 8).ok_or(());
                    return J::O(vec![("k", s("addr")), ("v", J::U(v)), ("meta", meta.map(J::U).unwrap_or(J::Null))]);
                };
                let po = rd(off, 8).unwrap_or(0) as usize;
                let meta = if a.bytes.len() >= off + 16 { rd(off + 8, 8) } else { None };
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => {
                        let TyKind::RigidTy(tr) = to.kind() else { return Self::unknown("ref to nonrigid") };
                        let tgt = match tr {
                            RigidTy::Str => { let n = meta.unwrap_or(0) as usize; let bs: Vec<u8> = m.bytes[po..po + n].iter().map(|b| b.unwrap_or(0)).collect(); J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(&bs).to_string()))]) }
                            RigidTy::Slice(e) => { let n = meta.unwrap_or(0) as usize; let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0); self.seq(e, n, sz, &m, po) }
                            _ => self.decode(to, &m, po),
                        };
                        J::O(vec![("k", s("ref")), ("to", tgt)])
                    }
                    GlobalAlloc::Function(i) => { let f = self.inst(i); J::O(vec![("k", s("fnptr")), ("fn", f)]) }
                    GlobalAlloc::Static(d) => {
                        let n = d.name();
                        if !self.statics.contains_key(&n) {
                            self.statics.insert(n.clone(), J::Null);
                            let v = match d.eval_initializer() { Ok(al) => self.decode(d.ty(), &al, 0), _ => Self::unknown("static") };
                            self.statics.insert(n.clone(), v);
                        }
                        J::O(vec![("k", s("static")), ("name", s(n))])
                    }
                    GlobalAlloc::VTable(..) => Self::unknown("vtable"),
                    _ => Self::unknown("galloc"),
                }
            }
            RigidTy::FnPtr(_) => match Self::ptr_at(a, off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => { let f = self.inst(i); J::O(vec![("k", s("fnptr")), ("fn", f)]) }
                _ => Self::unknown("fnptr"),
            },
            RigidTy::FnDef(..) | RigidTy::Closure(..) => J::O(vec![("k", s("zst"))]),
            _ => Self::unknown(format!("{}", t)),
        }
    }
    fn seq(&mut self, e: Ty, n: usize, sz: usize, a: &Allocation, off: usize) -> J {
        if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = e.kind() {
            let v: Vec<J> = a.bytes[off..off + n].iter().map(|b| match b { Some(b) => J::U(*b as u128), None => J::Null }).collect();
            return J::O(vec![("k", s("bytes")), ("v", J::A(v))]);
        }
        if n > 4096 { return Self::unknown("big array"); }
        let v = (0..n).map(|i| self.decode(e, a, off + i * sz)).collect();
        J::O(vec![("k", s("seq")), ("v", J::A(v))])
    }
    fn stmt(&mut self, st: &Statement, b: &Body) -> Option<J> {
        Some(match &st.kind {
            StatementKind::Assign(p, r) => J::A(vec![s("="), self.place(p), self.rv(r, b)]),
            StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![s("sd"), self.place(place), us(variant_index.to_index())]),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => J::A(vec![s("assume"), self.op(o)]),
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => J::A(vec![s("cno"), self.op(&c.src), self.op(&c.dst), self.op(&c.count)]),
            _ => return None,
        })
    }
    fn rv(&mut self, r: &Rvalue, b: &Body) -> J {
        match r {
            Rvalue::AddressOf(_, p) => J::A(vec![s("addr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let o = J::A(ops.iter().map(|o| self.op(o)).collect());
                match k {
                    AggregateKind::Array(t) => J::A(vec![s("arr"), self.ty(*t), o]),
                    AggregateKind::Tuple => J::A(vec![s("tup"), o]),
                    AggregateKind::Adt(d, v, a, _, fi) => { let t = self.ty(d.ty_with_args(a)); J::A(vec![s("adt"), t, us(v.to_index()), o, fi.map(us).unwrap_or(J::Null)]) }
                    AggregateKind::Closure(d, a) => { let t = self.ty(Ty::new_closure(*d, a.clone())); J::A(vec![s("clo"), t, o]) }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), self.ty(*t), o]),
                    _ => J::A(vec![s("unsupported")]),
                }
            }
            Rvalue::BinaryOp(k, x, y) => J::A(vec![s("bin"), s(format!("{:?}", k)), self.op(x), self.op(y), self.opty(x, b)]),
            Rvalue::CheckedBinaryOp(k, x, y) => J::A(vec![s("cbin"), s(format!("{:?}", k)), self.op(x), self.op(y), self.opty(x, b)]),
            Rvalue::Cast(k, o, t) => { let from = self.opty(o, b); J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(o), self.ty(*t), from]) }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Discriminant(p) => { let t = p.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(J::Null); J::A(vec![s("disc"), self.place(p), t]) }
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), self.place(p), J::B(matches!(k, BorrowKind::Mut { .. }))]),
            Rvalue::Repeat(o, n) => J::A(vec![s("rep"), self.op(o), match n.eval_target_usize() { Ok(n) => J::U(n as u128), _ => J::Null }, self.opty(o, b)]),
            Rvalue::UnaryOp(k, o) => J::A(vec![s("un"), s(format!("{:?}", k)), self.op(o), self.opty(o, b)]),
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o)]),
            other => J::A(vec![s("unsupported"), s(format!("{:?}", other))]),
        }
    }
    fn opty(&mut self, o: &Operand, b: &Body) -> J { match o.ty(b.locals()) { Ok(t) => self.ty(t), _ => J::Null } }
    fn term(&mut self, t: &Terminator, b: &Body) -> J {
        match &t.kind {
            TerminatorKind::Goto { target } => J::A(vec![s("goto"), us(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br = targets.branches().map(|(v, t)| J::A(vec![J::U(v), us(t)])).collect();
                J::A(vec![s("sw"), self.op(discr), J::A(br), us(targets.otherwise()), self.opty(discr, b)])
            }
            TerminatorKind::Return => J::A(vec![s("ret")]),
            TerminatorKind::Resume => J::A(vec![s("resume")]),
            TerminatorKind::Abort => J::A(vec![s("abort")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(J::Null);
                J::A(vec![s("drop"), self.place(place), us(*target), t])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func.ty(b.locals()).map(|t| t.kind()) {
                    Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => match Instance::resolve(d, &a) {
                        Ok(i) => self.inst(i),
                        Err(_) => J::O(vec![("unresolved", s(d.name()))]),
                    },
                    _ => J::O(vec![("ptr", self.op(func))]),
                };
                let dty = destination.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(J::Null);
                J::A(vec![s("call"), f, J::A(args.iter().map(|a| self.op(a)).collect()), self.place(destination), target.map(us).unwrap_or(J::Null),
                    J::A(args.iter().map(|a| self.opty(a, b)).collect()), dty])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::Overflow(op, ..) => format!("Overflow({:?})", op),
                    AssertMessage::BoundsCheck { .. } => "BoundsCheck".into(),
                    other => format!("{:?}", other).split('(').next().unwrap_or("").to_string(),
                };
                J::A(vec![s("assert"), self.op(cond), J::B(*expected), s(m), us(*target)])
            }
            _ => J::A(vec![s("unsupported")]),
        }
    }
}

fn scalar_size(sc: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match sc { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Pointer(_) => 8,
        Primitive::Float { .. } => 8,
    }
}

fn try_resolve(fd: &FnDef, t: Ty) -> Option<Instance> {
    // only ask for types whose trait implementation is certain, resolution of a missing impl is an error
    let args = GenericArgs(vec![GenericArgKind::Type(t)]);
    match Instance::resolve(*fd, &args) { Ok(i) => Some(i), Err(_) => None }
}

fn trait_fn(tr: &str, f: &str) -> Option<FnDef> {
    for td in rustc_public::all_trait_decls() {
        if td.name() == tr || td.name().ends_with(&format!("::{}", tr)) {
            for it in td.associated_items() {
                if let AssocKind::Fn { name, .. } = &it.kind {
                    if name == f {
                        let tyd = FnDef(it.def_id.def_id());
                        return Some(tyd);
                    }
                }
            }
        }
    }
    None
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let stop = std::env::var("MIRDUMP_STOP").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    let mut aux = vec![];
    if let Some(f) = trait_fn("iter::Iterator", "next") { aux.push(("next".to_string(), f)); }
    if let Some(f) = trait_fn("iter::IntoIterator", "into_iter") { aux.push(("into_iter".to_string(), f)); }
    let mut cx = Ctx { tys: HashMap::new(), tyj: vec![], fns: HashMap::new(), fnj: vec![], queue: VecDeque::new(),
        stop: stop.lines().map(|l| l.trim()).filter(|l| !l.is_empty() && !l.starts_with('#')).map(|l| l.to_string()).collect(), aux, statics: BTreeMap::new() };
    let mut roots = vec![];
    for fd in rustc_public::local_crate().fn_defs() {
        let name = fd.name();
        // generic functions cannot be roots by themselves
        let item = CrateItem::try_from_fn(&fd);
        let Some(item) = item else { continue };
        if item.requires_monomorphization() { continue; }
        if let Ok(i) = Instance::try_from(item) {
            let id = cx.inst(i);
            roots.push(J::A(vec![s(name), id]));
        }
    }
    while let Some((i, id)) = cx.queue.pop_front() { cx.process(i, id); }
    let st = J::A(cx.statics.iter().map(|(k, v)| J::A(vec![s(k.clone()), v.clone()])).collect());
    let j = J::O(vec![("roots", J::A(roots)), ("statics", st), ("types", J::A(std::mem::take(&mut cx.tyj))), ("fns", J::A(std::mem::take(&mut cx.fnj)))]);
    let mut o = String::new();
    j.w(&mut o);
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
    ControlFlow::Continue(())
}

trait FromFn { fn try_from_fn(f: &FnDef) -> Option<CrateItem>; }
impl FromFn for CrateItem {
    fn try_from_fn(f: &FnDef) -> Option<CrateItem> {
        if !f.has_body() { return None; }
        Some(CrateItem(f.def_id()))
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let real = args.get(1).cloned().unwrap_or_default();
    if args.len() > 1 { args.remove(1); } // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATE").ok();
    let is_target = std::env::var("MIRDUMP_OUT").is_ok() && krate.is_some() && krate == want;
    if is_target {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        // the deployed (release) semantics: no debug assertions; overflow checks stay visible as asserts
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=on".into());
        let r = rustc_public::run!(&args, dump);
        if r.is_err() { std::process::exit(1); }
    } else {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(real).args(&args[1..]).exec();
        eprintln!("mirdump: {e}");
        std::process::exit(1);
    }
}
