//! MIR extraction driver: a rustc that, after analysis of the witness crate, writes the
//! resolved (monomorphised) MIR reachable from every root function to a JSON file.
//! It performs no judgement; the rules live in /verif/engine.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_abi::Size;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b { let _ = write!(o, "{:02x}", x); }
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: Vec<Instance<'tcx>>,
    fn_out: Vec<(usize, String)>,
    crates: Vec<String>,
    std_ok: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> { TypingEnv::fully_monomorphized() }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_crate_prefix!(self.tcx.def_path_str(d))))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_crate_prefix!(t.to_string())))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = esc(&self.tystr(t));
        let tcx = self.tcx;
        let body = match *t.kind() {
            ty::Bool => format!("\"k\":\"bool\""),
            ty::Char => format!("\"k\":\"char\""),
            ty::Int(it) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Uint(it) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("\"k\":\"float\",\"bits\":{}", f.bit_width()),
            ty::Str => format!("\"k\":\"str\""),
            ty::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m.is_mut()),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m.is_mut()),
            ty::Adt(def, args) => {
                let mut vs = vec![];
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let local = {
                    let c = tcx.crate_name(def.did().krate).to_string();
                    self.crates.contains(&c)
                };
                // field types of library structs that we never look into are still printed: they
                // are cheap and needed for Option/Result/ControlFlow/Range etc.
                let want = def.is_enum() || local || def.all_fields().count() <= 6;
                for v in def.variants().iter() {
                    let mut fs = vec![];
                    if want {
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                        }
                    }
                    fs.shrink_to_fit();
                    vs.push(format!("[{},[{}]]", esc(v.name.as_str()), fs.join(",")));
                }
                let mut discrs = vec![];
                if def.is_enum() {
                    for (_, d) in def.discriminants(tcx) {
                        discrs.push(format!("\"{}\"", d));
                    }
                }
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"adt\",\"ak\":\"{}\",\"path\":{},\"crate\":{},\"args\":[{}],\"vs\":[{}],\"discr\":[{}]", kind, esc(&self.path(def.did())),
                    esc(tcx.crate_name(def.did().krate).as_str()), a.join(","), vs.join(","), discrs.join(","))
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"es\":[{}]", a.join(","))
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(d, args);
                let id = self.inst(inst);
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let kind = format!("{:?}", args.as_closure().kind());
                format!("\"k\":\"closure\",\"fn\":{},\"up\":[{}],\"ck\":{}", id.map(|x| x.to_string()).unwrap_or("null".into()), up.join(","), esc(&kind))
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars();
                match args {
                    Some(args) => { let c = self.callee(d, args); format!("\"k\":\"fndef\",\"callee\":{}", c) }
                    None => format!("\"k\":\"fndef\",\"callee\":null"),
                }
            }
            ty::FnPtr(..) => format!("\"k\":\"fnptr\""),
            ty::Never => format!("\"k\":\"never\""),
            ty::Dynamic(..) => format!("\"k\":\"dyn\""),
            _ => format!("\"k\":\"other\""),
        };
        self.ty_out[i] = format!("{{{},\"s\":{}}}", body, s);
        i
    }

    fn want_body(&self, d: DefId) -> bool {
        let c = self.tcx.crate_name(d.krate).to_string();
        if self.crates.contains(&c) { return true; }
        let p = self.path(d);
        self.std_ok.iter().any(|x| p.starts_with(x.as_str()))
    }

    fn inst(&mut self, i: Instance<'tcx>) -> Option<usize> {
        let d = match i.def {
            InstanceKind::Item(d) => d,
            _ => return None,
        };
        if let Some(x) = self.insts.get(&i) { return Some(*x); }
        let root = self.tcx.typeck_root_def_id(d);
        if !self.want_body(root) { return None; }
        match self.tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => return None,
        }
        if !self.tcx.is_mir_available(d) { return None; }
        let id = self.insts.len();
        self.insts.insert(i, id);
        self.queue.push(i);
        Some(id)
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let kind = tcx.def_kind(d);
        let decl = self.path(d);
        if let DefKind::Ctor(..) = kind {
            let parent = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.parent(parent);
                    (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
                }
                _ => (parent, 0),
            };
            let rt = self.ty(tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip());
            return format!("{{\"ctor\":[{},{}],\"decl\":{},\"ta\":[{}]}}", rt, vi, esc(&decl), a.join(","));
        }
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            return format!("{{\"decl\":{},\"ta\":[{}]}}", esc(&decl), a.join(","));
        }
        let res = Instance::try_resolve(tcx, self.env(), d, args).ok().flatten();
        match res {
            Some(i) => {
                let rd = i.def_id();
                let ik = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ref s) => match s {
                        ty::ShimKind::ClosureOnce { .. } => "closure_once",
                        ty::ShimKind::FnPtr(..) => "fnptr_shim",
                        ty::ShimKind::Clone(..) => "clone_shim",
                        _ => "shim",
                    },
                    _ => "other",
                };
                let body = self.inst(i);
                let ia: Vec<String> = i.args.types().map(|x| self.ty(x).to_string()).collect();
                format!(
                    "{{\"decl\":{},\"res\":{},\"ik\":\"{}\",\"fn\":{},\"ta\":[{}],\"ra\":[{}],\"crate\":{}}}",
                    esc(&decl), esc(&self.path(rd)), ik,
                    body.map(|x| x.to_string()).unwrap_or("null".into()), a.join(","), ia.join(","),
                    esc(tcx.crate_name(rd.krate).as_str())
                )
            }
            None => format!("{{\"decl\":{},\"ta\":[{}]}}", esc(&decl), a.join(",")),
        }
    }

    // ---- constants ----
    fn read_bytes(&self, alloc: AllocId, off: u64, n: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + n > a.size().bytes() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize).to_vec())
            }
            _ => None,
        }
    }
    fn read_ptr(&self, alloc: AllocId, off: u64) -> Option<(AllocId, u64)> {
        match self.tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let p = a.provenance().ptrs().get(&Size::from_bytes(off)).copied()?;
                let b = self.read_bytes(alloc, off, 8)?;
                let addr = u64::from_le_bytes(b.try_into().ok()?);
                Some((p.alloc_id(), addr))
            }
            _ => None,
        }
    }
    fn size_of(&self, t: Ty<'tcx>) -> Option<u64> {
        self.tcx.layout_of(self.env().as_query_input(t)).ok().map(|l| l.size.bytes())
    }
    fn pointee(&mut self, alloc: AllocId, off: u64, meta: Option<u64>, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Str => match meta.and_then(|n| self.read_bytes(alloc, off, n)) {
                Some(b) => format!("{{\"str\":\"{}\"}}", hex(&b)),
                None => "null".into(),
            },
            ty::Slice(e) => {
                let n = meta.unwrap_or(0);
                self.elems(alloc, off, n, e)
            }
            _ => {
                if let GlobalAlloc::Static(d) = self.tcx.global_alloc(alloc) {
                    return format!("{{\"static\":{}}}", esc(&self.path(d)));
                }
                if let GlobalAlloc::Memory(_) = self.tcx.global_alloc(alloc) {
                    self.cval(ConstValue::Indirect { alloc_id: alloc, offset: Size::from_bytes(off) }, t, 0)
                } else { "null".into() }
            }
        }
    }
    fn elems(&mut self, alloc: AllocId, off: u64, n: u64, e: Ty<'tcx>) -> String {
        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
            return match self.read_bytes(alloc, off, n) {
                Some(b) => format!("{{\"bytes\":\"{}\"}}", hex(&b)),
                None => "null".into(),
            };
        }
        let Some(sz) = self.size_of(e) else { return "null".into() };
        let mut v = vec![];
        for i in 0..n {
            v.push(self.cval(ConstValue::Indirect { alloc_id: alloc, offset: Size::from_bytes(off + i * sz) }, e, 0));
        }
        format!("{{\"arr\":[{}]}}", v.join(","))
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 { return "null".into(); }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let bits = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => Some(i.to_bits(i.size())),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let n = self.size_of(t).unwrap();
                        self.read_bytes(alloc_id, offset.bytes(), n).map(|b| {
                            let mut x = 0u128;
                            for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
                            x
                        })
                    }
                    _ => None,
                };
                let Some(bits) = bits else { return "null".into() };
                match *t.kind() {
                    ty::Int(it) => {
                        let w = it.bit_width().unwrap_or(64);
                        let x = if w == 128 { bits as i128 } else { ((bits << (128 - w)) as i128) >> (128 - w) };
                        format!("{{\"i\":\"{}\"}}", x)
                    }
                    ty::Float(_) => format!("{{\"f\":\"{}\"}}", bits),
                    _ => format!("{{\"i\":\"{}\"}}", bits),
                }
            }
            ty::FnDef(..) => format!("{{\"fn\":{}}}", self.ty(t)),
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                match v {
                    ConstValue::Slice { alloc_id, meta } => format!("{{\"ref\":{}}}", self.pointee(alloc_id, 0, Some(meta), e)),
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        let id = prov.alloc_id();
                        format!("{{\"ref\":{}}}", self.pointee(id, off.bytes(), None, e))
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let o = offset.bytes();
                        let Some((a, off)) = self.read_ptr(alloc_id, o) else { return "null".into() };
                        let meta = if matches!(e.kind(), ty::Str | ty::Slice(_)) {
                            self.read_bytes(alloc_id, o + 8, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                        } else { None };
                        format!("{{\"ref\":{}}}", self.pointee(a, off, meta, e))
                    }
                    _ => "null".into(),
                }
            }
            ty::Array(e, n) => {
                if let (ConstValue::Indirect { alloc_id, offset }, Some(n)) = (v, n.try_to_target_usize(tcx)) {
                    return self.elems(alloc_id, offset.bytes(), n, e);
                }
                self.destr(v, t, depth)
            }
            ty::Tuple(_) | ty::Adt(..) => {
                self.destr(v, t, depth)
            }
            ty::Closure(..) => "{\"zst\":1}".into(),
            ty::Pat(b, _) => self.cval(v, b, depth + 1),
            _ => "null".into(),
        }
    }
    fn destr(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if let ty::Adt(d, _) = t.kind() { if d.is_union() { return "null".into(); } }
        match tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                let fs: Vec<String> = d.fields.iter().map(|(c, ft)| {
                    let j = self.cval(*c, *ft, depth + 1);
                    format!("[{},{}]", self.ty(*ft), j)
                }).collect();
                format!("{{\"agg\":[{},[{}]]}}", vi, fs.join(","))
            }
            None => "null".into(),
        }
    }
    fn konst(&mut self, c: &Const<'tcx>) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(..) = t.kind() { return format!("[\"k\",{},{{\"fn\":{}}}]", ti, ti); }
        let v = c.eval(self.tcx, self.env(), rustc_span::DUMMY_SP);
        let s = match v { Ok(v) => self.cval(v, t, 0), Err(_) => "null".into() };
        // remember the name of a named constant / static for opaque values
        let name = match c {
            Const::Unevaluated(u, _) if u.promoted.is_none() => Some(self.path(u.def)),
            _ => None,
        };
        match name {
            Some(n) => format!("[\"k\",{},{},{}]", ti, s, esc(&n)),
            None => format!("[\"k\",{},{}]", ti, s),
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, t) => { let ti = self.ty(t); let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), ti); }
                ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"sub\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(o, ",[\"dc\",{}]", v.as_usize()); }
                _ => o.push_str(",[\"?\"]"),
            }
        }
        o.push(']');
        o
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            _ => "[\"rtc\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.op(o), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reb\",{},{}]", m.is_mut(), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("ptr:{:?}", pc),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", esc(&ks), self.op(o), ti)
            }
            Rvalue::BinaryOp(b, ab) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ab.0), self.op(&ab.1)),
            Rvalue::UnaryOp(u, a) => format!("[\"un\",\"{:?}\",{}]", u, self.op(a)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, *args).skip_norm_wip();
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.as_usize(), af.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, *args);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"?\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            _ => "[\"?\"]".into(),
        }
    }
    fn stmt(&mut self, s: &StatementKind<'tcx>) -> Option<String> {
        Some(match s {
            StatementKind::Assign(b) => format!("[\"=\",{},{}]", self.place(&b.0), self.rvalue(&b.1)),
            StatementKind::SetDiscriminant { place, variant_index } => format!("[\"disc\",{},{}]", self.place(place), variant_index.as_usize()),
            StatementKind::StorageLive(_) => return None,
            StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => format!("[\"assume\",{}]", self.op(o)),
                _ => "[\"?intr\"]".into(),
            },
            _ => return None,
        })
    }
    fn term(&mut self, t: &TerminatorKind<'tcx>, body: &Body<'tcx>) -> String {
        match t {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(body, self.tcx);
                let ti = self.ty(dt);
                let vs: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                format!("[\"switch\",{},{},[{}],{}]", self.op(discr), ti, vs.join(","), targets.otherwise().as_usize())
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target.as_usize()),
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let ft = func.ty(body, self.tcx);
                let callee = match *ft.kind() {
                    ty::FnDef(d, a) => match a.no_bound_vars() { Some(a) => self.callee(d, a), None => "null".into() },
                    _ => format!("{{\"indirect\":{}}}", self.op(func)),
                };
                let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                let loc = self.loc(*fn_span);
                format!("[\"call\",{},[{}],{},{},{}]", callee, a.join(","), self.place(destination),
                    target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), esc(&loc))
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.op(len), self.op(index)),
                    AssertKind::Overflow(b, l, r) => format!("[\"overflow\",\"{:?}\",{},{}]", b, self.op(l), self.op(r)),
                    AssertKind::OverflowNeg(_) => "[\"overflowneg\"]".into(),
                    AssertKind::DivisionByZero(_) => "[\"divzero\"]".into(),
                    AssertKind::RemainderByZero(_) => "[\"remzero\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, m, target.as_usize())
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
            _ => "[\"?\"]".into(),
        }
    }
    fn loc(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }

    fn function(&mut self, i: Instance<'tcx>, id: usize) {
        let tcx = self.tcx;
        let d = i.def_id();
        let body = tcx.instance_mir(i.def).clone();
        let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), ty::EarlyBinder::bind(tcx, body));
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            if b.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let ss: Vec<String> = b.statements.iter().filter_map(|s| self.stmt(&s.kind)).collect();
            let t = self.term(&b.terminator().kind, &body);
            blocks.push(format!("{{\"s\":[{}],\"t\":{}}}", ss.join(","), t));
        }
        let ia: Vec<String> = i.args.types().map(|x| self.ty(x).to_string()).collect();
        let unsafe_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        // trait and self type of the method, if any
        let mut tr = String::from("null");
        let mut selfty = String::from("null");
        if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            let p = tcx.parent(d);
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                if of_trait {
                    tr = esc(&self.path(tcx.impl_trait_ref(p).skip_binder().def_id));
                }
                let st = tcx.type_of(p).instantiate(tcx, i.args).skip_norm_wip();
                if let Ok(st) = tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(st)) {
                    selfty = self.ty(st).to_string();
                }
            } else if let DefKind::Trait = tcx.def_kind(p) {
                tr = esc(&self.path(p));
            }
        }
        let s = format!(
            "{{\"id\":{},\"path\":{},\"crate\":{},\"ta\":[{}],\"argc\":{},\"locals\":[{}],\"spread\":{},\"trait\":{},\"self\":{},\"unsafe\":{},\"loc\":{},\"closure\":{},\"blocks\":[\n{}]}}",
            id, esc(&self.path(d)), esc(tcx.crate_name(d.krate).as_str()), ia.join(","), body.arg_count,
            locals.join(","), body.spread_arg.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), tr, selfty, unsafe_fn,
            esc(&self.loc(tcx.def_span(d))), matches!(tcx.def_kind(d), DefKind::Closure), blocks.join(",\n")
        );
        self.fn_out.push((id, s));
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        let me = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if want != me { return Compilation::Continue; }
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let crates: Vec<String> = std::env::var("MIRDUMP_INLINE").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
        let std_ok: Vec<String> = std::env::var("MIRDUMP_STD").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), queue: vec![], fn_out: vec![], crates, std_ok };
        let mut roots = vec![];
        let mut skipped = vec![];
        let mut consts = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(d);
                    if g.requires_monomorphization(tcx) { skipped.push(esc(&cx.path(d))); continue; }
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    if let Some(id) = cx.inst(Instance::new_raw(d, args)) { roots.push(id.to_string()); }
                }
                DefKind::AssocConst { .. } | DefKind::Const { .. } => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let j = cx.cval(v, t, 0);
                        let ti = cx.ty(t);
                        consts.push(format!("[{},{},{}]", esc(&cx.path(d)), ti, j));
                    }
                }
                _ => {}
            }
        }
        while let Some(i) = cx.queue.pop() {
            let id = cx.insts[&i];
            cx.function(i, id);
        }
        cx.fn_out.sort();
        let fns: Vec<String> = cx.fn_out.iter().map(|(_, s)| s.clone()).collect();
        let s = format!("{{\"types\":[\n{}],\n\"fns\":[\n{}],\n\"roots\":[{}],\n\"consts\":[{}],\n\"generic\":[{}]}}\n", cx.ty_out.join(",\n"), fns.join(",\n"), roots.join(","), consts.join(","), skipped.join(","));
        std::fs::write(out, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && !args[1].starts_with('-') && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
