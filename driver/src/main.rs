//! rustc wrapper that dumps the monomorphized MIR reachable from the functions of the crate being
//! compiled whose path contains `::vp_` as JSON (types, constants, allocations, call resolution).
#![feature(rustc_private)]
#[macro_use]
extern crate rustc_public;
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_public_bridge;

mod json;
use json::J;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
#[allow(unused_imports)]
use std::ops::ControlFlow as Cf;
use std::collections::{HashMap, VecDeque};


macro_rules! arr { ($($e:expr),* $(,)?) => { J::A(vec![$(J::from($e)),*]) } }
macro_rules! obj { ($($k:literal : $e:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), J::from($e))),*]) } }

struct Dump<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_q: VecDeque<(usize, Ty)>,
    ty_out: Vec<(usize, J)>,
    insts: HashMap<Instance, usize>,
    inst_q: VecDeque<(usize, Instance)>,
    inst_out: Vec<(usize, J)>,
    allocs: HashMap<AllocId, usize>,
    alloc_q: VecDeque<(usize, AllocId)>,
    alloc_out: Vec<(usize, J)>,
    skip: Vec<String>,
    locals: Vec<LocalDecl>,
}

fn adt_name(d: &AdtDef) -> String { d.name().to_string() }

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_q.push_back((i, t));
        i
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.insts.get(&t) { return *i; }
        let i = self.insts.len();
        self.insts.insert(t, i);
        self.inst_q.push_back((i, t));
        i
    }
    fn alloc_id(&mut self, t: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&t) { return *i; }
        let i = self.allocs.len();
        self.allocs.insert(t, i);
        self.alloc_q.push_back((i, t));
        i
    }
    fn alloc(&mut self, a: &Allocation) -> J {
        let mut s = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            match b { Some(b) => s.push_str(&format!("{:02x}", b)), None => s.push_str("??") }
        }
        let ptrs = a.provenance.ptrs.iter().map(|(o, p)| arr![*o, self.alloc_id(p.0)]).collect::<Vec<_>>();
        obj! {"b": s, "p": J::A(ptrs), "align": a.align as usize, "mut": format!("{:?}", a.mutability)}
    }
    fn emit_alloc(&mut self, i: usize, id: AllocId) {
        let g: GlobalAlloc = id.into();
        let j = match &g {
            GlobalAlloc::Function(inst) => obj! {"k":"fn", "inst": self.inst(*inst)},
            GlobalAlloc::VTable(ty, _) => {
                let t = self.ty(*ty);
                match g.vtable_allocation() {
                    Some(a) => obj! {"k":"vtable", "ty": t, "alloc": self.alloc_id(a)},
                    None => obj! {"k":"vtable", "ty": t},
                }
            }
            GlobalAlloc::Static(s) => {
                let t = self.ty(s.ty());
                let n = s.name().to_string();
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.eval_initializer())) {
                    Ok(Ok(a)) => { let a = self.alloc(&a); obj! {"k":"static", "name": n, "ty": t, "alloc": a} }
                    _ => obj! {"k":"static", "name": n, "ty": t},
                }
            }
            GlobalAlloc::Memory(a) => { let a = self.alloc(a); obj! {"k":"mem", "alloc": a} }
            GlobalAlloc::TypeId { ty } => obj! {"k":"typeid", "ty": self.ty(*ty)},
        };
        self.alloc_out.push((i, j));
    }
    fn emit_ty(&mut self, i: usize, t: Ty) {
        let mut fields: Vec<(String, J)> = vec![];
        let s = format!("{}", t);
        fields.push(("s".into(), J::from(s)));
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            if sh.is_sized() {
                fields.push(("size".into(), J::from(sh.size.bytes())));
                fields.push(("align".into(), J::from(sh.abi_align as usize)));
            }
            let offs = match &sh.fields {
                FieldsShape::Arbitrary { offsets } => J::A(offsets.iter().map(|o| J::from(o.bytes())).collect()),
                _ => J::Null,
            };
            let var = match &sh.variants {
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let enc = match tag_encoding {
                        TagEncoding::Direct => arr!["direct"],
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } =>
                            arr!["niche", untagged_variant.to_index_(), niche_variants.start().to_index_(), niche_variants.end().to_index_(), format!("{}", niche_start)],
                    };
                    let vs = variants.iter().map(|v| J::A(v.offsets.iter().map(|o| J::from(o.bytes())).collect())).collect::<Vec<_>>();
                    let tagoff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                    let tagsz = format!("{:?}", tag);
                    obj! {"k":"multi", "enc": enc, "tagoff": tagoff, "tag": tagsz, "variants": J::A(vs)}
                }
                VariantsShape::Single { index } => obj! {"k":"single", "index": index.to_index_()},
                _ => J::Null,
            };
            fields.push(("offs".into(), offs));
            fields.push(("var".into(), var));
        }
        let kind: J = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => arr!["bool"],
                RigidTy::Char => arr!["char"],
                RigidTy::Int(x) => arr!["int", x.num_bytes() * 8],
                RigidTy::Uint(x) => arr!["uint", x.num_bytes() * 8],
                RigidTy::Float(x) => arr!["float", format!("{:?}", x)],
                RigidTy::Adt(d, args) => {
                    let a = args.0.iter().map(|a| match a {
                        GenericArgKind::Type(t) => arr!["t", self.ty(*t)],
                        GenericArgKind::Const(c) => arr!["c", format!("{:?}", c.eval_target_usize().ok())],
                        GenericArgKind::Lifetime(_) => arr!["l"],
                    }).collect::<Vec<_>>();
                    let vs = d.variants().iter().map(|v| {
                        let fs = v.fields().iter().map(|f| { let ft = f.ty_with_args(&args); arr![f.name.to_string(), self.ty(ft)] }).collect::<Vec<_>>();
                        let disc = if d.kind() == AdtKind::Enum { J::from(format!("{}", d.discriminant_for_variant(v.idx()).val)) } else { J::Null };
                        obj! {"name": v.name().to_string(), "fields": J::A(fs), "discr": disc}
                    }).collect::<Vec<_>>();
                    arr!["adt", adt_name(&d), format!("{:?}", d.kind()), J::A(vs), d.is_box(), d.is_simd(), J::A(a)]
                }
                RigidTy::Foreign(_) => arr!["foreign"],
                RigidTy::Str => arr!["str"],
                RigidTy::Array(t, c) => arr!["array", self.ty(t), c.eval_target_usize().unwrap_or(0) as usize],
                RigidTy::Pat(t, _) => arr!["pat", self.ty(t)],
                RigidTy::Slice(t) => arr!["slice", self.ty(t)],
                RigidTy::RawPtr(t, m) => arr!["ptr", self.ty(t), format!("{:?}", m)],
                RigidTy::Ref(_, t, m) => arr!["ref", self.ty(t), format!("{:?}", m)],
                RigidTy::FnDef(d, args) => {
                    let inst = Instance::resolve(d, &args).ok().map(|i| self.inst(i));
                    arr!["fndef", d.name().to_string(), inst.map(J::from).unwrap_or(J::Null)]
                }
                RigidTy::FnPtr(sig) => { let s = sig.skip_binder(); arr!["fnptr", s.inputs().len()] }
                RigidTy::Closure(d, args) => {
                    let ups = match args.0.last() { Some(GenericArgKind::Type(t)) => match t.kind() { TyKind::RigidTy(RigidTy::Tuple(ts)) => ts, _ => vec![] }, _ => vec![] };
                    arr!["closure", d.name().to_string(), J::A(ups.iter().map(|t| J::from(self.ty(*t))).collect())]
                }
                RigidTy::Dynamic(p, _) => arr!["dyn", format!("{:?}", p.first().map(|_| ()))],
                RigidTy::Never => arr!["never"],
                RigidTy::Tuple(ts) => arr!["tuple", J::A(ts.iter().map(|t| J::from(self.ty(*t))).collect())],
                o => arr!["other", format!("{:?}", o).chars().take(60).collect::<String>()],
            },
            o => arr!["nonrigid", format!("{:?}", o).chars().take(60).collect::<String>()],
        };
        fields.push(("k".into(), kind));
        self.ty_out.push((i, J::O(fields)));
    }
    fn place(&mut self, p: &Place) -> J {
        let pr = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => arr!["d"],
            ProjectionElem::Field(i, t) => arr!["f", *i, self.ty(*t)],
            ProjectionElem::Index(l) => arr!["i", *l],
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => arr!["ci", *offset as usize, *min_length as usize, *from_end],
            ProjectionElem::Subslice { from, to, from_end } => arr!["s", *from as usize, *to as usize, *from_end],
            ProjectionElem::Downcast(v) => arr!["v", v.to_index_()],
            ProjectionElem::OpaqueCast(t) => arr!["o", self.ty(*t)],
        }).collect::<Vec<_>>();
        arr![p.local, J::A(pr)]
    }
    fn konst(&mut self, c: &ConstOperand) -> J {
        let t = self.ty(c.const_.ty());
        match c.const_.kind() {
            ConstantKind::Allocated(a) => { let a = self.alloc(a); arr!["k", t, a] }
            ConstantKind::ZeroSized => arr!["k", t, J::Null],
            o => arr!["k", t, arr!["bad", format!("{:?}", o).chars().take(80).collect::<String>()]],
        }
    }
    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => arr!["c", self.place(p)],
            Operand::Move(p) => arr!["m", self.place(p)],
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(r) => arr!["rc", format!("{:?}", r)],
        }
    }
    fn rv(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::AddressOf(_, p) => arr!["addr", self.place(p)],
            Rvalue::Ref(_, _, p) => arr!["ref", self.place(p)],
            Rvalue::Reborrow(_, _, p) => arr!["reborrow", self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let os = J::A(ops.iter().map(|o| self.op(o)).collect());
                let k = match k {
                    AggregateKind::Array(t) => arr!["array", self.ty(*t)],
                    AggregateKind::Tuple => arr!["tuple"],
                    AggregateKind::Adt(d, v, args, _, f) => { let t = d.ty_with_args(args); arr!["adt", self.ty(t), v.to_index_(), f.map(J::from).unwrap_or(J::Null)] }
                    AggregateKind::Closure(d, _) => arr!["closure", d.name().to_string()],
                    AggregateKind::RawPtr(t, _) => arr!["rawptr", self.ty(*t)],
                    _ => arr!["unsupported"],
                };
                arr!["agg", k, os]
            }
            Rvalue::BinaryOp(b, x, y) => arr!["bin", format!("{:?}", b), self.op(x), self.op(y)],
            Rvalue::CheckedBinaryOp(b, x, y) => arr!["cbin", format!("{:?}", b), self.op(x), self.op(y)],
            Rvalue::UnaryOp(b, x) => arr!["un", format!("{:?}", b), self.op(x)],
            Rvalue::Cast(k, o, t) => {
                let src = o.ty(&self.locals).ok();
                let mut extra = J::Null;
                let ks = match k {
                    CastKind::PointerCoercion(c) => {
                        match c {
                            PointerCoercion::ReifyFnPointer(_) => if let Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) = src.map(|s| s.kind()) {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) { extra = J::from(self.inst(i)); }
                            },
                            PointerCoercion::ClosureFnPointer(_) => if let Some(TyKind::RigidTy(RigidTy::Closure(d, a))) = src.map(|s| s.kind()) {
                                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { extra = J::from(self.inst(i)); }
                            },
                            PointerCoercion::Unsize => { extra = self.unsize(src, *t); }
                            _ => {}
                        }
                        format!("{:?}", c).split('(').next().unwrap().to_string()
                    }
                    k => format!("{:?}", k),
                };
                let st = src.map(|s| J::from(self.ty(s))).unwrap_or(J::Null);
                arr!["cast", ks, self.op(o), st, self.ty(*t), extra]
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); arr!["use", arr!["c", p]] }
            Rvalue::Discriminant(p) => { let t = p.ty(&self.locals).ok(); let t = t.map(|t| J::from(self.ty(t))).unwrap_or(J::Null); arr!["discr", self.place(p), t] }
            Rvalue::Len(p) => arr!["len", self.place(p)],
            Rvalue::Repeat(o, c) => arr!["repeat", self.op(o), c.eval_target_usize().unwrap_or(0) as usize],
            Rvalue::Use(o, _) => arr!["use", self.op(o)],
            Rvalue::ThreadLocalRef(_) => arr!["tls"],
        }
    }
    fn unsize(&mut self, src: Option<Ty>, dst: Ty) -> J {
        // pointer to concrete -> pointer to dyn: vtable
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
                TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => a.0[0].ty().copied(),
                _ => None,
            }
        }
        let (s, d) = match (src.and_then(pointee), pointee(dst)) { (Some(s), Some(d)) => (s, d), _ => return J::Null };
        match (s.kind(), d.kind()) {
            (TyKind::RigidTy(RigidTy::Array(_, n)), TyKind::RigidTy(RigidTy::Slice(_))) => arr!["len", n.eval_target_usize().unwrap_or(0) as usize],
            (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => {
                let st = self.ty(s);
                if let Some(pr) = d.kind().trait_principal() {
                    let tr = pr.skip_binder().with_self_ty(s);
                    let es = tr.vtable_entries().iter().map(|e| match e {
                        VtblEntry::Method(i) => J::from(self.inst(*i)),
                        _ => J::Null,
                    }).collect::<Vec<_>>();
                    arr!["vtable", st, J::A(es)]
                } else { arr!["vtable", st, J::Null] }
            }
            _ => J::Null,
        }
    }
    fn body(&mut self, b: &Body) -> J {
        self.locals = b.locals().to_vec();
        let locals = b.locals().iter().map(|l| J::from(self.ty(l.ty))).collect::<Vec<_>>();
        let blocks = b.blocks.iter().map(|bb| {
            let st = bb.statements.iter().filter_map(|s| Some(match &s.kind {
                StatementKind::Assign(p, r) => arr!["=", self.place(p), self.rv(r)],
                StatementKind::SetDiscriminant { place, variant_index } => arr!["setd", self.place(place), variant_index.to_index_()],
                StatementKind::StorageDead(l) => arr!["dead", *l],
                StatementKind::StorageLive(l) => arr!["live", *l],
                StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => arr!["assume", self.op(o)],
                StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => arr!["copy", self.op(&c.src), self.op(&c.dst), self.op(&c.count)],
                _ => return None,
            })).collect::<Vec<_>>();
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => arr!["goto", *target],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&self.locals).ok().map(|t| J::from(self.ty(t))).unwrap_or(J::Null);
                    let br = targets.branches().map(|(v, b)| arr![format!("{}", v), b]).collect::<Vec<_>>();
                    arr!["switch", self.op(discr), J::A(br), targets.otherwise(), t]
                }
                TerminatorKind::Resume => arr!["resume"],
                TerminatorKind::Abort => arr!["abort"],
                TerminatorKind::Return => arr!["return"],
                TerminatorKind::Unreachable => arr!["unreachable"],
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(&self.locals).ok();
                    let inst = t.and_then(|t| { let i = Instance::resolve_drop_in_place(t); if i.is_empty_shim() { None } else { Some(self.inst(i)) } });
                    let ti = t.map(|t| J::from(self.ty(t))).unwrap_or(J::Null);
                    arr!["drop", self.place(place), *target, inst.map(J::from).unwrap_or(J::Null), ti, Self::unwind(unwind)]
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let ft = func.ty(&self.locals).ok();
                    let inst = match ft.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => Instance::resolve(d, &a).ok().map(|i| self.inst(i)),
                        _ => None,
                    };
                    let fop = if inst.is_some() { J::Null } else { self.op(func) };
                    let a = J::A(args.iter().map(|o| self.op(o)).collect());
                    let at = J::A(args.iter().map(|o| o.ty(&self.locals).ok().map(|t| J::from(self.ty(t))).unwrap_or(J::Null)).collect());
                    let dt = destination.ty(&self.locals).ok().map(|t| J::from(self.ty(t))).unwrap_or(J::Null);
                    arr!["call", inst.map(J::from).unwrap_or(J::Null), fop, a, self.place(destination), target.map(J::from).unwrap_or(J::Null), at, dt, Self::unwind(unwind)]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => arr!["assert", self.op(cond), *expected, format!("{:?}", msg).chars().take(40).collect::<String>(), *target],
                TerminatorKind::InlineAsm { template, .. } => arr!["asm", template.clone()],
            };
            let sp = bb.terminator.source_info.span;
            let li = sp.get_lines();
            let fname = sp.get_filename().to_string();
            let short = if fname.contains("/library/") { J::Null } else { J::from(format!("{}:{}", fname.rsplit('/').next().unwrap_or(""), li.start_line)) };
            arr![J::A(st), t, short]
        }).collect::<Vec<_>>();
        let vars = b.var_debug_info.iter().filter_map(|v| match &v.value {
            VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some(arr![v.name.to_string(), p.local]),
            _ => None,
        }).collect::<Vec<_>>();
        obj! {"locals": J::A(locals), "argc": b.arg_locals().len(), "blocks": J::A(blocks), "vars": J::A(vars)}
    }
    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::from(*b),
            UnwindAction::Continue => J::from("continue"),
            UnwindAction::Unreachable => J::from("unreachable"),
            UnwindAction::Terminate => J::from("terminate"),
        }
    }
    fn emit_inst(&mut self, i: usize, inst: Instance) {
        let name = inst.name().to_string();
        let mangled = inst.mangled_name().to_string();
        let tys = inst.args().0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(J::from(self.ty(*t))), GenericArgKind::Const(c) => Some(arr!["c", c.eval_target_usize().map(|v| J::from(v as usize)).unwrap_or(J::Null)]), _ => None }).collect::<Vec<_>>();
        let intr = if let InstanceKind::Intrinsic = inst.kind { inst.intrinsic_name().map(|s| s.to_string()) } else { None };
        let skip = intr.is_some() || matches!(inst.kind, InstanceKind::Virtual { .. }) || self.skip.iter().any(|s| name.starts_with(s.as_str()) || (s.starts_with('*') && name.contains(&s[1..])));
        let body = if !skip && !inst.is_foreign_item() {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if inst.kind == InstanceKind::Shim || inst.has_body() { inst.body() } else { None })) {
                Ok(b) => b,
                Err(_) => None,
            }
        } else { None };
        let did = rustc_public::rustc_internal::internal(self.tcx, inst.def.def_id());
        let tf = if matches!(self.tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
            self.tcx.codegen_fn_attrs(did).target_features.iter().map(|f| J::from(f.name.to_string())).collect::<Vec<_>>()
        } else { vec![] };
        let defname = inst.def.name().to_string();
        let krate = inst.def.krate().name.to_string();
        let kind = match inst.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic => "llvm".into(),
            InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
            InstanceKind::Shim => "shim".into(),
        };
        // constant value of nullary intrinsics
        let bj = match &body { Some(b) => self.body(b), None => J::Null };
        let sp = body.as_ref().map(|b| { let l = b.span.get_lines(); format!("{}:{}", b.span.get_filename(), l.start_line) });
        let j = obj! {"name": name, "def": defname, "krate": krate, "mangled": mangled, "kind": kind,
            "intr": intr.map(J::from).unwrap_or(J::Null), "targs": J::A(tys), "body": bj, "foreign": inst.is_foreign_item(),
            "span": sp.map(J::from).unwrap_or(J::Null), "tf": J::A(tf)};
        self.inst_out.push((i, j));
    }
    fn drain(&mut self) {
        loop {
            if let Some((i, t)) = self.inst_q.pop_front() { self.emit_inst(i, t); continue; }
            if let Some((i, t)) = self.alloc_q.pop_front() { self.emit_alloc(i, t); continue; }
            if let Some((i, t)) = self.ty_q.pop_front() { self.emit_ty(i, t); continue; }
            break;
        }
    }
}

trait ToIdx { fn to_index_(&self) -> usize; }
impl ToIdx for VariantIdx { fn to_index_(&self) -> usize { use rustc_public_bridge::IndexedVal; self.to_index() } }

fn analyze(tcx: rustc_middle::ty::TyCtxt<'_>, out: &str, skip: Vec<String>) {
    let mut d = Dump { tcx, tys: HashMap::new(), ty_q: VecDeque::new(), ty_out: vec![], insts: HashMap::new(), inst_q: VecDeque::new(), inst_out: vec![], allocs: HashMap::new(), alloc_q: VecDeque::new(), alloc_out: vec![], skip, locals: vec![] };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let n = it.name().to_string();
        if !n.contains("vp_") || n.contains("{closure") || n.contains("{constant") || n.contains("{impl") { continue; }
        let last = n.rsplit("::").next().unwrap_or("");
        if !last.starts_with("vp_") { continue; }
        if let Ok(i) = Instance::try_from(it) { let id = d.inst(i); roots.push((n, id)); }
    }
    d.drain();
    let tab = |v: Vec<(usize, J)>| { let mut v = v; v.sort_by_key(|x| x.0); J::A(v.into_iter().map(|x| x.1).collect()) };
    let j = obj! {
        "roots": J::A(roots.iter().map(|(n, i)| arr![n.clone(), *i]).collect()),
        "types": tab(d.ty_out), "insts": tab(d.inst_out), "allocs": tab(d.alloc_out)
    };
    std::fs::write(out, j.to_string()).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as wrapper: argv[1] is the real rustc
    let rustc = args.remove(1);
    let want = std::env::var("VP_CRATES").unwrap_or_default();
    let cn = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned()).unwrap_or_default();
    if !want.split(',').any(|w| w == cn) || cn.is_empty() {
        let st = std::process::Command::new(&rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let out = format!("{}/{}.json", std::env::var("VP_OUT").expect("VP_OUT"), cn);
    let skip: Vec<String> = std::env::var("VP_SKIP").unwrap_or_default().split('|').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    args[0] = rustc;
    let r = run_with_tcx!(&args, |tcx| -> Cf<(), ()> { analyze(tcx, &out, skip.clone()); Cf::Continue(()) });
    if let Err(e) = r { eprintln!("mirdump: {:?}", e); std::process::exit(1); }
}
