#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_ast;
extern crate rustc_session;
extern crate rustc_span;

use ir::*;
use rustc_middle::ty::TyCtxt;
use rustc_ast::attr::AttributeExt;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::rustc_internal;
use rustc_public::ty as sty;
use rustc_public::ty::{RigidTy, TyKind as STyKind};
use rustc_public::{mir, CrateItem};
use std::collections::{HashMap, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    prog: Program,
    tymap: HashMap<sty::Ty, TyId>,
    fnmap: HashMap<Instance, FnId>,
    insts: Vec<Instance>,
    queue: VecDeque<FnId>,
}

fn idx<T: IndexedVal>(t: T) -> usize {
    t.to_index()
}

impl<'tcx> Cx<'tcx> {
    fn docs(&self, did: rustc_span::def_id::DefId) -> String {
        #[allow(deprecated)]
        let attrs = self.tcx.get_all_attrs(did);
        let mut s = String::new();
        for a in attrs {
            if let Some(d) = a.doc_str() {
                s.push_str(d.as_str().trim());
                s.push('\n');
            }
        }
        s.trim().to_string()
    }

    fn ty(&mut self, t: sty::Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.prog.types.len();
        self.tymap.insert(t, id);
        let it = rustc_internal::internal(self.tcx, t);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let freeze = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.is_freeze(self.tcx, env))).unwrap_or(false);
        let needs_drop = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.needs_drop(self.tcx, env))).unwrap_or(true);
        self.prog.types.push(Ty { name: format!("{}", t), kind: TyKind::Other, freeze, needs_drop });
        let kind = match t.kind() {
            STyKind::RigidTy(r) => match r {
                RigidTy::Bool => TyKind::Bool,
                RigidTy::Char => TyKind::Char,
                RigidTy::Int(i) => TyKind::Int { signed: true, bits: i.num_bytes() as u32 * 8 },
                RigidTy::Uint(i) => TyKind::Int { signed: false, bits: i.num_bytes() as u32 * 8 },
                RigidTy::Float(_) => TyKind::Float,
                RigidTy::Str => TyKind::Str,
                RigidTy::Adt(def, args) => self.adt(def, &args),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    TyKind::Array(e, n.eval_target_usize().unwrap_or(u64::MAX))
                }
                RigidTy::Slice(e) => TyKind::Slice(self.ty(e)),
                RigidTy::RawPtr(e, m) => TyKind::Ptr { to: self.ty(e), mutable: m == mir::Mutability::Mut },
                RigidTy::Ref(_, e, m) => TyKind::Ref { to: self.ty(e), mutable: m == mir::Mutability::Mut },
                RigidTy::FnDef(def, args) => {
                    let f = Instance::resolve(def, &args).ok().map(|i| self.func(i));
                    TyKind::FnDef(f)
                }
                RigidTy::FnPtr(_) => TyKind::FnPtr,
                RigidTy::Closure(def, args) => {
                    let inst = Instance::resolve_closure(def, &args, sty::ClosureKind::FnOnce).ok();
                    // body of the closure itself: resolve with its own kind via internal
                    let up = {
                        let rustc_middle::ty::TyKind::Closure(_, a) = it.kind() else { panic!() };
                        a.as_closure().upvar_tys().iter().collect::<Vec<_>>()
                    };
                    let up: Vec<sty::Ty> = up.into_iter().map(|u| rustc_internal::stable(u)).collect();
                    let upvars = up.into_iter().map(|u| self.ty(u)).collect();
                    let _ = inst;
                    let body = {
                        let rustc_middle::ty::TyKind::Closure(d, a) = it.kind() else { panic!() };
                        let i = rustc_middle::ty::Instance::new_raw(*d, a);
                        let si: Instance = rustc_internal::stable(i);
                        Some(self.func(si))
                    };
                    TyKind::Closure { body, upvars }
                }
                RigidTy::Dynamic(..) => TyKind::Dyn,
                RigidTy::Never => TyKind::Never,
                RigidTy::Tuple(v) => TyKind::Tuple(v.into_iter().map(|t| self.ty(t)).collect()),
                _ => TyKind::Other,
            },
            _ => TyKind::Other,
        };
        self.prog.types[id].kind = kind;
        id
    }

    fn adt(&mut self, def: sty::AdtDef, args: &sty::GenericArgs) -> TyKind {
        let did = rustc_internal::internal(self.tcx, def.def_id());
        let adef = self.tcx.adt_def(did);
        let targs: Vec<TyId> = args.0.iter().filter_map(|a| a.ty().copied()).map(|t| self.ty(t)).collect();
        let mut variants = vec![];
        let kind = if adef.is_box() {
            AdtKind::Box
        } else if adef.is_struct() {
            AdtKind::Struct
        } else if adef.is_enum() {
            AdtKind::Enum
        } else {
            AdtKind::Union
        };
        let iargs = rustc_internal::internal(self.tcx, args.clone());
        for (vi, v) in adef.variants().iter_enumerated() {
            let discr = if adef.is_enum() {
                let d = adef.discriminant_for_variant(self.tcx, vi);
                d.val as i128
            } else {
                0
            };
            let mut fields = vec![];
            for f in v.fields.iter() {
                let fty = f.ty(self.tcx, iargs);
                let fty = self.tcx.normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), fty);
                let sfty: sty::Ty = rustc_internal::stable(fty);
                let ty = self.ty(sfty);
                fields.push(Field {
                    name: f.name.to_string(),
                    ty,
                    doc: if did.is_local() { self.docs(f.did) } else { String::new() },
                    public: f.vis.is_public(),
                });
            }
            variants.push(Variant {
                name: v.name.to_string(),
                discr,
                fields,
                doc: if did.is_local() { self.docs(v.def_id) } else { String::new() },
            });
        }
        let public = did.as_local().map(|l| self.tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(true);
        TyKind::Adt(Adt {
            path: dps(self.tcx, did),
            kind,
            args: targs,
            variants,
            local: did.is_local(),
            public,
            doc: if did.is_local() { self.docs(did) } else { String::new() },
        })
    }

    fn func(&mut self, inst: Instance) -> FnId {
        if let Some(i) = self.fnmap.get(&inst) {
            return *i;
        }
        let id = self.prog.fns.len();
        self.fnmap.insert(inst, id);
        self.insts.push(inst);
        self.queue.push_back(id);
        let tcx = self.tcx;
        let iinst = rustc_internal::internal(tcx, inst);
        let did = iinst.def_id();
        // placeholder first (recursion through types)
        self.prog.fns.push(Func {
            path: dps(tcx, did),
            inst: inst.name().to_string(),
            trait_item: None,
            kind: match inst.kind {
                InstanceKind::Item => FnKind::Item,
                InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => FnKind::Intrinsic,
                InstanceKind::Virtual { .. } => FnKind::Virtual,
                InstanceKind::Shim => FnKind::Shim,
            },
            self_ty: None,
            args: vec![],
            local: did.is_local(),
            derived: false,
            argc: 0,
            inputs: vec![],
            output: 0,
            locals: vec![],
            blocks: vec![],
            has_body: false,
            spread: false,
            file: String::new(),
            line: 0,
            is_closure: tcx.is_closure_like(did),
            krate: tcx.crate_name(did.krate).to_string(),
            track_caller: false,
        });
        let mut trait_item = None;
        let mut derived = false;
        if let Some(ai) = tcx.opt_associated_item(did) {
            if let Some(tid) = ai.trait_item_def_id() {
                trait_item = Some(dps(tcx, tid));
            } else if tcx.trait_of_assoc(did).is_some() {
                trait_item = Some(dps(tcx, did));
            }
            if let Some(imp) = tcx.impl_of_assoc(did) {
                derived = tcx.is_automatically_derived(imp);
            }
        }
        let args: Vec<sty::Ty> = inst.args().0.iter().filter_map(|a| a.ty().copied()).collect();
        let args: Vec<TyId> = args.into_iter().map(|t| self.ty(t)).collect();
        let self_ty = if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate(tcx, iinst.args);
            let st = tcx.normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), st);
            let s: sty::Ty = rustc_internal::stable(st);
            Some(self.ty(s))
        } else if tcx.trait_of_assoc(did).is_some() {
            args.first().copied()
        } else {
            None
        };
        let sp = tcx.def_span(did);
        let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = &mut self.prog.fns[id];
        f.trait_item = trait_item;
        f.derived = derived;
        f.args = args;
        f.self_ty = self_ty;
        f.file = format!("{}", loc.file.name.prefer_remapped_unconditionally());
        f.line = loc.line;
        id
    }

    fn place(&mut self, p: &mir::Place) -> Place {
        Place {
            local: p.local,
            proj: p
                .projection
                .iter()
                .map(|e| match e {
                    mir::ProjectionElem::Deref => Proj::Deref,
                    mir::ProjectionElem::Field(i, t) => Proj::Field(*i, self.ty(*t)),
                    mir::ProjectionElem::Index(l) => Proj::Index(*l),
                    mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                        Proj::ConstIndex { offset: *offset, from_end: *from_end, min: *min_length }
                    }
                    mir::ProjectionElem::Subslice { from, to, from_end } => Proj::Subslice { from: *from, to: *to, from_end: *from_end },
                    mir::ProjectionElem::Downcast(v) => Proj::Downcast(idx(*v)),
                    _ => Proj::Opaque,
                })
                .collect(),
        }
    }

    fn operand(&mut self, o: &mir::Operand) -> Operand {
        match o {
            mir::Operand::Copy(p) => Operand::Copy(self.place(p)),
            mir::Operand::Move(p) => Operand::Move(self.place(p)),
            mir::Operand::Constant(c) => {
                let ty = self.ty(c.const_.ty());
                let val = self.cval(&c.const_);
                Operand::Const(Const { ty, val })
            }
            mir::Operand::RuntimeChecks(c) => Operand::RuntimeCheck(format!("{:?}", c)),
        }
    }

    fn cval(&mut self, c: &sty::MirConst) -> CVal {
        let t = c.ty();
        match c.kind() {
            sty::ConstantKind::ZeroSized => self.zst(t),
            sty::ConstantKind::Allocated(a) => self.decode(a, 0, t),
            sty::ConstantKind::Unevaluated(_) => {
                // evaluate through the compiler
                let ic = rustc_internal::internal(self.tcx, c.clone());
                let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                match ic.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                    Ok(v) => {
                        let ity = ic.ty();
                        let cc = rustc_middle::mir::Const::Val(v, ity);
                        let sc: sty::MirConst = rustc_internal::stable(cc);
                        match sc.kind() {
                            sty::ConstantKind::Unevaluated(_) => CVal::Unknown,
                            _ => self.cval(&sc),
                        }
                    }
                    Err(_) => CVal::Unknown,
                }
            }
            sty::ConstantKind::Ty(tc) => match tc.kind() {
                sty::TyConstKind::Value(t, a) => self.decode(a, 0, *t),
                sty::TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => tc.eval_target_usize().map(|v| CVal::Int(v as i128)).unwrap_or(CVal::Unknown),
            },
            _ => CVal::Unknown,
        }
    }

    fn zst(&mut self, t: sty::Ty) -> CVal {
        match t.kind() {
            STyKind::RigidTy(RigidTy::FnDef(def, args)) => CVal::Fn(Instance::resolve(def, &args).ok().map(|i| self.func(i))),
            STyKind::RigidTy(RigidTy::Tuple(v)) => CVal::Tuple(v.into_iter().map(|t| self.zst(t)).collect()),
            STyKind::RigidTy(RigidTy::Adt(def, args)) if def.num_variants() == 1 => {
                let mut fs = vec![];
                for v in def.variants_iter() {
                    for f in v.fields() {
                        fs.push(self.zst(f.ty_with_args(&args)));
                    }
                }
                CVal::Adt(0, fs)
            }
            STyKind::RigidTy(RigidTy::Array(_, _)) => CVal::Array(vec![]),
            _ => CVal::Zst,
        }
    }

    fn uint(a: &sty::Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }

    fn decode(&mut self, a: &sty::Allocation, off: usize, t: sty::Ty) -> CVal {
        let STyKind::RigidTy(r) = t.kind() else { return CVal::Unknown };
        let Ok(layout) = t.layout() else { return CVal::Unknown };
        let shape = layout.shape();
        let size = shape.size.bytes();
        match r {
            RigidTy::Bool => Self::uint(a, off, 1).map(|v| CVal::Bool(v != 0)).unwrap_or(CVal::Unknown),
            RigidTy::Char => Self::uint(a, off, 4).and_then(|v| char::from_u32(v as u32)).map(CVal::Char).unwrap_or(CVal::Unknown),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                Self::uint(a, off, n)
                    .map(|v| {
                        let sh = 128 - 8 * n as u32;
                        CVal::Int(((v << sh) as i128) >> sh)
                    })
                    .unwrap_or(CVal::Unknown)
            }
            RigidTy::Uint(i) => Self::uint(a, off, i.num_bytes()).map(|v| CVal::Int(v as i128)).unwrap_or(CVal::Unknown),
            RigidTy::Float(_) => Self::uint(a, off, size).map(|v| CVal::Float(format!("{:x}", v))).unwrap_or(CVal::Unknown),
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let Some(aid) = prov else { return CVal::Unknown };
                let base = Self::uint(a, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(aid) {
                    GlobalAlloc::Memory(m) => match to.kind() {
                        STyKind::RigidTy(RigidTy::Str) => {
                            let len = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Option<Vec<u8>> = (base..base + len).map(|i| Self::uint(&m, i, 1).map(|b| b as u8)).collect();
                            match bytes.and_then(|b| String::from_utf8(b).ok()) {
                                Some(s) => CVal::Str(s),
                                None => CVal::Unknown,
                            }
                        }
                        STyKind::RigidTy(RigidTy::Slice(e)) => {
                            let len = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            CVal::SliceRef((0..len).map(|i| self.decode(&m, base + i * es, e)).collect())
                        }
                        STyKind::RigidTy(RigidTy::Dynamic(..)) => CVal::Unknown,
                        _ => CVal::Ref(Box::new(self.decode(&m, base, to))),
                    },
                    GlobalAlloc::Function(i) => {
                        CVal::Fn(Some(self.func(i)))
                    }
                    GlobalAlloc::Static(s) => CVal::Static(s.name().to_string()),
                    _ => CVal::Unknown,
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if matches!(e.kind(), STyKind::RigidTy(RigidTy::Uint(sty::UintTy::U8))) {
                    let b: Option<Vec<u8>> = (0..n).map(|i| Self::uint(a, off + i, 1).map(|b| b as u8)).collect();
                    return b.map(CVal::Bytes).unwrap_or(CVal::Unknown);
                }
                CVal::Array((0..n).map(|i| self.decode(a, off + i * es, e)).collect())
            }
            RigidTy::Tuple(ts) => {
                if ts.is_empty() {
                    return CVal::Tuple(vec![]);
                }
                let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &shape.fields else { return CVal::Unknown };
                let offs: Vec<usize> = offsets.iter().map(|o| o.bytes()).collect();
                CVal::Tuple(ts.iter().enumerate().map(|(i, t)| self.decode(a, off + offs[i], *t)).collect())
            }
            RigidTy::Adt(def, args) => {
                use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
                if !def.kind().is_struct() && !def.kind().is_enum() {
                    return CVal::Unknown;
                }
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return CVal::Unknown,
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            FieldsShape::Primitive => vec![],
                            _ => return CVal::Unknown,
                        };
                        (idx(*index), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return CVal::Unknown };
                        let toff = off + offsets[*tag_field].bytes();
                        let (tsize, is_ptr) = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value {
                                rustc_public::abi::Primitive::Int { length, .. } => (length.bits() / 8, false),
                                rustc_public::abi::Primitive::Pointer(_) => (8, true),
                                _ => return CVal::Unknown,
                            },
                        };
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                        let raw = if is_ptr && has_prov { None } else { Self::uint(a, toff, tsize) };
                        let mask: u128 = if tsize == 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(raw) = raw else { return CVal::Unknown };
                                let mut found = None;
                                for (i, _) in def.variants_iter().enumerate() {
                                    let d = def.discriminant_for_variant(sty_variant(i));
                                    if d.val & mask == raw {
                                        found = Some(i);
                                    }
                                }
                                match found {
                                    Some(i) => i,
                                    None => return CVal::Unknown,
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match raw {
                                None => idx(*untagged_variant),
                                Some(raw) => {
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let lo = idx(*niche_variants.start());
                                    let hi = idx(*niche_variants.end());
                                    if rel <= (hi - lo) as u128 {
                                        lo + rel as usize
                                    } else {
                                        idx(*untagged_variant)
                                    }
                                }
                            },
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let variants = def.variants();
                let fields = variants[vi].fields();
                if fields.len() != offs.len() {
                    return CVal::Unknown;
                }
                let mut out = vec![];
                for (i, f) in fields.iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let ift = rustc_internal::internal(self.tcx, ft);
                    let ift = self.tcx.normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new_wip(ift));
                    let ft: sty::Ty = rustc_internal::stable(ift);
                    out.push(self.decode(a, off + offs[i], ft));
                }
                CVal::Adt(vi, out)
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => self.zst(t),
            _ => CVal::Unknown,
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue, _body: &mir::Body) -> Rvalue {
        match r {
            mir::Rvalue::AddressOf(k, p) => Rvalue::AddrOf { mutable: format!("{:?}", k).contains("Mut"), place: self.place(p) },
            mir::Rvalue::Ref(_, k, p) => Rvalue::Ref { mutable: matches!(k, mir::BorrowKind::Mut { .. }), place: self.place(p) },
            mir::Rvalue::Reborrow(_, m, p) => Rvalue::Ref { mutable: *m == mir::Mutability::Mut, place: self.place(p) },
            mir::Rvalue::Aggregate(k, ops) => {
                let ops = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    mir::AggregateKind::Array(t) => AggKind::Array(self.ty(*t)),
                    mir::AggregateKind::Tuple => AggKind::Tuple,
                    mir::AggregateKind::Adt(def, v, args, _, uf) => {
                        let t = sty::Ty::from_rigid_kind(RigidTy::Adt(*def, args.clone()));
                        AggKind::Adt { ty: self.ty(t), variant: idx(*v), union_field: *uf }
                    }
                    mir::AggregateKind::Closure(def, args) => {
                        let t = sty::Ty::new_closure(*def, args.clone());
                        AggKind::Closure(self.ty(t))
                    }
                    mir::AggregateKind::RawPtr(t, _) => AggKind::RawPtr(self.ty(*t)),
                    _ => AggKind::Other,
                };
                Rvalue::Agg(k, ops)
            }
            mir::Rvalue::BinaryOp(b, x, y) => Rvalue::Bin(format!("{:?}", b), self.operand(x), self.operand(y)),
            mir::Rvalue::CheckedBinaryOp(b, x, y) => Rvalue::CheckedBin(format!("{:?}", b), self.operand(x), self.operand(y)),
            mir::Rvalue::UnaryOp(u, x) => Rvalue::Un(format!("{:?}", u), self.operand(x)),
            mir::Rvalue::Cast(k, x, t) => Rvalue::Cast(format!("{:?}", k), self.operand(x), self.ty(*t)),
            mir::Rvalue::CopyForDeref(p) => Rvalue::Use(Operand::Copy(self.place(p))),
            mir::Rvalue::Discriminant(p) => Rvalue::Discr(self.place(p)),
            mir::Rvalue::Len(p) => Rvalue::Len(self.place(p)),
            mir::Rvalue::Repeat(o, n) => Rvalue::Repeat(self.operand(o), n.eval_target_usize().unwrap_or(u64::MAX)),
            mir::Rvalue::ThreadLocalRef(i) => Rvalue::ThreadLocal(i.name().to_string()),
            mir::Rvalue::Use(o, _) => Rvalue::Use(self.operand(o)),
        }
    }

    fn body(&mut self, id: FnId) {
        let inst = self.insts[id];
        let tcx = self.tcx;
        let iinst = rustc_internal::internal(tcx, inst);
        if let Ok(abi) = inst.fn_abi() {
            let _ = abi;
        }
        self.prog.fns[id].track_caller = inst.requires_caller_location();
        // signature
        if let Some(b) = {
            // drop glue and virtual calls are handled by the engine
            let is_drop = matches!(iinst.def, rustc_middle::ty::InstanceKind::Shim(rustc_middle::ty::ShimKind::DropGlue(..)));
            let is_virtual = matches!(inst.kind, InstanceKind::Virtual { .. });
            if is_drop || is_virtual || !inst.has_body() {
                None
            } else {
                inst.body()
            }
        } {
            // std bodies reached only through formatting machinery etc. are cut to keep the dump small
            let f = &self.prog.fns[id];
            let cut = !f.local && is_cut(&f.path);
            let argc = b.arg_locals().len();
            let ret = self.ty(b.ret_local().ty);
            let inputs: Vec<TyId> = b.arg_locals().iter().map(|l| self.ty(l.ty)).collect();
            {
                let f = &mut self.prog.fns[id];
                f.argc = argc;
                f.inputs = inputs;
                f.output = ret;
                f.spread = b.spread_arg().is_some();
            }
            if cut {
                return;
            }
            let mut locals: Vec<LocalDecl> = b.locals().iter().map(|l| LocalDecl { ty: self.ty(l.ty), name: None }).collect();
            for v in &b.var_debug_info {
                if let mir::VarDebugInfoContents::Place(p) = &v.value {
                    if p.projection.is_empty() {
                        locals[p.local].name = Some(v.name.to_string());
                    }
                }
            }
            // cleanup blocks: those reachable only through unwind edges
            let n = b.blocks.len();
            let mut normal = vec![false; n];
            let mut st = vec![0usize];
            while let Some(i) = st.pop() {
                if normal[i] {
                    continue;
                }
                normal[i] = true;
                match &b.blocks[i].terminator.kind {
                    mir::TerminatorKind::Goto { target } => st.push(*target),
                    mir::TerminatorKind::SwitchInt { targets, .. } => st.extend(targets.all_targets()),
                    mir::TerminatorKind::Drop { target, .. } => st.push(*target),
                    mir::TerminatorKind::Call { target, .. } => st.extend(target.iter().copied()),
                    mir::TerminatorKind::Assert { target, .. } => st.push(*target),
                    mir::TerminatorKind::InlineAsm { destination, .. } => st.extend(destination.iter().copied()),
                    _ => {}
                }
            }
            let mut blocks = vec![];
            for (bi, blk) in b.blocks.iter().enumerate() {
                if !normal[bi] {
                    blocks.push(Block { cleanup: true, stmts: vec![], term: Term::Resume, line: 0 });
                    continue;
                }
                let mut stmts = vec![];
                for s in &blk.statements {
                    let line = s.source_info.span.get_lines().start_line;
                    let st = match &s.kind {
                        mir::StatementKind::Assign(p, r) => {
                            let p = self.place(p);
                            let r = self.rvalue(r, &b);
                            Stmt::Assign(p, r)
                        }
                        mir::StatementKind::SetDiscriminant { place, variant_index } => Stmt::SetDiscr(self.place(place), idx(*variant_index)),
                        mir::StatementKind::StorageLive(l) => Stmt::Live(*l),
                        mir::StatementKind::StorageDead(l) => Stmt::Dead(*l),
                        mir::StatementKind::Intrinsic(mir::NonDivergingIntrinsic::Assume(o)) => Stmt::Assume(self.operand(o)),
                        mir::StatementKind::Intrinsic(_) => Stmt::Other,
                        _ => continue,
                    };
                    stmts.push((st, line));
                }
                let sp = blk.terminator.source_info.span;
                let line = sp.get_lines().start_line;
                let file = sp.get_filename().to_string();
                let term = match &blk.terminator.kind {
                    mir::TerminatorKind::Goto { target } => Term::Goto(*target),
                    mir::TerminatorKind::SwitchInt { discr, targets } => {
                        let t = discr.ty(b.locals()).unwrap();
                        Term::Switch {
                            discr: self.operand(discr),
                            ty: self.ty(t),
                            arms: targets.branches().collect(),
                            otherwise: targets.otherwise(),
                        }
                    }
                    mir::TerminatorKind::Resume => Term::Resume,
                    mir::TerminatorKind::Abort => Term::Resume,
                    mir::TerminatorKind::Return => Term::Return,
                    mir::TerminatorKind::Unreachable => Term::Unreachable,
                    mir::TerminatorKind::Drop { place, target, .. } => {
                        let t = place.ty(b.locals()).unwrap();
                        Term::Drop { ty: self.ty(t), place: self.place(place), target: *target }
                    }
                    mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                        let fty = func.ty(b.locals()).unwrap();
                        let callee = match fty.kind() {
                            STyKind::RigidTy(RigidTy::FnDef(def, gargs)) => match Instance::resolve(def, &gargs) {
                                Ok(i) => Callee::Fn(self.func(i)),
                                Err(_) => Callee::Ptr(self.operand(func)),
                            },
                            _ => Callee::Ptr(self.operand(func)),
                        };
                        let mut callee = callee;
                        let mut args: Vec<Operand> = args.iter().map(|a| self.operand(a)).collect();
                        // a named function called through Fn, FnMut or FnOnce: call it
                        if let STyKind::RigidTy(RigidTy::FnDef(def, gargs)) = fty.kind() {
                            if let Some((i, n)) = named_fn(def, &gargs) {
                                let tuple = match args.get(1) {
                                    Some(Operand::Copy(p)) | Some(Operand::Move(p)) => Some(p.clone()),
                                    _ if n.is_empty() => Some(Place { local: 0, proj: vec![] }),
                                    _ => None,
                                };
                                if let Some(p) = tuple {
                                    args = (0..n.len())
                                        .map(|k| {
                                            let mut q = p.clone();
                                            q.proj.push(Proj::Field(k, self.ty(n[k])));
                                            Operand::Move(q)
                                        })
                                        .collect();
                                    callee = Callee::Fn(self.func(i));
                                }
                            }
                        }
                        Term::Call {
                            callee,
                            args,
                            dest: self.place(destination),
                            target: *target,
                            line,
                            file,
                        }
                    }
                    mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let (m, ops): (String, Vec<mir::Operand>) = match msg {
                            mir::AssertMessage::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len.clone(), index.clone()]),
                            mir::AssertMessage::Overflow(o, a, b) => (format!("Overflow({:?})", o), vec![a.clone(), b.clone()]),
                            mir::AssertMessage::OverflowNeg(a) => ("OverflowNeg".into(), vec![a.clone()]),
                            mir::AssertMessage::DivisionByZero(a) => ("DivisionByZero".into(), vec![a.clone()]),
                            mir::AssertMessage::RemainderByZero(a) => ("RemainderByZero".into(), vec![a.clone()]),
                            m => (format!("{:?}", m).chars().take(40).collect(), vec![]),
                        };
                        Term::Assert {
                            cond: self.operand(cond),
                            expected: *expected,
                            msg: m,
                            ops: ops.iter().map(|o| self.operand(o)).collect(),
                            target: *target,
                            line,
                            file,
                        }
                    }
                    k => Term::Other(format!("{:?}", k).chars().take(60).collect()),
                };
                blocks.push(Block { cleanup: false, stmts, term, line });
            }
            let f = &mut self.prog.fns[id];
            f.locals = locals;
            f.blocks = blocks;
            f.has_body = true;
        } else {
            // signature from the type
            let t = inst.ty();
            if let Some(sig) = t.kind().fn_sig() {
                let s = sig.skip_binder();
                let inputs: Vec<TyId> = s.inputs().iter().map(|t| self.ty(*t)).collect();
                let out = self.ty(s.output());
                let f = &mut self.prog.fns[id];
                f.argc = inputs.len();
                f.inputs = inputs;
                f.output = out;
            }
        }
    }
}

fn sty_variant(i: usize) -> sty::VariantIdx {
    sty::VariantIdx::to_val(i)
}

/// std internals whose bodies are never interpreted by the engine
/// for Fn::call and the like on a named function: that function and the types of its arguments
fn named_fn(def: sty::FnDef, args: &sty::GenericArgs) -> Option<(Instance, Vec<sty::Ty>)> {
    let name = def.name();
    if !["::Fn::call", "::FnMut::call_mut", "::FnOnce::call_once"].iter().any(|x| name.ends_with(x)) {
        return None;
    }
    match (args.0.first(), args.0.get(1)) {
        (Some(sty::GenericArgKind::Type(f)), Some(sty::GenericArgKind::Type(t))) => match (f.kind(), t.kind()) {
            (STyKind::RigidTy(RigidTy::FnDef(d, a)), STyKind::RigidTy(RigidTy::Tuple(ts))) => Instance::resolve(d, &a).ok().map(|i| (i, ts)),
            _ => None,
        },
        _ => None,
    }
}

fn is_cut(p: &str) -> bool {
    const CUT: &[&str] = &[
        "std::fmt::", "core::fmt::", "alloc::fmt::", "alloc::raw_vec::", "alloc::alloc::", "std::alloc::", "core::alloc::",
        "alloc::string::", "std::string::", "core::num::", "core::str::", "std::str::", "alloc::str::", "core::unicode::", "core::panicking",
        "core::hash::", "std::hash::",
    ];
    CUT.iter().any(|c| p.starts_with(c) || p.starts_with(&format!("<{}", c)))
}

/// path of a definition; the name of its own crate, also when std is linked
fn dps(tcx: TyCtxt<'_>, did: rustc_hir::def_id::DefId) -> String {
    let s = tcx.def_path_str(did);
    let k = tcx.crate_name(did.krate);
    match s.strip_prefix("std::") {
        Some(r) if matches!(k.as_str(), "core" | "alloc") => format!("{k}::{r}"),
        _ => s,
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let mut cx = Cx { tcx, prog: Program::default(), tymap: HashMap::new(), fnmap: HashMap::new(), insts: vec![], queue: VecDeque::new() };
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    for it in items {
        let did = rustc_internal::internal(tcx, it.def_id());
        cx.prog.local_fns.push(dps(tcx, did));
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if tcx.is_closure_like(did) {
            continue;
        }
        if it.requires_monomorphization() {
            continue;
        }
        // unit tests are not compiled in
        if let Ok(inst) = Instance::try_from(it) {
            let name = dps(tcx, did);
            let f = cx.func(inst);
            cx.prog.roots.push((name, f));
        }
    }
    // statics
    for s in rustc_public::local_crate().statics() {
        let did = rustc_internal::internal(tcx, s.def_id());
        let ty = s.ty();
        let t = cx.ty(ty);
        cx.prog.statics.push(StaticInfo {
            name: dps(tcx, did),
            mutable: tcx.is_mutable_static(did),
            ty: format!("{}", ty),
            interior: !cx.prog.types[t].freeze,
        });
    }
    // impls
    for id in tcx.hir_crate_items(()).definitions() {
        if let rustc_hir::def::DefKind::Impl { of_trait } = tcx.def_kind(id) {
            let did = id.to_def_id();
            let self_ty = tcx.type_of(did).instantiate_identity();
            let tr = if of_trait { dps(tcx, tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip().def_id) } else { String::new() };
            cx.prog.impls.push(ImplInfo {
                trait_: tr,
                self_ty: format!("{}", self_ty.skip_norm_wip()),
                derived: tcx.is_automatically_derived(did),
                unsafe_: of_trait && tcx.impl_trait_header(did).safety.is_unsafe(),
                negative: of_trait && tcx.impl_polarity(did) == rustc_middle::ty::ImplPolarity::Negative,
            });
        }
    }
    while let Some(f) = cx.queue.pop_front() {
        cx.body(f);
    }
    let out = std::env::var("SA_OUT").expect("SA_OUT");
    let file = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    serde_json::to_writer(file, &cx.prog).unwrap();
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if std::env::var("SA_OUT").is_ok() {
            rustc_internal::run(tcx, || dump(tcx)).unwrap();
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
