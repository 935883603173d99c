//! Compiler wrapper.  Every crate is compiled by the ordinary compiler; when the crate named in
//! VDRIVER_CRATE is compiled, everything reachable from its functions is monomorphised and
//! written to VDRIVER_OUT, one JSON value per line (types, functions, bodies).  When a crate listed
//! in VDRIVER_LINT is compiled, its unsafe blocks/functions/impls are listed in VDRIVER_OUT.<crate>.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

use rustc_middle::mir as im;
use rustc_middle::ty as it;
use rustc_middle::ty::TyCtxt;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

mod lint;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T>(v: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: std::io::BufWriter<std::fs::File>,
    tys: HashMap<Ty, usize>,
    ty_lines: Vec<String>,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    full: HashSet<String>,
    unsized_seen: HashSet<(Ty, Ty)>,
    vtables: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("\"#{}\"", n),
                    Err(_) => "\"#?\"".to_string(),
                }),
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.tys.insert(t, id);
        self.ty_lines.push(String::new());
        let s = esc(&format!("{}", t));
        let kind = t.kind();
        let body = match kind.rigid() {
            None => "\"k\":\"other\"".to_string(),
            Some(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!(
                    "\"k\":\"float\",\"bits\":{}",
                    match f {
                        FloatTy::F16 => 16,
                        FloatTy::F32 => 32,
                        FloatTy::F64 => 64,
                        FloatTy::F128 => 128,
                    }
                ),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(*e);
                    format!(
                        "\"k\":\"array\",\"elem\":{},\"len\":{}",
                        e,
                        n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                    )
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(*e)),
                RigidTy::RawPtr(e, m) => format!(
                    "\"k\":\"ptr\",\"to\":{},\"mut\":{}",
                    self.ty(*e),
                    matches!(m, Mutability::Mut)
                ),
                RigidTy::Ref(_, e, m) => format!(
                    "\"k\":\"ref\",\"to\":{},\"mut\":{}",
                    self.ty(*e),
                    matches!(m, Mutability::Mut)
                ),
                RigidTy::Tuple(ts) => format!(
                    "\"k\":\"tuple\",\"elems\":{}",
                    list(ts.clone(), |x| self.ty(x).to_string())
                ),
                RigidTy::FnDef(d, a) => {
                    let a = self.gargs(a);
                    format!("\"k\":\"fndef\",\"name\":{},\"args\":{}", esc(&d.name()), a)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let targs: Vec<Ty> = a.0.iter().filter_map(|g| g.ty().copied()).collect();
                    // last type argument of a closure is the tuple of captured variables
                    let up = targs.last().copied();
                    let up = up.map(|u| self.ty(u).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"closure\",\"name\":{},\"up\":{}", esc(&d.name()), up)
                }
                RigidTy::Dynamic(_, _) => {
                    let p = kind.trait_principal();
                    format!(
                        "\"k\":\"dyn\",\"trait\":{}",
                        p.map(|p| esc(&p.skip_binder().def_id.name())).unwrap_or("null".into())
                    )
                }
                RigidTy::Adt(def, args) => {
                    let k = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let ga = self.gargs(args);
                    let krate = def.krate().name.to_string();
                    let mut vs = vec![];
                    for v in def.variants() {
                        let discr = if matches!(def.kind(), AdtKind::Enum) {
                            def.discriminant_for_variant(v.idx()).val as i128
                        } else {
                            0
                        };
                        let fs = list(v.fields(), |f| {
                            let t = f.ty_with_args(args);
                            format!("[{},{}]", esc(&f.name), self.ty(t))
                        });
                        vs.push(format!("[{},{},{}]", esc(&v.name()), discr, fs));
                    }
                    format!(
                        "\"k\":\"{}\",\"name\":{},\"crate\":{},\"args\":{},\"box\":{},\"variants\":[{}]",
                        k,
                        esc(&def.name()),
                        esc(&krate),
                        ga,
                        def.is_box(),
                        vs.join(",")
                    )
                }
                _ => "\"k\":\"other\"".into(),
            },
        };
        self.ty_lines[id] = format!("{{\"T\":\"ty\",\"id\":{},\"s\":{},{}}}", id, s, body);
        id
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.insts.insert(i, id);
        self.queue.push_back((id, i));
        id
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = list(&p.projection, |e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"c\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"s\",{},{},{}]", from, to, from_end)
            }
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
        });
        format!("[{},{}]", p.local, pr)
    }

    fn cval(&mut self, v: im::ConstValue, t: it::Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"k\":\"opaque\"}".into();
        }
        match (v, t.kind()) {
            (_, it::FnDef(..)) => {
                let st = rustc_internal::stable(t);
                if let Some((d, a)) = st.kind().fn_def() {
                    let a = a.clone();
                    if let Ok(i) = Instance::resolve(d, &a) {
                        let id = self.inst(i);
                        return format!("{{\"k\":\"fn\",\"inst\":{}}}", id);
                    }
                }
                "{\"k\":\"opaque\"}".into()
            }
            (im::ConstValue::ZeroSized, it::Adt(..) | it::Tuple(..) | it::Array(..)) => self.destruct(v, t, depth),
            (im::ConstValue::ZeroSized, _) => "{\"k\":\"zst\"}".into(),
            (im::ConstValue::Scalar(im::interpret::Scalar::Int(i)), it::Bool) => {
                format!("{{\"k\":\"int\",\"v\":{}}}", i.to_bits(i.size()))
            }
            (im::ConstValue::Scalar(im::interpret::Scalar::Int(i)), it::Int(_)) => {
                format!("{{\"k\":\"int\",\"v\":{}}}", i.to_int(i.size()))
            }
            (im::ConstValue::Scalar(im::interpret::Scalar::Int(i)), it::Uint(_) | it::Char) => {
                format!("{{\"k\":\"int\",\"v\":{}}}", i.to_bits(i.size()))
            }
            (im::ConstValue::Scalar(im::interpret::Scalar::Int(i)), it::Float(_)) => {
                format!("{{\"k\":\"float\",\"bits\":{}}}", i.to_bits(i.size()))
            }
            (im::ConstValue::Scalar(im::interpret::Scalar::Ptr(p, _)), k) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                match tcx.global_alloc(aid) {
                    im::interpret::GlobalAlloc::Function { instance } => {
                        let i: Instance = rustc_internal::stable(instance);
                        let id = self.inst(i);
                        format!("{{\"k\":\"fn\",\"inst\":{}}}", id)
                    }
                    im::interpret::GlobalAlloc::Static(d) => {
                        format!("{{\"k\":\"static\",\"name\":{}}}", esc(&tcx.def_path_str(d)))
                    }
                    im::interpret::GlobalAlloc::Memory(_) => {
                        if let it::Ref(_, inner, _) = k {
                            if inner.is_sized(tcx, it::TypingEnv::fully_monomorphized()) {
                                let pointee = self.indirect(aid, off, *inner, depth + 1);
                                return format!(
                                    "{{\"k\":\"ref\",\"ty\":{},\"to\":{}}}",
                                    {
                                        let s: Ty = rustc_internal::stable(*inner);
                                        self.ty(s)
                                    },
                                    pointee
                                );
                            }
                        }
                        "{\"k\":\"opaque\"}".into()
                    }
                    _ => "{\"k\":\"opaque\"}".into(),
                }
            }
            (im::ConstValue::Slice { alloc_id, meta }, it::Ref(_, inner, _)) => {
                let alloc = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                let n = meta as usize;
                match inner.kind() {
                    it::Str => {
                        let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                        format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)))
                    }
                    it::Slice(e) => {
                        let layout = tcx.layout_of(it::TypingEnv::fully_monomorphized().as_query_input(*e));
                        let Ok(l) = layout else { return "{\"k\":\"opaque\"}".into() };
                        let mut o = vec![];
                        for j in 0..n.min(300) {
                            let off = l.size * (j as u64);
                            o.push(self.indirect(alloc_id, off, *e, depth + 1));
                        }
                        let s: Ty = rustc_internal::stable(*inner);
                        let tid = self.ty(s);
                        format!("{{\"k\":\"ref\",\"ty\":{},\"to\":{{\"k\":\"array\",\"elems\":[{}]}}}}", tid, o.join(","))
                    }
                    _ => "{\"k\":\"opaque\"}".into(),
                }
            }
            (_, it::Adt(..) | it::Tuple(..) | it::Array(..)) => self.destruct(v, t, depth),
            (im::ConstValue::Indirect { alloc_id, offset }, it::Ref(_, inner, _)) => {
                // fat pointer stored in memory: read pointer and length
                let alloc = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                let ps = rustc_abi::Size::from_bytes(8);
                let r1 = im::interpret::alloc_range(offset, ps);
                let r2 = im::interpret::alloc_range(offset + ps, ps);
                let p = alloc.read_scalar(&tcx, r1, true);
                let l = alloc.read_scalar(&tcx, r2, false);
                if let (Ok(im::interpret::Scalar::Ptr(p, _)), Ok(l)) = (p, l) {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let (Ok(n), im::interpret::GlobalAlloc::Memory(_)) =
                        (l.to_target_usize(&tcx).discard_err().ok_or(()), tcx.global_alloc(prov.alloc_id()))
                    {
                        if off.bytes() == 0 {
                            return self.cval(
                                im::ConstValue::Slice { alloc_id: prov.alloc_id(), meta: n },
                                it::Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, *inner),
                                depth + 1,
                            );
                        }
                    }
                }
                "{\"k\":\"opaque\"}".into()
            }
            _ => "{\"k\":\"opaque\"}".into(),
        }
    }

    fn indirect(&mut self, aid: im::interpret::AllocId, off: rustc_abi::Size, t: it::Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let Ok(layout) = tcx.layout_of(it::TypingEnv::fully_monomorphized().as_query_input(t)) else {
            return "{\"k\":\"opaque\"}".into();
        };
        if layout.size.bytes() == 0 {
            return self.cval(im::ConstValue::ZeroSized, t, depth);
        }
        if t.is_primitive() || (t.is_ref() && layout.size.bytes() == 8) {
            let alloc = tcx.global_alloc(aid).unwrap_memory().inner();
            let r = im::interpret::alloc_range(off, layout.size);
            if let Ok(s) = alloc.read_scalar(&tcx, r, t.is_ref()) {
                return self.cval(im::ConstValue::Scalar(s), t, depth);
            }
            return "{\"k\":\"opaque\"}".into();
        }
        self.cval(im::ConstValue::Indirect { alloc_id: aid, offset: off }, t, depth)
    }

    fn destruct(&mut self, v: im::ConstValue, t: it::Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if let it::Adt(d, _) = t.kind() {
            if d.is_union() {
                return "{\"k\":\"opaque\"}".into();
            }
        }
        if let it::Array(_, n) = t.kind() {
            if n.try_to_target_usize(tcx).map(|n| n > 300).unwrap_or(true) {
                return "{\"k\":\"opaque\"}".into();
            }
        }
        let st: Ty = rustc_internal::stable(t);
        let tid = self.ty(st);
        match tcx.try_destructure_mir_constant_for_user_output(v, t) {
            None => "{\"k\":\"opaque\"}".into(),
            Some(d) => {
                let fs = list(d.fields.iter(), |(fv, ft)| self.cval(*fv, *ft, depth + 1));
                match t.kind() {
                    it::Adt(..) => format!(
                        "{{\"k\":\"adt\",\"ty\":{},\"variant\":{},\"fields\":{}}}",
                        tid,
                        d.variant.map(|v| v.as_usize()).unwrap_or(0),
                        fs
                    ),
                    it::Tuple(..) => format!("{{\"k\":\"tuple\",\"ty\":{},\"fields\":{}}}", tid, fs),
                    _ => format!("{{\"k\":\"array\",\"elems\":{}}}", fs),
                }
            }
        }
    }

    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        let ic = rustc_internal::internal(self.tcx, c.const_.clone());
        let v = match ic {
            im::Const::Val(v, t) => self.cval(v, t, 0),
            other => match other.eval(self.tcx, it::TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP) {
                Ok(v) => {
                    let t = rustc_internal::internal(self.tcx, t);
                    self.cval(v, t, 0)
                }
                Err(_) => "{\"k\":\"opaque\"}".into(),
            },
        };
        format!("[\"k\",{},{}]", tid, v)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => "[\"rt\"]".into(),
        }
    }

    fn vtable(&mut self, from: Ty, to: Ty) {
        // find (Concrete, dyn Trait) under matching pointers
        if !self.unsized_seen.insert((from, to)) {
            return;
        }
        let fk = from.kind();
        let tk = to.kind();
        match (fk.rigid(), tk.rigid()) {
            (Some(RigidTy::Ref(_, a, _) | RigidTy::RawPtr(a, _)), Some(RigidTy::Ref(_, b, _) | RigidTy::RawPtr(b, _))) => {
                self.vtable(*a, *b)
            }
            (Some(RigidTy::Adt(da, aa)), Some(RigidTy::Adt(db, ab))) if da == db => {
                for (x, y) in aa.0.iter().zip(ab.0.iter()) {
                    if let (Some(x), Some(y)) = (x.ty(), y.ty()) {
                        if x != y {
                            self.vtable(*x, *y);
                        }
                    }
                }
            }
            (_, Some(RigidTy::Dynamic(..))) => {
                if fk.is_trait() {
                    return;
                }
                let tcx = self.tcx;
                let ito = rustc_internal::internal(tcx, to);
                let ifrom = rustc_internal::internal(tcx, from);
                let it::Dynamic(preds, ..) = ito.kind() else { return };
                if let Some(p) = preds.principal() {
                    let p = tcx.instantiate_bound_regions_with_erased(p);
                    let tr = p.with_self_ty(tcx, ifrom);
                    let es = tcx.vtable_entries(tr);
                    let ms = list(es, |e| match e {
                        it::VtblEntry::Method(i) => {
                            let i: Instance = rustc_internal::stable(*i);
                            self.inst(i).to_string()
                        }
                        _ => "null".into(),
                    });
                    let a = self.ty(from);
                    let b = self.ty(to);
                    let d = Instance::resolve_drop_in_place(from);
                    let d = self.inst(d);
                    self.vtables.push(format!("{{\"T\":\"vt\",\"from\":{},\"to\":{},\"drop\":{},\"methods\":{}}}", a, b, d, ms));
                }
            }
            _ => {}
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p))
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    if let Ok(f) = o.ty(locals) {
                        self.vtable(f, *t);
                    }
                }
                let fnp = match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        let mut s = "null".to_string();
                        if let Ok(f) = o.ty(locals) {
                            if let Some((d, a)) = f.kind().fn_def() {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a.clone()) {
                                    s = self.inst(i).to_string();
                                }
                            }
                        }
                        s
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        let mut s = "null".to_string();
                        if let Ok(f) = o.ty(locals) {
                            if let Some(RigidTy::Closure(d, a)) = f.kind().rigid() {
                                if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::FnOnce) {
                                    s = self.inst(i).to_string();
                                }
                            }
                        }
                        s
                    }
                    _ => "null".into(),
                };
                let kn = match k {
                    CastKind::PointerCoercion(p) => format!("{:?}", p),
                    k => format!("{:?}", k),
                };
                let from = o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let to = self.ty(*t);
                format!("[\"cast\",{},{},{},{},{}]", esc(&kn), self.operand(o), from, to, fnp)
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), t)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", esc(&c.name())),
            Rvalue::Aggregate(k, ops) => {
                let os = list(ops, |o| self.operand(o));
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},0,null,{}]", self.ty(*t), os),
                    AggregateKind::Tuple => {
                        let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                        format!("[\"agg\",\"tuple\",{},0,null,{}]", t, os)
                    }
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{}]",
                            t,
                            v.to_index(),
                            f.map(|f| f.to_string()).unwrap_or("null".into()),
                            os
                        )
                    }
                    AggregateKind::Closure(..) => {
                        let t = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                        format!("[\"agg\",\"closure\",{},0,null,{}]", t, os)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",{},0,null,{}]", self.ty(*t), os),
                    _ => "[\"agg\",\"other\",null,0,null,[]]".to_string(),
                }
            }
        }
    }

    fn span(&self, s: rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        let f = s.get_filename();
        format!("{}:{}", f.to_string(), l.start_line)
    }

    fn callee(&mut self, func: &Operand, locals: &[LocalDecl]) -> (String, String) {
        // (instance id or null, declared fn name + generic args before resolution)
        if let Ok(t) = func.ty(locals) {
            if let Some((d, a)) = t.kind().fn_def() {
                let a = a.clone();
                let decl = {
                    let ga = self.gargs(&a);
                    format!("[{},{}]", esc(&d.name()), ga)
                };
                if let Ok(i) = Instance::resolve(d, &a) {
                    let id = self.inst(i);
                    return (id.to_string(), decl);
                }
                return ("null".into(), decl);
            }
        }
        ("null".into(), "null".into())
    }

    fn body(&mut self, id: usize, i: Instance, meta: &str, full: bool) -> String {
        let Some(b) = i.body() else {
            return format!("{{\"T\":\"fn\",\"id\":{},{}}}", id, meta);
        };
        let locals = b.locals().to_vec();
        if !full {
            // compact: only outgoing edges
            let mut calls: Vec<String> = vec![];
            for bb in &b.blocks {
                for s in &bb.statements {
                    if let StatementKind::Assign(_, r) = &s.kind {
                        if let Rvalue::Cast(..) = r {
                            let j = self.rvalue(r, &locals);
                            if let Some(p) = j.rfind(',') {
                                let t = &j[p + 1..j.len() - 1];
                                if t != "null" {
                                    calls.push(t.to_string());
                                }
                            }
                        }
                    }
                }
                match &bb.terminator.kind {
                    TerminatorKind::Call { func, args, .. } => {
                        let (c, decl) = self.callee(func, &locals);
                        if c != "null" {
                            calls.push(c);
                        } else {
                            calls.push(format!("{{\"ind\":{}}}", decl));
                        }
                        for a in args {
                            if let Operand::Constant(k) = a {
                                let ks = self.konst(k);
                                let _ = ks;
                                if let Some((d, ga)) = k.const_.ty().kind().fn_def() {
                                    let ga = ga.clone();
                                    if let Ok(x) = Instance::resolve(d, &ga) {
                                        calls.push(self.inst(x).to_string());
                                    }
                                }
                            }
                        }
                    }
                    TerminatorKind::Drop { place, .. } => {
                        if let Ok(t) = place.ty(&locals) {
                            let d = Instance::resolve_drop_in_place(t);
                            if !d.is_empty_shim() {
                                calls.push(self.inst(d).to_string());
                            }
                        }
                    }
                    TerminatorKind::InlineAsm { .. } => calls.push("{\"asm\":1}".into()),
                    _ => {}
                }
            }
            calls.sort();
            calls.dedup();
            return format!("{{\"T\":\"fn\",\"id\":{},{},\"edges\":[{}]}}", id, meta, calls.join(","));
        }
        let ls = list(locals.iter(), |l| self.ty(l.ty).to_string());
        let names = {
            let mut v = vec![];
            for d in &b.var_debug_info {
                if let VarDebugInfoContents::Place(p) = &d.value {
                    v.push(format!("[{},{}]", esc(&d.name), self.place(p)));
                }
            }
            format!("[{}]", v.join(","))
        };
        let mut bl = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let sp = self.span(s.source_info.span);
                        ss.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, &locals), esc(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        ss.push(format!(
                            "[\"copy\",{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count)
                        ));
                    }
                    _ => {}
                }
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr),
                        list(targets.branches(), |(v, b)| format!("[{},{}]", v, b)),
                        targets.otherwise(),
                        t
                    )
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let mut g = "null".to_string();
                    if let Ok(t) = place.ty(&locals) {
                        let d = Instance::resolve_drop_in_place(t);
                        if !d.is_empty_shim() {
                            g = self.inst(d).to_string();
                        }
                    }
                    format!("[\"drop\",{},{},{}]", self.place(place), target, g)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let (c, decl) = self.callee(func, &locals);
                    let f = if c == "null" { self.operand(func) } else { "null".into() };
                    let tys = list(args, |a| a.ty(&locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into()));
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        c,
                        decl,
                        f,
                        list(args, |a| self.operand(a)),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        tys
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index))
                        }
                        AssertMessage::Overflow(op, a, b) => {
                            format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
                        }
                        AssertMessage::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(a)),
                        AssertMessage::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a)),
                        AssertMessage::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(a)),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, m, target)
                }
                TerminatorKind::InlineAsm { destination, .. } => {
                    format!("[\"asm\",{}]", destination.map(|t| t.to_string()).unwrap_or("null".into()))
                }
            };
            let sp = self.span(bb.terminator.source_info.span);
            bl.push(format!("[[{}],{},{}]", ss.join(","), t, esc(&sp)));
        }
        format!(
            "{{\"T\":\"fn\",\"id\":{},{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":[{}]}}",
            id,
            meta,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            ls,
            names,
            bl.join(",")
        )
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        let roots: HashSet<String> = std::env::var("VDRIVER_ROOTS").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
        let mut crates = vec![rustc_public::local_crate()];
        crates.extend(rustc_public::external_crates().into_iter().filter(|c| roots.contains(&c.name.to_string())));
        for c in crates {
            for f in c.fn_defs() {
                let did = rustc_internal::internal(tcx, f.def_id());
                let g = tcx.generics_of(did);
                let mut ok = true;
                let mut cur = Some(g);
                while let Some(x) = cur {
                    if x.own_params.iter().any(|p| matches!(p.kind, it::GenericParamDefKind::Type { .. })) {
                        ok = false;
                    }
                    cur = x.parent.map(|p| tcx.generics_of(p));
                }
                if !ok || tcx.trait_of_assoc(did).is_some() {
                    continue;
                }
                // block sizes: 128 (what the hosts use) and a small one whose frames can be told apart
                for n in [128u64, 4] {
                    let mut sized = false;
                    let args = it::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        it::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => {
                            sized = true;
                            it::Const::from_target_usize(tcx, n).into()
                        }
                    });
                    if !sized && n != 128 || tcx.instantiate_and_check_impossible_clauses((did, args)) {
                        continue;
                    }
                    if let Ok(Some(i)) = it::Instance::try_resolve(tcx, it::TypingEnv::fully_monomorphized(), did, args) {
                        let i: Instance = rustc_internal::stable(i);
                        self.inst(i);
                    }
                }
            }
        }
        while let Some((id, i)) = self.queue.pop_front() {
            let krate = i.def.krate().name.to_string();
            let kind = match i.kind {
                InstanceKind::Item => "item".to_string(),
                InstanceKind::Intrinsic => "intrinsic".into(),
                InstanceKind::LlvmIntrinsic => "llvm".into(),
                InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
                InstanceKind::Shim => "shim".into(),
            };
            let name = i.name();
            let args = i.args();
            let ga = self.gargs(&args);
            let fty = i.ty();
            let ftid = self.ty(fty);
            let meta = format!(
                "\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"args\":{},\"fty\":{},\"intrinsic\":{},\"foreign\":{},\"span\":{}",
                esc(&name),
                esc(&i.def.name()),
                esc(&krate),
                kind,
                ga,
                ftid,
                i.intrinsic_name().map(|s| esc(&s)).unwrap_or("null".into()),
                i.is_foreign_item(),
                esc(&self.span(i.def.span()))
            );
            let full = self.full.contains(&krate) && !matches!(i.kind, InstanceKind::Virtual { .. });
            let is_shim_virtual = matches!(i.kind, InstanceKind::Virtual { .. });
            let line = if is_shim_virtual || (matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic)) {
                format!("{{\"T\":\"fn\",\"id\":{},{}}}", id, meta)
            } else {
                self.body(id, i, &meta, full)
            };
            writeln!(self.out, "{}", line).unwrap();
        }
        for l in &self.ty_lines {
            writeln!(self.out, "{}", l).unwrap();
        }
        for l in &self.vtables {
            writeln!(self.out, "{}", l).unwrap();
        }
        writeln!(self.out, "{{\"T\":\"end\",\"fns\":{},\"tys\":{}}}", self.insts.len(), self.ty_lines.len()).unwrap();
        self.out.flush().unwrap();
    }
}

fn analyse(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let me = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    let out = std::env::var("VDRIVER_OUT").unwrap_or_default();
    let full: HashSet<String> = std::env::var("VDRIVER_FULL")
        .unwrap_or_default()
        .split(',')
        .map(|s| s.to_string())
        .collect();
    let f = std::fs::File::create(&out).expect("VDRIVER_OUT");
    let mut d = Dump {
        tcx,
        out: std::io::BufWriter::new(f),
        tys: HashMap::new(),
        ty_lines: vec![],
        insts: HashMap::new(),
        queue: VecDeque::new(),
        full,
        unsized_seen: HashSet::new(),
        vtables: vec![],
    };
    let _ = me;
    d.run();
    ControlFlow::Continue(())
}

fn lint_cb(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let me = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    let out = std::env::var("VDRIVER_OUT").unwrap_or_default();
    lint::run(tcx, &format!("{}.{}", out, me));
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let mut real = String::from("rustc");
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        real = args.remove(1);
    }
    let target = std::env::var("VDRIVER_CRATE").unwrap_or_default();
    let lints: Vec<String> =
        std::env::var("VDRIVER_LINT").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    let res = if name == target && !name.is_empty() {
        rustc_public::run_with_tcx!(&args, |tcx| analyse(tcx))
    } else if lints.contains(&name) {
        rustc_public::run_with_tcx!(&args, |tcx| lint_cb(tcx))
    } else {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&real).args(&args[1..]).exec();
        eprintln!("vdriver: cannot run {}: {}", real, e);
        std::process::exit(1);
    };
    match res {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
