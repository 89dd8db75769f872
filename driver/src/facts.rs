use crate::json::J;
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, CRATE_DEF_INDEX};
use rustc_middle::mir::{self, interpret::{GlobalAlloc, Scalar}, ConstValue, Operand, Place, ProjectionElem,
    Rvalue, StatementKind, TerminatorKind, AggregateKind, AssertKind};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArg, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use rustc_middle::ty::util::IntTypeExt;
use std::collections::VecDeque;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    te: TypingEnv<'tcx>,
    tys: FxHashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    insts: FxHashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    n_insts: usize,
    allow: Vec<&'static str>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_trimmed_paths!(tcx.def_path_str(d)) }

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J { J::u(self.ty_id(t)) }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        // the outermost expansion call site inside the crate, as a maintainer would point at it
        let s = sp.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        J::A(vec![J::s(format!("{}", lo.file.name.prefer_remapped_unconditionally())), J::u(lo.line)])
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let name = with_no_trimmed_paths!(t.to_string());
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("name", J::s(name))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => { o.push(("k", J::s("int"))); o.push(("bits", J::u(i.bit_width().unwrap_or(64) as usize))); o.push(("signed", J::B(true))); }
            ty::Uint(i) => { o.push(("k", J::s("int"))); o.push(("bits", J::u(i.bit_width().unwrap_or(64) as usize))); o.push(("signed", J::B(false))); }
            ty::Float(f) => { o.push(("k", J::s("float"))); o.push(("bits", J::u(f.bit_width() as usize))); }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Ref(_, x, m) => { o.push(("k", J::s("ref"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(*x); o.push(("of", x)); }
            ty::RawPtr(x, m) => { o.push(("k", J::s("ptr"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(*x); o.push(("of", x)); }
            ty::Slice(x) => { o.push(("k", J::s("slice"))); let x = self.ty(*x); o.push(("of", x)); }
            ty::Array(x, n) => {
                o.push(("k", J::s("array"))); let x = self.ty(*x); o.push(("of", x));
                o.push(("len", n.try_to_target_usize(tcx).map(|v| J::I(v as i128)).unwrap_or(J::Null)));
            }
            ty::Tuple(ts) => { o.push(("k", J::s("tuple"))); let v = ts.iter().map(|x| self.ty(x)).collect(); o.push(("elems", J::A(v))); }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let c = self.callee(*d, args.no_bound_vars().unwrap());
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                let ca = args.as_closure();
                let ups: Vec<J> = ca.upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("upvars", J::A(ups)));
                let names: Vec<J> = if let Some(l) = d.as_local() { tcx.closure_captures(l).iter().map(|c| J::s(c.to_symbol().to_string())).collect() } else { vec![] };
                o.push(("upvar_names", J::A(names)));
                let inst = Instance::new_raw(*d, args);
                let i = self.inst(inst);
                o.push(("inst", i));
                o.push(("ckind", J::s(format!("{:?}", ca.kind()))));
            }
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(path(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("akind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
                let krate = tcx.crate_name(def.did().krate).to_string();
                o.push(("crate", J::s(krate.clone())));
                let deep = def.did().is_local() || self.crate_allowed(&krate)
                    || matches!(path(tcx, def.did()).as_str(), "core::option::Option"|"core::result::Result"|"std::option::Option"|"std::result::Result"|"std::ops::Range"|"core::ops::Range"|"std::ops::ControlFlow"|"std::ops::RangeInclusive"|"std::num::Wrapping"|"std::cmp::Reverse"|"std::cmp::Ordering"|"std::marker::PhantomData"|"std::convert::Infallible");
                if deep {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { J::I(sext(tcx, def.discriminant_for_variant(tcx, vi))) } else { J::Null };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = tcx.normalize_erasing_regions(self.te, f.ty(tcx, args));
                            let tj = self.ty(ft);
                            fs.push(J::O(vec![("name", J::s(f.name.to_string())), ("ty", tj), ("pub", J::B(f.vis.is_public()))]));
                        }
                        vs.push(J::O(vec![("name", J::s(v.name.to_string())), ("discr", discr), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                    if def.is_enum() {
                        let dt = def.repr().discr_type().to_ty(tcx);
                        let dj = self.ty(dt); o.push(("discr_ty", dj));
                    }
                }
            }
            _ => o.push(("k", J::s("other"))),
        }
        if let Ok(l) = tcx.layout_of(self.te.as_query_input(t)) {
            if l.is_sized() { o.push(("size", J::I(l.size.bytes() as i128))); }
        }
        self.ty_out[id] = J::O(o);
        id
    }
    fn crate_allowed(&self, c: &str) -> bool { matches!(c, "modular_bitfield" | "bitflags" | "num_traits") }
    fn inst(&mut self, i: Instance<'tcx>) -> J {
        if let Some(x) = self.insts.get(&i) { return J::u(*x); }
        if !self.want_body(i) { return J::Null; }
        let id = self.n_insts; self.n_insts += 1;
        self.insts.insert(i, id);
        self.queue.push_back((id, i));
        J::u(id)
    }
    fn want_body(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let d = match i.def { InstanceKind::Item(d) => d, _ => return false };
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { return false; }
        if tcx.is_foreign_item(d) || tcx.intrinsic(d).is_some() { return false; }
        if !tcx.is_mir_available(d) { return false; }
        if d.is_local() { return true; }
        if matches!(tcx.def_kind(d), DefKind::Closure) {
            // closures belong to whoever defines them
        }
        let krate = tcx.crate_name(d.krate).to_string();
        if self.crate_allowed(&krate) { return true; }
        let p = path(tcx, d);
        self.allow.iter().any(|a| p.starts_with(a))
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("def", J::s(path(tcx, d)))];
        o.push(("crate", J::s(tcx.crate_name(d.krate).to_string())));
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(a)));
        let ca: Vec<J> = args.consts().map(|c| c.try_to_target_usize(tcx).map(|v| J::I(v as i128)).unwrap_or(J::Null)).collect();
        if !ca.is_empty() { o.push(("cargs", J::A(ca))); }
        if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", J::s(path(tcx, t)))); }
        if tcx.intrinsic(d).is_some() { o.push(("intrinsic", J::s(tcx.item_name(d).to_string()))); }
        if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            if let Ok(Some(r)) = Instance::try_resolve(tcx, self.te, d, args) {
                let rd = r.def_id();
                o.push(("rdef", J::s(path(tcx, rd))));
                o.push(("rcrate", J::s(tcx.crate_name(rd.krate).to_string())));
                o.push(("rkind", J::s(match r.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::Virtual(..) => "virtual", _ => "shim" })));
                if let InstanceKind::Item(_) = r.def {
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        if !rd.is_local() { let st = tcx.type_of(im).instantiate_identity().skip_norm_wip(); o.push(("rself", J::s(with_no_trimmed_paths!(st.to_string())))); }
                    }
                    let i = self.inst(r);
                    o.push(("inst", i));
                }
            }
        } else {
            o.push(("ctor", J::B(true)));
        }
        J::O(o)
    }
    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> J {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                J::O(vec![("bits", J::I(if matches!(t.kind(), ty::Int(_)) { i.to_int(i.size()) } else { bits as i128 }))])
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let inner = t.builtin_deref(true);
                match (self.tcx.global_alloc(prov.alloc_id()), inner) {
                    (GlobalAlloc::Memory(_), Some(it)) => {
                        let sized = it.is_sized(self.tcx, self.te);
                        if sized {
                            let v = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                            let x = self.cval(v, it);
                            J::O(vec![("ref", x)])
                        } else { J::O(vec![("opaque", J::s("unsized"))]) }
                    }
                    (GlobalAlloc::Static(d), _) => J::O(vec![("static", J::s(path(self.tcx, d)))]),
                    (GlobalAlloc::Function { instance }, _) => { let i = self.inst(instance); J::O(vec![("fnptr", i), ("def", J::s(path(self.tcx, instance.def_id())))]) }
                    _ => J::O(vec![("opaque", J::s("ptr"))]),
                }
            }
        }
    }
    fn slice_bytes(&mut self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, n: u64) -> Option<J> {
        match self.tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(m) => {
                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                Some(J::A(b.iter().map(|x| J::I(*x as i128)).collect()))
            }
            _ => None,
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let tid = self.ty(t);
        let inner = match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Slice { alloc_id, meta } => {
                let it = t.builtin_deref(true);
                match it.map(|x| x.kind()) {
                    Some(ty::Str) => { let b = self.slice_bytes(alloc_id, 0, meta).unwrap_or(J::Null); J::O(vec![("str", b)]) }
                    Some(ty::Slice(e)) if *e == tcx.types.u8 => { let b = self.slice_bytes(alloc_id, 0, meta).unwrap_or(J::Null); J::O(vec![("bytes", b)]) }
                    Some(ty::Slice(e)) => {
                        let sz = tcx.layout_of(self.te.as_query_input(*e)).map(|l| l.size.bytes()).unwrap_or(0);
                        let mut xs = vec![];
                        for k in 0..meta.min(4096) {
                            let x = self.cval(ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::from_bytes(k * sz) }, *e);
                            xs.push(x);
                        }
                        J::O(vec![("slice", J::A(xs))])
                    }
                    _ => J::O(vec![("opaque", J::s("slice"))]),
                }
            }
            ConstValue::Scalar(s) if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) => self.scalar(s, t),
            _ => self.cagg(v, t),
        };
        J::O(vec![("ty", tid), ("v", inner)])
    }
    fn cagg(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(d, _) = t.kind() { if d.is_union() { return J::O(vec![("opaque", J::s("union"))]); } }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(*v, *t)).collect();
                        J::O(vec![("variant", d.variant.map(|x| J::u(x.as_usize())).unwrap_or(J::Null)), ("fields", J::A(fs))])
                    }
                    None => J::O(vec![("opaque", J::s("agg"))]),
                }
            }
            _ => {
                // a scalar or reference stored in memory
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(self.te.as_query_input(t)) {
                            let is_ptr = matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..));
                            let fat = is_ptr && l.size.bytes() == 16;
                            let range = rustc_middle::mir::interpret::AllocRange { start: offset, size: if fat { rustc_abi::Size::from_bytes(8) } else { l.size } };
                            if l.size.bytes() <= 16 && l.size.bytes() > 0 {
                                if let Ok(s) = m.inner().read_scalar(&tcx, range, is_ptr) {
                                    if fat {
                                        let range2 = rustc_middle::mir::interpret::AllocRange { start: offset + rustc_abi::Size::from_bytes(8), size: rustc_abi::Size::from_bytes(8) };
                                        if let (Scalar::Ptr(p, _), Ok(Scalar::Int(n))) = (s, m.inner().read_scalar(&tcx, range2, false)) {
                                            let (prov, off) = p.into_raw_parts();
                                            let n = n.to_bits(n.size()) as u64;
                                            if off.bytes() == 0 {
                                                let x = self.cval(ConstValue::Slice { alloc_id: prov.alloc_id(), meta: n }, t);
                                                if let J::O(mut kv) = x { return kv.pop().unwrap().1; }
                                            }
                                        }
                                        return J::O(vec![("opaque", J::s("fat"))]);
                                    }
                                    return self.scalar(s, t);
                                }
                            }
                        }
                    }
                }
                J::O(vec![("opaque", J::s(format!("{:?}", t.kind()).chars().take(40).collect::<String>()))])
            }
        }
    }
    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() { return J::O(vec![("ty", tid), ("v", J::O(vec![("zst", J::B(true))]))]); }
        let item = match c.const_ { mir::Const::Unevaluated(u, _) if u.promoted.is_none() => Some(path(self.tcx, u.def)), _ => None };
        let r = match c.const_.eval(self.tcx, self.te, DUMMY_SP) {
            Ok(v) => self.cval(v, t),
            Err(_) => J::O(vec![("ty", tid), ("v", J::O(vec![("opaque", J::s("uneval"))]))]),
        };
        if let (Some(p), J::O(mut kv)) = (item, r.clone()) { kv.push(("item", J::s(p))); return J::O(kv); }
        r
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::u(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![J::s("f"), J::u(f.as_usize()), t]) }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![J::s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![J::s("d"), J::u(vi.as_usize())]),
                _ => J::A(vec![J::s("other")]),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => { let p = self.place(p); J::A(vec![J::s("c"), p]) }
            Operand::Move(p) => { let p = self.place(p); J::A(vec![J::s("m"), p]) }
            Operand::Constant(c) => { let k = self.konst(c); J::A(vec![J::s("k"), k]) }
            Operand::RuntimeChecks(r) => J::A(vec![J::s("rc"), J::s(format!("{r:?}"))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => { let o = self.operand(o); J::A(vec![J::s("use"), o]) }
            Rvalue::Repeat(o, n) => { let o = self.operand(o); J::A(vec![J::s("repeat"), o, n.try_to_target_usize(self.tcx).map(|v| J::I(v as i128)).unwrap_or(J::Null)]) }
            Rvalue::Ref(_, bk, p) => { let p = self.place(p); J::A(vec![J::s("ref"), J::B(matches!(bk, mir::BorrowKind::Mut { .. })), p]) }
            Rvalue::RawPtr(_, p) => { let p = self.place(p); J::A(vec![J::s("rawptr"), p]) }
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(path(self.tcx, *d))]),
            Rvalue::Cast(k, o, t) => { let o = self.operand(o); let t = self.ty(*t); J::A(vec![J::s("cast"), J::s(format!("{k:?}")), o, t]) }
            Rvalue::BinaryOp(op, ab) => { let a = self.operand(&ab.0); let b = self.operand(&ab.1); J::A(vec![J::s("bin"), J::s(format!("{op:?}")), a, b]) }
            Rvalue::UnaryOp(op, o) => { let o = self.operand(o); J::A(vec![J::s("un"), J::s(format!("{op:?}")), o]) }
            Rvalue::Discriminant(p) => { let p = self.place(p); J::A(vec![J::s("discr"), p]) }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.ty(t);
                        J::A(vec![J::s("adt"), t, J::u(vi.as_usize()), af.map(|x| J::u(x.as_usize())).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(self.tcx, *d, args); let t = self.ty(t); J::A(vec![J::s("closure"), t]) }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), k, J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![J::s("use"), J::A(vec![J::s("c"), p])]) }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p); J::A(vec![J::s("reborrow"), J::B(m.is_mut()), p]) }
            _ => J::A(vec![J::s("other")]),
        }
    }
    fn body(&mut self, id: usize, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let b0 = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.te, ty::EarlyBinder::bind(tcx, b0.clone()));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => { let p = self.place(&pr.0); let r = self.rvalue(&pr.1); ss.push(J::A(vec![J::s("="), p, r, J::u(self.line(s.source_info.span))])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); ss.push(J::A(vec![J::s("sd"), p, J::u(variant_index.as_usize())])); }
                    StatementKind::Intrinsic(i) => ss.push(J::A(vec![J::s("intr"), J::s(format!("{i:?}"))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = J::u(self.line(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), J::u(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets, .. } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dtid = self.ty(dt);
                    let signed = matches!(dt.kind(), ty::Int(_));
                    let bits = if let ty::Int(i) = dt.kind() { i.bit_width().unwrap_or(64) } else { 128 };
                    let o = self.operand(discr);
                    let ts = targets.iter().map(|(v, t)| {
                        let v = if signed && bits < 128 { let sh = 128 - bits as u32; ((v << sh) as i128) >> sh } else { v as i128 };
                        J::A(vec![J::I(v), J::u(t.as_usize())])
                    }).collect();
                    J::A(vec![J::s("switch"), o, dtid, J::A(ts), J::u(targets.otherwise().as_usize()), line])
                }
                TerminatorKind::Return => J::A(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty; let pt = self.ty(pt);
                    let p = self.place(place); J::A(vec![J::s("drop"), p, J::u(target.as_usize()), pt])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap()),
                        _ => { let o = self.operand(func); J::O(vec![("ptr", o)]) }
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let dst = self.place(destination);
                    J::A(vec![J::s("call"), f, J::A(a), dst, target.map(|t| J::u(t.as_usize())).unwrap_or(J::Null), line])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { let l = self.operand(len); let i = self.operand(index); J::A(vec![J::s("bounds"), l, i]) }
                        AssertKind::Overflow(op, a, b) => { let a = self.operand(a); let b = self.operand(b); J::A(vec![J::s("overflow"), J::s(format!("{op:?}")), a, b]) }
                        AssertKind::OverflowNeg(a) => { let a = self.operand(a); J::A(vec![J::s("overflow_neg"), a]) }
                        AssertKind::DivisionByZero(a) => { let a = self.operand(a); J::A(vec![J::s("div0"), a]) }
                        AssertKind::RemainderByZero(a) => { let a = self.operand(a); J::A(vec![J::s("rem0"), a]) }
                        AssertKind::MisalignedPointerDereference { .. } => J::A(vec![J::s("misaligned")]),
                        _ => J::A(vec![J::s("otherassert")]),
                    };
                    J::A(vec![J::s("assert"), o, J::B(*expected), m, J::u(target.as_usize()), line])
                }
                TerminatorKind::UnwindResume => J::A(vec![J::s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("resume")]),
                TerminatorKind::InlineAsm { .. } => J::A(vec![J::s("asm")]),
                _ => J::A(vec![J::s("otherterm")]),
            };
            blocks.push(J::O(vec![("s", J::A(ss)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.push(J::A(vec![J::u(p.local.as_usize()), J::s(v.name.to_string())])); }
            }
        }
        let mut o = vec![("id", J::u(id))];
        o.extend(self.fn_info(d));
        let ta: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
        o.push(("targs", J::A(ta)));
        o.push(("key", J::s(with_no_trimmed_paths!(inst.to_string()))));
        o.push(("argc", J::u(body.arg_count)));
        o.push(("spread", body.spread_arg.map(|x| J::u(x.as_usize())).unwrap_or(J::Null)));
        o.push(("locals", J::A(locals)));
        o.push(("names", J::A(names)));
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
    fn line(&self, sp: Span) -> usize {
        let s = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }
    fn fn_info(&mut self, d: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![("path", J::s(path(tcx, d)))];
        o.push(("local", J::B(d.is_local())));
        o.push(("crate", J::s(tcx.crate_name(d.krate).to_string())));
        let k = tcx.def_kind(d);
        o.push(("kind", J::s(format!("{k:?}"))));
        o.push(("span", self.span(tcx.def_span(d))));
        o.push(("name", J::s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())));
        if let Some(l) = d.as_local() {
            let ev = tcx.effective_visibilities(());
            o.push(("exported", J::B(ev.is_exported(l) || ev.is_reachable(l))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self_name", J::s(with_no_trimmed_paths!(st.to_string()))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.skip_binder();
                o.push(("impl_trait", J::s(path(tcx, tr.def_id))));
                o.push(("impl_trait_full", J::s(with_no_trimmed_paths!(tr.to_string()))));
            }
            o.push(("derived", J::B(tcx.is_automatically_derived(im))));
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("in_trait", J::s(path(tcx, tr))));
        }
        if matches!(k, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("has_self", J::B(tcx.opt_associated_item(d).map(|a| a.is_method()).unwrap_or(false))));
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
        }
        o
    }
}

fn sext<'tcx>(tcx: TyCtxt<'tcx>, d: ty::util::Discr<'tcx>) -> i128 {
    if let ty::Int(i) = d.ty.kind() {
        let bits = i.normalize(tcx.sess.target.pointer_width).bit_width().unwrap() as u32;
        let sh = 128 - bits;
        ((d.val << sh) as i128) >> sh
    } else { d.val as i128 }
}

fn find_type<'tcx>(tcx: TyCtxt<'tcx>, krate: &str, name: &str) -> Option<Ty<'tcx>> {
    for c in tcx.crates(()) {
        if tcx.crate_name(*c).as_str() == krate {
            for ch in tcx.module_children(DefId { krate: *c, index: CRATE_DEF_INDEX }) {
                if ch.ident.as_str() == name {
                    if let Some(d) = ch.res.opt_def_id() {
                        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                            return Some(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                        }
                    }
                }
            }
        }
    }
    None
}

struct UnsafeV<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<Span> }
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.out.push(b.span); }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let te = TypingEnv::fully_monomorphized();
    let mut cx = Cx { tcx, te, tys: Default::default(), ty_out: vec![], insts: Default::default(), queue: Default::default(), n_insts: 0,
        allow: vec!["std::option::Option::", "core::option::Option::", "std::result::Result::", "std::bool::", "core::bool::",
            "<std::option::Option<", "<std::result::Result<", "std::convert::", "<T as std::convert::", "std::cmp::min", "std::cmp::max", "std::cmp::Ord::", "std::cmp::PartialOrd::",
            "std::mem::take", "std::mem::replace", "std::mem::swap", "std::ops::ControlFlow::", "std::clone::", "<std::ops::ControlFlow"] };
    let bytes_t = find_type(tcx, "bytes", "Bytes");
    let bytesmut_t = find_type(tcx, "bytes", "BytesMut");
    let string_t = find_type(tcx, "alloc", "String").or_else(|| find_type(tcx, "std", "String"));
    let mut cands: Vec<Ty<'_>> = vec![];
    cands.extend(bytes_t);
    cands.extend(bytesmut_t);
    cands.push(Ty::new_static_str(tcx));
    cands.extend(string_t);
    cands.push(tcx.types.u8);
    cands.push(tcx.types.u64);

    let mut fns = vec![];
    let mut skipped = vec![];
    let mut roots = vec![];
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| k.local_def_index.as_u32());
    for k in keys {
        let d = k.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
        // derived Debug code is formatting only
        if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let p = path(tcx, tr.skip_binder().def_id);
                if p.ends_with("fmt::Debug") && tcx.is_automatically_derived(im) { continue; }
            }
        }
        let g = tcx.generics_of(d);
        let mut nparams = 0usize;
        let mut consts = false;
        { let mut gg = Some(g); while let Some(x) = gg { for p in &x.own_params { match p.kind { ty::GenericParamDefKind::Type { .. } => nparams += 1, ty::GenericParamDefKind::Const { .. } => consts = true, _ => {} } } gg = x.parent.map(|p| tcx.generics_of(p)); } }
        if consts { skipped.push(J::s(path(tcx, d))); continue; }
        let mk = |choice: &[Ty<'_>]| -> GenericArgsRef<'_> { let _ = choice; unreachable!() };
        let _ = mk;
        let mut found = None;
        if nparams == 0 {
            let args = GenericArgs::for_item(tcx, d, |_, _| tcx.lifetimes.re_erased.into());
            found = Some(args);
        } else if nparams <= 2 {
            let n = cands.len();
            let total = n.pow(nparams as u32);
            for c in 0..total {
                let mut idx = c;
                let mut it = 0;
                let mut pick = vec![];
                while it < nparams { pick.push(cands[idx % n]); idx /= n; it += 1; }
                let mut next = 0;
                let args = GenericArgs::for_item(tcx, d, |p, _| -> GenericArg<'_> { match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => { let t = pick[next]; next += 1; t.into() }
                }});
                if !tcx.instantiate_and_check_impossible_clauses((d, args)) { found = Some(args); break; }
            }
        }
        match found {
            // trait default methods with a Self parameter are reached through their callers
            Some(args) if tcx.trait_of_assoc(d).is_none() => {
                let i = Instance::new_raw(d, args);
                let j = cx.inst(i);
                roots.push(j);
            }
            _ => skipped.push(J::s(path(tcx, d))),
        }
    }
    // provided methods of the crate's own traits, for every implementing type that does not override them
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Impl { of_trait: true }) || tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
        let tr = tcx.impl_opt_trait_ref(d).unwrap().skip_binder();
        if !tr.def_id.is_local() { continue; }
        let over = tcx.impl_item_implementor_ids(d);
        for m in tcx.provided_trait_methods(tr.def_id) {
            if over.get(&m.def_id).is_some() || tcx.generics_of(m.def_id).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
            let args = GenericArgs::for_item(tcx, m.def_id, |p, _| -> GenericArg<'_> { match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => tr.args[p.index as usize],
            }});
            let args = tcx.erase_and_anonymize_regions(args);
            let j = cx.inst(Instance::new_raw(m.def_id, args));
            roots.push(j);
        }
    }
    while let Some((id, i)) = cx.queue.pop_front() {
        let b = cx.body(id, i);
        fns.push(b);
    }

    // item-level facts
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let mut adts = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    let mut impls = vec![];
    let ev = tcx.effective_visibilities(());
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let generic = tcx.generics_of(d).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime));
                let has_lt = tcx.generics_of(d).own_params.iter().any(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime));
                let mut o = vec![("path", J::s(path(tcx, d))), ("exported", J::B(ev.is_exported(ld) || ev.is_reachable(ld))), ("span", cx.span(tcx.def_span(d))), ("generic", J::B(generic)), ("lifetimes", J::B(has_lt))];
                if !generic {
                    let t = tcx.erase_and_anonymize_regions(t);
                    let tj = cx.ty(t);
                    o.push(("ty", tj));
                    use rustc_infer::infer::TyCtxtInferExt;
                    use rustc_trait_selection::infer::InferCtxtExt;
                    let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
                    let holds = |tr: Option<DefId>| tr.map(|tr| infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty()).must_apply_considering_regions());
                    o.push(("send", holds(send).map(J::B).unwrap_or(J::Null)));
                    o.push(("sync", holds(sync).map(J::B).unwrap_or(J::Null)));
                    o.push(("freeze", J::B(t.is_freeze(tcx, te))));
                }
                adts.push(J::O(o));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let fr = t.is_freeze(tcx, te);
                statics.push(J::O(vec![("path", J::s(path(tcx, d))), ("mut", J::B(mutability.is_mut())), ("freeze", J::B(fr)), ("span", cx.span(tcx.def_span(d))), ("tname", J::s(with_no_trimmed_paths!(t.to_string())))]));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
                if let Some(tr) = tcx.trait_of_assoc(d) { let _ = tr; continue; }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let v = match tcx.const_eval_poly(d) { Ok(v) => cx.cval(v, t), Err(_) => J::Null };
                let mut o = vec![("path", J::s(path(tcx, d))), ("name", J::s(tcx.item_name(d).to_string())), ("v", v), ("span", cx.span(tcx.def_span(d))), ("exported", J::B(ev.is_exported(ld) || ev.is_reachable(ld)))];
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("self_name", J::s(with_no_trimmed_paths!(st.to_string()))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) { o.push(("impl_trait", J::s(path(tcx, tr.skip_binder().def_id)))); }
                }
                consts.push(J::O(o));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_opt_trait_ref(d).unwrap().skip_binder();
                let hdr = tcx.impl_trait_header(d);
                let st = tr.self_ty();
                let generic = tcx.generics_of(d).requires_monomorphization(tcx);
                let mut o = vec![("trait", J::s(path(tcx, tr.def_id))), ("full", J::s(with_no_trimmed_paths!(tr.to_string()))), ("self_name", J::s(with_no_trimmed_paths!(st.to_string()))),
                    ("derived", J::B(tcx.is_automatically_derived(d))), ("generic", J::B(generic)), ("unsafe", J::B(!hdr.safety.is_safe())), ("negative", J::B(hdr.polarity == ty::ImplPolarity::Negative)), ("span", cx.span(tcx.def_span(d)))];
                if !generic { let s = tcx.erase_and_anonymize_regions(st); let s = cx.ty(s); o.push(("self", s)); }
                let mut tys = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    if it.is_type() && !generic {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        tys.push(J::A(vec![J::s(it.name().to_string()), J::s(with_no_trimmed_paths!(t.to_string()))]));
                    }
                }
                o.push(("assoc", J::A(tys)));
                impls.push(J::O(o));
            }
            _ => {}
        }
    }
    let mut us = vec![];
    { let mut v = UnsafeV { tcx, out: &mut us }; tcx.hir_walk_toplevel_module(&mut v); }
    let us: Vec<J> = us.into_iter().map(|s| J::A(vec![cx.span(s), J::B(s.from_expansion())])).collect();
    // types discovered late may have queued closures
    while let Some((id, i)) = cx.queue.pop_front() {
        let b = cx.body(id, i);
        fns.push(b);
    }
    let mut seen: FxHashSet<usize> = Default::default();
    seen.insert(0);
    let top = J::O(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("types", J::A(std::mem::take(&mut cx.ty_out))),
        ("fns", J::A(fns)), ("roots", J::A(roots)), ("skipped_generic", J::A(skipped)),
        ("adts", J::A(adts)), ("statics", J::A(statics)), ("consts", J::A(consts)), ("impls", J::A(impls)), ("unsafe_blocks", J::A(us)),
    ]);
    let mut s = String::new();
    top.write(&mut s);
    std::fs::write(out, s).expect("write facts");
}
