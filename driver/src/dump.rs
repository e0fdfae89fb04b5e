use crate::json::J;
use crate::obj;
use rustc_abi::{Size, VariantIdx};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, interpret::{AllocRange, GlobalAlloc, Scalar}, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv, TypingMode};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::VecDeque;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: FxHashMap<Ty<'tcx>, usize>,
    tyout: Vec<Option<J>>,
    tyqueue: VecDeque<Ty<'tcx>>,
    insts: FxHashMap<(Instance<'tcx>, Option<DefId>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, Option<DefId>, usize)>,
    bodies: Vec<Option<J>>,
    deny: Vec<String>,
    allow: Vec<String>,
    maxdepth: usize,
}

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = ty::print::with_resolve_crate_name!(ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))));
    p
}
fn tystr(t: Ty<'_>) -> String {
    ty::print::with_resolve_crate_name!(ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(t.to_string())))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.tyout.len();
        self.tys.insert(t, i);
        self.tyout.push(None);
        self.tyqueue.push_back(t);
        i
    }

    fn drain_types(&mut self) {
        while let Some(t) = self.tyqueue.pop_front() {
            let j = self.ty_json(t);
            let i = self.tys[&t];
            self.tyout[i] = Some(j);
        }
    }

    fn expand_adt(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let c = self.tcx.crate_name(d.krate);
        c.as_str() == "core" || c.as_str() == "alloc"
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let s = tystr(t);
        match *t.kind() {
            ty::Bool => obj! {"k":"bool","s":s},
            ty::Char => obj! {"k":"char","s":s},
            ty::Int(i) => obj! {"k":"int","w":i.bit_width().unwrap_or(64),"signed":true,"s":s},
            ty::Uint(i) => obj! {"k":"int","w":i.bit_width().unwrap_or(64),"signed":false,"s":s},
            ty::Float(_) => obj! {"k":"float","s":s},
            ty::Str => obj! {"k":"str","s":s},
            ty::Never => obj! {"k":"never","s":s},
            ty::Slice(e) => { let e = self.ty(e); obj! {"k":"slice","elem":e,"s":s} }
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = n.try_to_target_usize(tcx).map(J::from).unwrap_or(J::Null);
                obj! {"k":"array","elem":e,"len":n,"s":s}
            }
            ty::Ref(_, e, m) => { let e = self.ty(e); obj! {"k":"ref","mut":m.is_mut(),"to":e,"s":s} }
            ty::RawPtr(e, m) => { let e = self.ty(e); obj! {"k":"ptr","mut":m.is_mut(),"to":e,"s":s} }
            ty::Tuple(ts) => { let v: Vec<J> = ts.iter().map(|e| J::from(self.ty(e))).collect(); obj! {"k":"tuple","elems":v,"s":s} }
            ty::Param(p) => obj! {"k":"param","name":p.name.as_str(),"s":s},
            ty::Dynamic(..) => {
                let p = match t.kind() { ty::Dynamic(p, _) => p.principal_def_id().map(|d| J::from(path(tcx, d))).unwrap_or(J::Null), _ => J::Null };
                obj! {"k":"dyn","trait":p,"s":s}
            }
            ty::FnPtr(..) => obj! {"k":"fnptr","s":s},
            ty::FnDef(d, _) => obj! {"k":"fndef","path":path(tcx, d),"s":s},
            ty::Closure(d, args) => {
                let v: Vec<J> = args.as_closure().upvar_tys().iter().map(|e| J::from(self.ty(e))).collect();
                obj! {"k":"closure","path":path(tcx, d),"upvars":v,"s":s}
            }
            ty::Coroutine(d, _) => obj! {"k":"coroutine","path":path(tcx, d),"s":s},
            ty::Adt(def, args) => {
                let p = path(tcx, def.did());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let targs: Vec<J> = args.types().map(|a| J::from(self.ty(a))).collect();
                let mut o = vec![
                    ("k", J::from("adt")), ("path", J::from(p)), ("kind", J::from(kind)), ("s", J::from(s)),
                    ("local", J::from(def.did().is_local())), ("args", J::from(targs)), ("box", J::from(def.is_box())),
                ];
                if self.expand_adt(def.did()) {
                    let env = TypingEnv::fully_monomorphized();
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let fs: Vec<J> = v.fields.iter().map(|f| {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            obj! {"name":f.name.as_str(),"ty":self.ty(ft),"pub":f.vis.is_public(),"vis":format!("{:?}", f.vis)}
                        }).collect();
                        let d = if def.is_enum() { J::S(def.discriminant_for_variant(tcx, vi).to_string()) } else { J::Null };
                        vs.push(obj! {"name":v.name.as_str(),"discr":d,"fields":fs});
                    }
                    o.push(("variants", J::A(vs)));
                }
                J::O(o)
            }
            _ => obj! {"k":"other","s":s},
        }
    }

    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        J::S(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![];
        let _ = body;
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::from("*"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec!["f".into(), f.as_usize().into(), t.into()]) }
                ProjectionElem::Index(l) => J::A(vec!["i".into(), l.as_usize().into()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec!["c".into(), offset.into(), min_length.into(), from_end.into()]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec!["s".into(), from.into(), to.into(), from_end.into()]),
                ProjectionElem::Downcast(_, v) => J::A(vec!["d".into(), v.as_usize().into()]),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => J::from("cast"),
                ProjectionElem::PhantomDeref => J::from("*"),
            });
        }
        J::A(vec![p.local.as_usize().into(), J::A(v)])
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>, depth: usize) -> J {
        let tcx = self.tcx;
        let p = path(tcx, d);
        let targs: Vec<J> = args.types().map(|a| J::from(self.ty(a))).collect();
        let tr = tcx.trait_of_assoc(d).map(|t| J::from(path(tcx, t))).unwrap_or(J::Null);
        let mut o = vec![("path", J::from(p)), ("args", J::A(targs)), ("trait", tr), ("name", tcx.opt_item_name(d).map(|n| J::from(n.as_str())).unwrap_or(J::Null))];
        let cargs: Vec<J> = args.consts().map(|c| c.try_to_target_usize(tcx).map(J::from).unwrap_or(J::Null)).collect();
        o.push(("cargs", J::A(cargs)));
        let args = tcx.erase_and_anonymize_regions(args);
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("kind", "ctor".into()));
            if let DefKind::Ctor(..) = tcx.def_kind(d) {
                let parent = tcx.parent(d);
                let (adt, vi) = if tcx.def_kind(parent) == DefKind::Variant {
                    let a = tcx.parent(parent);
                    (a, tcx.adt_def(a).variant_index_with_id(parent).as_usize())
                } else { (parent, 0) };
                o.push(("adt", path(tcx, adt).into()));
                o.push(("variant", vi.into()));
            }
            return J::O(o);
        }
        // what collecting from an iterator calls again and again
        if matches!(tcx.opt_item_name(d).map(|n| n.to_string()).as_deref(), Some("from_iter") | Some("extend")) && tcx.trait_of_assoc(d).is_some() {
            if let (Some(it), Some(next), Some(tr)) = (args.types().last(), tcx.lang_items().next_fn(), tcx.lang_items().iterator_trait()) {
                use rustc_infer::infer::TyCtxtInferExt;
                use rustc_trait_selection::infer::InferCtxtExt;
                let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
                if infcx.type_implements_trait(tr, [it], pe).must_apply_modulo_regions() {
                    let a = tcx.mk_args(&[it.into()]);
                    o.push(("next", self.callee(next, a, env, root, depth)));
                }
            }
        }
        match self.resolve(d, args, env) {
            Ok(Some(inst)) => {
                let rd = inst.def.def_id();
                o.push(("rpath", path(tcx, rd).into()));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(_) => "shim",
                };
                o.push(("kind", kind.into()));
                if matches!(inst.def, InstanceKind::Item(_) | InstanceKind::Shim(_)) {
                    if let Some(id) = self.request(inst, root, depth + 1) {
                        o.push(("inst", id.into()));
                    }
                }
            }
            _ => o.push(("kind", "unresolved".into())),
        }
        J::O(o)
    }

    /// The function called. Zipping or cutting short random-access iterators is read as doing so to any iterators: the same items, without pointers.
    fn resolve(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Result<Option<Instance<'tcx>>, rustc_span::ErrorGuaranteed> {
        let tcx = self.tcx;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            if path(tcx, tr) == "core::iter::adapters::zip::ZipImpl" && args.types().count() >= 3 {
                let (a, b) = (args.type_at(1), args.type_at(2));
                for i in tcx.all_impls(tr) {
                    let g = tcx.generics_of(i);
                    if g.count() != 2 || format!("{:?}", tcx.param_env(i)).contains("TrustedRandomAccess") { continue; }
                    for m in tcx.associated_items(i).in_definition_order() {
                        if m.trait_item_def_id() == Some(d) && tcx.generics_of(m.def_id).own_params.is_empty() {
                            return Ok(Some(Instance::new_raw(m.def_id, tcx.mk_args(&[a.into(), b.into()]))));
                        }
                    }
                }
            }
            if path(tcx, tr) == "core::iter::adapters::take::SpecTake" {
                let own = tcx.generics_of(d).own_params.len();
                if let ty::Adt(_, inner) = args.type_at(0).kind() {
                    for i in tcx.all_impls(tr) {
                        if format!("{:?}", tcx.param_env(i)).contains("TrustedRandomAccess") { continue; }
                        for m in tcx.associated_items(i).in_definition_order() {
                            if m.trait_item_def_id() == Some(d) && tcx.generics_of(m.def_id).own_params.len() == own {
                                let all: Vec<ty::GenericArg<'tcx>> = inner.iter().chain(args.iter().skip(args.len() - own)).collect();
                                return Ok(Some(Instance::new_raw(m.def_id, tcx.mk_args(&all))));
                            }
                        }
                    }
                }
            }
        }
        Instance::try_resolve(tcx, env, d, args)
    }

    /// What the methods of an iterator made into a trait object are.
    fn vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>, depth: usize) -> Vec<J> {
        let tcx = self.tcx;
        let inner = |t: Ty<'tcx>| match *t.kind() {
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => Some(e),
            ty::Adt(_, args) => args.types().next(),
            _ => None,
        };
        let mut out = vec![];
        if let (Some(f), Some(t), Some(it)) = (inner(from), inner(to), tcx.lang_items().iterator_trait()) {
            if let ty::Dynamic(preds, ..) = *t.kind() {
                let Some(p) = preds.principal_def_id() else { return out };
                let all: Vec<DefId> = ty::Interner::supertrait_def_ids(tcx, p).collect();
                if !all.contains(&it) || matches!(f.kind(), ty::Dynamic(..)) { return out; }
                for tr in all {
                    if tcx.generics_of(tr).count() != 1 { continue; }
                    let ms: Vec<DefId> = tcx.own_existential_vtable_entries(tr).to_vec();
                    for m in ms {
                        if tcx.generics_of(m).own_counts().types != 0 { continue; }
                        let a = tcx.mk_args(&[f.into()]);
                        let c = self.callee(m, a, env, root, depth);
                        out.push(obj! {"of":self.ty(f),"path":path(tcx, m),"callee":c});
                    }
                }
            }
        }
        out
    }

    fn request(&mut self, inst: Instance<'tcx>, root: Option<DefId>, depth: usize) -> Option<usize> {
        use rustc_middle::ty::TypeVisitableExt;
        let tcx = self.tcx;
        let root = if inst.args.has_param() { root } else { None };
        if let Some(&i) = self.insts.get(&(inst, root)) { return Some(i); }
        let d = inst.def.def_id();
        let p = path(tcx, d);
        match inst.def {
            InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => return None,
            InstanceKind::Shim(_) => {}
            InstanceKind::Item(_) => {
                if !d.is_local() {
                    let c = tcx.crate_name(d.krate);
                    let plain = p.trim_start_matches('<');
                    let allowed = self.allow.iter().any(|x| p.starts_with(x.as_str()) || plain.starts_with(x.as_str()));
                    if !allowed {
                        if c.as_str() != "core" { return None; }
                        if self.deny.iter().any(|x| p.starts_with(x.as_str()) || plain.starts_with(x.as_str())) { return None; }
                    }
                    if depth > self.maxdepth { return None; }
                }
                if !tcx.is_mir_available(d) { return None; }
                if tcx.is_coroutine(d) { return None; }
            }
            _ => return None,
        }
        let id = self.bodies.len();
        self.bodies.push(None);
        self.insts.insert((inst, root), id);
        self.queue.push_back((id, inst, root, depth));
        Some(id)
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>, depth: usize, n: usize) -> J {
        use rustc_middle::ty::TypeVisitableExt;
        let tcx = self.tcx;
        let ti = self.ty(t);
        if n > 12 { return obj! {"c":"opaque","ty":ti}; }
        match *t.kind() {
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), env, root, depth);
                return obj! {"c":"fn","ty":ti,"callee":c};
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Pat(..) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits(s.size());
                    return obj! {"c":"int","v":bits,"ty":ti};
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                            if let Ok(Scalar::Int(s)) = a.inner().read_scalar(&tcx, AllocRange { start: offset, size: l.size }, false) {
                                return obj! {"c":"int","v":s.to_bits(s.size()),"ty":ti};
                            }
                        }
                    }
                }
                return obj! {"c":"opaque","ty":ti};
            }
            ty::Ref(_, e, _) => {
                match *e.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return obj! {"c":"str","v":String::from_utf8_lossy(b).to_string(),"ty":ti};
                        }
                    }
                    ty::Slice(x) if x == tcx.types.u8 => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return obj! {"c":"bytes","v":b.iter().map(|x| J::from(*x as usize)).collect::<Vec<_>>(),"ty":ti};
                        }
                    }
                    ty::Slice(x) => {
                        let mut at = None;
                        if let ConstValue::Slice { alloc_id, meta } = v { at = Some((alloc_id, Size::ZERO, meta)); }
                        if let ConstValue::Indirect { alloc_id, offset } = v {
                            if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                let sz = tcx.data_layout.pointer_size();
                                let p = a.inner().read_scalar(&tcx, AllocRange { start: offset, size: sz }, true);
                                let l = a.inner().read_scalar(&tcx, AllocRange { start: offset + sz, size: sz }, false);
                                if let (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) = (p, l) {
                                    let (prov, off) = p.into_raw_parts();
                                    at = Some((prov.alloc_id(), off, l.to_bits(l.size()) as u64));
                                }
                            }
                        }
                        if let (Some((aid, off, len)), Ok(l)) = (at, tcx.layout_of(env.as_query_input(x))) {
                            if len <= 512 && matches!(tcx.global_alloc(aid), GlobalAlloc::Memory(_)) {
                                let fs: Vec<J> = (0..len).map(|i| self.const_val(ConstValue::Indirect { alloc_id: aid, offset: off + l.size * i }, x, env, root, depth, n + 1)).collect();
                                let li = self.ty(e);
                                return obj! {"c":"ref","v":obj! {"c":"list","ty":li,"fields":fs},"ty":ti};
                            }
                        }
                    }
                    ty::Dynamic(..) => {}
                    _ => {
                        let mut ptr = None;
                        if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v { ptr = Some(p); }
                        if let ConstValue::Indirect { alloc_id, offset } = v {
                            if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                let sz = tcx.data_layout.pointer_size();
                                if let Ok(Scalar::Ptr(p, _)) = a.inner().read_scalar(&tcx, AllocRange { start: offset, size: sz }, true) { ptr = Some(p); }
                            }
                        }
                        if let Some(p) = ptr {
                            let (prov, off) = p.into_raw_parts();
                            let aid = prov.alloc_id();
                            match tcx.global_alloc(aid) {
                                GlobalAlloc::Memory(_) => {
                                    let inner = self.const_val(ConstValue::Indirect { alloc_id: aid, offset: off }, e, env, root, depth, n + 1);
                                    return obj! {"c":"ref","v":inner,"ty":ti};
                                }
                                GlobalAlloc::Static(d) => return obj! {"c":"static","path":path(tcx, d),"ty":ti},
                                _ => {}
                            }
                        }
                    }
                }
                return obj! {"c":"opaque","ty":ti};
            }
            ty::RawPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                        return obj! {"c":"static","path":path(tcx, d),"ty":ti};
                    }
                }
                return obj! {"c":"opaque","ty":ti};
            }
            ty::Adt(def, args) if !def.is_union() && !t.has_param() && (def.is_enum() || def.is_struct()) => {
                if def.is_struct() && def.non_enum_variant().fields.is_empty() {
                    return obj! {"c":"adt","ty":ti,"variant":0usize,"fields":Vec::<J>::new()};
                }
                let _ = args;
                if tcx.layout_of(env.as_query_input(t)).is_ok() {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<J> = d.fields.iter().map(|&(fv, ft)| self.const_val(fv, ft, env, root, depth, n + 1)).collect();
                        return obj! {"c":"adt","ty":ti,"variant":d.variant.map(|x| x.as_usize()).unwrap_or(0),"fields":fs};
                    }
                }
            }
            ty::Tuple(_) | ty::Array(..) if !t.has_param() => {
                if let ty::Tuple(ts) = t.kind() { if ts.is_empty() { return obj! {"c":"tuple","ty":ti,"fields":Vec::<J>::new()}; } }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = d.fields.iter().map(|&(fv, ft)| self.const_val(fv, ft, env, root, depth, n + 1)).collect();
                    return obj! {"c":"tuple","ty":ti,"fields":fs};
                }
            }
            ty::Closure(_, args) => {
                // what a zero-sized closure captures is zero-sized too
                let fs: Vec<J> = if n > 6 { vec![] } else { args.as_closure().upvar_tys().iter().map(|u| self.const_val(ConstValue::ZeroSized, u, env, root, depth, n + 1)).collect() };
                return obj! {"c":"adt","ty":ti,"variant":0usize,"fields":fs};
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v { return obj! {"c":"zst","ty":ti}; }
        obj! {"c":"opaque","ty":ti}
    }

    fn constant(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>, depth: usize) -> J {
        use rustc_middle::ty::TypeVisitableExt;
        let t = c.ty();
        let src = match c { Const::Unevaluated(u, _) if u.promoted.is_none() => Some(path(self.tcx, u.def)), _ => None };
        let generic = c.has_param();
        let mut j = if generic && !matches!(t.kind(), ty::FnDef(..)) {
            match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                Ok(v) if !matches!(t.kind(), ty::Adt(..)) || !t.has_param() => self.const_val(v, t, env, root, depth, 0),
                _ => { let ti = self.ty(t); obj! {"c":"opaque","ty":ti} }
            }
        } else {
            match c {
                Const::Val(v, _) => self.const_val(*v, t, env, root, depth, 0),
                _ => match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                    Ok(v) => self.const_val(v, t, env, root, depth, 0),
                    Err(_) => { let ti = self.ty(t); obj! {"c":"opaque","ty":ti} }
                },
            }
        };
        if let (J::O(o), Some(s)) = (&mut j, src) { o.push(("src", J::S(s))); }
        j
    }

    fn operand(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>, depth: usize) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p, b); obj! {"o":"copy","p":p} }
            Operand::Move(p) => { let p = self.place(p, b); obj! {"o":"move","p":p} }
            Operand::Constant(c) => { let k = self.constant(&c.const_, env, root, depth); obj! {"o":"const","k":k} }
            Operand::RuntimeChecks(r) => obj! {"o":"rtcheck","which":format!("{:?}", r)},
        }
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>, depth: usize) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let locals: Vec<J> = b.local_decls.iter().map(|l| J::from(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![p.local.as_usize().into(), v.name.as_str().into()]));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        let pj = self.place(p, b);
                        let rj = self.rvalue(r, b, env, root, depth);
                        obj! {"s":"=","p":pj,"r":rj,"at":self.span(s.source_info.span)}
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place, b);
                        obj! {"s":"setdiscr","p":pj,"v":variant_index.as_usize()}
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => { let o = self.operand(o, b, env, root, depth); obj! {"s":"assume","x":o} }
                        _ => obj! {"s":"copy_nonoverlapping"},
                    },
                    _ => continue,
                };
                ss.push(j);
            }
            let t = bb.terminator();
            let at = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj! {"t":"goto","to":target.as_usize()},
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, tcx);
                    let d = self.operand(discr, b, env, root, depth);
                    let ts: Vec<J> = targets.iter().map(|(v, bb)| J::A(vec![v.into(), bb.as_usize().into()])).collect();
                    obj! {"t":"switch","x":d,"ty":self.ty(ty),"ts":ts,"else":targets.otherwise().as_usize(),"at":at}
                }
                TerminatorKind::Return => obj! {"t":"return"},
                TerminatorKind::Unreachable => obj! {"t":"unreachable","at":at},
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => obj! {"t":"resume"},
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place, b); let ty = place.ty(&b.local_decls, tcx).ty; obj! {"t":"drop","p":p,"ty":self.ty(ty),"to":target.as_usize()} }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, b, env, root, depth);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, b, env, root, depth)).collect();
                    let d = self.place(destination, b);
                    let dty = destination.ty(&b.local_decls, tcx).ty;
                    obj! {"t":"call","f":f,"args":a,"dest":d,"dty":self.ty(dty),"to":target.map(|t| J::from(t.as_usize())).unwrap_or(J::Null),"at":at}
                }
                TerminatorKind::TailCall { .. } => obj! {"t":"tailcall","at":at},
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, b, env, root, depth);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
                        AssertKind::OverflowNeg(_) => "negation overflow".into(),
                        AssertKind::DivisionByZero(_) => "division by zero".into(),
                        AssertKind::RemainderByZero(_) => "remainder by zero".into(),
                        AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference => "pointer check".into(),
                        _ => "assertion".into(),
                    };
                    obj! {"t":"assert","x":c,"expected":*expected,"msg":m,"to":target.as_usize(),"at":at}
                }
                TerminatorKind::Yield { resume, drop, .. } => obj! {"t":"yield","to":resume.as_usize(),"drop":drop.map(|t| J::from(t.as_usize())).unwrap_or(J::Null),"at":at},
                TerminatorKind::CoroutineDrop => obj! {"t":"return"},
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => obj! {"t":"goto","to":real_target.as_usize()},
                TerminatorKind::InlineAsm { .. } => obj! {"t":"asm","at":at},
            };
            blocks.push(obj! {"ss":ss,"t":tj,"cleanup":bb.is_cleanup});
        }
        vec![
            ("locals", J::A(locals)), ("argc", b.arg_count.into()), ("names", J::A(names)),
            ("spread", b.spread_arg.map(|l| J::from(l.as_usize())).unwrap_or(J::Null)),
            ("blocks", J::A(blocks)), ("at", self.span(b.span)),
        ]
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>, root: Option<DefId>, depth: usize) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => { let o = self.operand(o, b, env, root, depth); obj! {"r":"use","x":o} }
            Rvalue::Repeat(o, n) => { let o = self.operand(o, b, env, root, depth); obj! {"r":"repeat","x":o,"n":n.try_to_target_usize(tcx).map(J::from).unwrap_or(J::Null)} }
            Rvalue::Ref(_, k, p) => { let m = matches!(k, BorrowKind::Mut { .. }); let p = self.place(p, b); obj! {"r":"ref","mut":m,"p":p} }
            Rvalue::RawPtr(_, p) => { let p = self.place(p, b); obj! {"r":"ref","mut":true,"p":p} }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p, b); obj! {"r":"use","x":obj!{"o":"copy","p":p}} }
            Rvalue::ThreadLocalRef(d) => obj! {"r":"tls","path":path(tcx, *d)},
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, tcx);
                let oj = self.operand(o, b, env, root, depth);
                let kind = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                let mut v = vec![("r", J::from("cast")), ("kind", J::from(kind)), ("x", oj), ("from", self.ty(from).into()), ("to", self.ty(*t).into())];
                if let (CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(_), _), ty::FnDef(d, args)) = (k, *from.kind()) {
                    let c = self.callee(d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), env, root, depth);
                    v.push(("callee", c));
                }
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = k {
                    let t = *t;
                    let vt = self.vtable(from, t, env, root, depth);
                    if !vt.is_empty() { v.push(("vtable", J::A(vt))); }
                }
                J::O(v)
            }
            Rvalue::BinaryOp(op, x) => {
                let (l, rr) = &**x;
                let t = l.ty(&b.local_decls, tcx);
                let l = self.operand(l, b, env, root, depth);
                let rr = self.operand(rr, b, env, root, depth);
                obj! {"r":"bin","op":format!("{:?}", op),"l":l,"rr":rr,"ty":self.ty(t)}
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&b.local_decls, tcx);
                let o = self.operand(o, b, env, root, depth);
                obj! {"r":"un","op":format!("{:?}", op),"x":o,"ty":self.ty(t)}
            }
            Rvalue::Discriminant(p) => { let t = p.ty(&b.local_decls, tcx).ty; let p = self.place(p, b); obj! {"r":"discr","p":p,"ty":self.ty(t)} }
            Rvalue::CopyForDeref(p) => { let p = self.place(p, b); obj! {"r":"use","x":obj!{"o":"copy","p":p}} }
            Rvalue::WrapUnsafeBinder(o, _) => { let o = self.operand(o, b, env, root, depth); obj! {"r":"use","x":o} }
            Rvalue::Aggregate(k, ops) => {
                let xs: Vec<J> = ops.iter().map(|o| self.operand(o, b, env, root, depth)).collect();
                let t = r.ty(&b.local_decls, tcx);
                if let ty::Closure(d, args) = *t.kind() {
                    // closures of library code are reached through the values that hold them
                    if !d.is_local() {
                        let args = tcx.erase_and_anonymize_regions(args);
                        self.request(Instance::new_raw(d, args), root, depth + 1);
                    }
                }
                let t = self.ty(t);
                let (kind, variant, callee) = match &**k {
                    AggregateKind::Array(_) => ("array", 0, J::Null),
                    AggregateKind::Tuple => ("tuple", 0, J::Null),
                    AggregateKind::Adt(_, v, _, _, active) => ("adt", v.as_usize(), active.map(|f| J::from(f.as_usize())).unwrap_or(J::Null)),
                    AggregateKind::Closure(..) => ("closure", 0, J::Null),
                    AggregateKind::Coroutine(..) => ("coroutine", 0, J::Null),
                    AggregateKind::CoroutineClosure(..) => ("coroutine", 0, J::Null),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, J::Null),
                };
                obj! {"r":"agg","kind":kind,"ty":t,"variant":variant,"active":callee,"xs":xs}
            }
        }
    }
}

fn vis_reachable(tcx: TyCtxt<'_>, d: rustc_hir::def_id::LocalDefId) -> bool {
    tcx.effective_visibilities(()).is_reachable(d)
}

/// Was the text at this span written in this crate (a macro of another crate, a derive or `.await` may bring its own)?
fn own_span(s: Span) -> bool {
    let x = s.ctxt().outer_expn_data();
    if x.is_root() { return true; }
    match (x.kind, x.macro_def_id) {
        (rustc_span::hygiene::ExpnKind::Macro(..), Some(d)) => d.is_local(),
        _ => false,
    }
}

struct UnsafeFinder { n: Vec<Span> }
impl<'v> rustc_hir::intravisit::Visitor<'v> for UnsafeFinder {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules { self.n.push(b.span); }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let read = |v: &str| std::env::var(v).unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(String::from).collect::<Vec<_>>();
    let mut cx = Cx {
        tcx, tys: Default::default(), tyout: vec![], tyqueue: Default::default(), insts: Default::default(),
        queue: Default::default(), bodies: vec![], deny: read("MIRDUMP_DENY"), allow: read("MIRDUMP_ALLOW"),
        maxdepth: std::env::var("MIRDUMP_DEPTH").ok().and_then(|s| s.parse().ok()).unwrap_or(14),
    };
    // Coroutine bodies first: as they were before the state-machine transform.
    let mut coroutines = vec![];
    let owners: Vec<_> = tcx.hir_body_owners().collect();
    for &d in &owners {
        if tcx.is_coroutine(d.to_def_id()) {
            let body = tcx.mir_drops_elaborated_and_const_checked(d).borrow().clone();
            let env = TypingEnv::post_analysis(tcx, d);
            let mut o = vec![("path", J::from(path(tcx, d.to_def_id())))];
            let inst = Instance::new_raw(d.to_def_id(), ty::GenericArgs::identity_for_item(tcx, d));
            let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, body));
            let parent = tcx.parent(d.to_def_id());
            o.push(("parent", path(tcx, parent).into()));
            o.extend(cx.body(&body, env, Some(d.to_def_id()), 0));
            coroutines.push(J::O(o));
        }
    }
    let mut roots = vec![];
    for &d in &owners {
        let did = d.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => continue,
        }
        if tcx.is_coroutine(did) { continue; }
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(did, args);
        if let Some(id) = cx.request(inst, Some(did), 0) {
            roots.push((did, id));
        }
    }
    while let Some((id, inst, root, depth)) = cx.queue.pop_front() {
        let env = match root {
            Some(r) => TypingEnv::post_analysis(tcx, r),
            None => TypingEnv::fully_monomorphized(),
        };
        let b = tcx.instance_mir(inst.def);
        let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b.clone()));
        let targs: Vec<J> = inst.args.types().map(|a| J::from(cx.ty(a))).collect();
        let mut o = vec![
            ("id", J::from(id)), ("path", J::from(path(tcx, inst.def.def_id()))), ("args", J::A(targs)),
            ("local", inst.def.def_id().is_local().into()),
            ("shim", matches!(inst.def, InstanceKind::Shim(_)).into()),
        ];
        o.extend(cx.body(&b, env, root, depth));
        cx.bodies[id] = Some(J::O(o));
    }
    // Item tables.
    let mut fns = vec![];
    for (did, id) in &roots {
        let l = did.expect_local();
        let kind = tcx.def_kind(*did);
        let mut o = vec![("path", J::from(path(tcx, *did))), ("inst", J::from(*id)), ("at", cx.span(tcx.def_span(*did)))];
        o.push(("closure", (kind == DefKind::Closure).into()));
        if kind != DefKind::Closure {
            let sig = tcx.fn_sig(*did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| J::from(cx.ty(*t))).collect();
            o.push(("ins", J::A(ins)));
            o.push(("out", cx.ty(sig.output()).into()));
            o.push(("unsafe", (!sig.safety().is_safe()).into()));
            o.push(("own", own_span(tcx.def_span(*did)).into()));
            o.push(("name", tcx.item_name(*did).as_str().into()));
            o.push(("reachable", vis_reachable(tcx, l).into()));
            o.push(("async", tcx.asyncness(*did).is_async().into()));
            if let Some(imp) = tcx.impl_of_assoc(*did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                o.push(("self", cx.ty(st).into()));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", path(tcx, tr.def_id).into()));
                    let ta: Vec<J> = tr.args.types().map(|t| J::from(cx.ty(t))).collect();
                    o.push(("traitargs", J::A(ta)));
                }
            }
            if let Some(t) = tcx.trait_of_assoc(*did) { o.push(("intrait", path(tcx, t).into())); }
        }
        fns.push(J::O(o));
    }
    let mut types = vec![];
    let mut consts = vec![];
    let mut statics = vec![];
    let mut impls = vec![];
    let mut unsafes = vec![];
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let items: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
    for d in items {
        let did = d.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let pe = tcx.param_env(did);
                let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
                let has = |tr: Option<DefId>| tr.map(|tr| infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()).unwrap_or(false);
                let lifetimes = tcx.generics_of(did).own_params.iter().any(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime));
                let tenv = TypingEnv::non_body_analysis(tcx, did);
                types.push(obj! {
                    "path": path(tcx, did), "ty": cx.ty(t), "reachable": vis_reachable(tcx, d),
                    "send": has(send), "sync": has(sync), "freeze": t.is_freeze(tcx, tenv),
                    "lifetimes": lifetimes, "at": cx.span(tcx.def_span(did)),
                });
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let g = tcx.generics_of(did);
                if g.count() == 0 && tcx.trait_of_assoc(did).is_none() {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        let v = cx.const_val(v, t, TypingEnv::fully_monomorphized(), None, 0, 0);
                        consts.push(obj! {"path": path(tcx, did), "v": v, "reachable": vis_reachable(tcx, d), "at": cx.span(tcx.def_span(did))});
                    }
                }
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tenv = TypingEnv::non_body_analysis(tcx, did);
                statics.push(obj! {"path": path(tcx, did), "mut": mutability.is_mut(), "freeze": t.is_freeze(tcx, tenv), "at": cx.span(tcx.def_span(did))});
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", J::from(cx.ty(st))), ("selfs", J::from(tystr(st)))];
                if of_trait {
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        o.push(("trait", path(tcx, tr.instantiate_identity().skip_norm_wip().def_id).into()));
                        let ta: Vec<J> = tr.instantiate_identity().skip_norm_wip().args.types().map(|t| J::from(tystr(t))).collect();
                        o.push(("traitargs", J::A(ta)));
                        let h = tcx.impl_trait_header(did);
                        o.push(("unsafe", (!h.safety.is_safe()).into()));
                        o.push(("negative", (h.polarity == ty::ImplPolarity::Negative).into()));
                        let prov: Vec<J> = tcx.provided_trait_methods(tr.instantiate_identity().skip_norm_wip().def_id).map(|m| J::from(m.name().as_str())).collect();
                        o.push(("provided", J::A(prov)));
                    }
                }
                let ms: Vec<J> = tcx.associated_item_def_ids(did).iter().map(|m| J::from(path(tcx, *m))).collect();
                o.push(("items", J::A(ms)));
                o.push(("at", cx.span(tcx.def_span(did))));
                o.push(("own", own_span(tcx.def_span(did)).into()));
                impls.push(J::O(o));
            }
            _ => {}
        }
    }
    for &d in &owners {
        if let Some(b) = tcx.hir_maybe_body_owned_by(d) {
            let mut u = UnsafeFinder { n: vec![] };
            rustc_hir::intravisit::Visitor::visit_body(&mut u, b);
            for s in u.n {
                if !tcx.is_coroutine(d.to_def_id()) || true { unsafes.push(obj! {"in": path(tcx, d.to_def_id()), "at": cx.span(s), "own": own_span(s)}); }
            }
        }
    }
    // Drain types produced by the tables; expanding ADT fields may add more.
    cx.drain_types();
    let bodies: Vec<J> = cx.bodies.iter().map(|b| b.clone().unwrap_or(J::Null)).collect();
    let tys: Vec<J> = cx.tyout.iter().map(|b| b.clone().unwrap_or(J::Null)).collect();
    let j = obj! {
        "crate": tcx.crate_name(LOCAL_CRATE).as_str(),
        "debug_assertions": tcx.sess.opts.debug_assertions,
        "overflow_checks": tcx.sess.overflow_checks(),
        "types": tys, "bodies": bodies, "coroutines": coroutines, "fns": fns,
        "adts": types, "consts": consts, "statics": statics, "impls": impls, "unsafe_blocks": unsafes,
    };
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).expect("write dump");
    let _ = (VariantIdx::ZERO, mir::START_BLOCK);
}
