use crate::json::{arr, s, Obj};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{CrateNum, DefId};
use rustc_hir::definitions::DefPathData;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

const WS: &[&str] = &[
    "measureme", "decodeme", "analyzeme", "summarize", "crox", "mmview", "mmedit", "stack_collapse",
    "flamegraph",
];

pub struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<String>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    fn_keys: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), usize>,
    queue: Vec<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    fns: Vec<String>,
    adts: HashMap<DefId, String>,
    crate_names: HashMap<CrateNum, String>,
    std_allow: Vec<String>,
    unsafe_sites: Vec<String>,
}

pub fn dump(tcx: TyCtxt<'_>, out: &str, big: bool) {
    let mut d = Dumper {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: vec![],
        ty_ids: HashMap::new(),
        fn_keys: HashMap::new(),
        queue: vec![],
        fns: vec![],
        adts: HashMap::new(),
        crate_names: HashMap::new(),
        unsafe_sites: vec![],
        std_allow: std::env::var("MMFACTS_STD")
            .unwrap_or_default()
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| x.to_string())
            .collect(),
    };
    let mut roots = vec![];
    for ldid in tcx.mir_keys(()) {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, did);
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(did, args);
        let id = d.fn_id(inst, env);
        roots.push(id.to_string());
        // unsafe blocks
    }
    // all local ADTs
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            d.adt(did);
        }
    }
    while let Some((inst, env, id)) = d.queue.pop() {
        let body = d.body(inst, env, id);
        if d.fns.len() <= id {
            d.fns.resize(id + 1, String::new());
        }
        d.fns[id] = body;
    }
    d.fns.resize(d.fn_keys.len(), String::new());
    for f in d.fns.iter_mut() {
        if f.is_empty() {
            f.push_str("null");
        }
    }
    // public consts
    let mut consts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            let g = tcx.generics_of(did);
            if g.count() > 0 {
                continue;
            }
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::post_analysis(tcx, did);
            if let Ok(v) = tcx.const_eval_poly(did) {
                d.env = env;
                let t = tcx.erase_and_anonymize_regions(t);
                let vv = d.constval(v, t, 0);
                let p = d.path(did);
                consts.push(Obj::new().f("path", s(&p)).f("val", vv).end());
            }
        }
    }
    let adts = arr(d.adts.values().cloned());
    let o = Obj::new()
        .f("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()))
        .f("big_endian_cfg", if big { "true" } else { "false" })
        .f("types", format!("[\n{}\n]", d.types.join(",\n")))
        .f("fns", format!("[\n{}\n]", d.fns.join(",\n")))
        .f("roots", arr(roots))
        .f("consts", format!("[\n{}\n]", consts.join(",\n")))
        .f("adts", adts)
        .end();
    std::fs::write(out, o).expect("mmfacts: cannot write facts");
}

impl<'tcx> Dumper<'tcx> {
    fn crate_name(&mut self, c: CrateNum) -> String {
        if let Some(n) = self.crate_names.get(&c) {
            return n.clone();
        }
        let mut n = self.tcx.crate_name(c).to_string();
        if c != rustc_hir::def_id::LOCAL_CRATE && (n == "measureme" || n == "decodeme") {
            let sp = self.tcx.def_span(c.as_def_id());
            let f = format!("{:?}", self.tcx.sess.source_map().span_to_filename(sp));
            if f.contains("/registry/") {
                n.push_str("_10");
            }
        }
        self.crate_names.insert(c, n.clone());
        n
    }
    fn is_ws(&mut self, c: CrateNum) -> bool {
        let n = self.crate_name(c);
        WS.contains(&n.as_str())
    }
    fn short_ty(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(a, _) => self.path(a.did()),
            TyKind::Ref(_, i, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.short_ty(*i)),
            TyKind::Slice(i) => format!("[{}]", self.short_ty(*i)),
            TyKind::Array(i, n) => format!("[{}; {}]", self.short_ty(*i), n),
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.short_ty(x)).collect();
                format!("({})", v.join(","))
            }
            TyKind::Dynamic(p, ..) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", self.path(d)),
                None => "dyn".into(),
            },
            TyKind::Closure(..) => "closure".into(),
            _ => t.to_string(),
        }
    }
    /// Canonical path of a definition: crate::mod::item, `<T>::m` replaced by T's path.
    fn path(&mut self, did: DefId) -> String {
        let tcx = self.tcx;
        let parent = match tcx.opt_parent(did) {
            None => return self.crate_name(did.krate),
            Some(p) => p,
        };
        if did.is_crate_root() {
            return self.crate_name(did.krate);
        }
        if let DefKind::Impl { .. } = tcx.def_kind(did) {
            let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let st = self.short_ty(st);
            return match tcx.impl_opt_trait_ref(did) {
                Some(tr) => {
                    let td = tr.skip_binder().def_id;
                    format!("<{} as {}>", st, self.path(td))
                }
                None => st,
            };
        }
        let pp = self.path(parent);
        let key = tcx.def_key(did);
        let dis = key.disambiguated_data;
        match dis.data {
            DefPathData::Closure => format!("{}::{{closure#{}}}", pp, dis.disambiguator),
            DefPathData::Ctor => pp,
            DefPathData::ForeignMod => pp,
            _ => match dis.data.get_opt_name() {
                Some(n) => format!("{}::{}", pp, n),
                None => format!("{}::{:?}", pp, dis.data),
            },
        }
    }
    fn norm<T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>>>(&self, v: T) -> T {
        v
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.ty_ids.insert(t, id);
        self.types.push(String::new());
        let tcx = self.tcx;
        let mut o = Obj::new().f("s", s(&t.to_string()));
        match *t.kind() {
            TyKind::Bool => o = o.f("k", "\"bool\""),
            TyKind::Char => o = o.f("k", "\"char\""),
            TyKind::Str => o = o.f("k", "\"str\""),
            TyKind::Never => o = o.f("k", "\"never\""),
            TyKind::Int(i) => {
                o = o.f("k", "\"int\"").f("signed", "true").f("bits", i.bit_width().unwrap_or(64).to_string())
            }
            TyKind::Uint(i) => {
                o = o.f("k", "\"int\"").f("signed", "false").f("bits", i.bit_width().unwrap_or(64).to_string())
            }
            TyKind::Float(_) => o = o.f("k", "\"float\""),
            TyKind::Adt(a, args) => {
                let p = self.path(a.did());
                self.adt(a.did());
                o = o.f("k", "\"adt\"").f("adt", s(&p));
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                o = o.f("args", arr(targs));
                let old = self.crate_name(a.did().krate).ends_with("_10");
                let want = self.is_ws(a.did().krate) || old
                    || matches!(p.as_str(), "core::option::Option" | "core::result::Result" | "alloc::borrow::Cow"
                        | "core::ops::control_flow::ControlFlow" | "core::cmp::Ordering"
                        | "core::ops::range::Range" | "core::ops::range::RangeFrom" | "core::ops::range::RangeTo"
                        | "core::cmp::Reverse" | "core::num::wrapping::Wrapping");
                o = o.f("ws", if self.is_ws(a.did().krate) { "true" } else { "false" });
                if want {
                    let mut vs = vec![];
                    for v in a.variants().iter() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = self.normalize(ft);
                            let tid = self.ty(ft);
                            fs.push(format!("[{},{}]", s(f.name.as_str()), tid));
                        }
                        vs.push(Obj::new().f("n", s(v.name.as_str())).f("f", arr(fs)).end());
                    }
                    o = o.f("variants", arr(vs));
                    o = o.f("enum", if a.is_enum() { "true" } else { "false" });
                    if a.is_enum() {
                        let ds: Vec<String> = a.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect();
                        o = o.f("discrs", arr(ds));
                    }
                }
                if let Some(dt) = a.destructor(tcx) {
                    o = o.f("drop", s(&self.path(dt.did)));
                    if self.is_ws(a.did().krate) {
                        if let Some(drop_trait) = tcx.lang_items().drop_trait() {
                            let m = tcx.associated_item_def_ids(drop_trait)[0];
                            let ga = tcx.mk_args(&[t.into()]);
                            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, m, ga) {
                                let id2 = self.fn_id(i, self.env);
                                o = o.f("drop_fn", id2.to_string());
                            }
                        }
                    }
                }
                if self.is_ws(a.did().krate) || old {
                    let ms = self.impl_methods(t);
                    o = o.f("impls", ms);
                }
                if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                    o = o.f("size", l.size.bytes().to_string()).f("align", l.align.abi.bytes().to_string());
                    if !a.is_enum() {
                        let n = a.non_enum_variant().fields.len();
                        let offs: Vec<String> = (0..n).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                        o = o.f("offsets", arr(offs));
                    }
                }
            }
            TyKind::Ref(_, i, m) => {
                let i = self.ty(i);
                o = o.f("k", "\"ref\"").f("mut", if m.is_mut() { "true" } else { "false" }).f("to", i.to_string())
            }
            TyKind::RawPtr(i, m) => {
                let i = self.ty(i);
                o = o.f("k", "\"ptr\"").f("mut", if m.is_mut() { "true" } else { "false" }).f("to", i.to_string())
            }
            TyKind::Slice(i) => {
                let i = self.ty(i);
                o = o.f("k", "\"slice\"").f("to", i.to_string())
            }
            TyKind::Array(i, n) => {
                let i = self.ty(i);
                o = o.f("k", "\"array\"").f("to", i.to_string());
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o = o.f("len", n.to_string());
                }
                if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                    o = o.f("size", l.size.bytes().to_string()).f("align", l.align.abi.bytes().to_string());
                }
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                o = o.f("k", "\"tuple\"").f("elems", arr(v));
                if ts.len() > 0 {
                    if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                        o = o.f("size", l.size.bytes().to_string()).f("align", l.align.abi.bytes().to_string());
                        let offs: Vec<String> = (0..ts.len()).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                        o = o.f("offsets", arr(offs));
                    }
                }
            }
            TyKind::Closure(did, args) => {
                let inst = Instance::new_raw(did, args);
                let fid = self.fn_id(inst, self.env);
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let p = self.path(did);
                let kind = format!("{:?}", args.as_closure().kind());
                o = o.f("k", "\"closure\"").f("fn", fid.to_string()).f("upvars", arr(ups)).f("path", s(&p)).f("ck", s(&kind))
            }
            TyKind::FnDef(did, args) => {
                let args = args.skip_binder();
                let c = self.callee(did, args);
                o = o.f("k", "\"fndef\"").f("callee", c)
            }
            TyKind::FnPtr(..) => o = o.f("k", "\"fnptr\""),
            TyKind::Dynamic(p, ..) => {
                let tr = match p.principal_def_id() {
                    Some(d) => self.path(d),
                    None => String::new(),
                };
                o = o.f("k", "\"dyn\"").f("trait", s(&tr))
            }
            TyKind::Param(p) => o = o.f("k", "\"param\"").f("name", s(p.name.as_str())),
            TyKind::Alias(..) => o = o.f("k", "\"alias\""),
            _ => o = o.f("k", "\"other\""),
        }
        self.types[id] = o.end();
        id
    }
    fn normalize(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }
    /// Methods of the workspace trait impls for this (instantiated) ADT type.
    fn impl_methods(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let TyKind::Adt(adt, _) = t.kind() else { return "{}".into() };
        let mut o = Obj::new();
        let crates: Vec<CrateNum> = tcx
            .crates(())
            .iter()
            .copied()
            .chain(std::iter::once(rustc_hir::def_id::LOCAL_CRATE))
            .collect();
        for c in crates {
            if !self.is_ws(c) {
                continue;
            }
            for imp in tcx.trait_impls_in_crate(c) {
                let tr = tcx.impl_trait_ref(*imp).skip_binder();
                let st = tr.self_ty();
                let TyKind::Adt(a2, _) = st.kind() else { continue };
                if a2.did() != adt.did() {
                    continue;
                }
                let td = tr.def_id;
                let tp = self.path(td);
                if tp == "serde_core::ser::Serialize" {
                    // generic in the serializer: the body as it is written
                    let mut ms = Obj::new();
                    for m in tcx.associated_item_def_ids(*imp) {
                        if tcx.def_kind(*m) == DefKind::AssocFn && tcx.is_mir_available(*m) {
                            let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, *m));
                            let inst = Instance::new_raw(*m, args);
                            let env = TypingEnv::post_analysis(tcx, *m);
                            let id = self.fn_id(inst, env);
                            ms = ms.f(tcx.item_name(*m).as_str(), id.to_string());
                        }
                    }
                    o = o.f(&tp, ms.end());
                    continue;
                }
                let fmt = tp == "core::fmt::Display" || tp == "core::fmt::Debug";
                if tp.contains("serde") || tp.contains("clap") || (tp.starts_with("core::fmt") && !(fmt && !tcx.is_automatically_derived(*imp))) {
                    continue;
                }
                let gen = tcx.generics_of(td);
                let mut ga: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
                let mut ok = true;
                if gen.own_params.len() > 1 {
                    for x in tr.args.iter().skip(1) {
                        if let Some(xt) = x.as_type() {
                            if xt == st {
                                ga.push(t.into());
                                continue;
                            }
                            use rustc_middle::ty::TypeVisitableExt;
                            if xt.has_param() {
                                ok = false;
                            }
                            ga.push(tcx.erase_and_anonymize_regions(xt).into());
                        } else {
                            ok = false;
                        }
                    }
                }
                if !ok {
                    continue;
                }
                let ga = tcx.mk_args(&ga);
                let mut ms = Obj::new();
                for m in tcx.associated_item_def_ids(td) {
                    if tcx.def_kind(*m) != DefKind::AssocFn {
                        continue;
                    }
                    let g = tcx.generics_of(*m);
                    let only_lt = g.own_params.iter().all(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime));
                    if !only_lt {
                        continue;
                    }
                    let ga2 = ty::GenericArgs::for_item(tcx, *m, |p, _| {
                        if (p.index as usize) < ga.len() { ga[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
                    });
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, *m, ga2) {
                        if let InstanceKind::Item(d) = i.def {
                            if self.is_ws(d.krate) && tcx.is_mir_available(d) {
                                let id = self.fn_id(i, self.env);
                                ms = ms.f(tcx.item_name(*m).as_str(), id.to_string());
                            }
                        }
                    }
                }
                o = o.f(&tp, ms.end());
            }
        }
        o.end()
    }
    fn adt(&mut self, did: DefId) {
        if self.adts.contains_key(&did) || !(self.is_ws(did.krate) || self.crate_name(did.krate).ends_with("_10")) {
            return;
        }
        self.adts.insert(did, String::new());
        let tcx = self.tcx;
        let a = tcx.adt_def(did);
        let p = self.path(did);
        let mut vs = vec![];
        for v in a.variants().iter() {
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, did)).skip_norm_wip();
                    format!("[{},{},{}]", s(f.name.as_str()), s(&t.to_string()), f.vis.is_public())
                })
                .collect();
            vs.push(Obj::new().f("n", s(v.name.as_str())).f("f", arr(fs)).end());
        }
        let r = a.repr();
        let mut attrs = vec![];
        let must = rustc_attr_ir::find_attr!(tcx, did, MustUse { .. });
        if must {
            attrs.push(s("must_use"));
        }
        let sp = tcx.def_span(did);
        let (file, line) = self.loc(sp);
        let gens = tcx.generics_of(did);
        let mut o = Obj::new()
            .f("path", s(&p))
            .f("variants", arr(vs))
            .f("repr_c", if r.c() { "true" } else { "false" })
            .f("repr_transparent", if r.transparent() { "true" } else { "false" })
            .f("attrs", arr(attrs))
            .f("generics", gens.own_params.len().to_string())
            .f("file", s(&file))
            .f("line", line.to_string());
        // trait impls
        let mut traits = vec![];
        let t = tcx.erase_and_anonymize_regions(tcx.type_of(did).instantiate_identity().skip_norm_wip());
        let env = TypingEnv::post_analysis(tcx, did);
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let mut q: Vec<(DefId, &str)> = vec![];
        for (n, sym) in [
            ("Send", rustc_span::sym::Send),
            ("Sync", rustc_span::sym::Sync),
            ("Clone", rustc_span::sym::Clone),
        ] {
            if let Some(d) = tcx.get_diagnostic_item(sym) {
                q.push((d, n));
            } else if n == "Sync" {
                if let Some(d) = tcx.lang_items().sync_trait() { q.push((d, n)); }
            } else if n == "Clone" {
                if let Some(d) = tcx.lang_items().clone_trait() { q.push((d, n)); }
            }
        }
        if let Some(d) = tcx.lang_items().copy_trait() {
            q.push((d, "Copy"));
        }
        for (d, n) in q {
            let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
            if infcx.type_implements_trait(d, [t], pe).must_apply_modulo_regions() {
                traits.push(s(n));
            }
        }
        o = o.f("traits", arr(traits));
        self.adts.insert(did, o.end());
    }
    fn loc(&self, sp: rustc_span::Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }
    fn fn_id(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.fn_keys.get(&(inst, env)) {
            return *i;
        }
        let i = self.fn_keys.len();
        self.fn_keys.insert((inst, env), i);
        self.queue.push((inst, env, i));
        i
    }
    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(did);
        let mut o = Obj::new().f("path", s(&p)).f("crate", s(&self.crate_name(did.krate)));
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            // constructors
            o = o.f("ctor", "true");
            if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
                let out = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip().skip_binder().output();
                o = o.f("ctor_ty", self.ty(out).to_string());
            }
            return o.end();
        }
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        o = o.f("targs", arr(targs));
        let cargs: Vec<String> = args.consts().map(|x| match x.try_to_target_usize(tcx) {
            Some(v) => v.to_string(), None => "null".into() }).collect();
        if !cargs.is_empty() {
            o = o.f("cargs", arr(cargs));
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o = o.f("trait", s(&self.path(tr)));
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        let args_e = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args_e)).unwrap_or(args_e);
        match Instance::try_resolve(tcx, self.env, did, args_e) {
            Ok(Some(i)) => {
                let (kind, d) = match i.def {
                    InstanceKind::Item(d) => ("item", Some(d)),
                    InstanceKind::Intrinsic(d) => ("intrinsic", Some(d)),
                    InstanceKind::Virtual(d, _) => ("virtual", Some(d)),
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => ("closure_once", Some(closure)),
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => ("fnptr_shim", None),
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => ("drop_glue", None),
                    InstanceKind::Shim(ShimKind::Clone(..)) => ("clone_shim", None),
                    _ => ("other_shim", None),
                };
                o = o.f("kind", s(kind));
                if let Some(d) = d {
                    let rp = self.path(d);
                    o = o.f("res", s(&rp)).f("rcrate", s(&self.crate_name(d.krate)));
                    let inst = match i.def {
                        InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                            let st = args_e.type_at(0);
                            match st.kind() {
                                TyKind::Closure(_, ca) => Some(Instance::new_raw(closure, ca)),
                                _ => None,
                            }
                        }
                        InstanceKind::Item(_) => Some(i),
                        _ => None,
                    };
                    if let Some(inst) = inst {
                        let dd = inst.def_id();
                        let allow = self.is_ws(dd.krate)
                            || self.std_allow.iter().any(|a| rp.starts_with(a.as_str()));
                        if allow && tcx.is_mir_available(dd) {
                            let id = self.fn_id(inst, self.env);
                            o = o.f("fn", id.to_string());
                        }
                    }
                    let ra: Vec<String> = i.args.types().map(|x| self.ty(x).to_string()).collect();
                    o = o.f("rargs", arr(ra));
                }
            }
            _ => {
                o = o.f("kind", s("unresolved"));
            }
        }
        o.end()
    }
    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, id: usize) -> String {
        let tcx = self.tcx;
        self.env = env;
        let did = inst.def_id();
        let body = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst
            .try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                ty::EarlyBinder::bind(tcx, body.clone()),
            )
            .unwrap_or_else(|_| body.clone());
        let mut names: HashMap<Local, String> = HashMap::new();
        let mut upnames: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local, v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(i, _) = e {
                            upnames.push(format!("[{},{}]", i.as_usize(), s(v.name.as_str())));
                            break;
                        }
                    }
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(match names.get(&l) {
                Some(n) => format!("[{},{}]", t, s(n)),
                None => format!("[{}]", t),
            });
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(j) = self.stmt(&body, x) {
                    st.push(j);
                }
            }
            let t = self.term(&body, bb.terminator());
            let mut o = Obj::new();
            if bb.is_cleanup {
                o = o.f("cleanup", "true");
            }
            blocks.push(o.f("s", arr(st)).f("t", t).end());
        }
        let (file, line) = self.loc(tcx.def_span(did));
        let p = self.path(did);
        let is_closure = tcx.is_closure_like(did);
        let root_did = tcx.typeck_root_def_id(did);
        let vis = if did.is_local() {
            tcx.effective_visibilities(()).is_reachable(root_did.expect_local())
        } else {
            tcx.visibility(root_did).is_public()
        };
        let targs: Vec<String> = inst.args.types().map(|x| self.ty(x).to_string()).collect();
        let mut o = Obj::new()
            .f("id", id.to_string())
            .f("path", s(&p))
            .f("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default().as_str()))
            .f("crate", s(&self.crate_name(did.krate)))
            .f("file", s(&file))
            .f("line", line.to_string())
            .f("argc", body.arg_count.to_string())
            .f("pub", if vis { "true" } else { "false" })
            .f("targs", arr(targs))
            .f("closure", if is_closure { "true" } else { "false" });
        if is_closure {
            let k = format!("{:?}", inst.args.as_closure().kind());
            o = o.f("ck", s(&k));
            let rp = self.path(root_did);
            o = o.f("root", s(&rp));
        }
        if !is_closure {
            let safe = tcx.fn_sig(did).skip_binder().safety().is_safe();
            if !safe {
                o = o.f("unsafe_fn", "true");
            }
            let must = rustc_attr_ir::find_attr!(tcx, did, MustUse { .. });
            if must {
                o = o.f("must_use", "true");
            }
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            o = o.f("sig", s(&sig.to_string()));
        }
        if let Some(imp) = tcx.impl_of_assoc(root_did) {
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let td = tr.skip_binder().def_id;
                o = o.f("impl_trait", s(&self.path(td)));
            }
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            o = o.f("impl_self", s(&self.short_ty(st)));
            if rustc_attr_ir::find_attr!(tcx, imp, AutomaticallyDerived) {
                o = o.f("derived", "true");
            }
        }
        if !upnames.is_empty() {
            o = o.f("upnames", arr(upnames));
        }
        if let Some(sp) = body.spread_arg {
            o = o.f("spread", sp.as_usize().to_string());
        }
        o.f("locals", arr(locals)).f("blocks", format!("[{}]", blocks.join(",\n "))).end()
    }
    fn line(&self, si: SourceInfo) -> usize {
        self.loc(si.span).1
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => {
                    let name = match pt.ty.kind() {
                        TyKind::Adt(a, _) if !a.is_enum() || pt.variant_index.is_some() => {
                            let v = match pt.variant_index {
                                Some(v) => a.variant(v),
                                None => a.non_enum_variant(),
                            };
                            v.fields.get(i).map(|f| f.name.to_string()).unwrap_or_default()
                        }
                        _ => i.as_usize().to_string(),
                    };
                    let tid = self.ty(t);
                    format!("[\"f\",{},{},{}]", i.as_usize(), s(&name), tid)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => {
                    format!("[\"v\",{},{}]", v.as_usize(), s(n.map(|x| x.to_string()).unwrap_or_default().as_str()))
                }
                _ => "[\"?\"]".to_string(),
            };
            pr.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, *p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, *p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tid = self.ty(t);
                let named = match c.const_ {
                    Const::Unevaluated(u, _) if u.promoted.is_none() => Some(self.path(u.def)),
                    _ => None,
                };
                let v = match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(v) => self.constval(v, t, 0),
                    Err(_) => {
                        // promoted arrays of generic context etc.
                        "[\"opaque\"]".to_string()
                    }
                };
                match named {
                    Some(n) => format!("[\"k\",{},{},{}]", tid, v, s(&n)),
                    None => format!("[\"k\",{},{}]", tid, v),
                }
            }
            Operand::RuntimeChecks(_) => {
                let tid = self.ty(self.tcx.types.bool);
                format!("[\"k\",{},[\"int\",\"0\"]]", tid)
            }
        }
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 8 {
            return "[\"opaque\"]".into();
        }
        match t.kind() {
            TyKind::FnDef(..) => return "[\"zst\"]".into(),
            TyKind::Pat(inner, _) => return self.constval(v, *inner, depth),
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                match inner.kind() {
                    TyKind::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("[\"str\",{}]", s(&String::from_utf8_lossy(b)));
                        }
                    }
                    TyKind::Slice(e) if *e == tcx.types.u8 => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("[\"bytes\",[{}]]", join(b));
                        }
                    }
                    TyKind::Slice(e) => {
                        // slice of non-bytes: walk elements
                        let r = match v {
                            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, rustc_abi::Size::ZERO, meta)),
                            ConstValue::Indirect { alloc_id, offset } => self.read_fat(alloc_id, offset),
                            _ => None,
                        };
                        if let Some((a, off, n)) = r {
                            if let Ok(l) = tcx.layout_of(self.env.as_query_input(*e)) {
                                let mut out = vec![];
                                for i in 0..n.min(64) {
                                    let cv = ConstValue::Indirect { alloc_id: a, offset: off + l.size * i };
                                    out.push(self.constval(cv, *e, depth + 1));
                                }
                                return format!("[\"arr\",{}]", arr(out));
                            }
                        }
                    }
                    _ => {
                        let sc = match v {
                            ConstValue::Scalar(sc) => Some(sc),
                            ConstValue::Indirect { alloc_id, offset } => self.read_ptr(alloc_id, offset),
                            _ => None,
                        };
                        if let Some(Scalar::Ptr(p, _)) = sc {
                            let (prov, off) = p.prov_and_relative_offset();
                            if let GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                                let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let x = self.constval(cv, *inner, depth + 1);
                                return format!("[\"ref\",{}]", x);
                            }
                        }
                    }
                }
                return "[\"opaque\"]".into();
            }
            TyKind::Array(e, n) if *e == tcx.types.u8 => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let (GlobalAlloc::Memory(m), Some(n)) = (tcx.global_alloc(alloc_id), n.try_to_target_usize(tcx)) {
                        let lo = offset.bytes() as usize;
                        let hi = lo + n as usize;
                        let m = m.inner();
                        if hi <= m.len() {
                            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(lo..hi);
                            return format!("[\"bytes\",[{}]]", join(b));
                        }
                    }
                }
            }
            _ => {}
        }
        // scalars stored in memory
        let v = match v {
            ConstValue::Indirect { alloc_id, offset }
                if matches!(t.kind(), TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_)) =>
            {
                match self.read_int(alloc_id, offset, t) {
                    Some(x) => return format!("[\"int\",\"{}\"]", x),
                    None => v,
                }
            }
            v => v,
        };
        if let (ConstValue::Scalar(Scalar::Int(i)), true) = (v, t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point()) {
            let sz = i.size();
            if t.is_signed() {
                return format!("[\"int\",\"{}\"]", i.to_int(sz));
            }
            if let TyKind::Float(_) = t.kind() {
                return format!("[\"float\",\"{}\",{}]", i.to_uint(sz), sz.bits());
            }
            return format!("[\"int\",\"{}\"]", i.to_uint(sz));
        }
        match t.kind() {
            TyKind::Array(..) | TyKind::Tuple(..) | TyKind::Adt(..) => {
                if let TyKind::Adt(a, _) = t.kind() {
                    if a.is_union() {
                        return "[\"opaque\"]".into();
                    }
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t);
                if let Some(d) = d {
                    let fs: Vec<String> = d.fields.iter().map(|(fv, ft)| self.constval(*fv, *ft, depth + 1)).collect();
                    return match d.variant {
                        Some(vi) => {
                            let vn = match t.kind() { TyKind::Adt(a, _) if a.is_enum() => vi.as_usize() as i64, _ => -1 };
                            format!("[\"adt\",{},{}]", vn, arr(fs))
                        }
                        None => format!("[\"arr\",{}]", arr(fs)),
                    };
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            return "[\"zst\"]".into();
        }
        "[\"opaque\"]".into()
    }
    fn read_ptr(&self, a: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size) -> Option<Scalar> {
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(a) {
            let sz = self.tcx.data_layout.pointer_size();
            return m.inner().read_scalar(&self.tcx, AllocRange { start: off, size: sz }, true).ok();
        }
        None
    }
    fn read_fat(&self, a: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size) -> Option<(rustc_middle::mir::interpret::AllocId, rustc_abi::Size, u64)> {
        let sz = self.tcx.data_layout.pointer_size();
        let p = self.read_ptr(a, off)?;
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(a) {
            let n = m.inner().read_scalar(&self.tcx, AllocRange { start: off + sz, size: sz }, false).ok()?;
            let n = match n { Scalar::Int(i) => i.to_uint(sz) as u64, _ => return None };
            if let Scalar::Ptr(p, _) = p {
                let (prov, o2) = p.prov_and_relative_offset();
                return Some((prov.alloc_id(), o2, n));
            }
        }
        None
    }
    fn read_int(&self, a: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>) -> Option<String> {
        let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(a) {
            let v = m.inner().read_scalar(&self.tcx, AllocRange { start: off, size: l.size }, false).ok()?;
            if let Scalar::Int(i) = v {
                return Some(if t.is_signed() { i.to_int(l.size).to_string() } else { i.to_uint(l.size).to_string() });
            }
        }
        None
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(body, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, *p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", s(&format!("{:?}", k)), self.place(body, *p)),
            Rvalue::Cast(k, o, t) => {
                let kn = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize, ..) => "Unsize".to_string(),
                    k => {
                        let x = format!("{:?}", k);
                        x.split('(').next().unwrap().to_string()
                    }
                };
                let from = o.ty(body, self.tcx);
                let fid = self.ty(from);
                let tid = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", s(&kn), self.operand(body, o), fid, tid)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(body, self.tcx);
                let tid = self.ty(t);
                format!("[\"bin\",{},{},{},{}]", s(&format!("{:?}", op)), self.operand(body, &ab.0), self.operand(body, &ab.1), tid)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(body, self.tcx);
                let tid = self.ty(t);
                format!("[\"un\",{},{},{}]", s(&format!("{:?}", op)), self.operand(body, a), tid)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, *p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(did, v, args, _, active) => {
                        let t = self.tcx.type_of(*did).instantiate(self.tcx, args).skip_norm_wip();
                        let tid = self.ty(t);
                        let a = active.map(|x| x.as_usize().to_string()).unwrap_or("null".into());
                        format!("[\"adt\",{},{},{}]", tid, v.as_usize(), a)
                    }
                    AggregateKind::Closure(did, args) => {
                        let t = Ty::new_closure(self.tcx, *did, args);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"?\"]".to_string(),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                format!("[\"agg\",{},{}]", kk, arr(os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, *p)),
            r => format!("[\"other\",{}]", s(&format!("{:?}", r))),
        }
    }
    fn stmt(&mut self, body: &Body<'tcx>, st: &Statement<'tcx>) -> Option<String> {
        let l = self.line(st.source_info);
        match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let rv = self.rvalue(body, r);
                Some(format!("[\"=\",{},{},{}]", self.place(body, *p), rv, l))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(format!("[\"sd\",{},{},{}]", self.place(body, **place), variant_index.as_usize(), l))
            }
            StatementKind::StorageDead(x) => Some(format!("[\"dead\",{}]", x.as_usize())),
            StatementKind::StorageLive(x) => Some(format!("[\"live\",{}]", x.as_usize())),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::CopyNonOverlapping(_) => Some(format!("[\"intr\",\"copy\",{}]", l)),
                _ => None,
            },
            _ => None,
        }
    }
    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let l = self.line(t.source_info);
        let macro_ = {
            let e = t.source_info.span.ctxt().outer_expn_data();
            match e.kind {
                rustc_span::ExpnKind::Macro(_, n) => s(n.as_str()),
                _ => "null".into(),
            }
        };
        let uw = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            _ => "null".to_string(),
        };
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ts: Vec<String> =
                    targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                let ty = discr.ty(body, self.tcx);
                let tid = self.ty(ty);
                format!("[\"switch\",{},{},{},{},{}]", self.operand(body, discr), arr(ts), targets.otherwise().as_usize(), tid, l)
            }
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let pt = place.ty(body, self.tcx).ty;
                let tid = self.ty(pt);
                format!("[\"drop\",{},{},{},{},{}]", self.place(body, *place), target.as_usize(), uw(unwind), tid, l)
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let ft = func.ty(body, self.tcx);
                let ftid = self.ty(ft);
                let f = match ft.kind() {
                    TyKind::FnDef(..) => format!("{}", ftid),
                    _ => format!("{}", ftid),
                };
                let fo = self.operand(body, func);
                let a: Vec<String> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                let tg = target.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
                let mut o = String::new();
                let _ = write!(o, "[\"call\",{},{},{},{},{},{},{},{}]", f, arr(a), self.place(body, *destination), tg, uw(unwind), l, fo, macro_);
                o
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = format!("{:?}", msg);
                let k: String = m.chars().take_while(|c| *c != '(' && *c != '{').collect();
                format!("[\"assert\",{},{},{},{},{},{}]", self.operand(body, cond), expected, s(k.trim()), target.as_usize(), uw(unwind), l)
            }
            k => format!("[\"other\",{}]", s(&format!("{:?}", k))),
        }
    }
}

fn join(b: &[u8]) -> String {
    let mut o = String::new();
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", x);
    }
    o
}
