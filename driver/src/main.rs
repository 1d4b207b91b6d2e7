//! rustc_private driver: dumps monomorphised MIR reachable from the local crate as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; crates listed in MIRDUMP_CRATES are dumped to MIRDUMP_OUT/<crate>.json
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_infer;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::DUMMY_SP;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let dump_list = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let want = !is_test && dump_list.split(',').any(|c| c == name);
    let mut cb = Cb { want, name };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}

struct Cb {
    want: bool,
    name: String,
}

impl Callbacks for Cb {
    fn config(&mut self, _c: &mut interface::Config) {}
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.want {
            let mut d = Dump::new(tcx);
            let s = d.run();
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            std::fs::write(format!("{}/{}.json", out, self.name), s).expect("write dump");
        }
        Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    insts: Vec<Instance<'tcx>>,
    instmap: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<usize>,
    fns: Vec<String>,
    vtables: Vec<String>,
    vtseen: HashMap<(Ty<'tcx>, Ty<'tcx>), ()>,
    roots: Vec<usize>,
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<T: AsRef<str>>(v: &[T]) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(x.as_ref());
    }
    o.push(']');
    o
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump {
            tcx,
            env: ty::TypingEnv::fully_monomorphized(),
            types: vec![],
            tymap: HashMap::new(),
            insts: vec![],
            instmap: HashMap::new(),
            queue: VecDeque::new(),
            fns: vec![],
            vtables: vec![],
            vtseen: HashMap::new(),
            roots: vec![],
        }
    }

    fn path(&self, did: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(did);
        if key.parent.is_none() {
            return tcx.crate_name(did.krate).to_string();
        }
        match tcx.def_kind(did) {
            DefKind::Impl { .. } => {
                return self.impl_head(did);
            }
            _ => {}
        }
        let parent = DefId { krate: did.krate, index: key.parent.unwrap() };
        let pp = self.path(parent);
        let last = key.disambiguated_data;
        let nm = match last.data.get_opt_name() {
            Some(s) => s.to_string(),
            None => format!("{{{:?}#{}}}", last.data, last.disambiguator),
        };
        format!("{}::{}", pp, nm)
    }

    fn impl_head(&self, did: DefId) -> String {
        let tcx = self.tcx;
        let st = tcx.type_of(did).skip_binder();
        let h = self.head(st);
        match tcx.impl_opt_trait_ref(did) {
            Some(tr) => {
                let tr = tr.skip_binder();
                let mut t = self.path(tr.def_id);
                let extra: Vec<String> = tr.args.types().skip(1).map(|t| self.head(t)).collect();
                if !extra.is_empty() {
                    t = format!("{}<{}>", t, extra.join(","));
                }
                format!("<{} as {}>", h, t)
            }
            None => h,
        }
    }

    fn head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.path(d.did()),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.head(*t)),
            ty::Slice(t) => format!("[{}]", self.head(*t)),
            ty::Array(t, _) => format!("[{};N]", self.head(*t)),
            ty::Tuple(l) => format!("({})", l.iter().map(|t| self.head(t)).collect::<Vec<_>>().join(",")),
            ty::Param(p) => p.name.to_string(),
            ty::Dynamic(p, ..) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", self.path(d)),
                None => "dyn".to_string(),
            },
            ty::FnPtr(..) => "fnptr".to_string(),
            ty::RawPtr(t, _) => format!("*{}", self.head(*t)),
            _ => format!("{}", t),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, id);
        let tcx = self.tcx;
        let s = match t.kind() {
            ty::Bool => r#"{"k":"bool"}"#.to_string(),
            ty::Char => r#"{"k":"char"}"#.to_string(),
            ty::Int(i) => format!(r#"{{"k":"int","n":"{}"}}"#, i.name_str()),
            ty::Uint(i) => format!(r#"{{"k":"int","n":"{}"}}"#, i.name_str()),
            ty::Float(i) => format!(r#"{{"k":"float","n":"{}"}}"#, i.name_str()),
            ty::Str => r#"{"k":"str"}"#.to_string(),
            ty::Never => r#"{"k":"never"}"#.to_string(),
            ty::Adt(def, args) => {
                let a: Vec<String> = args
                    .iter()
                    .filter_map(|g| g.as_type().map(|t| self.ty(t).to_string()))
                    .collect();
                let p = self.path(def.did());
                let mut vs = vec![];
                let opaque = {
                    let cr = tcx.crate_name(def.did().krate).to_string();
                    // layouts of these are never looked into
                    (cr == "alloc" || cr == "std") && !p.contains("borrow::Cow") && !p.contains("::Entry")
                };
                if !opaque {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                            fs.push(format!("[{},{}]", js(f.name.as_str()), self.ty(ft)));
                        }
                        // sign-extended: Ordering::Less is -1, not 255
                        let discr: i128 = if def.is_enum() {
                            let d = def.discriminant_for_variant(tcx, vi);
                            match d.ty.kind() {
                                ty::Int(it) => {
                                    let bits = it.bit_width().unwrap_or(64) as u32;
                                    ((d.val << (128 - bits)) as i128) >> (128 - bits)
                                }
                                _ => d.val as i128,
                            }
                        } else { 0 };
                        vs.push(format!(r#"{{"n":{},"d":{},"f":{}}}"#, js(v.name.as_str()), discr, jl(&fs)));
                    }
                }
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let localdrop = match tcx.adt_destructor(def.did()) {
                    Some(d) if d.did.krate == LOCAL_CRATE => {
                        let ia = args;
                        match Instance::try_resolve(tcx, self.env, d.did, ia) {
                            Ok(Some(i)) => self.inst(i).to_string(),
                            _ => "null".to_string(),
                        }
                    }
                    _ => "null".to_string(),
                };
                format!(
                    r#"{{"k":"adt","p":{},"a":{},"ak":"{}","v":{},"box":{},"drop":{}}}"#,
                    js(&p), jl(&a), kind, jl(&vs), def.is_box(), localdrop
                )
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#"{{"k":"array","t":{},"len":{}}}"#, e, n)
            }
            ty::Slice(e) => format!(r#"{{"k":"slice","t":{}}}"#, self.ty(*e)),
            ty::RawPtr(e, _) => format!(r#"{{"k":"ptr","t":{}}}"#, self.ty(*e)),
            ty::Ref(_, e, m) => format!(r#"{{"k":"ref","t":{},"m":{}}}"#, self.ty(*e), m.is_mut()),
            ty::Tuple(l) => {
                let a: Vec<String> = l.iter().map(|t| self.ty(t).to_string()).collect();
                format!(r#"{{"k":"tuple","a":{}}}"#, jl(&a))
            }
            ty::FnDef(did, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let i = match Instance::try_resolve(tcx, self.env, *did, args) {
                    Ok(Some(i)) => self.inst(i).to_string(),
                    _ => "null".to_string(),
                };
                format!(r#"{{"k":"fndef","p":{},"i":{}}}"#, js(&self.path(*did)), i)
            }
            ty::FnPtr(..) => r#"{"k":"fnptr"}"#.to_string(),
            ty::Dynamic(..) => format!(r#"{{"k":"dyn","p":{}}}"#, js(&self.head(t))),
            ty::Closure(did, args) => {
                let i = self.inst(Instance::new_raw(*did, args));
                let up: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let kind = format!("{:?}", args.as_closure().kind());
                format!(r#"{{"k":"closure","p":{},"i":{},"u":{},"ck":{}}}"#, js(&self.path(*did)), i, jl(&up), js(&kind))
            }
            _ => format!(r#"{{"k":"other","s":{}}}"#, js(&format!("{:?}", t))),
        };
        self.types[id] = s;
        id
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.instmap.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.insts.push(i);
        self.fns.push(String::new());
        self.instmap.insert(i, id);
        self.queue.push_back(id);
        id
    }

    fn descend(&self, i: Instance<'tcx>, name: &str) -> bool {
        let did = i.def_id();
        let cr = self.tcx.crate_name(did.krate).to_string();
        match cr.as_str() {
            "core" => {
                if name.contains("core::hint::") || name.contains("core::intrinsics::") { return false; }
                const NO: &[&str] = &[
                    "core::fmt", "core::str", "core::slice", "core::num", "core::char", "core::ptr", "core::alloc",
                    "core::panicking", "core::cell", "core::hash", "core::unicode", "core::ffi", "core::mem",
                    "core::sync", "core::any", "core::time", "core::array", "core::ascii", "core::cmp::impls",
                ];
                let h = name.trim_start_matches('<').trim_start_matches('&').trim_start_matches("mut ");
                !NO.iter().any(|p| h.starts_with(p)) && !h.starts_with("str") && !h.starts_with('[')
            }
            "alloc" | "std" => name.contains("alloc::borrow"),
            "proc_macro" | "proc_macro2" | "syn" | "http" | "uuid" | "chrono" | "bytes" => false,
            _ => true,
        }
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut pm = vec![];
        for ldid in tcx.mir_keys(()) {
            let did = ldid.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                continue;
            }
            let id = self.inst(Instance::mono(tcx, did));
            self.roots.push(id);
            let _ = &mut pm;
            let attrs = tcx.hir_attrs(tcx.local_def_id_to_hir_id(*ldid));
            if attrs.iter().any(|a| format!("{:?}", a).contains("ProcMacroDerive")) {
                pm.push(id.to_string());
            }
        }
        while let Some(id) = self.queue.pop_front() {
            let i = self.insts[id];
            let s = self.dump_fn(id, i);
            self.fns[id] = s;
        }
        // every local generic fn / impl that never got an instance is still listed by name
        let mut locals = vec![];
        for ldid in tcx.mir_keys(()) {
            let did = ldid.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                locals.push(format!(r#"[{},{},{}]"#, js(&self.path(did)), js(&self.span(tcx.def_span(did))), tcx.generics_of(did).requires_monomorphization(tcx)));
            }
        }
        // local impl table
        let mut impls = vec![];
        for ldid in tcx.hir_crate_items(()).definitions() {
            let did = ldid.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
                let st = tcx.type_of(did).skip_binder();
                let gen = tcx.generics_of(did).requires_monomorphization(tcx);
                let stid = if gen || st.has_param() { "null".to_string() } else {
                    let st = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(tcx.erase_and_anonymize_regions(st)));
                    self.ty(st).to_string()
                };
                impls.push(format!(r#"[{},{},{},{}]"#, js(&self.impl_head(did)), of_trait, stid, js(&self.span(tcx.def_span(did)))));
            }
        }
        while let Some(id) = self.queue.pop_front() {
            let i = self.insts[id];
            let s = self.dump_fn(id, i);
            self.fns[id] = s;
        }
        let roots: Vec<String> = self.roots.iter().map(|x| x.to_string()).collect();
        format!(
            "{{\"crate\":{},\"types\":{},\n\"fns\":{},\n\"vtables\":{},\"roots\":{},\"procmacros\":{},\"locals\":{},\"impls\":{}}}",
            js(tcx.crate_name(LOCAL_CRATE).as_str()),
            jl(&self.types),
            {
                let mut o = String::from("[");
                for (i, f) in self.fns.iter().enumerate() {
                    if i > 0 { o.push_str(",\n"); }
                    o.push_str(f);
                }
                o.push(']');
                o
            },
            jl(&self.vtables),
            jl(&roots),
            jl(&pm),
            jl(&locals),
            jl(&impls),
        )
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        if s.is_dummy() { return String::new(); }
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn dump_fn(&mut self, _id: usize, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let did = i.def_id();
        let name = self.path(did);
        let kind = match i.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(_, n) => format!("virtual:{}", n),
            InstanceKind::Shim(s) => format!("shim:{:?}", s).split(|c: char| c == '(' || c == '{' || c == ' ').next().unwrap_or("").to_string(),
        };
        let args: Vec<String> = i.args.iter().filter_map(|g| g.as_type().map(|t| self.ty(t).to_string())).collect();
        let consts: Vec<String> = i.args.iter().filter_map(|g| g.as_const().map(|c| js(&format!("{:?}", c)))).collect();
        let trait_item = tcx.opt_associated_item(did).and_then(|a| {
            match a.container {
                ty::AssocContainer::Trait => Some((self.path(did), true)),
                ty::AssocContainer::TraitImpl(Ok(t)) => Some((self.path(t), false)),
                _ => None,
            }
        });
        let mut self_ty = "null".to_string();
        if let Some((_, is_default)) = &trait_item {
            if *is_default {
                if let Some(t) = i.args.types().next() { self_ty = self.ty(t).to_string(); }
            } else {
                let parent = tcx.parent(did);
                let st = tcx.type_of(parent);
                if !i.args.has_param() {
                    let st = tcx.instantiate_and_normalize_erasing_regions(i.args, self.env, st);
                    self_ty = self.ty(st).to_string();
                }
            }
        } else if let Some(a) = tcx.opt_associated_item(did) {
            if matches!(a.container, ty::AssocContainer::InherentImpl) {
                let parent = tcx.parent(did);
                let st = tcx.instantiate_and_normalize_erasing_regions(i.args, self.env, tcx.type_of(parent));
                self_ty = self.ty(st).to_string();
            }
        }
        let ti = match &trait_item { Some((p, _)) => js(p), None => "null".into() };
        let is_closure = matches!(tcx.def_kind(did), DefKind::Closure);
        let mut ret = "null".to_string();
        if !is_closure && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(did);
            let sig = tcx.try_instantiate_and_normalize_erasing_regions(i.args, self.env, sig);
            if let Ok(sig) = sig {
                let r = tcx.instantiate_bound_regions_with_erased(sig.output());
                ret = self.ty(r).to_string();
            }
        }
        let head = format!(
            r#""n":{},"kind":{},"args":{},"consts":{},"ti":{},"self":{},"ret":{},"closure":{},"crate":{},"span":{}"#,
            js(&name), js(&kind), jl(&args), jl(&consts), ti, self_ty, ret, is_closure,
            js(tcx.crate_name(did.krate).as_str()), js(&self.span(tcx.def_span(did)))
        );
        let has_body = match i.def {
            InstanceKind::Item(d) => self.descend(i, &name) && tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
            InstanceKind::Shim(_) => kind.contains("ClosureOnce") || kind.contains("FnPtr") || kind.contains("Reify") || kind.contains("VTable"),
            _ => false,
        };
        if !has_body || tcx.def_kind(did) == DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Const) {
            let h = self.helpers(i, &name);
            return format!("{{{},\"h\":{},\"body\":null}}", head, h);
        }
        let body = tcx.instance_mir(i.def);
        let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body.clone()));
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(x) = self.stmt(s, &body) { st.push(x); }
            }
            let t = self.term(bb.terminator(), &body);
            blocks.push(format!("[{},{}]", jl(&st), t));
        }
        let spread = match body.spread_arg { Some(l) => l.as_usize().to_string(), None => "null".into() };
        format!("{{{},\"body\":{{\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{}}}}}", head, body.arg_count, spread, jl(&locals), jl(&blocks))
    }

    /// trait methods a native model of this function may have to call on its type arguments
    fn helpers(&mut self, i: Instance<'tcx>, name: &str) -> String {
        let tcx = self.tcx;
        let cr = tcx.crate_name(i.def_id().krate).to_string();
        if matches!(i.def, InstanceKind::Shim(_) | InstanceKind::Intrinsic(_)) || cr == "bytes" { return "{}".into(); }
        let mut tys: Vec<Ty<'tcx>> = i.args.iter().filter_map(|g| g.as_type()).collect();
        let mut k = 0;
        while k < tys.len() {
            if let ty::Ref(_, t, _) = tys[k].kind() { if !tys.contains(t) { tys.push(*t); } }
            k += 1;
        }
        let mut out = vec![];
        for t in tys {
            let mut hs = vec![];
            let mut add = |me: &mut Self, key: &str, tr: DefId, m: &str, t: Ty<'tcx>, extra: &[Ty<'tcx>]| {
                let mut a: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
                a.extend(extra.iter().map(|t| ty::GenericArg::from(*t)));
                if !me.implements(tr, &a) { return; }
                let Some(did) = tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == m).map(|x| x.def_id) else { return };
                let args = tcx.mk_args(&a);
                if let Ok(Some(i)) = Instance::try_resolve(tcx, me.env, did, args) {
                    let id = me.inst(i);
                    hs.push(format!("{}:{}", js(key), id));
                }
            };
            let d = |s: rustc_span::Symbol| tcx.get_diagnostic_item(s);
            if let Some(tr) = d(rustc_span::Symbol::intern("Iterator")) { add(self, "next", tr, "next", t, &[]); add(self, "size_hint", tr, "size_hint", t, &[]); }
            if let Some(tr) = d(rustc_span::Symbol::intern("IntoIterator")) {
                add(self, "into_iter", tr, "into_iter", t, &[]);
                if self.implements(tr, &[t.into()]) {
                    let proj = tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == "IntoIter").map(|x| x.def_id);
                    if let (Some(pd), Some(itr)) = (proj, d(rustc_span::Symbol::intern("Iterator"))) {
                        let pt = Ty::new_projection(tcx, ty::IsRigid::No, pd, [t]);
                        if let Ok(nt) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(pt)) {
                            add(self, "ii_next", itr, "next", nt, &[]);
                        }
                    }
                }
            }
            if let Some(tr) = d(rustc_span::Symbol::intern("Display")) { if name.contains("new_display") || name.contains("ToString") { add(self, "display", tr, "fmt", t, &[]); } }
            if let Some(tr) = d(rustc_span::Symbol::intern("Debug")) { if name.contains("new_debug") { add(self, "debug", tr, "fmt", t, &[]); } }
            if name.ends_with("::parse") { if let Some(tr) = self.find_trait("core::str::traits::FromStr") { add(self, "from_str", tr, "from_str", t, &[]); } }
            if let Some(tr) = d(rustc_span::Symbol::intern("Clone")) { if name.contains("lone") || name.contains("to_vec") || name.contains("to_owned") || name.contains("from_elem") { add(self, "clone", tr, "clone", t, &[]); } }
            if let Some(tr) = d(rustc_span::Symbol::intern("Default")) { if name.contains("efault") || name.contains("::take") { add(self, "default", tr, "default", t, &[]); } }
            if let Some(tr) = tcx.lang_items().eq_trait() { if name.contains("PartialEq") || name.contains("contains") || name.contains("dedup") { add(self, "eq", tr, "eq", t, &[t]); } }
            if let Some(tr) = d(rustc_span::Symbol::intern("Ord")) { if name.contains("sort") || name.contains("BTree") || name.contains("btree") { add(self, "cmp", tr, "cmp", t, &[]); } }
            for (key, trn, m) in [("to_tokens", "quote::to_tokens::ToTokens", "to_tokens")] {
                if !name.starts_with("syn::") { continue; }
                if let Some(tr) = self.find_trait(trn) { add(self, key, tr, m, t, &[]); }
            }
            if !hs.is_empty() {
                out.push(format!("\"{}\":{{{}}}", self.ty(t), hs.join(",")));
            }
        }
        format!("{{{}}}", out.join(","))
    }
    fn find_trait(&self, p: &str) -> Option<DefId> {
        self.tcx.all_traits_including_private().find(|d| self.path(*d) == p)
    }
    fn implements(&self, tr: DefId, a: &[ty::GenericArg<'tcx>]) -> bool {
        let tcx = self.tcx;
        if tcx.generics_of(tr).own_params.len() != a.len() { return false; }
        let (infcx, pe) = tcx.infer_ctxt().ignoring_regions().build_with_typing_env(self.env);
        use rustc_trait_selection::infer::InferCtxtExt;
        infcx.type_implements_trait(tr, a.iter().copied(), pe).must_apply_modulo_regions()
    }

    fn place(&mut self, p: &Place<'tcx>, _b: &Body<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        if pr.is_empty() { format!("[{}]", p.local.as_usize()) } else { format!("[{},{}]", p.local.as_usize(), pr.join(",")) }
    }

    fn operand(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, b)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, b)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = match c.const_.eval(self.tcx, self.env, DUMMY_SP) {
                    Ok(v) => self.cval(v, t, 0),
                    Err(_) => "null".to_string(),
                };
                format!("[\"k\",{},{}]", ti, v)
            }
            _ => "[\"rc\"]".to_string(),
        }
    }

    /// constant value as a JSON tree
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 { return "null".into(); }
        match t.kind() {
            ty::FnDef(..) | ty::Never => return "{\"z\":1}".into(),
            ty::Closure(..) => return "{\"z\":1}".into(),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let size = s.size();
                    if let ty::Int(_) = t.kind() { return format!("{{\"i\":{}}}", s.to_int(size)); }
                    return format!("{{\"i\":{}}}", s.to_bits(size));
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let size = match tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => l.size, _ => return "null".into() };
                        let r = rustc_middle::mir::interpret::alloc_range(offset, size);
                        if let Ok(Scalar::Int(s)) = a.inner().read_scalar(&tcx, r, false) {
                            if let ty::Int(_) = t.kind() { return format!("{{\"i\":{}}}", s.to_int(size)); }
                            return format!("{{\"i\":{}}}", s.to_bits(size));
                        }
                    }
                }
                "null".into()
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let it = self.ty(*inner);
                match inner.kind() {
                    ty::Str => match v.try_get_slice_bytes_for_diagnostics(tcx) {
                        Some(b) => format!("{{\"s\":{}}}", js(&String::from_utf8_lossy(b))),
                        None => "null".into(),
                    },
                    ty::Slice(e) => {
                        let e = *e;
                        let (aid, off, len) = match v {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, meta),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return "null".into() };
                                let ps = rustc_abi::Size::from_bytes(8);
                                let p = a.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, ps), true);
                                let l = a.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset + ps, ps), false);
                                match (p, l) {
                                    (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) => {
                                        let (prov, o) = p.into_raw_parts();
                                        (prov.alloc_id(), o, l.to_bits(ps) as u64)
                                    }
                                    _ => return if self.is_zst_slice(e) { "null".into() } else { format!("{{\"ref\":{{\"l\":[]}},\"t\":{}}}", it) },
                                }
                            }
                            _ => return "null".into(),
                        };
                        let es = match tcx.layout_of(self.env.as_query_input(e)) { Ok(l) => l.size, _ => return "null".into() };
                        let mut out = vec![];
                        for k in 0..len {
                            let cv = ConstValue::Indirect { alloc_id: aid, offset: off + es * k };
                            out.push(self.cval(cv, e, depth + 1));
                        }
                        format!("{{\"ref\":{{\"l\":{}}},\"t\":{}}}", jl(&out), it)
                    }
                    ty::Dynamic(..) => "null".into(),
                    _ => {
                        let sc = match v {
                            ConstValue::Scalar(s) => Some(s),
                            ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                                GlobalAlloc::Memory(a) => a.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, rustc_abi::Size::from_bytes(8)), true).ok(),
                                _ => None,
                            },
                            _ => None,
                        };
                        match sc {
                            Some(Scalar::Ptr(p, _)) => {
                                let (prov, o) = p.into_raw_parts();
                                match tcx.global_alloc(prov.alloc_id()) {
                                    GlobalAlloc::Memory(_) => {
                                        let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: o };
                                        let x = self.cval(cv, *inner, depth + 1);
                                        format!("{{\"ref\":{},\"t\":{}}}", x, it)
                                    }
                                    GlobalAlloc::Static(d) => {
                                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                                        let m = tcx.is_mutable_static(d) || !t.is_freeze(tcx, self.env);
                                        let x = match tcx.eval_static_initializer(d) {
                                            Ok(a) if depth < 6 => {
                                                let id = tcx.reserve_and_set_memory_alloc(a);
                                                self.cval(ConstValue::Indirect { alloc_id: id, offset: o }, t, depth + 1)
                                            }
                                            _ => "null".into(),
                                        };
                                        format!("{{\"static\":{},\"mut\":{},\"init\":{},\"t\":{}}}", js(&self.path(d)), m, x, self.ty(t))
                                    }
                                    _ => "null".into(),
                                }
                            }
                            _ => "null".into(),
                        }
                    }
                }
            }
            ty::FnPtr(..) => {
                if let Some(Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        return format!("{{\"fn\":{}}}", self.inst(instance));
                    }
                }
                "null".into()
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() { return "null".into(); }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let mut out = vec![];
                        for (fv, ft) in d.fields { out.push(self.cval(*fv, *ft, depth + 1)); }
                        match d.variant {
                            Some(vi) => format!("{{\"v\":{},\"f\":{}}}", vi.as_usize(), jl(&out)),
                            None => format!("{{\"l\":{}}}", jl(&out)),
                        }
                    }
                    None => "null".into(),
                }
            }
            _ => "null".into(),
        }
    }
    fn is_zst_slice(&self, _e: Ty<'tcx>) -> bool { false }

    fn stmt(&mut self, s: &Statement<'tcx>, b: &Body<'tcx>) -> Option<String> {
        match &s.kind {
            StatementKind::Assign(x) => {
                let (p, r) = &**x;
                let p = self.place(p, b);
                let r = self.rvalue(r, b);
                Some(format!("[{},{}]", p, r))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(format!("[\"sd\",{},{}]", self.place(place, b), variant_index.as_usize()))
            }
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, b)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                format!("[\"rep\",{},{}]", self.operand(o, b), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p, b), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p, b)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, self.tcx);
                let ks = format!("{:?}", k);
                if ks.contains("Unsize") { self.vtable(from, *t); }
                if ks.contains("ClosureFnPointer") || ks.contains("ReifyFnPointer") { self.ty(from); }
                format!("[\"cast\",{},{},{},{}]", js(&ks), self.operand(o, b), self.ty(*t), self.ty(from))
            }
            Rvalue::BinaryOp(op, x) => {
                let t = x.0.ty(&b.local_decls, self.tcx);
                format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", op)), self.operand(&x.0, b), self.operand(&x.1, b), self.ty(t))
            }
            Rvalue::UnaryOp(op, x) => {
                let t = x.ty(&b.local_decls, self.tcx);
                format!("[\"un\",{},{},{}]", js(&format!("{:?}", op)), self.operand(x, b), self.ty(t))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                format!("[\"disc\",{},{}]", self.place(p, b), self.ty(t))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o, b)).collect();
                let t = r.ty(&b.local_decls, self.tcx);
                let ti = self.ty(t);
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{},0,{}]", ti, jl(&o)),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{},0,{}]", ti, jl(&o)),
                    AggregateKind::Adt(_, v, _, _, uf) => {
                        let u = uf.map(|f| f.as_usize().to_string()).unwrap_or("null".into());
                        format!("[\"agg\",\"adt\",{},{},{},{}]", ti, v.as_usize(), jl(&o), u)
                    }
                    AggregateKind::Closure(..) => format!("[\"agg\",\"closure\",{},0,{}]", ti, jl(&o)),
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",{},0,{}]", ti, jl(&o)),
                    _ => format!("[\"agg\",\"other\",{},0,{}]", ti, jl(&o)),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, b)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p, b)),
            _ => "[\"unk\"]".to_string(),
        }
    }

    fn vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        let tcx = self.tcx;
        let (Some(f), Some(t)) = (ptr_target(from), ptr_target(to)) else { return };
        let ty::Dynamic(preds, ..) = t.kind() else { return };
        if matches!(f.kind(), ty::Dynamic(..)) { return; }
        if self.vtseen.insert((f, t), ()).is_some() { return; }
        let Some(principal) = preds.principal() else { return };
        let tr = principal.with_self_ty(tcx, f);
        let tr = tcx.instantiate_bound_regions_with_erased(tr);
        let tr = tcx.erase_and_anonymize_regions(tr);
        let mut es = vec![];
        for e in tcx.vtable_entries(tr).iter() {
            match e {
                ty::VtblEntry::Method(i) => {
                    let nm = self.path(i.def_id());
                    let id = self.inst(*i);
                    es.push(format!("[{},{}]", js(&nm), id));
                }
                _ => es.push("null".into()),
            }
        }
        let h = self.head(t);
        let fi = self.ty(f);
        self.vtables.push(format!("[{},{},{}]", fi, js(&h), jl(&es)));
    }

    fn term(&mut self, t: &Terminator<'tcx>, b: &Body<'tcx>) -> String {
        let sp = js(&self.span(t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&b.local_decls, self.tcx);
                let ts: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                format!("[\"switch\",{},{},{},{},{}]", self.operand(discr, b), jl(&ts), targets.otherwise().as_usize(), self.ty(ty), sp)
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&b.local_decls, self.tcx).ty;
                format!("[\"drop\",{},{},{}]", self.place(place, b), target.as_usize(), self.ty(ty))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(&b.local_decls, self.tcx);
                let callee = match fty.kind() {
                    ty::FnDef(did, a) => {
                        let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                        match Instance::try_resolve(self.tcx, self.env, *did, a) {
                            Ok(Some(i)) => self.inst(i).to_string(),
                            _ => js(&self.path(*did)),
                        }
                    }
                    _ => self.operand(func, b),
                };
                let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, b)).collect();
                let tg = target.map(|x| x.as_usize().to_string()).unwrap_or("null".into());
                format!("[\"call\",{},{},{},{},{}]", callee, jl(&a), self.place(destination, b), tg, sp)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = format!("{:?}", msg);
                let m = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                format!("[\"assert\",{},{},{},{},{}]", self.operand(cond, b), expected, js(&m), target.as_usize(), sp)
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                format!("[\"goto\",{}]", real_target.as_usize())
            }
            _ => "[\"unk\"]".into(),
        }
    }
}

fn ptr_target<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
    match t.kind() {
        ty::Ref(_, t, _) | ty::RawPtr(t, _) => Some(*t),
        ty::Adt(d, a) if d.is_box() => a.types().next(),
        _ => None,
    }
}
