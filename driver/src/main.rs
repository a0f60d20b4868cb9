//! Dumps the typed syntax trees (THIR) of a crate as JSON, for the analyses in
//! ../../engine. Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`;
//! where THIRDUMP_OUT is unset it behaves like rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

struct Dump;

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("THIRDUMP_OUT").unwrap();
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let kinds = tcx.crate_types().iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join("-");
        let src = tcx.sess.local_crate_source_file()
            .map(|f| f.local_path().map(|p| p.to_string_lossy().to_string()).unwrap_or_default()).unwrap_or_default();
        let mut cx = Cx { tcx, types: vec![], type_ids: HashMap::new(), defs: BTreeMap::new(), adts: vec![], adt_seen: HashMap::new(), owner: None, labs: vec![] };
        let js = cx.krate(&krate, &kinds, &src);
        let slug: String = src.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        std::fs::create_dir_all(&out).unwrap();
        let path = format!("{out}/{krate}.{kinds}.{slug}.json");
        let tmp = format!("{path}.tmp{}", std::process::id());
        std::fs::write(&tmp, js).unwrap();
        std::fs::rename(&tmp, &path).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver_impl::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the path of rustc as the first argument of a wrapper.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("THIRDUMP_OUT").is_ok()
        && args.iter().any(|a| a == "--crate-name")
        && !args.iter().any(|a| a == "___" || a == "-")
        && !args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    if want {
        args.push("-Zno-steal-thir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("--cap-lints=allow".into());
        rustc_driver_impl::compiler_entrypoint(&args, &mut Dump);
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut Nop);
    }
}

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn qb(b: &[u8]) -> String { format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
fn list<I: IntoIterator<Item = String>>(i: I) -> String { format!("[{}]", i.into_iter().collect::<Vec<_>>().join(",")) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    defs: BTreeMap<String, String>,
    adts: Vec<String>,
    adt_seen: HashMap<DefId, ()>,
    owner: Option<LocalDefId>,
    /// Scopes entered since the last expression of another kind.
    labs: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))
        ))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(format!("{t}"))
        ))
    }
    fn hash(&self, d: DefId) -> String { format!("{:?}", self.tcx.def_path_hash(d).0).replace("Fingerprint", "").replace(['(', ')', ' '], "").replace(',', "-") }

    fn def(&mut self, d: DefId) -> String {
        let h = self.hash(d);
        if !self.defs.contains_key(&h) {
            self.defs.insert(h.clone(), String::new());
            let tcx = self.tcx;
            let kind = tcx.def_kind(d);
            let mut s = format!("{{\"path\":{},\"kind\":{},\"krate\":{},\"local\":{}", q(&self.path(d)), q(&format!("{kind:?}")), q(tcx.crate_name(d.krate).as_str()), d.is_local());
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public() { s.push_str(",\"pub\":true"); }
            if let Some(n) = tcx.opt_item_name(d) { let _ = write!(s, ",\"name\":{}", q(n.as_str())); }
            if let Some(p) = tcx.opt_parent(d) { let ph = self.hash(p); let _ = write!(s, ",\"parent\":{}", q(&ph)); self.def(p); }
            if let Some(t) = tcx.trait_of_assoc(d) { let _ = write!(s, ",\"trait\":{}", q(&self.path(t))); }
            if let Some(i) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let id = self.ty(st);
                let _ = write!(s, ",\"self_ty\":{id}");
                if tcx.impl_is_of_trait(i) {
                    let t = tcx.impl_trait_ref(i).skip_binder();
                    let _ = write!(s, ",\"impl_trait\":{}", q(&self.path(t.def_id)));
                    if let Some(ti) = tcx.trait_item_of(d) { let th = self.hash(ti); self.def(ti); let _ = write!(s, ",\"trait_item\":{}", q(&th)); }
                }
                if tcx.is_automatically_derived(i) { s.push_str(",\"derived\":true"); }
            }
            if matches!(kind, DefKind::Ctor(..)) {
                let p = tcx.parent(d);
                // The constructor of a variant or of a struct.
                let (adt, vi) = match tcx.def_kind(p) {
                    DefKind::Variant => { let a = tcx.parent(p); let ad = tcx.adt_def(a); (a, ad.variant_index_with_id(p).as_usize()) }
                    _ => (p, 0),
                };
                let ah = self.hash(adt); self.adt(adt);
                let _ = write!(s, ",\"ctor_adt\":{},\"ctor_variant\":{}", q(&ah), vi);
            }
            s.push('}');
            self.defs.insert(h.clone(), s);
        }
        q(&h)
    }

    fn adt(&mut self, d: DefId) {
        if self.adt_seen.insert(d, ()).is_some() { return; }
        let ad = self.tcx.adt_def(d);
        let h = self.def(d);
        let mut vs = vec![];
        for (vi, v) in ad.variants().iter_enumerated() {
            let disc = if ad.is_enum() { format!("{}", ad.discriminant_for_variant(self.tcx, vi).val) } else { "0".into() };
            let mut fs = vec![];
            for f in &v.fields {
                let t = if d.is_local() || ad.is_enum() { let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); self.ty(ft).to_string() } else { "null".into() };
                fs.push(format!("{{\"name\":{},\"ty\":{},\"pub\":{}}}", q(f.name.as_str()), t, f.vis.is_public()));
            }
            vs.push(format!("{{\"name\":{},\"disc\":{},\"fields\":{}}}", q(v.name.as_str()), disc, list(fs)));
        }
        let s = format!("{{\"def\":{h},\"path\":{},\"local\":{},\"enum\":{},\"variants\":{}}}", q(&self.path(d)), d.is_local(), ad.is_enum(), list(vs));
        self.adts.push(s);
    }

    fn gargs(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a.iter().filter_map(|x| if let Some(t) = x.as_type() { Some(self.ty(t).to_string()) } else { x.as_const().map(|c| q(&format!("{c}"))) }).collect();
        list(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.type_ids.get(&t) { return i; }
        let i = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, i);
        let s = q(&self.tystr(t));
        let body = match *t.kind() {
            ty::Adt(d, a) => { self.adt(d.did()); let h = self.def(d.did()); format!("\"k\":\"adt\",\"def\":{h},\"path\":{},\"args\":{}", q(&self.path(d.did())), self.gargs(a)) }
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"mut\":{},\"args\":[{}]", m.is_mut(), self.ty(t)),
            ty::RawPtr(t, _) => format!("\"k\":\"ptr\",\"args\":[{}]", self.ty(t)),
            ty::Slice(t) => format!("\"k\":\"slice\",\"args\":[{}]", self.ty(t)),
            ty::Array(t, n) => format!("\"k\":\"array\",\"args\":[{}],\"len\":{}", self.ty(t), n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); format!("\"k\":\"tuple\",\"args\":{}", list(v)) }
            ty::FnDef(d, a) => { let h = self.def(d); format!("\"k\":\"fndef\",\"def\":{h},\"args\":{}", self.gargs(a.no_bound_vars().unwrap_or_else(|| a.skip_binder()))) }
            ty::Closure(d, _) => { let h = self.def(d); format!("\"k\":\"closure\",\"def\":{h},\"args\":[]") }
            ty::FnPtr(..) => "\"k\":\"fnptr\",\"args\":[]".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\",\"args\":[]".to_string(),
            ty::Param(p) => format!("\"k\":\"param\",\"idx\":{},\"args\":[]", p.index),
            ty::Alias(..) => "\"k\":\"alias\",\"args\":[]".to_string(),
            ty::Bool => "\"k\":\"bool\",\"args\":[]".to_string(),
            ty::Char => "\"k\":\"char\",\"args\":[]".to_string(),
            ty::Str => "\"k\":\"str\",\"args\":[]".to_string(),
            ty::Int(_) => "\"k\":\"int\",\"args\":[]".to_string(),
            ty::Uint(_) => "\"k\":\"uint\",\"args\":[]".to_string(),
            ty::Float(_) => "\"k\":\"float\",\"args\":[]".to_string(),
            ty::Never => "\"k\":\"never\",\"args\":[]".to_string(),
            _ => "\"k\":\"other\",\"args\":[]".to_string(),
        };
        self.types[i] = format!("{{\"s\":{s},{body}}}");
        i
    }

    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        if sp.is_dummy() { return 0; }
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo()).file;
        f.name.clone().into_local_path().map(|p| p.to_string_lossy().to_string()).unwrap_or_default()
    }
    fn outer_macro(&self, sp: Span) -> Option<String> {
        let mut last = None;
        for e in sp.macro_backtrace() {
            if let rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Bang, _) = e.kind {
                if let Some(d) = e.macro_def_id { last = Some(self.path(d)); }
            }
        }
        last
    }

    fn callee(&mut self, t: Ty<'tcx>) -> String {
        if let ty::FnDef(d, a) = *t.kind() {
            let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
            let h = self.def(d);
            let ga = self.gargs(a);
            let mut res = "null".to_string();
            let tcx = self.tcx;
            if let Some(owner) = self.owner {
                let env = ty::TypingEnv::post_analysis(tcx, owner.to_def_id());
                let ae = tcx.erase_and_anonymize_regions(a);
                if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, ae) {
                        let k = match inst.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Virtual(..) => "virtual", ty::InstanceKind::Intrinsic(_) => "intrinsic", _ => "shim" };
                        let rh = self.def(inst.def_id());
                        res = format!("{{\"def\":{rh},\"k\":\"{k}\",\"args\":{}}}", self.gargs(inst.args));
                    }
                }
            }
            format!("{{\"def\":{h},\"args\":{ga},\"res\":{res}}}")
        } else { "null".into() }
    }

    fn scalar(&mut self, t: Ty<'tcx>, bits: u128, size: u64) -> String {
        match t.kind() {
            ty::Bool => format!("{{\"t\":\"bool\",\"v\":{}}}", bits != 0),
            ty::Char => format!("{{\"t\":\"char\",\"v\":{}}}", bits),
            ty::Uint(_) => format!("{{\"t\":\"int\",\"v\":{}}}", bits),
            ty::Int(_) => { let sh = 128 - size * 8; format!("{{\"t\":\"int\",\"v\":{}}}", ((bits << sh) as i128) >> sh) }
            ty::Float(_) => { let f = if size == 4 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits as u64) }; format!("{{\"t\":\"float\",\"v\":{}}}", q(&format!("{f:?}"))) }
            _ => format!("{{\"t\":\"bits\",\"v\":{}}}", bits),
        }
    }

    fn konst(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, t: Ty<'tcx>) -> String {
        if !matches!(t.kind(), ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) | ty::Float(_) | ty::Ref(..)) { return "null".into(); }
        let tcx = self.tcx;
        let Some(owner) = self.owner else { return "null".into() };
        let env = ty::TypingEnv::post_analysis(tcx, owner.to_def_id());
        let a = tcx.erase_and_anonymize_regions(a);
        if rustc_middle::ty::TypeVisitableExt::has_param(&a) { return "null".into(); }
        match tcx.const_eval_resolve(env, mir::UnevaluatedConst { def: d, args: a, promoted: None }, rustc_span::DUMMY_SP) {
            Ok(v) => {
                if let Some(si) = v.try_to_scalar_int() { return self.scalar(t, si.to_bits_unchecked(), si.size().bytes()); }
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if let ty::Ref(_, i, _) = t.kind() { if i.is_str() { return format!("{{\"t\":\"str\",\"v\":{}}}", q(&String::from_utf8_lossy(b))); } 
                        if let ty::Slice(e) = i.kind() { if *e == tcx.types.u8 { return format!("{{\"t\":\"bytes\",\"v\":{}}}", qb(b)); } } }
                }
                "null".into()
            }
            _ => "null".into(),
        }
    }

    fn value(&mut self, v: ty::Value<'tcx>) -> String {
        if let ty::Str = v.ty.kind() {
            let b: Option<Vec<u8>> = v.try_to_branch().and_then(|b| b.iter().map(|c| c.try_to_value().and_then(|x| x.try_to_leaf()).map(|l| l.to_u8())).collect());
            if let Some(b) = b { return format!("{{\"t\":\"str\",\"v\":{}}}", q(&String::from_utf8_lossy(&b))); }
        }
        if let Some(b) = v.try_to_raw_bytes(self.tcx) {
            let is_str = matches!(v.ty.kind(), ty::Ref(_, i, _) if i.is_str());
            return if is_str { format!("{{\"t\":\"str\",\"v\":{}}}", q(&String::from_utf8_lossy(b))) } else { format!("{{\"t\":\"bytes\",\"v\":{}}}", qb(b)) };
        }
        if let Some(s) = v.try_to_leaf() { return self.scalar(v.ty, s.to_bits_unchecked(), s.size().bytes()); }
        "null".into()
    }

    fn pat(&mut self, th: &Thir<'tcx>, p: &Pat<'tcx>) -> String {
        let t = self.ty(p.ty);
        let b = match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => "\"k\":\"Wild\"".to_string(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let by = match mode.0 { rustc_hir::ByRef::No => "null".to_string(), rustc_hir::ByRef::Yes(_, m) => q(if m.is_mut() { "mut" } else { "ref" }) };
                let sub = subpattern.as_ref().map(|s| self.pat(th, s)).unwrap_or("null".into());
                format!("\"k\":\"Bind\",\"name\":{},\"var\":{},\"by\":{by},\"sub\":{sub}", q(name.as_str()), var.0.local_id.as_u32())
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                self.adt(adt_def.did());
                let h = self.def(adt_def.did());
                let s: Vec<String> = subpatterns.iter().map(|f| format!("[{},{}]", f.field.as_usize(), self.pat(th, &f.pattern))).collect();
                format!("\"k\":\"Variant\",\"adt\":{h},\"v\":{},\"sub\":{}", variant_index.as_usize(), list(s))
            }
            PatKind::Leaf { subpatterns } => {
                let s: Vec<String> = subpatterns.iter().map(|f| format!("[{},{}]", f.field.as_usize(), self.pat(th, &f.pattern))).collect();
                format!("\"k\":\"Leaf\",\"sub\":{}", list(s))
            }
            PatKind::Deref { subpattern, .. } => format!("\"k\":\"Deref\",\"sub\":{}", self.pat(th, subpattern)),
            PatKind::DerefPattern { subpattern, .. } => format!("\"k\":\"DerefPat\",\"sub\":{}", self.pat(th, subpattern)),
            PatKind::Constant { value } => format!("\"k\":\"Const\",\"v\":{}", self.value(*value)),
            PatKind::Range(r) => {
                let f = |s: &mut Self, b: &PatRangeBoundary<'tcx>| match b { PatRangeBoundary::Finite(v) => s.value(ty::Value { ty: r.ty, valtree: *v }), _ => "null".into() };
                format!("\"k\":\"Range\",\"lo\":{},\"hi\":{},\"incl\":{}", f(self, &r.lo), f(self, &r.hi), matches!(r.end, rustc_hir::RangeEnd::Included))
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a: Vec<String> = prefix.iter().map(|p| self.pat(th, p)).collect();
                let c: Vec<String> = suffix.iter().map(|p| self.pat(th, p)).collect();
                format!("\"k\":\"Slice\",\"pre\":{},\"mid\":{},\"suf\":{}", list(a), slice.as_ref().map(|s| self.pat(th, s)).unwrap_or("null".into()), list(c))
            }
            PatKind::Or { pats } => { let a: Vec<String> = pats.iter().map(|p| self.pat(th, p)).collect(); format!("\"k\":\"Or\",\"pats\":{}", list(a)) }
            PatKind::Guard { subpattern, condition } => format!("\"k\":\"Guard\",\"sub\":{},\"cond\":{}", self.pat(th, subpattern), self.expr(th, *condition, None)),
            PatKind::Error(_) => "\"k\":\"Error\"".to_string(),
        };
        format!("{{{b},\"ty\":{t}}}")
    }

    fn block(&mut self, th: &Thir<'tcx>, b: BlockId, mac: Option<&str>) -> String {
        let bl = &th.blocks[b];
        let mut st = vec![];
        for s in bl.stmts.iter() {
            match &th.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => st.push(format!("{{\"k\":\"Expr\",\"e\":{}}}", self.expr(th, *expr, mac))),
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let i = initializer.map(|e| self.expr(th, e, mac)).unwrap_or("null".into());
                    let eb = else_block.map(|b| self.block(th, b, mac)).unwrap_or("null".into());
                    st.push(format!("{{\"k\":\"Let\",\"pat\":{},\"init\":{i},\"else\":{eb},\"l\":{}}}", self.pat(th, pattern), self.line(*span)));
                }
            }
        }
        let e = bl.expr.map(|e| self.expr(th, e, mac)).unwrap_or("null".into());
        let lab = if bl.targeted_by_break { self.scope(bl.region_scope) } else { "null".into() };
        format!("{{\"stmts\":{},\"e\":{e},\"label\":{lab}}}", list(st))
    }

    fn scope(&self, s: rustc_middle::middle::region::Scope) -> String { format!("{}", s.local_id.as_u32()) }

    fn expr(&mut self, th: &Thir<'tcx>, id: ExprId, pmac: Option<&str>) -> String {
        let e = &th.exprs[id];
        // A loop is named by the scope around it: breaks refer to that. The
        // adjustments of an expression (a coercion of `!`, say) lie between.
        if let ExprKind::Scope { value, region_scope, .. } = e.kind {
            let s = self.scope(region_scope);
            self.labs.push(s);
            return self.expr(th, value, pmac);
        }
        let labs = match e.kind {
            ExprKind::Loop { .. } => std::mem::take(&mut self.labs),
            ExprKind::NeverToAny { .. } | ExprKind::PointerCoercion { .. } | ExprKind::Borrow { .. } | ExprKind::Deref { .. } | ExprKind::ByUse { .. }
            | ExprKind::ValueExpr { .. } | ExprKind::Reborrow { .. } => vec![],
            _ => { self.labs.clear(); vec![] }
        };
        let t = self.ty(e.ty);
        let l = self.line(e.span);
        let mac = self.outer_macro(e.span);
        let mut pre = String::new();
        if let Some(m) = &mac { if Some(m.as_str()) != pmac { pre = format!(",\"mac\":{}", q(m)); } }
        let mac = mac.as_deref();
        let b = match &e.kind {
            ExprKind::Scope { .. } => unreachable!(),
            ExprKind::If { cond, then, else_opt, .. } => {
                let c = self.expr(th, *cond, mac); let a = self.expr(th, *then, mac);
                let el = else_opt.map(|x| self.expr(th, x, mac)).unwrap_or("null".into());
                format!("\"k\":\"If\",\"c\":{c},\"t\":{a},\"e\":{el}")
            }
            ExprKind::Call { ty: fty, fun, args, .. } => {
                let c = self.callee(*fty);
                let f = if c == "null" { self.expr(th, *fun, mac) } else { "null".into() };
                let a: Vec<String> = args.iter().map(|x| self.expr(th, *x, mac)).collect();
                format!("\"k\":\"Call\",\"callee\":{c},\"fun\":{f},\"args\":{}", list(a))
            }
            ExprKind::Deref { arg } => format!("\"k\":\"Deref\",\"a\":{}", self.expr(th, *arg, mac)),
            ExprKind::Binary { op, lhs, rhs } => { let a = self.expr(th, *lhs, mac); let c = self.expr(th, *rhs, mac); format!("\"k\":\"Binary\",\"op\":\"{op:?}\",\"a\":{a},\"b\":{c}") }
            ExprKind::LogicalOp { op, lhs, rhs } => { let a = self.expr(th, *lhs, mac); let c = self.expr(th, *rhs, mac); format!("\"k\":\"Logical\",\"op\":\"{op:?}\",\"a\":{a},\"b\":{c}") }
            ExprKind::Unary { op, arg } => format!("\"k\":\"Unary\",\"op\":\"{op:?}\",\"a\":{}", self.expr(th, *arg, mac)),
            ExprKind::Cast { source } => format!("\"k\":\"Cast\",\"a\":{}", self.expr(th, *source, mac)),
            ExprKind::NeverToAny { source } => format!("\"k\":\"Never\",\"a\":{}", self.expr(th, *source, mac)),
            ExprKind::ValueExpr { source } | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source } | ExprKind::ValueUnwrapUnsafeBinder { source } | ExprKind::WrapUnsafeBinder { source } => return self.expr(th, *source, mac),
            ExprKind::ByUse { expr, .. } => return self.expr(th, *expr, mac),
            ExprKind::PointerCoercion { cast, source, .. } => format!("\"k\":\"Coerce\",\"c\":{},\"a\":{}", q(&format!("{cast:?}")), self.expr(th, *source, mac)),
            ExprKind::Loop { body } => { let b = self.expr(th, *body, mac); format!("\"k\":\"Loop\",\"labels\":{},\"body\":{b}", list(labs)) }
            ExprKind::Let { expr, pat } => { let x = self.expr(th, *expr, mac); format!("\"k\":\"Let\",\"e\":{x},\"pat\":{}", self.pat(th, pat)) }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let s = self.expr(th, *scrutinee, mac);
                let a: Vec<String> = arms.iter().map(|a| { let a = &th.arms[*a];
                    let p = self.pat(th, &a.pattern);
                    let g = a.guard.map(|g| self.expr(th, g, mac)).unwrap_or("null".into());
                    format!("{{\"pat\":{p},\"guard\":{g},\"body\":{}}}", self.expr(th, a.body, mac)) }).collect();
                format!("\"k\":\"Match\",\"s\":{s},\"src\":{},\"arms\":{}", q(&format!("{match_source:?}")), list(a))
            }
            ExprKind::Block { block } => format!("\"k\":\"Block\",\"b\":{}", self.block(th, *block, mac)),
            ExprKind::Assign { lhs, rhs } => { let a = self.expr(th, *lhs, mac); let c = self.expr(th, *rhs, mac); format!("\"k\":\"Assign\",\"a\":{a},\"b\":{c}") }
            ExprKind::AssignOp { op, lhs, rhs } => { let a = self.expr(th, *lhs, mac); let c = self.expr(th, *rhs, mac); format!("\"k\":\"AssignOp\",\"op\":\"{op:?}\",\"a\":{a},\"b\":{c}") }
            ExprKind::Field { lhs, variant_index, name } => format!("\"k\":\"Field\",\"a\":{},\"v\":{},\"f\":{}", self.expr(th, *lhs, mac), variant_index.as_usize(), name.as_usize()),
            ExprKind::Index { lhs, index } => { let a = self.expr(th, *lhs, mac); let c = self.expr(th, *index, mac); format!("\"k\":\"Index\",\"a\":{a},\"i\":{c}") }
            ExprKind::VarRef { id } => format!("\"k\":\"Var\",\"var\":{}", id.0.local_id.as_u32()),
            ExprKind::UpvarRef { var_hir_id, .. } => format!("\"k\":\"Upvar\",\"var\":{}", var_hir_id.0.local_id.as_u32()),
            ExprKind::Borrow { borrow_kind, arg } => format!("\"k\":\"Borrow\",\"mut\":{},\"a\":{}", matches!(borrow_kind, mir::BorrowKind::Mut { .. }), self.expr(th, *arg, mac)),
            ExprKind::RawBorrow { arg, .. } => format!("\"k\":\"Borrow\",\"mut\":true,\"raw\":true,\"a\":{}", self.expr(th, *arg, mac)),
            ExprKind::Reborrow { source, .. } => return self.expr(th, *source, mac),
            ExprKind::Break { label, value } => format!("\"k\":\"Break\",\"label\":{},\"v\":{}", self.scope(*label), value.map(|v| self.expr(th, v, mac)).unwrap_or("null".into())),
            ExprKind::Continue { label } => format!("\"k\":\"Continue\",\"label\":{}", self.scope(*label)),
            ExprKind::Return { value } => format!("\"k\":\"Return\",\"v\":{}", value.map(|v| self.expr(th, v, mac)).unwrap_or("null".into())),
            ExprKind::Repeat { value, count } => format!("\"k\":\"Repeat\",\"v\":{},\"n\":{}", self.expr(th, *value, mac), count.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            ExprKind::Array { fields } => { let a: Vec<String> = fields.iter().map(|x| self.expr(th, *x, mac)).collect(); format!("\"k\":\"Array\",\"args\":{}", list(a)) }
            ExprKind::Tuple { fields } => { let a: Vec<String> = fields.iter().map(|x| self.expr(th, *x, mac)).collect(); format!("\"k\":\"Tuple\",\"args\":{}", list(a)) }
            ExprKind::Adt(a) => {
                self.adt(a.adt_def.did());
                let h = self.def(a.adt_def.did());
                let f: Vec<String> = a.fields.iter().map(|f| format!("[{},{}]", f.name.as_usize(), self.expr(th, f.expr, mac))).collect();
                let base = match &a.base { AdtExprBase::Base(b) => self.expr(th, b.base, mac), _ => "null".into() };
                format!("\"k\":\"Adt\",\"adt\":{h},\"v\":{},\"fields\":{},\"base\":{base}", a.variant_index.as_usize(), list(f))
            }
            ExprKind::Closure(c) => {
                let h = self.def(c.closure_id.to_def_id());
                format!("\"k\":\"Closure\",\"def\":{h}")
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let v = match &lit.node {
                    Str(s, _) => format!("{{\"t\":\"str\",\"v\":{}}}", q(s.as_str())),
                    ByteStr(b, _) | CStr(b, _) => format!("{{\"t\":\"bytes\",\"v\":{}}}", qb(b.as_byte_str())),
                    Byte(b) => format!("{{\"t\":\"int\",\"v\":{b}}}"),
                    Char(c) => format!("{{\"t\":\"char\",\"v\":{}}}", *c as u32),
                    Int(n, _) => if e.ty.is_floating_point() { format!("{{\"t\":\"float\",\"v\":{}}}", q(&format!("{}{}.0", if *neg { "-" } else { "" }, n.get()))) }
                        else { format!("{{\"t\":\"int\",\"v\":{}{}}}", if *neg { "-" } else { "" }, n.get()) },
                    Float(s, _) => { let f: f64 = s.as_str().replace('_', "").parse().unwrap_or(f64::NAN); format!("{{\"t\":\"float\",\"v\":{}}}", q(&format!("{:?}", if *neg { -f } else { f }))) }
                    Bool(b) => format!("{{\"t\":\"bool\",\"v\":{b}}}"),
                    Err(_) => "null".into(),
                };
                format!("\"k\":\"Lit\",\"v\":{v}")
            }
            ExprKind::NonHirLiteral { lit, .. } => { let v = self.scalar(e.ty, lit.to_bits_unchecked(), lit.size().bytes()); format!("\"k\":\"Lit\",\"v\":{v}") }
            ExprKind::ZstLiteral { .. } => { let c = self.callee(e.ty); format!("\"k\":\"Zst\",\"callee\":{c}") }
            ExprKind::NamedConst { def_id, args, .. } => { let h = self.def(*def_id); let v = self.konst(*def_id, args, e.ty); format!("\"k\":\"Const\",\"def\":{h},\"v\":{v}") }
            ExprKind::ConstBlock { did, .. } => { let h = self.def(*did); format!("\"k\":\"Const\",\"def\":{h},\"v\":null") }
            ExprKind::StaticRef { def_id, .. } => { let h = self.def(*def_id); format!("\"k\":\"Static\",\"def\":{h}") }
            other => format!("\"k\":\"Unsupported\",\"what\":{}", q(&format!("{other:?}").chars().take(40).collect::<String>())),
        };
        format!("{{{b},\"ty\":{t},\"l\":{l}{pre}}}")
    }

    fn krate(&mut self, name: &str, kinds: &str, src: &str) -> String {
        let tcx = self.tcx;
        let mut bodies = vec![];
        let mut failed = vec![];
        for ld in tcx.hir_body_owners() {
            self.owner = Some(ld);
            let did = ld.to_def_id();
            let h = self.def(did);
            let Ok((th, root)) = tcx.thir_body(ld) else { failed.push(h); continue };
            if th.is_stolen() { failed.push(h); continue }
            let th = th.borrow();
            let params: Vec<String> = th.params.iter().map(|p| { let t = self.ty(p.ty); let pt = p.pat.as_ref().map(|x| self.pat(&th, x)).unwrap_or("null".into()); format!("{{\"pat\":{pt},\"ty\":{t}}}") }).collect();
            let ret = match &th.body_type { BodyTy::Fn(s) => self.ty(s.output()), BodyTy::Const(t) | BodyTy::GlobalAsm(t) => self.ty(*t) };
            let body = self.expr(&th, root, None);
            let sp = tcx.def_span(did);
            let file = self.file(sp);
            let line = self.line(sp);
            let m = self.outer_macro(sp).map(|m| q(&m)).unwrap_or("null".into());
            let generated = sp.from_expansion();
            bodies.push(format!("{{\"def\":{h},\"file\":{},\"line\":{line},\"mac\":{m},\"gen\":{generated},\"params\":{},\"ret\":{ret},\"body\":{body}}}", q(&file), list(params)));
        }
        self.owner = None;
        // Impl blocks and statics.
        let mut impls = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = self.ty(st);
                    let tr = if of_trait { q(&self.path(tcx.impl_trait_id(d))) } else { "null".into() };
                    let items: Vec<String> = tcx.associated_item_def_ids(d).iter().map(|x| self.def(*x)).collect();
                    impls.push(format!("{{\"self_ty\":{t},\"trait\":{tr},\"derived\":{},\"items\":{}}}", tcx.is_automatically_derived(d), list(items)));
                }
                DefKind::Static { mutability, .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = self.ty(st); let h = self.def(d);
                    let sp = tcx.def_span(d);
                    statics.push(format!("{{\"def\":{h},\"mut\":{},\"ty\":{t},\"file\":{},\"line\":{},\"gen\":{}}}", mutability.is_mut(), q(&self.file(sp)), self.line(sp), sp.from_expansion()));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => self.adt(d),
                _ => {}
            }
        }
        let defs: Vec<String> = self.defs.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        format!("{{\"crate\":{},\"kinds\":{},\"src\":{},\"types\":[{}],\n\"defs\":{{{}}},\n\"adts\":[{}],\n\"impls\":[{}],\n\"statics\":[{}],\n\"failed\":[{}],\n\"bodies\":[\n{}]}}",
            q(name), q(kinds), q(src), self.types.join(","), defs.join(","), self.adts.join(","), impls.join(","), statics.join(","), failed.join(","), bodies.join(",\n"))
    }
}
