//! rustc driver that dumps the monomorphic MIR reachable from the `pub fn` roots of the probe crate
//! as JSON.  Injected with RUSTC_WORKSPACE_WRAPPER; for every other crate it behaves as rustc.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv, Unnormalized, VtblEntry};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum FnItem<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(Instance<'tcx>, usize),
    ConstItem(Instance<'tcx>),
}

struct Leafs {
    exact: HashMap<String, ()>,
    prefix: Vec<String>,
    redirects: HashMap<String, (String, Vec<usize>)>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    leafs: Leafs,
    stubs: HashMap<String, LocalDefId>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    fns: Vec<Option<String>>,
    fn_ids: HashMap<FnItem<'tcx>, usize>,
    queue: VecDeque<(usize, FnItem<'tcx>)>,
    vts: Vec<String>,
    vt_ids: HashMap<(Ty<'tcx>, Ty<'tcx>), usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, def: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(def);
        if key.parent.is_none() {
            return tcx.crate_name(def.krate).to_string();
        }
        let parent = DefId { krate: def.krate, index: key.parent.unwrap() };
        let name = match tcx.def_kind(def) {
            DefKind::Closure => "{closure}".to_string(),
            _ => key.disambiguated_data.data.to_string(),
        };
        match tcx.def_kind(parent) {
            DefKind::Impl { .. } => {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let sk = self.self_key(st);
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    format!("<{} as {}>::{}", sk, self.path(tr.def_id), name)
                } else {
                    format!("{}::{}", sk, name)
                }
            }
            _ => format!("{}::{}", self.path(parent), name),
        }
    }
    fn self_key(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(d, _) => self.path(d.did()),
            TyKind::Ref(_, _, m) => if m.is_mut() { "&mut".into() } else { "&".into() },
            TyKind::RawPtr(_, m) => if m.is_mut() { "*mut".into() } else { "*const".into() },
            TyKind::Slice(_) => "[]".into(),
            TyKind::Array(..) => "[;]".into(),
            TyKind::Str => "str".into(),
            TyKind::Tuple(_) => "()".into(),
            TyKind::Param(_) => "?".into(),
            TyKind::Dynamic(..) => "dyn".into(),
            _ => format!("{}", t),
        }
    }
    fn is_leaf(&self, key: &str) -> bool {
        if self.leafs.exact.contains_key(key) {
            return true;
        }
        self.leafs.prefix.iter().any(|p| key.starts_with(p.as_str()))
    }

    // ---------------------------------------------------------------- types
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, id);
        let tcx = self.tcx;
        let name = esc(&t.to_string());
        let drop = if t.needs_drop(tcx, self.env) {
            let inst = Instance::resolve_drop_glue(tcx, t);
            format!("{}", self.fnid(FnItem::Inst(inst)))
        } else {
            "-1".to_string()
        };
        let body = match t.kind() {
            TyKind::Bool => "\"k\":\"bool\"".to_string(),
            TyKind::Char => "\"k\":\"char\"".to_string(),
            TyKind::Int(i) => format!("\"k\":\"int\",\"s\":1,\"b\":{}", i.bit_width().unwrap_or(64)),
            TyKind::Uint(i) => format!("\"k\":\"int\",\"s\":0,\"b\":{}", i.bit_width().unwrap_or(64)),
            TyKind::Float(_) => "\"k\":\"float\"".to_string(),
            TyKind::Str => "\"k\":\"str\"".to_string(),
            TyKind::Never => "\"k\":\"never\"".to_string(),
            TyKind::Adt(d, args) => {
                let path = self.path(d.did());
                let args_s: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
                let opaque = self.is_leaf(&format!("type:{}", path));
                let mut vs = vec![];
                if !opaque {
                    for (vi, v) in d.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(ft));
                            fs.push(self.ty(ft).to_string());
                        }
                        let names: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        let discr = if d.is_enum() {
                            t.discriminant_for_variant(tcx, vi)
                                .map(|x| match x.ty.kind() {
                                    TyKind::Int(i) => {
                                        let sh = 128 - i.bit_width().unwrap_or(64) as u32;
                                        ((x.val << sh) as i128) >> sh
                                    }
                                    _ => x.val as i128,
                                })
                                .unwrap_or(0)
                        } else {
                            0
                        };
                        vs.push(format!("[{},{},[{}],[{}]]", esc(v.name.as_str()), discr, fs.join(","), names.join(",")));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"path\":{},\"args\":[{}],\"kind\":\"{}\",\"opaque\":{},\"vs\":[{}],\"local\":{},\"dropimpl\":{}",
                    esc(&path),
                    args_s.join(","),
                    if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" },
                    opaque as u8,
                    vs.join(","),
                    d.did().is_local() as u8,
                    d.destructor(tcx).is_some() as u8
                )
            }
            TyKind::Tuple(ts) => {
                let s: Vec<String> = ts.iter().map(|a| self.ty(a).to_string()).collect();
                format!("\"k\":\"tuple\",\"ts\":[{}]", s.join(","))
            }
            TyKind::Closure(d, args) => {
                let s: Vec<String> = args.as_closure().upvar_tys().iter().map(|a| self.ty(a).to_string()).collect();
                format!("\"k\":\"closure\",\"path\":{},\"ts\":[{}]", esc(&self.path(*d)), s.join(","))
            }
            TyKind::Ref(_, u, m) => format!("\"k\":\"ref\",\"to\":{},\"m\":{}", self.ty(*u), m.is_mut() as u8),
            TyKind::RawPtr(u, m) => format!("\"k\":\"ptr\",\"to\":{},\"m\":{}", self.ty(*u), m.is_mut() as u8),
            TyKind::Slice(e) => format!("\"k\":\"slice\",\"to\":{}", self.ty(*e)),
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"to\":{},\"n\":{}", self.ty(*e), n)
            }
            TyKind::FnDef(d, args) => {
                let id = self.resolve_call(*d, tcx.instantiate_bound_regions_with_erased(*args));
                format!("\"k\":\"fndef\",\"f\":{}", id)
            }
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            TyKind::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            TyKind::Pat(b, _) => format!("\"k\":\"pat\",\"to\":{}", self.ty(*b)),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[id] = format!("{{\"n\":{},\"drop\":{},{}}}", name, drop, body);
        id
    }

    // ---------------------------------------------------------------- functions
    fn fnid(&mut self, it: FnItem<'tcx>) -> usize {
        if let Some(&i) = self.fn_ids.get(&it) {
            return i;
        }
        let id = self.fns.len();
        self.fns.push(None);
        self.fn_ids.insert(it.clone(), id);
        self.queue.push_back((id, it));
        id
    }
    // resolve a call of `def` with `args`; -1 when it cannot be resolved
    fn resolve_call(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> i64 {
        let tcx = self.tcx;
        let inst = match Instance::try_resolve(tcx, self.env, def, args) {
            Ok(Some(i)) => i,
            _ => return -1,
        };
        // redirects: by the resolved function first, then by the trait method called
        let kr = tcx.crate_name(inst.def_id().krate);
        let kr = kr.as_str();
        if !(kr == "goggles" || kr == "probe") {
            let k1 = self.path(inst.def_id());
            let k2 = self.path(def);
            let mut cand = vec![];
            if let Some(r) = self.leafs.redirects.get(&k1) {
                cand.push((r.clone(), inst.args));
            }
            if let Some(r) = self.leafs.redirects.get(&k2).filter(|_| !k1.contains("GenericShunt")) {
                cand.push((r.clone(), args));
            }
            for ((stub, sel), ga) in cand {
                if let Some(&ld) = self.stubs.get(&stub) {
                    let tys: Vec<Ty<'tcx>> = ga.types().collect();
                    if sel.iter().any(|&i| i >= tys.len()) {
                        continue;
                    }
                    let sel: Vec<ty::GenericArg<'tcx>> = sel.iter().map(|&i| tys[i].into()).collect();
                    let sargs = tcx.mk_args(&sel);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, ld.to_def_id(), sargs) {
                        return self.fnid(FnItem::Inst(i)) as i64;
                    }
                }
            }
        }
        self.fnid(FnItem::Inst(inst)) as i64
    }
    fn span(&self, sp: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return ("?".into(), 0);
        }
        let p = sm.lookup_char_pos(sp.lo());
        (format!("{}", p.file.name.prefer_local_unconditionally()), p.line)
    }

    fn emit(&mut self, id: usize, it: FnItem<'tcx>) {
        let tcx = self.tcx;
        let (inst, promoted, is_const) = match &it {
            FnItem::Inst(i) => (*i, None, false),
            FnItem::Promoted(i, p) => (*i, Some(*p), false),
            FnItem::ConstItem(i) => (*i, None, true),
        };
        let def = inst.def_id();
        let mut key = self.path(def);
        let mut extra = String::new();
        let mut body_owned: Option<&'tcx Body<'tcx>> = None;
        let args_s: Vec<String> = inst.args.types().map(|a| self.ty(a).to_string()).collect();
        let mut leaf = false;
        match inst.def {
            InstanceKind::Intrinsic(_) => {
                key = format!("intrinsic:{}", tcx.item_name(def));
                leaf = true;
            }
            InstanceKind::LlvmIntrinsic(_) => leaf = true,
            InstanceKind::Virtual(_, i) => {
                let _ = write!(extra, ",\"virtual\":{}", i);
                leaf = true;
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) => {
                let tk = match t.kind() {
                    TyKind::Adt(d, _) => self.path(d.did()),
                    _ => self.self_key(t),
                };
                key = format!("drop:{}", tk);
                let tid = self.ty(t);
                let _ = write!(extra, ",\"dropty\":{}", tid);
                if self.is_leaf(&key)
                    || matches!(t.kind(), TyKind::Dynamic(..) | TyKind::Slice(_) | TyKind::Array(..) | TyKind::Str)
                    || matches!(t.kind(), TyKind::Adt(..)) && self.is_leaf(&format!("type:{}", tk))
                {
                    leaf = true;
                }
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => {
                key = "drop:none".into();
                leaf = true;
            }
            InstanceKind::Shim(s) => {
                let n = match s {
                    ShimKind::VTable(_) => "vtable",
                    ShimKind::Reify(..) => "reify",
                    ShimKind::FnPtr(..) => "fnptr",
                    ShimKind::ClosureOnce { .. } => "closureonce",
                    ShimKind::Clone(..) => "clone",
                    _ => "other",
                };
                let _ = write!(extra, ",\"shim\":{}", esc(n));
            }
            InstanceKind::Item(_) => {}
        }
        if promoted.is_none() && !is_const && self.is_leaf(&key) {
            leaf = true;
        }
        let (file, line) = self.span(tcx.def_span(def));
        let kr = tcx.crate_name(def.krate).to_string();
        if !leaf {
            if let Some(p) = promoted {
                let pm = tcx.promoted_mir(def);
                body_owned = Some(&pm[Promoted::from_usize(p)]);
            } else if is_const {
                if matches!(tcx.def_kind(def), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst) {
                    body_owned = Some(tcx.mir_for_ctfe(def));
                }
            } else {
                let ok = match inst.def {
                    InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
                    _ => true,
                };
                if ok {
                    body_owned = Some(tcx.instance_mir(inst.def));
                }
            }
            if body_owned.is_none() {
                leaf = true;
                extra.push_str(",\"nomir\":1");
            }
        }
        let is_closure = matches!(tcx.def_kind(def), DefKind::Closure) && matches!(inst.def, InstanceKind::Item(_));
        let mut out = format!(
            "{{\"key\":{},\"args\":[{}],\"file\":{},\"line\":{},\"crate\":{},\"closure\":{}{}",
            esc(&key), args_s.join(","), esc(&file), line, esc(&kr), is_closure as u8, extra
        );
        if leaf {
            out.push_str(",\"leaf\":1}");
            self.fns[id] = Some(out);
            return;
        }
        let body = body_owned.unwrap();
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx, self.env, EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => {
                out.push_str(",\"leaf\":1,\"nomir\":2}");
                self.fns[id] = Some(out);
                return;
            }
        };
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(
            out,
            ",\"nargs\":{},\"spread\":{},\"locals\":[{}],\"blocks\":[",
            body.arg_count,
            body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1),
            locals.join(",")
        );
        let names: Vec<String> = body
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str()))),
                _ => None,
            })
            .collect();
        for (bi, (_, bb)) in body.basic_blocks.iter_enumerated().enumerate() {
            if bi > 0 {
                out.push(',');
            }
            let mut ss: Vec<String> = vec![];
            for s in &bb.statements {
                if let Some(x) = self.stmt(&body, inst, s) {
                    ss.push(x);
                }
            }
            let t = self.term(&body, inst, bb.terminator());
            let _ = write!(out, "[[{}],{},{}]", ss.join(","), t, bb.is_cleanup as u8);
        }
        let _ = write!(out, "],\"names\":[{}]}}", names.join(","));
        self.fns[id] = Some(out);
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("[{}", p.local.as_usize());
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            pt = pt.projection_ty(tcx, e);
            let t = self.ty(tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(pt.ty)));
            match e {
                ProjectionElem::Deref => {
                    let _ = write!(s, ",[\"d\",{}]", t);
                }
                ProjectionElem::Field(f, _) => {
                    let _ = write!(s, ",[\"f\",{},{}]", f.as_usize(), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"i\",{},{}]", l.as_usize(), t);
                }
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let _ = write!(s, ",[\"ci\",{},{},{}]", offset, from_end as u8, t);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, ",[\"s\",{},{},{},{}]", from, to, from_end as u8, t);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(s, ",[\"v\",{},{}]", v.as_usize(), t);
                }
                _ => {
                    let _ = write!(s, ",[\"o\",{}]", t);
                }
            }
        }
        s.push(']');
        s
    }

    fn constant(&mut self, inst: Instance<'tcx>, c: &Const<'tcx>, span: Span) -> String {
        let tcx = self.tcx;
        let ty = c.ty();
        let t = self.ty(ty);
        if let TyKind::FnDef(..) = ty.kind() {
            return format!("[\"z\",{}]", t);
        }
        if let Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                let i = Instance::new_raw(uv.def, uv.args);
                let id = self.fnid(FnItem::Promoted(i, p.as_usize()));
                return format!("[\"p\",{},{}]", t, id);
            }
        }
        let v = c.eval(tcx, self.env, span);
        if let Ok(v) = v {
            if let Some(s) = self.const_value(v, ty) {
                return s;
            }
        }
        if let Const::Unevaluated(uv, _) = c {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, uv.def, uv.args) {
                let id = self.fnid(FnItem::ConstItem(i));
                return format!("[\"p\",{},{}]", t, id);
            }
        }
        let _ = inst;
        format!("[\"?\",{},{}]", t, esc(&format!("{:?}", c)))
    }
    fn const_value(&mut self, v: ConstValue, ty: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let t = self.ty(ty);
        match (v, ty.kind()) {
            (ConstValue::ZeroSized, _) => Some(format!("[\"z\",{}]", t)),
            (ConstValue::Scalar(s), TyKind::Bool | TyKind::Char | TyKind::Uint(_)) => {
                let i = s.try_to_scalar_int().ok()?;
                Some(format!("[\"i\",{},{}]", t, i.to_bits_unchecked()))
            }
            (ConstValue::Scalar(s), TyKind::Int(_)) => {
                let i = s.try_to_scalar_int().ok()?;
                let sz = i.size();
                Some(format!("[\"i\",{},{}]", t, i.to_int(sz)))
            }
            (ConstValue::Slice { alloc_id, meta }, TyKind::Ref(_, inner, _)) if inner.is_str() => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                Some(format!("[\"s\",{},{}]", t, esc(&String::from_utf8_lossy(b))))
            }
            (_, TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Array(..)) => {
                if let TyKind::Adt(d, _) = ty.kind() {
                    if d.is_union() {
                        return None;
                    }
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, ty)?;
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.const_value(*fv, *ft)?);
                }
                Some(format!("[\"a\",{},{},[{}]]", t, d.variant.map(|v| v.as_usize()).unwrap_or(0), fs.join(",")))
            }
            _ => None,
        }
    }

    fn operand(&mut self, body: &Body<'tcx>, inst: Instance<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(inst, &c.const_, c.span)),
            Operand::RuntimeChecks(r) => {
                let t = self.ty(self.tcx.types.bool);
                let v = matches!(r, RuntimeChecks::OverflowChecks) as u8;
                format!("[\"k\",[\"i\",{},{}]]", t, v)
            }
        }
    }

    fn pointee(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match t.kind() {
            TyKind::Ref(_, u, _) | TyKind::RawPtr(u, _) => Some(*u),
            _ => None,
        }
    }
    fn unsize_pair(&self, s: Ty<'tcx>, d: Ty<'tcx>) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
        if let (Some(a), Some(b)) = (self.pointee(s), self.pointee(d)) {
            return Some((a, b));
        }
        if let (TyKind::Adt(a, aa), TyKind::Adt(b, ba)) = (s.kind(), d.kind()) {
            if a.did() == b.did() && a.is_struct() {
                for f in a.non_enum_variant().fields.iter() {
                    let x = self.tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(f.ty(self.tcx, aa).skip_norm_wip()));
                    let y = self.tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(f.ty(self.tcx, ba).skip_norm_wip()));
                    if x != y {
                        if let Some(r) = self.unsize_pair(x, y) {
                            return Some(r);
                        }
                    }
                }
            }
        }
        if let (TyKind::Pat(a, _), TyKind::Pat(b, _)) = (s.kind(), d.kind()) {
            return self.unsize_pair(*a, *b);
        }
        None
    }
    fn unsize_info(&mut self, s: Ty<'tcx>, d: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let Some((a, b)) = self.unsize_pair(s, d) else { return "[\"?\"]".into() };
        let (a, b) = tcx.struct_lockstep_tails_for_codegen(a, b, self.env);
        match (a.kind(), b.kind()) {
            (TyKind::Array(_, n), TyKind::Slice(_)) => {
                format!("[\"slice\",{}]", n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1))
            }
            (TyKind::Dynamic(..), TyKind::Dynamic(..)) => "[\"up\"]".into(),
            (_, TyKind::Dynamic(preds, _)) => {
                if let Some(&i) = self.vt_ids.get(&(a, b)) {
                    return format!("[\"dyn\",{}]", i);
                }
                let i = self.vts.len();
                self.vts.push(String::new());
                self.vt_ids.insert((a, b), i);
                let mut es = vec![];
                if let Some(p) = preds.principal() {
                    let tr = p.with_self_ty(tcx, a);
                    let tr = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(tr));
                    let tr = tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(tr));
                    for e in tcx.vtable_entries(tr) {
                        match e {
                            VtblEntry::Method(inst) => {
                                let inst = tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(*inst));
                                es.push(self.fnid(FnItem::Inst(inst)).to_string())
                            }
                            _ => es.push("-1".into()),
                        }
                    }
                }
                let at = self.ty(a);
                let bt = self.ty(b);
                self.vts[i] = format!("[{},{},[{}]]", at, bt, es.join(","));
                format!("[\"dyn\",{}]", i)
            }
            _ => "[\"?\"]".into(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, inst: Instance<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, inst, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.operand(body, inst, o),
                n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1)
            ),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. }) as u8;
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",2,{}]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(&body.local_decls, tcx);
                let st_n = tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(st));
                let (s, d) = (self.ty(st_n), self.ty(*t));
                let os = self.operand(body, inst, o);
                let (kn, info) = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize, _) => ("unsize", self.unsize_info(st_n, *t)),
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_), _) => {
                        let f = match st_n.kind() {
                            TyKind::FnDef(d, a) => self.resolve_call(*d, tcx.instantiate_bound_regions_with_erased(*a)),
                            _ => -1,
                        };
                        ("reify", f.to_string())
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _) => {
                        let f = match st_n.kind() {
                            TyKind::Closure(d, a) => {
                                let i = Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce);
                                self.fnid(FnItem::Inst(i)) as i64
                            }
                            _ => -1,
                        };
                        ("closurefn", f.to_string())
                    }
                    CastKind::PointerCoercion(..) => ("ptr", "0".into()),
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => ("ptr", "0".into()),
                    CastKind::IntToInt => ("int", "0".into()),
                    CastKind::Transmute | CastKind::BoxDerefTransmute => ("tr", "0".into()),
                    CastKind::Subtype => ("ptr", "0".into()),
                    _ => ("other", "0".into()),
                };
                format!("[\"cast\",\"{}\",{},{},{},{}]", kn, os, s, d, info)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                let t = if matches!(op, BinOp::Cmp) { op.ty(tcx, t, t) } else { t };
                let t = self.ty(t);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(body, inst, &ab.0), self.operand(body, inst, &ab.1), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t0 = a.ty(&body.local_decls, tcx);
                let t = self.ty(t0);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(body, inst, a), t)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let t = self.ty(t);
                format!("[\"disc\",{},{}]", self.place(body, p), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let t = r.ty(&body.local_decls, tcx);
                let t = tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(t));
                let t = self.ty(t);
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, inst, o)).collect();
                let (kn, v, af) = match &**k {
                    AggregateKind::Adt(_, v, _, _, f) => ("adt", v.as_usize(), f.map(|x| x.as_usize() as i64).unwrap_or(-1)),
                    AggregateKind::Array(_) => ("array", 0, -1),
                    AggregateKind::Tuple => ("tuple", 0, -1),
                    AggregateKind::Closure(..) => ("closure", 0, -1),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, -1),
                    _ => ("other", 0, -1),
                };
                format!("[\"agg\",\"{}\",{},{},{},[{}]]", kn, t, v, af, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, inst, o)),
        }
    }

    fn stmt(&mut self, body: &Body<'tcx>, inst: Instance<'tcx>, s: &Statement<'tcx>) -> Option<String> {
        Some(match &s.kind {
            StatementKind::Assign(pr) => {
                let rv = self.rvalue(body, inst, &pr.1);
                let (_, line) = self.span(s.source_info.span);
                format!("[\"=\",{},{},{}]", self.place(body, &pr.0), rv, line)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                format!("[\"sd\",{},{}]", self.place(body, place), variant_index.as_usize())
            }
            StatementKind::StorageLive(l) => format!("[\"sl\",{}]", l.as_usize()),
            StatementKind::StorageDead(l) => format!("[\"sx\",{}]", l.as_usize()),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => format!("[\"as\",{}]", self.operand(body, inst, o)),
                NonDivergingIntrinsic::CopyNonOverlapping(c) => format!(
                    "[\"cp\",{},{},{}]",
                    self.operand(body, inst, &c.src),
                    self.operand(body, inst, &c.dst),
                    self.operand(body, inst, &c.count)
                ),
            },
            _ => return None,
        })
    }

    fn unwind(&self, u: &UnwindAction) -> i64 {
        match u {
            UnwindAction::Continue => -1,
            UnwindAction::Unreachable => -2,
            UnwindAction::Terminate(_) => -3,
            UnwindAction::Cleanup(b) => b.as_usize() as i64,
        }
    }

    fn term(&mut self, body: &Body<'tcx>, inst: Instance<'tcx>, t: &Terminator<'tcx>) -> String {
        let (_, line) = self.span(t.source_info.span);
        let tcx = self.tcx;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"g\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, tcx);
                let bits = match ty.kind() {
                    TyKind::Int(i) => i.bit_width().unwrap_or(64) as i64,
                    _ => 0,
                };
                let vs: Vec<String> = targets
                    .iter()
                    .map(|(v, b)| {
                        let v = if bits > 0 {
                            let sh = 128 - bits as u32;
                            format!("{}", ((v << sh) as i128) >> sh)
                        } else {
                            format!("{}", v)
                        };
                        format!("[{},{}]", v, b.as_usize())
                    })
                    .collect();
                let ty = self.ty(ty);
                format!(
                    "[\"sw\",{},{},[{}],{},{}]",
                    self.operand(body, inst, discr),
                    ty,
                    vs.join(","),
                    targets.otherwise().as_usize(),
                    line
                )
            }
            TerminatorKind::UnwindResume => "[\"res\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => format!("[\"unr\",{}]", line),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&body.local_decls, tcx).ty;
                let ty = tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(ty));
                let t = self.ty(ty);
                format!("[\"drop\",{},{},{},{},{}]", self.place(body, place), t, target.as_usize(), self.unwind(unwind), line)
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let fty = func.ty(&body.local_decls, tcx);
                let fty = tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(fty));
                let f = match fty.kind() {
                    TyKind::FnDef(d, a) => {
                        let id = self.resolve_call(*d, tcx.instantiate_bound_regions_with_erased(*a));
                        if id < 0 {
                            format!("[\"unresolved\",{}]", esc(&self.path(*d)))
                        } else {
                            format!("[\"f\",{}]", id)
                        }
                    }
                    _ => format!("[\"o\",{}]", self.operand(body, inst, func)),
                };
                let aas: Vec<String> = args.iter().map(|a| self.operand(body, inst, &a.node)).collect();
                let dt = destination.ty(&body.local_decls, tcx).ty;
                let dt = tcx.normalize_erasing_regions(self.env, Unnormalized::new_wip(dt));
                let dt = self.ty(dt);
                let (cfile, cline) = self.span(t.source_info.span);
                let _ = cfile;
                format!(
                    "[\"call\",{},[{}],{},{},{},{},{}]",
                    f,
                    aas.join(","),
                    self.place(body, destination),
                    dt,
                    target.map(|b| b.as_usize() as i64).unwrap_or(-1),
                    self.unwind(unwind),
                    cline
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(..) => "overflow",
                    AssertKind::OverflowNeg(..) => "overflow",
                    AssertKind::DivisionByZero(_) => "div0",
                    AssertKind::RemainderByZero(_) => "rem0",
                    AssertKind::MisalignedPointerDereference { .. } => "align",
                    AssertKind::NullPointerDereference => "null",
                    AssertKind::NullReferenceConstructed => "null",
                    _ => "other",
                };
                format!(
                    "[\"assert\",{},{},\"{}\",{},{},{}]",
                    self.operand(body, inst, cond),
                    *expected as u8,
                    m,
                    target.as_usize(),
                    self.unwind(unwind),
                    line
                )
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"g\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"g\",{}]", real_target.as_usize()),
            k => format!("[\"?\",{}]", esc(&format!("{:?}", k))),
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut leafs = Leafs { exact: HashMap::new(), prefix: vec![], redirects: HashMap::new() };
        let lf = std::fs::read_to_string(std::env::var("MIRDUMP_LEAFS").unwrap()).unwrap();
        for l in lf.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if let Some((a, b)) = l.split_once(" => ") {
                let mut it = b.split_whitespace();
                let name = it.next().unwrap().to_string();
                let sel = it.map(|x| x.parse().unwrap()).collect();
                leafs.redirects.insert(a.trim().to_string(), (name, sel));
            } else if let Some(p) = l.strip_suffix('*') {
                leafs.prefix.push(p.to_string());
            } else {
                leafs.exact.insert(l.to_string(), ());
            }
        }
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            leafs,
            stubs: HashMap::new(),
            types: vec![],
            type_ids: HashMap::new(),
            fns: vec![],
            fn_ids: HashMap::new(),
            queue: VecDeque::new(),
            vts: vec![],
            vt_ids: HashMap::new(),
        };
        let mut roots: Vec<(String, usize)> = vec![];
        let only = std::env::var("MIRDUMP_ROOTS").ok();
        let mut cands = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            if tcx.def_kind(ld) == DefKind::Fn {
                let p = cx.path(ld.to_def_id());
                if let Some(n) = p.strip_prefix("probe::stubs::") {
                    cx.stubs.insert(n.to_string(), ld);
                } else if let Some(n) = p.strip_prefix("probe::roots::") {
                    let f = n.split("::").last().unwrap();
                    if n.split("::").count() == 2 && f.starts_with("t_") && only.as_ref().map(|o| o.split(',').any(|x| n.starts_with(x))).unwrap_or(true) {
                        cands.push((n.to_string(), ld));
                    }
                }
            }
        }
        for (n, ld) in cands {
            if tcx.generics_of(ld.to_def_id()).own_counts().types == 0 {
                let id = cx.fnid(FnItem::Inst(Instance::mono(tcx, ld.to_def_id())));
                roots.push((n, id));
            }
        }
        while let Some((id, it)) = cx.queue.pop_front() {
            cx.emit(id, it);
        }
        let mut s = String::new();
        s.push_str("{\"types\":[\n");
        s.push_str(&cx.types.join(",\n"));
        s.push_str("],\n\"fns\":[\n");
        let fs: Vec<String> = cx.fns.into_iter().map(|x| x.unwrap()).collect();
        s.push_str(&fs.join(",\n"));
        s.push_str("],\n\"vts\":[");
        s.push_str(&cx.vts.join(",\n"));
        s.push_str("],\n\"roots\":[");
        let rs: Vec<String> = roots.iter().map(|(n, i)| format!("[{},{}]", esc(n), i)).collect();
        s.push_str(&rs.join(","));
        s.push_str("]}\n");
        std::fs::write(&out, s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_probe = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "probe");
    if is_probe {
        std::process::exit(if rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)).is_ok() { 0 } else { 1 });
    } else {
        struct No;
        impl Callbacks for No {}
        std::process::exit(if rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut No)).is_ok() { 0 } else { 1 });
    }
}
