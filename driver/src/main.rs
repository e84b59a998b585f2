//! mirdump: a rustc wrapper that writes the type-checked, resolved program
//! (MIR of every function of the crate, plus the generic/inline library
//! functions it reaches, with callees resolved by the compiler) as JSON.
//! It decides nothing: all rules live in the Python analyser.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(items: &[String]) -> String {
    format!("[{}]", items.join(","))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Key<'tcx> {
    Inst(Instance<'tcx>, TypingEnv<'tcx>),
    Promoted(Instance<'tcx>, TypingEnv<'tcx>, Promoted),
    Const(Instance<'tcx>, TypingEnv<'tcx>),
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<(Ty<'tcx>, TypingEnv<'tcx>), usize>,
    bodies: Vec<(usize, String)>,
    body_ids: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(usize, Key<'tcx>, usize)>,
    deny: Vec<String>,
    roots: Vec<String>,
    skipped: Vec<String>,
    max_depth: usize,
}

fn deny_list() -> Vec<String> {
    match std::env::var("MIRDUMP_DENY") {
        Ok(p) => std::fs::read_to_string(p)
            .map(|s| {
                s.lines()
                    .map(|l| l.trim().to_string())
                    .filter(|l| !l.is_empty() && !l.starts_with('#'))
                    .collect()
            })
            .unwrap_or_default(),
        Err(_) => vec![],
    }
}

impl<'tcx> Dump<'tcx> {
    fn norm<T>(&self, env: TypingEnv<'tcx>, args: GenericArgsRef<'tcx>, v: T) -> Option<T>
    where
        T: ty::TypeFoldable<TyCtxt<'tcx>>,
    {
        let inst = Instance { def: InstanceKind::Item(LOCAL_CRATE.as_def_id()), args };
        let _ = inst;
        self.tcx
            .try_instantiate_and_normalize_erasing_regions(args, env, EarlyBinder::bind(self.tcx, v))
            .ok()
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&(t, env)) {
            return *i;
        }
        let id = self.types.len();
        self.type_ids.insert((t, env), id);
        self.types.push(String::new());
        let tcx = self.tcx;
        let s = match *t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".to_string(),
            ty::Char => "{\"k\":\"char\"}".to_string(),
            ty::Int(i) => format!("{{\"k\":\"int\",\"n\":{},\"b\":{}}}", esc(i.name_str()), i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("{{\"k\":\"uint\",\"n\":{},\"b\":{}}}", esc(i.name_str()), i.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("{{\"k\":\"float\",\"n\":{},\"b\":{}}}", esc(f.name_str()), f.bit_width()),
            ty::Str => "{\"k\":\"str\"}".to_string(),
            ty::Never => "{\"k\":\"never\"}".to_string(),
            ty::Ref(_, u, m) => format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", self.ty(u, env), m.is_mut()),
            ty::RawPtr(u, m) => format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{}}}", self.ty(u, env), m.is_mut()),
            ty::Slice(u) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(u, env)),
            ty::Array(u, n) => {
                let len = n
                    .try_to_target_usize(tcx)
                    .map(|v| v.to_string())
                    .unwrap_or_else(|| esc(&n.to_string()));
                format!("{{\"k\":\"array\",\"t\":{},\"len\":{}}}", self.ty(u, env), len)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|u| self.ty(u, env).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"ts\":{}}}", arr(&v))
            }
            ty::Adt(def, args) => {
                let path = tcx.def_path_str(def.did());
                let gargs: Vec<String> = args.types().map(|u| self.ty(u, env).to_string()).collect();
                let consts: Vec<String> = args.consts().map(|c| esc(&c.to_string())).collect();
                let mut vs = vec![];
                let local = def.did().is_local();
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).to_string()
                    } else {
                        "0".to_string()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args).skip_normalization();
                        let fty = tcx
                            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(fty))
                            .unwrap_or(fty);
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(fty, env)));
                    }
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":{}}}",
                        esc(v.name.as_str()),
                        esc(&discr),
                        arr(&fs)
                    ));
                }
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                format!(
                    "{{\"k\":\"adt\",\"p\":{},\"kind\":\"{}\",\"local\":{},\"args\":{},\"consts\":{},\"v\":{}}}",
                    esc(&path), kind, local, arr(&gargs), arr(&consts), arr(&vs)
                )
            }
            ty::Closure(did, args) => {
                let path = tcx.def_path_str(did);
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|u| self.ty(u, env).to_string())
                    .collect();
                let inst = Instance::new_raw(did, args);
                let b = if did.is_local() || (tcx.is_mir_available(did) && !self.denied(&path)) {
                    self.body(Key::Inst(inst, env), if did.is_local() { 0 } else { 1 })
                } else {
                    -1
                };
                format!(
                    "{{\"k\":\"closure\",\"p\":{},\"ups\":{},\"body\":{}}}",
                    esc(&path), arr(&ups), b
                )
            }
            ty::FnDef(did, args) => {
                let c = match args.no_bound_vars() {
                    Some(a) => self.callee(did, a, env, 0),
                    None => format!("{{\"p\":{}}}", esc(&tcx.def_path_str(did))),
                };
                format!("{{\"k\":\"fndef\",\"c\":{}}}", c)
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", esc(&t.to_string())),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&t.to_string())),
            ty::Alias(..) => format!("{{\"k\":\"alias\",\"s\":{}}}", esc(&t.to_string())),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&t.to_string())),
        };
        self.types[id] = s.replacen('{', &format!("{{\"s\":{},", esc(&t.to_string())), 1);
        // types that already carry an "s" keep the last one; harmless duplicates
        id
    }

    fn denied(&self, path: &str) -> bool {
        self.deny.iter().any(|d| path.starts_with(d.as_str()))
    }

    fn body(&mut self, k: Key<'tcx>, depth: usize) -> i64 {
        if let Some(i) = self.body_ids.get(&k) {
            return *i as i64;
        }
        let id = self.body_ids.len();
        self.body_ids.insert(k, id);
        self.queue.push_back((id, k, depth));
        id as i64
    }

    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let path = tcx.def_path_str(did);
        let mut o = format!("{{\"p\":{}", esc(&path));
        let targs: Vec<String> = args.types().map(|u| self.ty(u, env).to_string()).collect();
        let cargs: Vec<String> = args.consts().map(|c| esc(&c.to_string())).collect();
        let _ = write!(o, ",\"args\":{},\"cargs\":{}", arr(&targs), arr(&cargs));
        let _ = write!(o, ",\"crate\":{}", esc(tcx.crate_name(did.krate).as_str()));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"tr\":{}", esc(&tcx.def_path_str(tr)));
        }
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            let parent = tcx.parent(did);
            let (adt, vidx) = if tcx.def_kind(parent) == DefKind::Variant {
                let adt = tcx.adt_def(tcx.parent(parent));
                (adt, adt.variant_index_with_id(parent).as_usize())
            } else {
                (tcx.adt_def(parent), 0)
            };
            let t = Ty::new_adt(tcx, adt, args);
            let _ = write!(o, ",\"ctor\":[{},{}]", self.ty(t, env), vidx);
            o.push('}');
            return o;
        }
        let mut body: i64 = -1;
        match Instance::try_resolve(tcx, env, did, args) {
            Ok(Some(inst)) => {
                let rp = tcx.def_path_str(inst.def_id());
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                    InstanceKind::Shim(_) => "shim",
                };
                let ra: Vec<String> = inst.args.types().map(|u| self.ty(u, env).to_string()).collect();
                let _ = write!(o, ",\"rp\":{},\"kind\":\"{}\",\"rargs\":{}", esc(&rp), kind, arr(&ra));
                let _ = write!(o, ",\"rcrate\":{}", esc(tcx.crate_name(inst.def_id().krate).as_str()));
                if kind == "item" {
                    let d = inst.def_id();
                    let mir = d.is_local() || tcx.is_mir_available(d);
                    let isfn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
                    if mir && isfn && (d.is_local() || (!self.denied(&rp) && !self.denied(&path) && depth < self.max_depth)) {
                        body = self.body(Key::Inst(inst, env), depth + if d.is_local() { 0 } else { 1 });
                    }
                }
            }
            Ok(None) => {
                let _ = write!(o, ",\"kind\":\"unresolved\"");
                // the provided body of an unresolved trait method
                let isfn = matches!(tcx.def_kind(did), DefKind::AssocFn);
                let has = tcx.trait_of_assoc(did).is_some() && isfn && tcx.defaultness(did).has_value();
                let cr = tcx.crate_name(did.krate).to_string();
                if has && (did.is_local() || cr.starts_with("serde")) && (did.is_local() || tcx.is_mir_available(did)) && depth < self.max_depth {
                    let db = self.body(Key::Inst(Instance::new_raw(did, args), env), depth + 1);
                    let _ = write!(o, ",\"db\":{}", db);
                }
            }
            Err(_) => {
                let _ = write!(o, ",\"kind\":\"error\"");
            }
        }
        let _ = write!(o, ",\"b\":{}}}", body);
        o
    }

    fn span(&self, sp: Span) -> String {
        let tcx = self.tcx;
        let sm = tcx.sess.source_map();
        let site = sp.source_callsite();
        let loc = sm.lookup_char_pos(site.lo());
        let name = format!("{}", loc.file.name.prefer_remapped_unconditionally());
        format!("[{},{},{}]", esc(&name), loc.line, sp.from_expansion())
    }

    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>, ar: GenericArgsRef<'tcx>) -> String {
        let mut ps = vec![];
        for e in p.projection.iter() {
            ps.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(env, ar, t).unwrap_or(t);
                    format!("[\"f\",{},{}]", f.as_usize(), self.ty(t, env))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"v\",{},{}]",
                    v.as_usize(),
                    esc(n.map(|s| s.to_string()).unwrap_or_default().as_str())
                ),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(&ps))
    }

    fn alloc_bytes(&self, alloc: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if off + len > a.len() || !a.provenance().ptrs().is_empty() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        match s {
            Scalar::Int(i) => {
                let size = i.size();
                let v = i.to_bits(size);
                let neg = matches!(t.kind(), ty::Int(_));
                if neg {
                    format!("{{\"int\":{},\"t\":{}}}", esc(&size.sign_extend(v).to_string()), self.ty(t, env))
                } else {
                    format!("{{\"int\":{},\"t\":{}}}", esc(&v.to_string()), self.ty(t, env))
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(e, n) = inner.kind() {
                        if let (ty::Uint(ty::UintTy::U8), Some(n)) = (e.kind(), n.try_to_target_usize(self.tcx)) {
                            if let Some(b) = self.alloc_bytes(id, off.bytes_usize(), n as usize) {
                                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                return format!("{{\"bytes\":{},\"t\":{}}}", arr(&v), self.ty(t, env));
                            }
                        }
                    }
                }
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Static(d) => {
                        {
                            let st = self.tcx.type_of(d).instantiate_identity();
                            let frozen = st.skip_normalization().is_freeze(self.tcx, TypingEnv::fully_monomorphized());
                            let m = self.tcx.is_mutable_static(d) || !frozen;
                            let mut sb: i64 = -1;
                            if !m && d.is_local() {
                                sb = self.body(Key::Const(Instance::mono(self.tcx, d), TypingEnv::fully_monomorphized()), 0);
                            }
                            format!("{{\"static\":{},\"smut\":{},\"sb\":{},\"t\":{}}}", esc(&self.tcx.def_path_str(d)), m, sb, self.ty(t, env))
                        }
                    }
                    GlobalAlloc::Function { instance } => {
                        let c = self.callee(instance.def_id(), instance.args, env, 0);
                        format!("{{\"fnp\":{},\"t\":{}}}", c, self.ty(t, env))
                    }
                    _ => format!("{{\"opaque\":\"ptr\",\"t\":{}}}", self.ty(t, env)),
                }
            }
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, ar: GenericArgsRef<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let k = self.norm(env, ar, c.const_).unwrap_or(c.const_);
        let t = k.ty();
        if let ty::FnDef(did, args) = *t.kind() {
            return match args.no_bound_vars() {
                Some(a) => format!("{{\"fn\":{},\"t\":{}}}", self.callee(did, a, env, depth), self.ty(t, env)),
                None => format!("{{\"fn\":{{\"p\":{},\"b\":-1}}}}", esc(&tcx.def_path_str(did))),
            };
        }
        if let Const::Unevaluated(u, _) = k {
            let inst = Instance::new_raw(u.def, u.args);
            if let Some(p) = u.promoted {
                let b = self.body(Key::Promoted(inst, env, p), depth);
                return format!("{{\"promoted\":{},\"t\":{}}}", b, self.ty(t, env));
            }
            let scalar_ty = t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point();
            if scalar_ty {
                if let Ok(ConstValue::Scalar(s)) = k.eval(tcx, env, c.span) {
                    let r = self.scalar(s, t, env);
                    return r.replacen('{', &format!("{{\"name\":{},", esc(&tcx.def_path_str(u.def))), 1);
                }
            }
            if let Ok(Some(ri)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                let d = ri.def_id();
                if d.is_local() {
                    let b = self.body(Key::Const(ri, env), depth);
                    return format!("{{\"const\":{},\"name\":{},\"t\":{}}}", b, esc(&tcx.def_path_str(d)), self.ty(t, env));
                }
            }
            if let Ok(v) = k.eval(tcx, env, c.span) {
                return self.const_value(v, t, env);
            }
            return format!("{{\"opaque\":{},\"t\":{}}}", esc(&format!("{}", tcx.def_path_str(u.def))), self.ty(t, env));
        }
        if let Const::Ty(_, ct) = k {
            if let ty::ConstKind::Param(p) = ct.kind() {
                return format!("{{\"cparam\":{},\"t\":{}}}", esc(p.name.as_str()), self.ty(t, env));
            }
        }
        match k.eval(tcx, env, c.span) {
            Ok(v) => self.const_value(v, t, env),
            Err(_) => format!("{{\"opaque\":{},\"t\":{}}}", esc(&format!("{k}")), self.ty(t, env)),
        }
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(s) => self.scalar(s, t, env),
            ConstValue::ZeroSized => format!("{{\"zst\":true,\"t\":{}}}", self.ty(t, env)),
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8))) {
                        if let Some(b) = self.alloc_bytes(alloc_id, 0, meta as usize) {
                            if inner.is_str() {
                                return format!("{{\"str\":{},\"t\":{}}}", esc(&String::from_utf8_lossy(&b)), self.ty(t, env));
                            }
                            let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            return format!("{{\"bytes\":{},\"t\":{}}}", arr(&v), self.ty(t, env));
                        }
                    }
                }
                format!("{{\"opaque\":\"slice\",\"t\":{}}}", self.ty(t, env))
            }
            ConstValue::Indirect { .. } => {
                // destructure ADT/tuple constants one level at a time
                let fits = match t.kind() {
                    ty::Tuple(_) => true,
                    ty::Adt(d, _) => !d.is_union() && (d.did().is_local() || d.is_enum()),
                    ty::Array(_, n) => n.try_to_target_usize(tcx).is_some(),
                    _ => false,
                };
                let d = if fits { tcx.try_destructure_mir_constant_for_user_output(v, t) } else { None };
                if let Some(d) = d {
                    let fs: Vec<String> = d
                        .fields
                        .iter()
                        .map(|(fv, ft)| self.const_value(*fv, *ft, env))
                        .collect();
                    return format!(
                        "{{\"agg\":{},\"var\":{},\"t\":{}}}",
                        arr(&fs),
                        d.variant.map(|x| x.as_usize() as i64).unwrap_or(-1),
                        self.ty(t, env)
                    );
                }
                format!("{{\"opaque\":\"indirect\",\"t\":{}}}", self.ty(t, env))
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, ar: GenericArgsRef<'tcx>, depth: usize) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, env, ar)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, env, ar)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, env, ar, depth)),
            #[allow(unreachable_patterns)]
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, ar: GenericArgsRef<'tcx>, depth: usize, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env, ar, depth)),
            Rvalue::Repeat(o, n) => {
                let n = self.norm(env, ar, *n).unwrap_or(*n);
                let len = n
                    .try_to_target_usize(tcx)
                    .map(|v| v.to_string())
                    .unwrap_or_else(|| esc(&n.to_string()));
                format!("[\"rep\",{},{}]", self.operand(o, env, ar, depth), len)
            }
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p, env, ar)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p, env, ar)),
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(env, ar, *t).unwrap_or(*t);
                let ot = o.ty(&body.local_decls, tcx);
                let ot = self.norm(env, ar, ot).unwrap_or(ot);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{k:?}")),
                    self.operand(o, env, ar, depth),
                    self.ty(ot, env),
                    self.ty(t, env)
                )
            }
            Rvalue::BinaryOp(op, ops) => {
                let ot = ops.0.ty(&body.local_decls, tcx);
                let ot = self.norm(env, ar, ot).unwrap_or(ot);
                format!(
                    "[\"bin\",\"{:?}\",{},{},{}]",
                    op,
                    self.operand(&ops.0, env, ar, depth),
                    self.operand(&ops.1, env, ar, depth),
                    self.ty(ot, env)
                )
            }
            Rvalue::UnaryOp(op, o) => {
                let ot = o.ty(&body.local_decls, tcx);
                let ot = self.norm(env, ar, ot).unwrap_or(ot);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(o, env, ar, depth), self.ty(ot, env))
            }
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&body.local_decls, tcx).ty;
                let pt = self.norm(env, ar, pt).unwrap_or(pt);
                format!("[\"disc\",{},{}]", self.place(p, env, ar), self.ty(pt, env))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, env, ar)),
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|o| self.operand(o, env, ar, depth)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.norm(env, ar, *t).unwrap_or(*t);
                        format!("[\"array\",{}]", self.ty(t, env))
                    }
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(did, v, args, _, active) => {
                        let t = tcx.type_of(*did).instantiate(tcx, args).skip_normalization();
                        let t = self.norm(env, ar, t).unwrap_or(t);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t, env),
                            v.as_usize(),
                            active.map(|f| f.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(did, args) => {
                        let t = Ty::new_closure(tcx, *did, args);
                        let t = self.norm(env, ar, t).unwrap_or(t);
                        format!("[\"closure\",{}]", self.ty(t, env))
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.norm(env, ar, *t).unwrap_or(*t);
                        format!("[\"rawptr\",{}]", self.ty(t, env))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(&v))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn dump_body(&mut self, id: usize, k: Key<'tcx>, depth: usize) {
        let tcx = self.tcx;
        let (inst, env, body): (Instance<'tcx>, TypingEnv<'tcx>, &Body<'tcx>) = match k {
            Key::Inst(i, e) => (i, e, tcx.instance_mir(i.def)),
            Key::Promoted(i, e, p) => (i, e, &tcx.promoted_mir(i.def_id())[p]),
            Key::Const(i, e) => (i, e, tcx.mir_for_ctfe(i.def_id())),
        };
        let ar = inst.args;
        let path = tcx.def_path_str(inst.def_id());
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let t = self.norm(env, ar, l.ty).unwrap_or(l.ty);
            locals.push(self.ty(t, env).to_string());
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p, env, ar)));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, env, ar);
                        let r = self.rvalue(&b.1, env, ar, depth, body);
                        st.push(format!("[\"=\",{},{},{}]", p, r, self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place, env, ar), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{}]", esc(&format!("{i:?}"))));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ot = discr.ty(&body.local_decls, tcx);
                    let ot = self.norm(env, ar, ot).unwrap_or(ot);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize()))
                        .collect();
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.operand(discr, env, ar, depth),
                        self.ty(ot, env),
                        arr(&v),
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.norm(env, ar, pt).unwrap_or(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place, env, ar), target.as_usize(), self.ty(pt, env))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env, ar, depth);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env, ar, depth)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        arr(&a),
                        self.place(destination, env, ar),
                        target.map(|b| b.as_usize() as i64).unwrap_or(-1),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(len, env, ar, depth),
                            self.operand(index, env, ar, depth)
                        ),
                        AssertKind::Overflow(op, ..) => format!("[\"overflow\",\"{op:?}\"]"),
                        AssertKind::OverflowNeg(_) => "[\"overflow\",\"Neg\"]".to_string(),
                        AssertKind::DivisionByZero(_) => "[\"div0\"]".to_string(),
                        AssertKind::RemainderByZero(_) => "[\"rem0\"]".to_string(),
                        m => format!("[\"other\",{}]", esc(&format!("{m:?}"))),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond, env, ar, depth),
                        expected,
                        m,
                        target.as_usize(),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".to_string(),
                o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(&st), t, bb.is_cleanup));
        }
        let kind = match k {
            Key::Inst(..) => "fn",
            Key::Promoted(..) => "promoted",
            Key::Const(..) => "const",
        };
        let parent = tcx.opt_parent(inst.def_id()).map(|d| tcx.def_path_str(d)).unwrap_or_default();
        let trait_item = tcx
            .opt_associated_item(inst.def_id())
            .and_then(|ai| ai.trait_item_def_id())
            .map(|d| tcx.def_path_str(d))
            .unwrap_or_default();
        let upstr: Vec<String> = ar.types().map(|t| self.ty(t, env).to_string()).collect();
        let s = format!(
            "{{\"id\":{},\"kind\":\"{}\",\"path\":{},\"parent\":{},\"trait\":{},\"crate\":{},\"args\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"span\":{},\"blocks\":{}}}",
            id,
            kind,
            esc(&path),
            esc(&parent),
            esc(&trait_item),
            esc(tcx.crate_name(inst.def_id().krate).as_str()),
            arr(&upstr),
            body.arg_count,
            body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1),
            arr(&locals),
            arr(&names),
            self.span(body.span),
            arr(&blocks)
        );
        self.bodies.push((id, s));
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let ctype = format!("{:?}", tcx.crate_types().first());
        let kind = if ctype.contains("Executable") { "bin" } else { "lib" };
        let mut d = Dump {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            bodies: vec![],
            body_ids: HashMap::new(),
            queue: VecDeque::new(),
            deny: deny_list(),
            roots: vec![],
            skipped: vec![],
            max_depth: std::env::var("MIRDUMP_DEPTH").ok().and_then(|s| s.parse().ok()).unwrap_or(12),
        };
        let owners: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for ld in owners {
            let did = ld.to_def_id();
            let dk = tcx.def_kind(did);
            let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn);
            if !is_fn {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let env = TypingEnv::post_analysis(tcx, did);
            let inst = Instance::new_raw(did, args);
            let id = d.body(Key::Inst(inst, env), 0);
            let vis = tcx.visibility(did).is_public();
            let parent = tcx.opt_parent(did);
            let mut extra = String::new();
            if let Some(p) = parent {
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_normalization();
                    let st = tcx.erase_and_anonymize_regions(st);
                    let _ = write!(extra, ",\"self\":{}", d.ty(st, env));
                    let _ = write!(extra, ",\"selfs\":{}", esc(&st.to_string()));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_normalization();
                        let _ = write!(extra, ",\"tr\":{}", esc(&tcx.def_path_str(tr.def_id)));
                        let ta: Vec<String> = tr.args.types().map(|t| { let t = tcx.erase_and_anonymize_regions(t); d.ty(t, env).to_string() }).collect();
                        let _ = write!(extra, ",\"targs\":{}", arr(&ta));
                    }
                } else if let DefKind::Trait = tcx.def_kind(p) {
                    let _ = write!(extra, ",\"intrait\":{}", esc(&tcx.def_path_str(p)));
                }
            }
            let isunsafe = !tcx.fn_sig(did).skip_binder().safety().is_safe();
            d.roots.push(format!(
                "{{\"b\":{},\"path\":{},\"name\":{},\"pub\":{},\"unsafe\":{}{}}}",
                id,
                esc(&tcx.def_path_str(did)),
                esc(tcx.item_name(did).as_str()),
                vis,
                isunsafe,
                extra
            ));
        }
        let limit: usize = std::env::var("MIRDUMP_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(6000);
        while let Some((id, k, depth)) = d.queue.pop_front() {
            if d.bodies.len() >= limit {
                d.skipped.push(id.to_string());
                continue;
            }
            d.dump_body(id, k, depth);
        }
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"crate\":{},\"ctype\":{},\"types\":{},\"roots\":{},\"skipped\":{},\"bodies\":[\n{}\n]}}\n",
            esc(&name),
            esc(kind),
            arr(&d.types),
            arr(&d.roots),
            arr(&d.skipped),
            d.bodies.iter().map(|(_, b)| b.clone()).collect::<Vec<_>>().join(",\n")
        );
        let suffix = std::env::var("MIRDUMP_SUFFIX").unwrap_or_default();
        std::fs::create_dir_all(&out).ok();
        std::fs::write(format!("{out}/{name}.{kind}{suffix}.json"), s).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo wrapper protocol: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let cname = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let wanted = std::env::var("MIRDUMP_CRATES")
        .map(|w| w.split(',').any(|x| x == cname))
        .unwrap_or(false);
    if wanted {
        for f in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Coverflow-checks=on", "-Cdebug-assertions=off", "-Zcrate-attr=allow(warnings)", "--force-warn=unsafe_code"] {
            args.push(f.to_string());
        }
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
