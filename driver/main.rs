// fem_2d static-analysis driver: dumps the type-checked MIR of the fem_2d crate as JSON.
// It runs as RUSTC_WORKSPACE_WRAPPER under `cargo check`; it never executes code of the crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn obj(v: Vec<(&str, String)>) -> String {
    format!("{{{}}}", v.into_iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect::<Vec<_>>().join(","))
}

fn ty_json<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Closure(d, args) => obj(vec![("k", esc("closure")), ("key", esc(&key(tcx, *d))),
                ("s", esc(&tys(t))), ("n", args.as_closure().upvar_tys().len().to_string())]),
            ty::FnDef(d, _) => obj(vec![("k", esc("fndef")), ("key", esc(&key(tcx, *d))), ("s", esc(&path(tcx, *d)))]),
            ty::Adt(a, args) => obj(vec![("k", esc("adt")), ("key", esc(&key(tcx, a.did()))), ("s", esc(&tys(t))),
                ("args", arr(args.types().map(|x| ty_json(tcx, x)).collect()))]),
            ty::Ref(_, inner, m) => obj(vec![("k", esc("ref")), ("mut", m.is_mut().to_string()), ("to", ty_json(tcx, *inner)), ("s", esc(&tys(t)))]),
            ty::Array(inner, n) => obj(vec![("k", esc("array")), ("of", ty_json(tcx, *inner)), ("len", match n.try_to_target_usize(tcx) { Some(v) => v.to_string(), None => "null".into() }), ("s", esc(&tys(t)))]),
            ty::Slice(inner) => obj(vec![("k", esc("slice")), ("of", ty_json(tcx, *inner)), ("s", esc(&tys(t)))]),
            ty::Tuple(ts) => obj(vec![("k", esc("tuple")), ("of", arr(ts.iter().map(|x| ty_json(tcx, x)).collect())), ("s", esc(&tys(t)))]),
            ty::Param(p) => obj(vec![("k", esc("param")), ("name", esc(p.name.as_str())), ("s", esc(p.name.as_str()))]),
            ty::Dynamic(..) => obj(vec![("k", esc("dyn")), ("s", esc(&tys(t)))]),
            _ => obj(vec![("k", esc("prim")), ("s", esc(&tys(t)))]),
        }
    }
fn field_ty<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String { ty_json(tcx, t) }

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, body: &'tcx Body<'tcx> }

fn path(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_trimmed_paths!(tcx.def_path_str(d)) }
fn tys(t: Ty<'_>) -> String { with_no_trimmed_paths!(t.to_string()) }
// source spelling, where available, of the callee path for a def id incl. crate name
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    // unique, line-number free def path: crate::module::{impl#n}::name
    let p = tcx.def_path(d);
    format!("{}{}", tcx.crate_name(p.krate), p.to_string_no_crate_verbose())
}

impl<'tcx> Cx<'tcx> {
    fn ty_json(&self, t: Ty<'tcx>) -> String { ty_json(self.tcx, t) }
    fn place(&self, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pr = Vec::new();
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => pr.push("[\"*\"]".to_string()),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) if !a.is_enum() => Some(a.non_enum_variant().fields[f].name.to_string()),
                        ty::Adt(a, _) => pt.variant_index.map(|v| a.variant(v).fields[f].name.to_string()),
                        _ => None,
                    };
                    pr.push(arr(vec![esc("f"), f.index().to_string(), match name { Some(n) => esc(&n), None => "null".into() }]));
                }
                ProjectionElem::Index(l) => pr.push(arr(vec![esc("i"), l.index().to_string()])),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => pr.push(arr(vec![esc("ci"), offset.to_string(), min_length.to_string(), from_end.to_string()])),
                ProjectionElem::Subslice { from, to, from_end } => pr.push(arr(vec![esc("ss"), from.to_string(), to.to_string(), from_end.to_string()])),
                ProjectionElem::Downcast(name, v) => pr.push(arr(vec![esc("dc"), v.index().to_string(), esc(&name.map(|n| n.to_string()).unwrap_or_default())])),
                _ => pr.push(arr(vec![esc("?"), esc(&format!("{:?}", e))])),
            }
            pt = pt.projection_ty(tcx, e);
        }
        arr(vec![p.local.index().to_string(), arr(pr)])
    }
    fn scalar(&self, bits: u128, size: u64, t: Ty<'tcx>) -> String {
        let v = match t.kind() {
            ty::Int(_) => { let sh = 128 - size * 8; (((bits << sh) as i128) >> sh).to_string() }
            ty::Bool => (bits != 0).to_string(),
            ty::Float(ty::FloatTy::F64) => { let f = f64::from_bits(bits as u64); return arr(vec![esc("float"), esc(&format!("{:?}", f)), esc(&format!("{:016x}", bits))]); }
            ty::Float(ty::FloatTy::F32) => { let f = f32::from_bits(bits as u32); return arr(vec![esc("float"), esc(&format!("{:?}", f)), esc(&format!("{:08x}", bits))]); }
            ty::Char => return arr(vec![esc("char"), bits.to_string()]),
            ty::Uint(_) => bits.to_string(),
            _ => return arr(vec![esc("bits"), bits.to_string(), esc(&tys(t))]),
        };
        arr(vec![esc("int"), v, esc(&tys(t))])
    }
    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() { return self.fndef(*d, args.skip_binder()); }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    return arr(vec![esc("promoted"), esc(&key(tcx, u.def)), p.index().to_string()]);
                }
                if u.def.is_local() {
                    return arr(vec![esc("const"), esc(&key(tcx, u.def)), esc(&tys(t)), esc(&u.args.types().map(|x| tys(x)).collect::<Vec<_>>().join(","))]);
                }
                if let Ok(v) = c.const_.eval(tcx, self.env, c.span) { return self.const_value(v, t); }
                arr(vec![esc("extconst"), esc(&path(tcx, u.def)), esc(&tys(t))])
            }
            Const::Val(v, t) => self.const_value(v, t),
            Const::Ty(t, ct) => {
                if let Some(v) = ct.try_to_leaf() { let s = v.size(); return self.scalar(v.to_bits(s), s.bytes(), t); }
                arr(vec![esc("tyconst"), esc(&format!("{:?}", ct)), esc(&tys(t))])
            }
        }
    }
    fn const_value(&self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => arr(vec![esc("zst"), self.ty_json(t)]),
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                let s = i.size();
                self.scalar(i.to_bits(s), s.bytes(), t)
            }
            _ => {
                if !matches!(v, ConstValue::Scalar(_)) && matches!(t.kind(), ty::Ref(_, i, _) if matches!(i.kind(), ty::Str | ty::Slice(_))) { if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return match std::str::from_utf8(b) {
                        Ok(s) if !matches!(t.kind(), ty::Ref(_, i, _) if matches!(i.kind(), ty::Slice(_))) => arr(vec![esc("str"), esc(s)]),
                        _ => arr(vec![esc("bytes"), arr(b.iter().map(|x| x.to_string()).collect()), esc(&tys(t))]),
                    };
                } }
                // reference to a byte array / raw allocation
                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(p.provenance.alloc_id()) {
                        let a = a.inner();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                        return arr(vec![esc("bytes"), arr(b.iter().map(|x| x.to_string()).collect()), esc(&tys(t))]);
                    }
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let a = a.inner();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..a.len());
                        return arr(vec![esc("raw"), arr(b.iter().map(|x| x.to_string()).collect()), esc(&tys(t))]);
                    }
                }
                arr(vec![esc("opaque"), esc(&format!("{:?}", v)), esc(&tys(t))])
            }
        }
    }
    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut f = vec![("key", esc(&key(tcx, d))), ("path", esc(&path(tcx, d))),
            ("name", esc(&tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())),
            ("targs", arr(args.types().map(|x| self.ty_json(x)).collect()))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("trait", esc(&path(tcx, tr))));
            if let Some(s) = args.types().next() { f.push(("self", self.ty_json(s))); }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            f.push(("self", self.ty_json(tcx.type_of(im).instantiate(tcx, args).skip_norm_wip())));
        }
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, self.env, d, args) {
            let rd = i.def_id();
            if matches!(i.def, ty::InstanceKind::Item(_)) || i.def_id() != d {
                f.push(("rkey", esc(&key(tcx, rd))));
                f.push(("rpath", esc(&path(tcx, rd))));
                f.push(("rtargs", arr(i.args.types().map(|x| self.ty_json(x)).collect())));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    f.push(("rself", esc(&tys(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
                }
            }
            f.push(("rkind", esc(&format!("{:?}", i.def).split('(').next().unwrap_or("").to_string())));
        }
        arr(vec![esc("fn"), obj(f)])
    }
    fn operand(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => arr(vec![esc("c"), self.place(p)]),
            Operand::Move(p) => arr(vec![esc("m"), self.place(p)]),
            Operand::Constant(c) => arr(vec![esc("k"), self.constant(c)]),
            #[allow(unreachable_patterns)]
            _ => arr(vec![esc("?"), esc(&format!("{:?}", o))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => arr(vec![esc("use"), self.operand(o)]),
            Rvalue::Repeat(o, n) => arr(vec![esc("repeat"), self.operand(o), match n.try_to_target_usize(tcx) { Some(v) => v.to_string(), None => "null".into() }]),
            Rvalue::Ref(_, k, p) => arr(vec![esc("ref"), esc(if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::RawPtr(_, p) => arr(vec![esc("ref"), esc("raw"), self.place(p)]),
            Rvalue::Cast(k, o, t) => arr(vec![esc("cast"), esc(&format!("{:?}", k)), self.operand(o), self.ty_json(*t), self.ty_json(o.ty(&self.body.local_decls, tcx))]),
            Rvalue::BinaryOp(op, b) => arr(vec![esc("bin"), esc(&format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1), esc(&tys(b.0.ty(&self.body.local_decls, tcx)))]),
            Rvalue::UnaryOp(op, o) => arr(vec![esc("un"), esc(&format!("{:?}", op)), self.operand(o), esc(&tys(o.ty(&self.body.local_decls, tcx)))]),
            Rvalue::Discriminant(p) => arr(vec![esc("discr"), self.place(p), self.ty_json(p.ty(&self.body.local_decls, tcx).ty)]),
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops.iter().map(|x| self.operand(x)).collect());
                match &**k {
                    AggregateKind::Array(_) => arr(vec![esc("array"), o]),
                    AggregateKind::Tuple => arr(vec![esc("tuple"), o]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        arr(vec![esc("adt"), esc(&key(tcx, *d)), v.index().to_string(), esc(a.variant(*v).name.as_str()), o])
                    }
                    AggregateKind::Closure(d, _) => arr(vec![esc("closure"), esc(&key(tcx, *d)), o]),
                    _ => arr(vec![esc("agg?"), o]),
                }
            }
            Rvalue::CopyForDeref(p) => arr(vec![esc("use"), arr(vec![esc("c"), self.place(p)])]),
            #[allow(unreachable_patterns)]
            _ => arr(vec![esc("?"), esc(&format!("{:?}", r))]),
        }
    }
    fn line(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line.to_string()
    }
    fn dump(&self, def: DefId, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let b = self.body;
        let mut locals = Vec::new();
        for l in b.local_decls.iter() { locals.push(self.ty_json(l.ty)); }
        let mut dbg = Vec::new();
        for v in b.var_debug_info.iter() {
            let val = match &v.value { VarDebugInfoContents::Place(p) => self.place(p), VarDebugInfoContents::Const(_) => "null".into() };
            dbg.push(arr(vec![esc(v.name.as_str()), val, match v.argument_index { Some(i) => i.to_string(), None => "null".into() }]));
        }
        let mut blocks = Vec::new();
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if bb.is_cleanup { blocks.push("null".to_string()); continue; }
            let mut st = Vec::new();
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(bx) => st.push(arr(vec![esc("="), self.place(&bx.0), self.rvalue(&bx.1), self.line(s.source_info.span)])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(arr(vec![esc("setd"), self.place(place), variant_index.index().to_string()])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr(vec![esc("goto"), target.index().to_string()]),
                TerminatorKind::SwitchInt { discr, targets } => arr(vec![esc("switch"), self.operand(discr),
                    arr(targets.iter().map(|(v, t)| arr(vec![v.to_string(), t.index().to_string()])).collect()), targets.otherwise().index().to_string(),
                    esc(&tys(discr.ty(&b.local_decls, tcx))), ln]),
                TerminatorKind::Return => arr(vec![esc("return")]),
                TerminatorKind::Unreachable => arr(vec![esc("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => arr(vec![esc("drop"), self.place(place), target.index().to_string()]),
                TerminatorKind::Call { func, args, destination, target, .. } => arr(vec![esc("call"), self.operand(func),
                    arr(args.iter().map(|a| self.operand(&a.node)).collect()), self.place(destination),
                    match target { Some(t) => t.index().to_string(), None => "null".into() }, ln]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => arr(vec![esc("assert"), self.operand(cond), expected.to_string(), esc(&format!("{:?}", msg)), target.index().to_string(), ln]),
                TerminatorKind::FalseEdge { real_target, .. } => arr(vec![esc("goto"), real_target.index().to_string()]),
                TerminatorKind::FalseUnwind { real_target, .. } => arr(vec![esc("goto"), real_target.index().to_string()]),
                k => arr(vec![esc("?"), esc(&format!("{:?}", k))]),
            };
            blocks.push(arr(vec![arr(st), tj]));
        }
        let dk = tcx.def_kind(def);
        let sp = tcx.sess.source_map().lookup_char_pos(tcx.def_span(def).lo());
        let mut f = vec![
            ("key", esc(&key(tcx, def))), ("path", esc(&path(tcx, def))), ("kind", esc(&format!("{:?}", dk))),
            ("file", esc(&format!("{}", sp.file.name.prefer_local_unconditionally()))), ("line", sp.line.to_string()),
            ("nargs", b.arg_count.to_string()), ("locals", arr(locals)), ("dbg", arr(dbg)), ("blocks", arr(blocks)),
            ("promoted", match promoted { Some(p) => p.to_string(), None => "null".into() }),
        ];
        f.push(("name", esc(&tcx.opt_item_name(def).map(|n| n.to_string()).unwrap_or_default())));
        if let DefKind::Fn | DefKind::AssocFn = dk {
            f.push(("pub", (tcx.visibility(def).is_public()).to_string()));
            f.push(("reach", def.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false).to_string()));
        }
        let root = tcx.typeck_root_def_id(def);
        let mut gs: Vec<String> = Vec::new();
        let mut cur = Some(tcx.generics_of(root));
        while let Some(g) = cur {
            let mut own: Vec<String> = g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| esc(p.name.as_str())).collect();
            own.extend(gs); gs = own;
            cur = g.parent.map(|d| tcx.generics_of(d));
        }
        f.push(("generics", arr(gs)));
        f.push(("root", esc(&key(tcx, root))));
        f.push(("parent", esc(&key(tcx, tcx.parent(def)))));
        if let Some(im) = tcx.impl_of_assoc(root) {
            f.push(("impl_self", esc(&tys(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
            f.push(("derived", tcx.is_builtin_derived(im).to_string()));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) { f.push(("impl_trait", esc(&path(tcx, tr.skip_binder().def_id)))); f.push(("impl_trait_full", esc(&with_no_trimmed_paths!(tr.skip_binder().to_string())))); }
        } else if let Some(tr) = tcx.trait_of_assoc(root) { f.push(("of_trait", esc(&path(tcx, tr)))); }
        obj(f)
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies = Vec::new();
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for l in keys {
            let d = l.to_def_id();
            let env = TypingEnv::post_analysis(tcx, d);
            let kind = tcx.def_kind(d);
            let body: &Body<'tcx> = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => tcx.mir_for_ctfe(d),
                _ => continue,
            };
            let cx = Cx { tcx, env, body };
            bodies.push(cx.dump(d, None));
            for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                let cx = Cx { tcx, env, body: p };
                bodies.push(cx.dump(d, Some(i.index())));
            }
        }
        let mut adts = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let a = tcx.adt_def(d);
                let mut vs = Vec::new();
                for (vi, v) in a.variants().iter_enumerated() {
                    let dv = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    let fs = v.fields.iter().map(|f| arr(vec![esc(f.name.as_str()), field_ty(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip()), tcx.visibility(f.did).is_public().to_string()])).collect();
                    vs.push(obj(vec![("name", esc(v.name.as_str())), ("discr", dv), ("fields", arr(fs))]));
                }
                adts.push(obj(vec![("key", esc(&key(tcx, d))), ("path", esc(&path(tcx, d))), ("enum", a.is_enum().to_string()), ("pub", tcx.visibility(d).is_public().to_string()), ("variants", arr(vs))]));
            }
        }
        let s = obj(vec![("crate", esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())), ("bodies", arr(bodies)), ("adts", arr(adts))]);
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_fem = args.windows(2).any(|w| w[0] == "--crate-name" && (w[1] == "fem_2d" || w[1] == "fem_spec"));
    match (is_fem, std::env::var("FEM_SA_OUT")) {
        (true, Ok(out)) => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
            args.push("-Zalways-encode-mir".into());
            rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out })
        }
        _ => rustc_driver_impl::compiler_entrypoint(&args, &mut Nop),
    };
}
