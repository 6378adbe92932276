//! `mirfacts`: a rustc driver that writes the type-checked program (MIR as built from the typed
//! syntax tree, with resolved callees, field and variant names) of the local crate as JSON.
//! It runs as RUSTC_WORKSPACE_WRAPPER; MIRFACTS_OUT names the output file and MIRFACTS_CRATE the
//! crate to describe. Bodies that do not type-check are listed and skipped, the rest is described.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    /// Type as JSON: string, or an object for types the analyses need structurally.
    fn tyj(&self, t: Ty<'tcx>) -> String {
        let t2 = t.peel_refs();
        match t2.kind() {
            ty::Closure(d, _) | ty::CoroutineClosure(d, _) | ty::Coroutine(d, _) => {
                format!("{{\"s\":{},\"closure\":{}}}", q(&self.ty(t)), q(&self.path(*d)))
            }
            ty::FnDef(d, _) => {
                format!("{{\"s\":{},\"fndef\":{}}}", q(&self.ty(t)), q(&self.path(*d)))
            }
            ty::Adt(a, _) => {
                format!("{{\"s\":{},\"adt\":{}}}", q(&self.ty(t)), q(&self.path(a.did())))
            }
            _ => format!("{{\"s\":{}}}", q(&self.ty(t))),
        }
    }
    fn span(&self, sp: Span) -> (String, usize, String) {
        let mac = if sp.from_expansion() {
            sp.macro_backtrace()
                .last()
                .map(|e| format!("{}", e.kind.descr()))
                .unwrap_or_default()
        } else {
            String::new()
        };
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        (f, loc.line, mac)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.index());
                    let mut owner = String::new();
                    match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_enum() || a.is_struct() || a.is_union() {
                                let vd = &a.variants()[v];
                                if f.index() < vd.fields.len() {
                                    name = vd.fields[f].name.to_string();
                                }
                                owner = self.path(a.did());
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            if let Some(l) = d.as_local() {
                                let n = self.tcx.closure_captures(l);
                                if let Some(c) = n.get(f.index()) {
                                    name = c.to_symbol().to_string();
                                }
                            }
                            owner = "closure".into();
                        }
                        _ => {}
                    }
                    format!("[\"f\",{},{},{}]", f.index(), q(&name), q(&owner))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => {
                    let mut n = format!("{}", v.index());
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        n = a.variants()[v].name.to_string();
                    }
                    format!("[\"d\",{},{}]", v.index(), q(&n))
                }
                _ => "[\"o\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.index(), list(out))
    }
    fn konst(&self, body_def: LocalDefId, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let mut s = format!("{{\"ty\":{}", q(&self.ty(t)));
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let _ = write!(s, ",\"fn\":{}", q(&self.path(*d)));
                let _ = write!(
                    s,
                    ",\"ga\":{}",
                    list(args.iter().filter_map(|a| a.as_type()).map(|t| self.tyj(t)))
                );
                if self.tcx.trait_of_assoc(*d).is_some() {
                    let env = TypingEnv::non_body_analysis(self.tcx, body_def);
                    if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, *d, args) {
                        if i.def_id() != *d {
                            let _ = write!(s, ",\"res\":{}", q(&self.path(i.def_id())));
                        }
                    }
                }
                if d.is_local() {
                    s.push_str(",\"local\":true");
                }
            }
            _ => {
                match c.const_ {
                    Const::Unevaluated(u, _) => {
                        if u.promoted.is_none() {
                            let _ = write!(s, ",\"named\":{}", q(&self.path(u.def)));
                        }
                    }
                    Const::Val(v, ty) => self.constval(&mut s, v, ty),
                    Const::Ty(_, ct) => {
                        if let Some(v) = ct.try_to_value() {
                            if let Some(l) = v.try_to_leaf() {
                                self.scalar(&mut s, l, t);
                            }
                        } else {
                            let _ = write!(s, ",\"named\":{}", q(&format!("{}", ct)));
                        }
                    }
                }
            }
        }
        s.push('}');
        s
    }
    fn scalar(&self, s: &mut String, l: ty::ScalarInt, t: Ty<'tcx>) {
        match t.kind() {
            ty::Bool => {
                let _ = write!(s, ",\"int\":{}", l.to_bits_unchecked());
            }
            ty::Int(_) => {
                let size = l.size();
                let _ = write!(s, ",\"int\":{}", l.to_int(size));
            }
            ty::Uint(_) => {
                let _ = write!(s, ",\"int\":{}", l.to_bits_unchecked());
            }
            ty::Char => {
                let n = l.to_bits_unchecked() as u32;
                let c = char::from_u32(n).unwrap_or('?');
                let _ = write!(s, ",\"char\":{}", q(&c.to_string()));
            }
            _ => {
                let _ = write!(s, ",\"bits\":{}", l.to_bits_unchecked());
            }
        }
    }
    /// The bytes a constant reference points to.
    fn pointee(&self, v: ConstValue) -> Option<Vec<u8>> {
        let p = match v {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => p,
            _ => return None,
        };
        let (prov, off) = p.into_raw_parts();
        match self.tcx.try_get_global_alloc(prov.alloc_id())? {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                b.get(off.bytes_usize()..).map(|x| x.to_vec())
            }
            _ => None,
        }
    }
    fn constval(&self, s: &mut String, v: ConstValue, t: Ty<'tcx>) {
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    let _ = write!(s, ",\"str\":{}", q(&String::from_utf8_lossy(b)));
                }
                return;
            }
            if let ty::Array(el, n) = inner.kind() {
                if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
                    if let (Some(n), Some(b)) = (n.try_to_target_usize(self.tcx), self.pointee(v)) {
                        if let Some(b) = b.get(..n as usize) {
                            let _ = write!(s, ",\"bytes\":[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                        }
                    }
                }
                return;
            }
        }
        if let Some(l) = v.try_to_scalar_int() {
            self.scalar(s, l, t);
        }
    }
    fn operand(&self, d: LocalDefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(d, c)),
            #[allow(unreachable_patterns)]
            _ => "[\"k\",{\"ty\":\"?\"}]".to_string(),
        }
    }
    fn rvalue(&self, d: LocalDefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(d, body, o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(d, body, o)),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Cast(_, o, t) => {
                format!("[\"cast\",{},{}]", self.operand(d, body, o), q(&self.ty(*t)))
            }
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                q(&format!("{:?}", op)),
                self.operand(d, body, &b.0),
                self.operand(d, body, &b.1)
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", q(&format!("{:?}", op)), self.operand(d, body, o))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                format!("[\"discr\",{},{}]", self.place(body, p), self.tyj(t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Adt(did, v, _, _, active) => {
                        let a = self.tcx.adt_def(*did);
                        let vd = &a.variants()[*v];
                        let names: Vec<String> = if let Some(f) = active {
                            vec![q(vd.fields[*f].name.as_str())]
                        } else {
                            vd.fields.iter().map(|f| q(f.name.as_str())).collect()
                        };
                        format!(
                            "{{\"k\":\"adt\",\"adt\":{},\"v\":{},\"vi\":{},\"fields\":{}}}",
                            q(&self.path(*did)),
                            q(vd.name.as_str()),
                            v.index(),
                            list(names)
                        )
                    }
                    AggregateKind::Closure(did, _)
                    | AggregateKind::Coroutine(did, _)
                    | AggregateKind::CoroutineClosure(did, _) => {
                        let caps = did
                            .as_local()
                            .map(|l| {
                                self.tcx
                                    .closure_captures(l)
                                    .iter()
                                    .map(|c| q(c.to_symbol().as_str()))
                                    .collect::<Vec<_>>()
                            })
                            .unwrap_or_default();
                        format!(
                            "{{\"k\":\"closure\",\"def\":{},\"fields\":{}}}",
                            q(&self.path(*did)),
                            list(caps)
                        )
                    }
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, list(ops.iter().map(|o| self.operand(d, body, o))))
            }
            _ => "[\"other\"]".to_string(),
        }
    }
    fn body(&self, d: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let (file, line, _) = self.span(body.span);
        let mut names = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && names[p.local.index()].is_none() {
                    names[p.local.index()] = Some(v.name.to_string());
                }
            }
        }
        let locals = list(body.local_decls.iter_enumerated().map(|(l, ld)| {
            format!(
                "{{\"ty\":{},\"n\":{}}}",
                self.tyj(ld.ty),
                names[l.index()].as_ref().map(|n| q(n)).unwrap_or("null".into())
            )
        }));
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (_, line, mac) = self.span(st.source_info.span);
                        ss.push(format!(
                            "[{},{},{},{}]",
                            self.place(body, &b.0),
                            self.rvalue(d, body, &b.1),
                            line,
                            q(&mac)
                        ));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let (_, line, mac) = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "[\"switch\",{},{},{}]",
                    self.operand(d, body, discr),
                    list(targets.iter().map(|(v, t)| format!("[{},{}]", v, t.index()))),
                    targets.otherwise().index()
                ),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Drop { target, place, .. } => {
                    format!("[\"drop\",{},{}]", target.index(), self.place(body, place))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "[\"call\",{},{},{},{}]",
                    self.operand(d, body, func),
                    list(args.iter().map(|a| self.operand(d, body, &a.node))),
                    self.place(body, destination),
                    target.map(|t| t.index().to_string()).unwrap_or("null".into())
                ),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!(
                    "[\"assert\",{},{},{},{}]",
                    self.operand(d, body, cond),
                    expected,
                    target.index(),
                    q(&format!("{:?}", msg).chars().take(60).collect::<String>())
                ),
                TerminatorKind::Yield { resume, value, resume_arg, .. } => format!(
                    "[\"yield\",{},{},{}]",
                    resume.index(),
                    self.operand(d, body, value),
                    self.place(body, resume_arg)
                ),
                _ => "[\"unreachable\"]".into(),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"line\":{},\"mac\":{},\"cleanup\":{}}}",
                list(ss),
                t,
                line,
                q(&mac),
                bb.is_cleanup
            ));
        }
        let kind = format!("{:?}", tcx.def_kind(did));
        let vis = match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => tcx.visibility(did).is_public(),
            _ => false,
        };
        let parent = tcx.opt_parent(did).map(|p| self.path(p)).unwrap_or_default();
        let mut upvars = String::from("[]");
        if tcx.is_closure_like(did) {
            upvars = list(tcx.closure_captures(d).iter().map(|c| {
                format!("[{},{}]", q(c.to_symbol().as_str()), c.is_by_ref())
            }));
        }
        format!(
            "{{\"id\":{},\"kind\":{},\"pub\":{},\"parent\":{},\"file\":{},\"line\":{},\"argc\":{},\"upvars\":{},\"locals\":{},\"blocks\":{}}}",
            q(&self.path(did)),
            q(&kind),
            vis,
            q(&parent),
            q(&file),
            line,
            body.arg_count,
            upvars,
            locals,
            list(blocks)
        )
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("MIRFACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let cx = Cx { tcx };
        let mut bodies = vec![];
        let mut bad = vec![];
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // functions inside of functions first: the type check of those around them looks into their
        // opaque types, which uses up their bodies
        owners.sort_by_key(|d| {
            let root = tcx.typeck_root_def_id(d.to_def_id());
            let inner = tcx.opt_parent(root).map_or(false, |p| {
                matches!(tcx.def_kind(p), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
            });
            (!inner, d.local_def_index)
        });
        // type errors first: they decide which bodies can be described
        for &d in &owners {
            let root = tcx.typeck_root_def_id(d.to_def_id()).expect_local();
            let tainted = tcx.typeck(root).tainted_by_errors.is_some();
            if tainted {
                bad.push(q(&cx.path(d.to_def_id())));
                continue;
            }
            match tcx.def_kind(d.to_def_id()) {
                DefKind::AnonConst => continue,
                _ => {}
            }
            let st = tcx.mir_built(d);
            if st.is_stolen() {
                continue;
            }
            let b = st.borrow();
            if b.tainted_by_errors.is_some() {
                bad.push(q(&cx.path(d.to_def_id())));
                continue;
            }
            bodies.push(cx.body(d, &b));
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Enum | DefKind::Struct => {
                    let a = tcx.adt_def(id);
                    let discrs: Vec<String> = if a.is_enum() {
                        a.discriminants(tcx).map(|(_, d)| format!("{}", d.val as i128)).collect()
                    } else {
                        vec!["0".into()]
                    };
                    let vs = list(a.variants().iter().enumerate().map(|(i, v)| {
                        format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                            q(v.name.as_str()),
                            discrs[i],
                            list(v.fields.iter().map(|f| format!(
                                "[{},{}]",
                                q(f.name.as_str()),
                                q(&cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))
                            )))
                        )
                    }));
                    adts.push(format!("{}:{}", q(&cx.path(id.to_def_id())), vs));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(id.to_def_id()).instantiate_identity().skip_norm_wip();
                    let items = list(tcx.associated_items(id.to_def_id()).in_definition_order().filter_map(
                        |it| {
                            it.trait_item_def_id().map(|t| {
                                format!("[{},{}]", q(&cx.path(t)), q(&cx.path(it.def_id)))
                            })
                        },
                    ));
                    impls.push(format!(
                        "{{\"trait\":{},\"tref\":{},\"self\":{},\"items\":{}}}",
                        q(&cx.path(tr.def_id)),
                        q(&with_no_trimmed_paths!(format!("{}", tr))),
                        q(&cx.ty(tr.self_ty())),
                        items
                    ));
                }
                DefKind::Trait => {
                    let items = list(tcx.associated_items(id.to_def_id()).in_definition_order().map(|it| {
                        format!("[{},{}]", q(&cx.path(it.def_id)), it.defaultness(tcx).has_value())
                    }));
                    consts.push(format!("{}:{}", q(&cx.path(id.to_def_id())), items));
                }
                _ => {}
            }
        }
        let errs = tcx.dcx().err_count();
        let s = format!(
            "{{\"errors\":{},\"tainted\":{},\"adts\":{{{}}},\"impls\":{},\"traits\":{{{}}},\"bodies\":{}}}",
            errs,
            list(bad),
            adts.join(","),
            list(impls),
            consts.join(","),
            list(bodies)
        );
        std::fs::write(&out, s).expect("write facts");
        std::process::exit(0)
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_else(|_| "reveaal".into());
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    struct Plain;
    impl Callbacks for Plain {}
    rustc_driver::catch_with_exit_code(|| {
        if krate == want {
            rustc_driver::compiler_entrypoint(&args, &mut Cb)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain)
        }
    })
}
