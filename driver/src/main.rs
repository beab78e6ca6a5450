#![feature(rustc_private)]
//! RUSTC_WORKSPACE_WRAPPER driver: compiles the crate as cargo asks, and dumps the type-checked
//! program (ADTs, impls, resolved MIR of every body, promoteds included) as JSON into $MIRDUMP_OUT.
//! Nothing of the analysed program is executed.
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn obj(kv: &[(&str, String)]) -> String {
    let v: Vec<String> = kv.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    // functions of other crates that are called, with their MIR available here
    ext: Vec<DefId>,
    seen: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        if let Some(i) = self.tmap.get(&t) {
            return i.to_string();
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, idx);
        let s = format!("{t}");
        let mut kv: Vec<(&str, String)> = vec![("s", esc(&s))];
        match *t.kind() {
            ty::Adt(def, args) => {
                kv.push(("k", esc("adt")));
                kv.push(("adt", esc(&self.id(def.did()))));
                let a: Vec<String> = args.types().map(|x| self.ty(x)).collect();
                kv.push(("args", arr(a)));
                let c: Vec<String> = args.consts().map(|x| esc(&format!("{x}"))).collect();
                kv.push(("consts", arr(c)));
            }
            ty::Ref(_, x, m) => {
                kv.push(("k", esc("ref")));
                kv.push(("mut", (m.is_mut()).to_string()));
                let a = self.ty(x);
                kv.push(("args", arr([a])));
            }
            ty::RawPtr(x, m) => {
                kv.push(("k", esc("ptr")));
                kv.push(("mut", (m.is_mut()).to_string()));
                let a = self.ty(x);
                kv.push(("args", arr([a])));
            }
            ty::Tuple(ts) => {
                kv.push(("k", esc("tuple")));
                let a: Vec<String> = ts.iter().map(|x| self.ty(x)).collect();
                kv.push(("args", arr(a)));
            }
            ty::Slice(x) | ty::Array(x, _) => {
                kv.push(("k", esc(if matches!(t.kind(), ty::Slice(_)) { "slice" } else { "array" })));
                let a = self.ty(x);
                kv.push(("args", arr([a])));
            }
            ty::Closure(d, args) => {
                kv.push(("k", esc("closure")));
                kv.push(("def", esc(&self.id(d))));
                let a: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                kv.push(("args", arr(a)));
            }
            ty::FnDef(d, _) => {
                kv.push(("k", esc("fndef")));
                kv.push(("def", esc(&self.id(d))));
            }
            ty::Param(p) => {
                kv.push(("k", esc("param")));
                kv.push(("name", esc(p.name.as_str())));
            }
            ty::Alias(..) => {
                kv.push(("k", esc("alias")));
                kv.push(("args", self.alias_args(t)));
            }
            ty::Dynamic(..) => {
                kv.push(("k", esc("dyn")));
            }
            ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Bool | ty::Char | ty::Str => {
                kv.push(("k", esc("prim")));
            }
            ty::Never => kv.push(("k", esc("never"))),
            _ => kv.push(("k", esc("other"))),
        }
        self.types[idx] = obj(&kv);
        idx.to_string()
    }
    fn alias_args(&mut self, t: Ty<'tcx>) -> String {
        let mut v = vec![];
        for g in t.walk().skip(1).take(8) {
            if let Some(x) = g.as_type() {
                v.push(x);
            }
        }
        let a: Vec<String> = v.into_iter().map(|x| self.ty(x)).collect();
        arr(a)
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut kv: Vec<(&str, String)> = vec![];
        kv.push(("id", esc(&self.id(d))));
        kv.push(("path", esc(&tcx.def_path_str(d))));
        kv.push(("name", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            kv.push(("trait", esc(&self.id(tr))));
            let st = args.type_at(0);
            let t = self.ty(st);
            kv.push(("self", t));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            kv.push(("impl", esc(&self.id(im))));
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let t = self.ty(st);
            kv.push(("self", t));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                kv.push(("implof", esc(&self.id(tr.skip_binder().def_id))));
            }
        }
        let targs: Vec<String> = args.types().map(|x| self.ty(x)).collect();
        kv.push(("targs", arr(targs)));
        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        if is_ctor {
            let parent = tcx.parent(d);
            let (adt, variant) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                (tcx.parent(parent), tcx.item_name(parent).to_string())
            } else {
                (parent, tcx.item_name(parent).to_string())
            };
            kv.push(("ctor_adt", esc(&self.id(adt))));
            kv.push(("ctor_variant", esc(&variant)));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ty::Instance::try_resolve(tcx, env, d, eargs)
        }));
        if let Ok(Ok(Some(inst))) = res {
            self.external(inst.def_id());
            if inst.def_id() != d {
                kv.push(("resolved", esc(&self.id(inst.def_id()))));
                if let Some(im) = tcx.impl_of_assoc(inst.def_id()) {
                    kv.push(("resolved_impl", esc(&self.id(im))));
                }
            } else {
                kv.push(("resolved", esc(&self.id(d))));
            }
        }
        if let ty::FnDef(..) = tcx.type_of(d).skip_binder().kind() {
            let sig = tcx.fn_sig(d).skip_binder();
            kv.push(("unsafe", (!sig.safety().is_safe()).to_string()));
            kv.push(("regions", regions(tcx, d)));
        }
        obj(&kv)
    }

    fn external(&mut self, d: DefId) {
        if d.is_local() || !self.seen.insert(d) { return; }
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && self.tcx.is_mir_available(d)
            && self.tcx.intrinsic(d).is_none() {
            self.ext.push(d);
        }
    }

    fn place(&mut self, p: &Place<'tcx>, _body: &Body<'tcx>) -> String {
        let mut pr = vec![];
        let mut pty = mir::PlaceTy::from_ty(_body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => arr([esc("deref")]),
                ProjectionElem::Field(f, t) => {
                    let nm = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() || def.is_struct() || def.is_union() {
                                def.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let ts = self.ty(t);
                    arr([esc("field"), f.as_usize().to_string(), esc(&nm), ts])
                }
                ProjectionElem::Index(l) => arr([esc("index"), l.as_usize().to_string()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr([esc("cindex"), offset.to_string(), min_length.to_string(), from_end.to_string()])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr([esc("subslice"), from.to_string(), to.to_string(), from_end.to_string()])
                }
                ProjectionElem::Downcast(n, v) => {
                    let adt = match pty.ty.kind() {
                        ty::Adt(def, _) => self.id(def.did()),
                        _ => String::new(),
                    };
                    let nm = n.map(|s| s.to_string()).unwrap_or_else(|| match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => String::new(),
                    });
                    arr([esc("downcast"), esc(&nm), v.as_usize().to_string(), esc(&adt)])
                }
                _ => arr([esc("proj"), esc(&format!("{e:?}"))]),
            };
            pr.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        arr([p.local.as_usize().to_string(), arr(pr)])
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ts = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            let f = self.fnref(d, args.skip_binder(), env);
            return obj(&[("c", esc("fn")), ("ty", ts), ("fn", f)]);
        }
        let mut kv = vec![("ty", ts), ("s", esc(&format!("{}", c.const_)))];
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    kv.push(("c", esc("promoted")));
                    kv.push(("id", esc(&format!("{}::promoted[{}]", self.id(u.def), p.as_usize()))));
                    return obj(&kv);
                }
                kv.push(("id", esc(&self.id(u.def))));
                let pn = self.tcx.def_path_str(u.def);
                kv.push(("path", esc(&pn)));
            }
            mir::Const::Ty(_, ct) => {
                if let ty::ConstKind::Param(p) = ct.kind() {
                    kv.push(("c", esc("param")));
                    kv.push(("name", esc(p.name.as_str())));
                    return obj(&kv);
                }
            }
            _ => {}
        }
        if t.is_unit() {
            kv.push(("c", esc("unit")));
            return obj(&kv);
        }
        if let ty::Ref(_, inner, _) = *t.kind() {
            if inner.is_str() {
                kv.push(("c", esc("str")));
                return obj(&kv);
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
            if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                kv.push(("c", esc(if t.is_bool() { "bool" } else if t.is_floating_point() { "float" } else { "int" })));
                let v = if t.is_signed() {
                    let size = rustc_abi::Size::from_bits(match t.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64),
                        _ => 64,
                    });
                    size.sign_extend(b).to_string()
                } else {
                    b.to_string()
                };
                kv.push(("v", v));
                return obj(&kv);
            }
        }
        kv.push(("c", esc("opaque")));
        obj(&kv)
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(&[("o", esc("copy")), ("p", self.place(p, body))]),
            Operand::Move(p) => obj(&[("o", esc("move")), ("p", self.place(p, body))]),
            Operand::Constant(c) => {
                let k = self.constant(c, env);
                obj(&[("o", esc("const")), ("k", k)])
            }
            #[allow(unreachable_patterns)]
            o => obj(&[("o", esc("other")), ("s", esc(&format!("{o:?}")))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => obj(&[("r", esc("use")), ("a", self.operand(o, body, env))]),
            Rvalue::Ref(_, bk, p) => obj(&[
                ("r", esc("ref")),
                ("mut", matches!(bk, BorrowKind::Mut { .. }).to_string()),
                ("p", self.place(p, body)),
            ]),
            Rvalue::RawPtr(_, p) => obj(&[("r", esc("rawptr")), ("p", self.place(p, body))]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                let a = self.operand(o, body, env);
                let ts = self.ty(*t);
                let fs = self.ty(from);
                obj(&[("r", esc("cast")), ("kind", esc(&format!("{k:?}"))), ("a", a), ("ty", ts), ("from", fs)])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(body, self.tcx);
                let ts = self.ty(t);
                let a = self.operand(&ab.0, body, env);
                let b = self.operand(&ab.1, body, env);
                obj(&[("r", esc("bin")), ("op", esc(&format!("{op:?}"))), ("a", a), ("b", b), ("ty", ts)])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(body, self.tcx);
                let ts = self.ty(t);
                let a = self.operand(o, body, env);
                obj(&[("r", esc("un")), ("op", esc(&format!("{op:?}"))), ("a", a), ("ty", ts)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let ts = self.ty(t);
                obj(&[("r", esc("discr")), ("p", self.place(p, body)), ("ty", ts)])
            }
            Rvalue::Aggregate(k, ops) => {
                let a: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let mut kv = vec![("r", esc("agg"))];
                match &**k {
                    AggregateKind::Tuple => kv.push(("kind", esc("tuple"))),
                    AggregateKind::Array(_) => kv.push(("kind", esc("array"))),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        kv.push(("kind", esc("adt")));
                        kv.push(("adt", esc(&self.id(*d))));
                        let def = self.tcx.adt_def(*d);
                        kv.push(("variant", esc(def.variant(*v).name.as_str())));
                        kv.push(("fields", arr(def.variant(*v).fields.iter().map(|f| esc(f.name.as_str())))));
                        let ta: Vec<String> = args.types().map(|x| self.ty(x)).collect();
                        kv.push(("targs", arr(ta)));
                    }
                    AggregateKind::Closure(d, _) => {
                        self.external(*d);
                        kv.push(("kind", esc("closure")));
                        kv.push(("def", esc(&self.id(*d))));
                    }
                    other => {
                        kv.push(("kind", esc("other")));
                        kv.push(("s", esc(&format!("{other:?}"))));
                    }
                }
                kv.push(("ops", arr(a)));
                obj(&kv)
            }
            Rvalue::Repeat(o, n) => obj(&[
                ("r", esc("repeat")),
                ("a", self.operand(o, body, env)),
                ("n", esc(&format!("{n}"))),
            ]),
            Rvalue::CopyForDeref(p) => obj(&[("r", esc("cfd")), ("p", self.place(p, body))]),
            other => obj(&[("r", esc("other")), ("s", esc(&format!("{other:?}")))]),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        // outermost expansion site: where the construct is written in the crate
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let nm = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", nm, lo.line))
    }

    fn body(&mut self, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> Vec<(&'static str, String)> {
        let locals: Vec<String> = b
            .local_decls
            .iter()
            .map(|l| self.ty(l.ty))
            .collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p, b);
                names.push(arr([esc(v.name.as_str()), pl]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(ab) => {
                        let p = self.place(&ab.0, b);
                        let r = self.rvalue(&ab.1, b, env);
                        let sp = self.span(s.source_info.span);
                        st.push(obj(&[("s", esc("assign")), ("p", p), ("rv", r), ("at", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        st.push(obj(&[("s", esc("setdiscr")), ("p", p), ("v", variant_index.as_usize().to_string())]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(obj(&[("s", esc("dead")), ("l", l.as_usize().to_string())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(obj(&[("s", esc("intrinsic")), ("d", esc(&format!("{i:?}")))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj(&[("t", esc("goto")), ("to", target.as_usize().to_string())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(b, self.tcx);
                    let ts = self.ty(ty);
                    let d = self.operand(discr, b, env);
                    let v = arr(targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())));
                    obj(&[
                        ("t", esc("switch")),
                        ("d", d),
                        ("ty", ts),
                        ("v", v),
                        ("else", targets.otherwise().as_usize().to_string()),
                        ("at", sp),
                    ])
                }
                TerminatorKind::Return => obj(&[("t", esc("return"))]),
                TerminatorKind::Unreachable => obj(&[("t", esc("unreachable"))]),
                TerminatorKind::UnwindResume => obj(&[("t", esc("resume"))]),
                TerminatorKind::UnwindTerminate(_) => obj(&[("t", esc("resume"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b, self.tcx).ty;
                    let ts = self.ty(pt);
                    obj(&[("t", esc("drop")), ("p", self.place(place, b)), ("ty", ts), ("to", target.as_usize().to_string())])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => obj(&[
                    ("t", esc("assert")),
                    ("d", self.operand(cond, b, env)),
                    ("exp", expected.to_string()),
                    ("msg", esc(&format!("{msg:?}"))),
                    ("to", target.as_usize().to_string()),
                    ("at", sp),
                ]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match *c.const_.ty().kind() {
                            ty::FnDef(d, a) => self.fnref(d, a.skip_binder(), env),
                            _ => obj(&[("ptr", self.operand(func, b, env))]),
                        },
                        _ => obj(&[("ptr", self.operand(func, b, env))]),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, b, env)).collect();
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(b, self.tcx); self.ty(t) }).collect();
                    let dt = destination.ty(b, self.tcx).ty;
                    let dts = self.ty(dt);
                    let d = self.place(destination, b);
                    obj(&[
                        ("t", esc("call")),
                        ("f", f),
                        ("a", arr(a)),
                        ("aty", arr(at)),
                        ("dest", d),
                        ("dty", dts),
                        ("to", target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())),
                        ("at", sp),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    obj(&[("t", esc("goto")), ("to", real_target.as_usize().to_string())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    obj(&[("t", esc("goto")), ("to", real_target.as_usize().to_string())])
                }
                other => obj(&[("t", esc("other")), ("s", esc(&format!("{other:?}")))]),
            };
            blocks.push(obj(&[("st", arr(st)), ("term", term), ("cleanup", bb.is_cleanup.to_string())]));
        }
        vec![
            ("args", b.arg_count.to_string()),
            ("locals", arr(locals)),
            ("names", arr(names)),
            ("blocks", arr(blocks)),
        ]
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let crate_name = tcx.crate_name(LOCAL_CRATE).to_string();
        let kind = if tcx.sess.opts.test { "test" } else {
            match tcx.crate_types().first().map(|c| format!("{c:?}")).as_deref() {
                Some("Executable") => "bin",
                _ => "lib",
            }
        };
        let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), ext: vec![], seen: HashSet::new() };
        let ev = tcx.effective_visibilities(());
        let mut adts = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        let mut traits = vec![];
        let mut consts = vec![];
        let items = tcx.hir_crate_items(());
        for ld in items.definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let discr: Vec<String> = if def.is_enum() {
                        def.discriminants(tcx).map(|(_, x)| x.val.to_string()).collect()
                    } else {
                        vec!["0".into()]
                    };
                    let vs: Vec<String> = def
                        .variants()
                        .iter()
                        .enumerate()
                        .map(|(i, v)| {
                            let fs: Vec<String> = v
                                .fields
                                .iter()
                                .map(|f| {
                                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                    let ts = cx.ty(t);
                                    obj(&[
                                        ("name", esc(f.name.as_str())),
                                        ("ty", ts),
                                        ("pub", f.vis.is_public().to_string()),
                                    ])
                                })
                                .collect();
                            obj(&[("name", esc(v.name.as_str())), ("discr", discr[i].clone()), ("fields", arr(fs))])
                        })
                        .collect();
                    adts.push(format!(
                        "{}:{}",
                        esc(&cx.id(d)),
                        obj(&[
                            ("kind", esc(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                            ("transparent", def.repr().transparent().to_string()),
                            ("reachable", ev.is_reachable(ld).to_string()),
                            ("variants", arr(vs)),
                            ("at", cx.span(tcx.def_span(d))),
                        ])
                    ));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ts = cx.ty(st);
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| t.instantiate_identity().skip_norm_wip());
                    let mut kv = vec![("id", esc(&cx.id(d))), ("self", ts), ("at", cx.span(tcx.def_span(d)))];
                    if let Some(t) = tr {
                        kv.push(("trait", esc(&cx.id(t.def_id))));
                        let a: Vec<String> = t.args.types().map(|x| cx.ty(x)).collect();
                        kv.push(("targs", arr(a)));
                    }
                    kv.push(("derived", tcx.is_automatically_derived(d).to_string()));
                    let preds: Vec<String> = tcx.clauses_of(d).clauses.iter().map(|(p, _)| esc(&format!("{p}"))).collect();
                    kv.push(("preds", arr(preds)));
                    let its: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|i| i.opt_name().is_some())
                        .map(|i| format!("{}:{}", esc(i.name().as_str()), esc(&cx.id(i.def_id))))
                        .collect();
                    kv.push(("items", format!("{{{}}}", its.join(","))));
                    let mut ats = vec![];
                    for i in tcx.associated_items(d).in_definition_order() {
                        if i.is_type() && i.opt_name().is_some() {
                            let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                            let ts = cx.ty(t);
                            ats.push(format!("{}:{}", esc(i.name().as_str()), ts));
                        }
                    }
                    kv.push(("assoc_tys", format!("{{{}}}", ats.join(","))));
                    impls.push(obj(&kv));
                }
                DefKind::Trait => {
                    let its: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|i| i.opt_name().is_some())
                        .map(|i| {
                            format!(
                                "{}:{}",
                                esc(i.name().as_str()),
                                obj(&[("id", esc(&cx.id(i.def_id))), ("default", i.defaultness(tcx).has_value().to_string())])
                            )
                        })
                        .collect();
                    traits.push(format!("{}:{{{}}}", esc(&cx.id(d)), its.join(",")));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ts = cx.ty(t);
                    statics.push(obj(&[
                        ("id", esc(&cx.id(d))),
                        ("ty", ts),
                        ("mut", mutability.is_mut().to_string()),
                        ("freeze", t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()).to_string()),
                        ("at", cx.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    consts.push(esc(&cx.id(d)));
                }
                _ => {}
            }
        }
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let (is_fn, k) = match dk {
                DefKind::Fn => (true, "fn"),
                DefKind::AssocFn => (true, "assoc"),
                DefKind::Closure => (true, "closure"),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => (false, "const"),
                DefKind::AnonConst => (false, "const"),
                _ => continue,
            };
            let env = ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d));
            let b = if is_fn { tcx.optimized_mir(d) } else {
                if matches!(dk, DefKind::AnonConst) { continue; }
                tcx.mir_for_ctfe(d)
            };
            let mut kv = cx.body(b, env);
            kv.push(("kind", esc(k)));
            kv.push(("name", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())));
            kv.push(("path", esc(&tcx.def_path_str(d))));
            kv.push(("at", cx.span(tcx.def_span(d))));
            kv.push(("vis", esc(if ev.is_reachable(*ld) { "pub" } else { "priv" })));
            if is_fn && dk != DefKind::Closure {
                let sig = tcx.fn_sig(d).skip_binder();
                kv.push(("unsafe", (!sig.safety().is_safe()).to_string()));
                kv.push(("regions", regions(tcx, d)));
                let ret = sig.output().skip_binder();
                let rs = cx.ty(ret);
                kv.push(("ret", rs));
                let ga: Vec<String> = ty::GenericArgs::identity_for_item(tcx, d).types().map(|t| cx.ty(t)).collect();
                kv.push(("generics", arr(ga)));
                // hidden type of an opaque return
                let revealed = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.local_decls[RETURN_PLACE].ty));
                if let Ok(t) = revealed {
                    let mut walk = vec![];
                    collect_types(tcx, t, env, &mut walk, 0);
                    kv.push(("ret_hidden", arr(walk.iter().map(|x| esc(x)))));
                }
            }
            if let Some(p) = tcx.opt_parent(d) {
                kv.push(("parent", esc(&cx.id(p))));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    kv.push(("impl", esc(&cx.id(im))));
                }
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    kv.push(("trait", esc(&cx.id(tr))));
                }
            }
            if dk == DefKind::Closure {
                let ups: Vec<String> = tcx.closure_captures(*ld).iter().map(|c| esc(&c.to_string(tcx))).collect();
                kv.push(("upvars", arr(ups)));
                if let ty::Closure(_, a) = *tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() {
                    let k = a.as_closure().kind();
                    kv.push(("closure_kind", esc(&format!("{k:?}"))));
                }
            }
            bodies.push(format!("{}:{}", esc(&cx.id(d)), obj(&kv)));
            if is_fn {
                let pm = tcx.promoted_mir(d);
                for (i, pb) in pm.iter_enumerated() {
                    let mut kv = cx.body(pb, env);
                    kv.push(("kind", esc("promoted")));
                    kv.push(("path", esc("promoted")));
                    bodies.push(format!("{}:{}", esc(&format!("{}::promoted[{}]", cx.id(d), i.as_usize())), obj(&kv)));
                }
            }
        }
        let mut exts = vec![];
        let mut total = 0;
        for _ in 0..4 {
            let todo = std::mem::take(&mut cx.ext);
            for d in todo {
                let b = tcx.optimized_mir(d);
                if b.basic_blocks.len() > 40 || total > 2000 { continue; }
                total += 1;
                let env = ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d));
                let mut kv = cx.body(b, env);
                kv.push(("kind", esc("ext")));
                kv.push(("name", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())));
                kv.push(("path", esc(&tcx.def_path_str(d))));
                kv.push(("at", esc("")));
                exts.push(format!("{}:{}", esc(&cx.id(d)), obj(&kv)));
                for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                    let mut kv = cx.body(pb, env);
                    kv.push(("kind", esc("ext")));
                    kv.push(("path", esc("promoted")));
                    exts.push(format!("{}:{}", esc(&format!("{}::promoted[{}]", cx.id(d), i.as_usize())), obj(&kv)));
                }
            }
        }
        let js = format!(
            "{{\"crate\":{},\"kind\":{},\"adts\":{{{}}},\"impls\":{},\"traits\":{{{}}},\"statics\":{},\"consts\":{},\"bodies\":{{{}}},\"ext\":{{{}}},\"types\":[{}]}}",
            esc(&crate_name),
            esc(kind),
            adts.join(","),
            arr(impls),
            traits.join(","),
            arr(statics),
            arr(consts),
            bodies.join(",\n"),
            exts.join(",\n"),
            cx.types.join(",\n")
        );
        let f = format!("{out}/{crate_name}.{kind}.json");
        std::fs::write(&f, js).expect("write dump");
        Compilation::Continue
    }
}

// lifetimes in the parameter types and (last) the return type of a signature
fn regions<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    let sig = tcx.fn_sig(d).skip_binder().skip_binder();
    let one = |t: Ty<'tcx>| {
        arr(t.walk().filter_map(|g| g.as_region()).map(|r| esc(&format!("{r:?}"))))
    };
    let mut v: Vec<String> = sig.inputs().iter().map(|t| one(*t)).collect();
    v.push(one(sig.output()));
    arr(v)
}

fn collect_types<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>, out: &mut Vec<String>, depth: usize) {
    if depth > 12 { return; }
    for g in t.walk() {
        if let Some(x) = g.as_type() {
            match *x.kind() {
                ty::Adt(d, _) => {
                    let s = format!("{}{}", tcx.crate_name(d.did().krate), tcx.def_path(d.did()).to_string_no_crate_verbose());
                    if !out.contains(&s) { out.push(s); }
                    if d.did().is_local() && depth < 4 {
                        if let ty::Adt(def, args) = *x.kind() {
                            for f in def.all_fields() {
                                let ft = f.ty(tcx, args).skip_norm_wip();
                                if ft != x { collect_types(tcx, ft, env, out, depth + 3); }
                            }
                        }
                    }
                }
                ty::Closure(_, a) => {
                    for u in a.as_closure().upvar_tys() {
                        collect_types(tcx, u, env, out, depth + 1);
                    }
                }
                ty::Ref(_, inner, m) if m.is_mut() => {
                    let s = format!("mut:{inner}");
                    if !out.contains(&s) { out.push(s); }
                }
                ty::Alias(..) => {
                    let s = format!("alias:{x}");
                    if !out.contains(&s) { out.push(s); }
                }
                _ => {}
            }
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if std::env::var("MIRDUMP_OUT").is_ok() && !args.iter().any(|a| a.starts_with("--print") || a == "-vV") {
        for f in ["-Zmir-opt-level=0", "-Coverflow-checks=off", "-Cdebug-assertions=off", "-Zub-checks=no", "-Zalways-encode-mir", "--cap-lints=allow"] {
            args.push(f.into());
        }
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
