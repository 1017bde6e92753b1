//! A rustc wrapper: compiles as rustc would and, for the workspace's own crates, writes the
//! type-checked program (MIR after drop elaboration, before the coroutine transform, with resolved
//! callees) as JSON into $MIRDUMP_OUT. Nothing of the analysed program is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{i}").unwrap(),
            J::S(x) => wstr(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn wstr(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tyix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adts_seen: HashSet<DefId>,
    want: VecDeque<DefId>,
    wanted: HashSet<DefId>,
    env: TypingEnv<'tcx>,
}

fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    let c = tcx.crate_name(d.krate);
    let mut c = c.to_string();
    if d.is_local() {
        // bins of one package may share a crate name with nothing else; keep them apart
        if let Ok(n) = std::env::var("MIRDUMP_CRATE") {
            c = n;
        }
    }
    format!("{}{}", c, tcx.def_path(d).to_string_no_crate_verbose())
}
fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

const FOLLOW: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::task::poll::",
    "core::ops::control_flow::",
    "core::ops::try_trait::",
    "core::bool::",
    "core::cmp::",
    "core::convert::",
];

impl<'tcx> Cx<'tcx> {
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let did = def.did();
        if !self.adts_seen.insert(did) {
            return;
        }
        let tcx = self.tcx;
        let mut discr: HashMap<usize, i128> = HashMap::new();
        if def.is_enum() {
            for (v, d) in def.discriminants(tcx) {
                discr.insert(v.as_usize(), d.val as i128);
            }
        }
        let mut vs = vec![];
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", J::I(t as i128))]));
            }
            vs.push(J::O(vec![
                ("n", s(v.name.to_string())),
                ("d", J::I(*discr.get(&i.as_usize()).unwrap_or(&0))),
                ("f", J::A(fs)),
            ]));
        }
        let dtor = match def.destructor(tcx) {
            Some(d) => s(uid(tcx, d.did)),
            None => J::N,
        };
        let gens = tcx.generics_of(did);
        let mut gp = vec![];
        for p in gens.own_params.iter() {
            gp.push(J::A(vec![s(p.name.to_string()), s(format!("{:?}", p.kind).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string())]));
        }
        let j = J::O(vec![
            ("p", s(pretty(tcx, did))),
            ("k", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(did.is_local())),
            ("pub", J::B(tcx.visibility(did).is_public())),
            ("v", J::A(vs)),
            ("dtor", dtor),
            ("g", J::A(gp)),
            ("sp", s(self.span(tcx.def_span(did)))),
        ]);
        self.adts.insert(uid(tcx, did), j);
    }

    fn targs(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(J::I(self.ty(t) as i128)),
                GenericArgKind::Const(c) => v.push(s(format!("{c:?}"))),
                _ => {}
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyix.get(&t) {
            return *i;
        }
        let ix = self.tys.len();
        self.tys.push(J::N);
        self.tyix.insert(t, ix);
        let tcx = self.tcx;
        let j = match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Int(_) | ty::Uint(_) => J::O(vec![("k", s("int")), ("n", s(format!("{t}")))]),
            ty::Float(_) => J::O(vec![("k", s("float"))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Adt(def, args) => {
                self.adt(*def);
                let a = self.targs(args);
                J::O(vec![("k", s("adt")), ("id", s(uid(tcx, def.did()))), ("p", s(pretty(tcx, def.did()))), ("a", a)])
            }
            ty::Ref(_, t, m) => J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("t", J::I(self.ty(*t) as i128))]),
            ty::RawPtr(t, m) => J::O(vec![("k", s("ptr")), ("m", J::B(m.is_mut())), ("t", J::I(self.ty(*t) as i128))]),
            ty::Slice(t) => J::O(vec![("k", s("slice")), ("t", J::I(self.ty(*t) as i128))]),
            ty::Array(t, n) => J::O(vec![("k", s("array")), ("t", J::I(self.ty(*t) as i128)), ("n", s(format!("{n}")))]),
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| J::I(self.ty(t) as i128)).collect();
                J::O(vec![("k", s("tuple")), ("a", J::A(v))])
            }
            ty::FnDef(d, _) => J::O(vec![("k", s("fndef")), ("id", s(uid(tcx, *d))), ("p", s(pretty(tcx, *d)))]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr"))]),
            ty::Closure(d, _) => {
                J::O(vec![("k", s("closure")), ("id", s(uid(tcx, *d)))])
            }
            ty::Coroutine(d, _) => J::O(vec![("k", s("coroutine")), ("id", s(uid(tcx, *d)))]),
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.to_string()))]),
            ty::Alias(_, al) => {
                let p = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => pretty(tcx, def_id),
                    ty::AliasTyKind::Opaque { def_id } => format!("opaque:{}", uid(tcx, def_id)),
                    _ => format!("{t}"),
                };
                let a = self.targs(al.args);
                J::O(vec![("k", s("alias")), ("p", s(p)), ("a", a), ("s", s(with_no_trimmed_paths!(format!("{t}"))))])
            }
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", s(with_no_trimmed_paths!(format!("{t}"))))]),
            _ => J::O(vec![("k", s("other")), ("s", s(with_no_trimmed_paths!(format!("{t}"))))]),
        };
        self.tys[ix] = j;
        ix
    }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{o:?}"),
        };
        format!("{}:{}", f, l.line)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            pr.push(match e {
                ProjectionElem::Deref => {
                    let t = self.ty(bt.ty);
                    J::A(vec![s("*"), J::I(t as i128)])
                }
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let b = self.ty(bt.ty);
                    J::A(vec![s("."), J::I(f.as_usize() as i128), J::I(t as i128), J::I(b as i128)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("["), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("c["), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s["), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => J::A(vec![
                    s("v"),
                    J::I(v.as_usize() as i128),
                    n.map(|n| s(n.to_string())).unwrap_or(J::N),
                ]),
                _ => J::A(vec![s("?")]),
            });
        }
        let t = p.ty(&body.local_decls, self.tcx).ty;
        let t = self.ty(t);
        J::O(vec![("l", J::I(p.local.as_usize() as i128)), ("p", J::A(pr)), ("t", J::I(t as i128))])
    }

    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(d);
        let mut o = vec![("id", s(uid(tcx, d))), ("p", s(pretty(tcx, d)))];
        if let Some(tr) = tr {
            o.push(("tr", s(pretty(tcx, tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("im", s(with_no_trimmed_paths!(format!("{st}")))));
        }
        o.push(("a", self.targs(args)));
        let mut follow = d;
        if tr.is_some() {
            let erased = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, erased) {
                let rd = inst.def_id();
                let kind = format!("{:?}", inst.def);
                let kind = kind.split('(').next().unwrap_or("").to_string();
                let mut r = vec![("id", s(uid(tcx, rd))), ("p", s(pretty(tcx, rd))), ("k", s(kind))];
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    r.push(("im", s(with_no_trimmed_paths!(format!("{st}")))));
                }
                o.push(("r", J::O(r)));
                follow = rd;
            }
        }
        self.follow(follow);
        J::O(o)
    }

    fn follow(&mut self, d: DefId) {
        if d.is_local() {
            return;
        }
        let u = uid(self.tcx, d);
        if FOLLOW.iter().any(|f| u.starts_with(f)) && self.wanted.insert(d) {
            self.want.push_back(d);
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = vec![("t", J::I(ti as i128))];
        if let ty::FnDef(d, args) = t.kind() {
            let a = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            o.push(("fn", self.fndef(*d, a)));
            return J::O(o);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::I(p.as_usize() as i128)));
                    o.push(("of", s(uid(tcx, u.def))));
                    return J::O(o);
                }
                o.push(("def", s(uid(tcx, u.def))));
                o.push(("defp", s(pretty(tcx, u.def))));
            }
            _ => {}
        }
        let simple = matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_));
        if simple {
            if let Some(i) = c.const_.try_eval_scalar_int(tcx, self.env) {
                let bits = i.to_bits(i.size());
                let v = if let ty::Int(_) = t.kind() { i.to_int(i.size()) } else { bits as i128 };
                o.push(("v", J::I(v)));
                return J::O(o);
            }
        }
        if let ty::Adt(d, _) = t.kind() {
            if d.is_enum() {
                // fieldless enum constants: find the variant by its discriminant
                if let Some(i) = c.const_.try_eval_scalar_int(tcx, self.env) {
                    let bits = i.to_bits(i.size());
                    for (v, dd) in d.discriminants(tcx) {
                        if dd.val == bits {
                            o.push(("variant", J::I(v.as_usize() as i128)));
                        }
                    }
                }
            }
        }
        o.push(("s", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        J::O(o)
    }

    fn op(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("k"), J::O(vec![("s", s("runtimecheck")), ("rc", J::B(true))])]),
        }
    }

    fn rv(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(body, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("rep"), self.op(body, o), s(format!("{n}"))]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, BorrowKind::Mut { .. })),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => {
                let kk = format!("{k:?}");
                let t = self.ty(*t);
                let op = self.op(body, o);
                J::A(vec![s("cast"), s(kk), op, J::I(t as i128)])
            }
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{b:?}")),
                self.op(body, &ops.0),
                self.op(body, &ops.1),
            ]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), self.op(body, o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        self.adt(self.tcx.adt_def(*d));
                        J::A(vec![
                            s("adt"),
                            s(uid(self.tcx, *d)),
                            J::I(v.as_usize() as i128),
                            f.map(|f| J::I(f.as_usize() as i128)).unwrap_or(J::N),
                            s(pretty(self.tcx, *d)),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(uid(self.tcx, *d))]),
                    AggregateKind::Coroutine(d, _) => J::A(vec![s("coroutine"), s(uid(self.tcx, *d))]),
                    AggregateKind::CoroutineClosure(d, _) => J::A(vec![s("closure"), s(uid(self.tcx, *d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                let o = ops.iter().map(|o| self.op(body, o)).collect();
                J::A(vec![s("agg"), kk, J::A(o)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(body, p)])]),
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>, ext: bool) -> J {
        let tcx = self.tcx;
        self.env = TypingEnv::post_analysis(tcx, did);
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(J::I(self.ty(l.ty) as i128));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(body, &p)]));
            }
        }
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            if !bb.is_cleanup {
                for x in &bb.statements {
                    let sp = self.span(x.source_info.span);
                    let j = match &x.kind {
                        StatementKind::Assign(b) => {
                            J::A(vec![s("="), self.place(body, &b.0), self.rv(body, &b.1), s(sp)])
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![
                            s("sd"),
                            self.place(body, place),
                            J::I(variant_index.as_usize() as i128),
                        ]),
                        StatementKind::StorageDead(l) => J::A(vec![s("dead"), J::I(l.as_usize() as i128)]),
                        StatementKind::StorageLive(l) => J::A(vec![s("live"), J::I(l.as_usize() as i128)]),
                        _ => continue,
                    };
                    st.push(j);
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbi = |b: BasicBlock| J::I(b.as_usize() as i128);
            let tj = if bb.is_cleanup {
                J::O(vec![("k", s("cleanup"))])
            } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", bbi(*target))]),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let dt = discr.ty(&body.local_decls, tcx);
                        let d = self.op(body, discr);
                        let dt = self.ty(dt);
                        let v = targets
                            .iter()
                            .map(|(v, b)| J::A(vec![J::I(v as i128), bbi(b)]))
                            .collect();
                        J::O(vec![
                            ("k", s("switch")),
                            ("d", d),
                            ("dt", J::I(dt as i128)),
                            ("v", J::A(v)),
                            ("o", bbi(targets.otherwise())),
                        ])
                    }
                    TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
                    TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                    TerminatorKind::Drop { place, target, .. } => J::O(vec![
                        ("k", s("drop")),
                        ("p", self.place(body, place)),
                        ("t", bbi(*target)),
                    ]),
                    TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                        let f = self.op(body, func);
                        let a = args.iter().map(|a| self.op(body, &a.node)).collect();
                        let fsp = self.span(*fn_span);
                        J::O(vec![
                            ("k", s("call")),
                            ("f", f),
                            ("a", J::A(a)),
                            ("d", self.place(body, destination)),
                            ("t", target.map(bbi).unwrap_or(J::N)),
                            ("fsp", s(fsp)),
                        ])
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let m = match &**msg {
                            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                            AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                            AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div0".to_string(),
                            _ => "other".to_string(),
                        };
                        let ops: Vec<J> = match &**msg {
                            AssertKind::Overflow(_, a, b) => vec![self.op(body, a), self.op(body, b)],
                            AssertKind::BoundsCheck { len, index } => vec![self.op(body, len), self.op(body, index)],
                            _ => vec![],
                        };
                        J::O(vec![
                            ("k", s("assert")),
                            ("c", self.op(body, cond)),
                            ("e", J::B(*expected)),
                            ("m", s(m)),
                            ("ops", J::A(ops)),
                            ("t", bbi(*target)),
                        ])
                    }
                    TerminatorKind::Yield { resume, resume_arg, drop, .. } => J::O(vec![
                        ("k", s("yield")),
                        ("t", bbi(*resume)),
                        ("ra", self.place(body, resume_arg)),
                        ("dr", drop.map(bbi).unwrap_or(J::N)),
                    ]),
                    TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                        J::O(vec![("k", s("goto")), ("t", bbi(*real_target))])
                    }
                    TerminatorKind::CoroutineDrop => J::O(vec![("k", s("coroutinedrop"))]),
                    _ => J::O(vec![("k", s("other"))]),
                }
            };
            let tj = match tj {
                J::O(mut v) => {
                    v.push(("sp", s(sp)));
                    J::O(v)
                }
                x => x,
            };
            bbs.push(J::A(vec![J::A(st), tj]));
        }
        let mut o = vec![
            ("id", s(uid(tcx, did))),
            ("p", s(pretty(tcx, did))),
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("bbs", J::A(bbs)),
            ("sp", s(self.span(tcx.def_span(did)))),
            ("ext", J::B(ext)),
            ("dk", s(format!("{:?}", tcx.def_kind(did)))),
        ];
        {
            let root = tcx.typeck_root_def_id(did);
            let mut g = tcx.generics_of(root);
            let mut chain = vec![g];
            while let Some(p) = g.parent {
                g = tcx.generics_of(p);
                chain.push(g);
            }
            let mut names = vec![];
            for g in chain.iter().rev() {
                for p in &g.own_params {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        names.push(s(p.name.to_string()));
                    }
                }
            }
            o.push(("g", J::A(names)));
        }
        if let Some(a) = body.spread_arg {
            o.push(("spread", J::I(a.as_usize() as i128)));
        }
        if !ext {
            let parent = tcx.opt_parent(did);
            if let Some(p) = parent {
                o.push(("parent", s(uid(tcx, p))));
            }
            if matches!(tcx.def_kind(did), DefKind::AssocFn) {
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let sti = self.ty(st);
                    o.push(("self", J::I(sti as i128)));
                    o.push(("im", s(with_no_trimmed_paths!(format!("{st}")))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("tr", s(pretty(tcx, tr.def_id))));
                    }
                }
                o.push(("n", s(tcx.item_name(did).to_string())));
            } else if matches!(tcx.def_kind(did), DefKind::Fn) {
                o.push(("n", s(tcx.item_name(did).to_string())));
            }
            if matches!(tcx.def_kind(did), DefKind::AssocFn | DefKind::Fn) {
                o.push(("pub", J::B(tcx.visibility(did).is_public())));
            }
        }
        J::O(o)
    }
}

/// Coroutine bodies as they are before the state-machine transform (their yields still explicit).
struct Cb {
    coroutines: HashMap<DefId, Body<'static>>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if std::env::var("MIRDUMP_OUT").is_err() {
            return Compilation::Continue;
        }
        for k in tcx.mir_keys(()).iter() {
            let did = k.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Closure) && tcx.is_coroutine(did) {
                let (b, _) = tcx.mir_promoted(*k);
                let b = b.borrow().clone();
                // SAFETY: read back only in after_analysis of the same session, while the arena lives
                let b: Body<'static> = unsafe { std::mem::transmute(b) };
                self.coroutines.insert(did, b);
            }
        }
        Compilation::Continue
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let cname = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| tcx.crate_name(LOCAL_CRATE).to_string());
        let mut cx = Cx {
            tcx,
            tys: vec![],
            tyix: HashMap::new(),
            adts: BTreeMap::new(),
            adts_seen: HashSet::new(),
            want: VecDeque::new(),
            wanted: HashSet::new(),
            env: TypingEnv::fully_monomorphized(),
        };
        let mut bodies = vec![];
        let mut stolen = vec![];
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for k in &keys {
            let did = k.to_def_id();
            if !matches!(
                tcx.def_kind(did),
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody
            ) {
                continue;
            }
            if let Some(b) = self.coroutines.remove(&did) {
                // SAFETY: see after_expansion
                let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                bodies.push(cx.body(did, &b, false));
                continue;
            }
            let st = tcx.mir_drops_elaborated_and_const_checked(*k);
            if st.is_stolen() {
                stolen.push(s(uid(tcx, did)));
                let b = tcx.optimized_mir(did).clone();
                bodies.push(cx.body(did, &b, false));
                continue;
            }
            let b = st.borrow().clone();
            bodies.push(cx.body(did, &b, false));
        }
        let mut proms = vec![];
        for k in &keys {
            let did = k.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let ps = tcx.promoted_mir(did);
            for (i, b) in ps.iter_enumerated() {
                let b = b.clone();
                proms.push(J::A(vec![s(uid(tcx, did)), J::I(i.as_usize() as i128), cx.body(did, &b, false)]));
            }
        }
        // traits, impls, and their associated types
        let mut impls = vec![];
        for im in tcx.trait_impls_in_crate(LOCAL_CRATE) {
            let tr = tcx.impl_trait_ref(*im).instantiate_identity().skip_norm_wip();
            let st = tr.self_ty();
            let sti = cx.ty(st);
            let a = cx.targs(tr.args);
            let mut items = vec![];
            for it in tcx.associated_items(*im).in_definition_order() {
                let nm = it.name().to_string();
                match it.kind {
                    ty::AssocKind::Type { .. } => {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(t);
                        items.push(J::A(vec![s("type"), s(nm), J::I(t as i128)]));
                    }
                    ty::AssocKind::Fn { .. } => items.push(J::A(vec![s("fn"), s(nm), s(uid(tcx, it.def_id))])),
                    _ => {}
                }
            }
            impls.push(J::O(vec![
                ("tr", s(pretty(tcx, tr.def_id))),
                ("self", J::I(sti as i128)),
                ("a", a),
                ("items", J::A(items)),
                ("sp", s(cx.span(tcx.def_span(*im)))),
            ]));
        }
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if tcx.def_kind(d) == DefKind::Trait {
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    items.push(J::A(vec![
                        s(it.name().to_string()),
                        s(uid(tcx, it.def_id)),
                        s(pretty(tcx, it.def_id)),
                        J::B(it.defaultness(tcx).has_value()),
                        J::B(matches!(it.kind, ty::AssocKind::Fn { .. })),
                    ]));
                }
                traits.push(J::O(vec![("p", s(pretty(tcx, d))), ("items", J::A(items)), ("sp", s(cx.span(tcx.def_span(d))))]));
            }
        }
        // external bodies that are followed
        let mut ext = vec![];
        while let Some(d) = cx.want.pop_front() {
            if tcx.is_mir_available(d) && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let b = tcx.instance_mir(ty::InstanceKind::Item(d)).clone();
                ext.push(cx.body(d, &b, true));
            }
        }
        let types = std::mem::take(&mut cx.tys);
        let adts = std::mem::take(&mut cx.adts).into_iter().map(|(k, v)| J::A(vec![s(k), v])).collect();
        let j = J::O(vec![
            ("crate", s(cname.clone())),
            ("tys", J::A(types)),
            ("adts", J::A(adts)),
            ("bodies", J::A(bodies)),
            ("promoted", J::A(proms)),
            ("ext", J::A(ext)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("stolen", J::A(stolen)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        let path = format!("{}/{}.json", out, cname);
        let tmp = format!("{path}.tmp{}", std::process::id());
        std::fs::write(&tmp, o).expect("write dump");
        std::fs::rename(&tmp, &path).expect("rename dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut name = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned();
        }
    }
    let print = args.iter().any(|a| a.starts_with("--print") || a == "-vV" || a == "--version");
    let build_script = name.as_deref().map_or(true, |n| n.starts_with("build_script"));
    if print || build_script || std::env::var("MIRDUMP_OUT").is_err() {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
        return;
    }
    let n = name.unwrap();
    // SAFETY: single threaded at this point
    unsafe { std::env::set_var("MIRDUMP_CRATE", n.replace('-', "_")) };
    rustc_driver::compiler_entrypoint(&args, &mut Cb { coroutines: HashMap::new() });
}
