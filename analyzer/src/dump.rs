//! Facts extraction.
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

use crate::json::{arr, obj, s};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ids: RefCell<HashMap<Ty<'tcx>, usize>>,
    ty_rows: RefCell<Vec<String>>,
    paths: RefCell<HashMap<DefId, String>>,
    path_owner: RefCell<HashMap<String, DefId>>,
}

fn n(i: impl std::fmt::Display) -> String {
    i.to_string()
}

impl<'tcx> Cx<'tcx> {
    /// A stable, unique, human readable path.
    fn path(&self, d: DefId) -> String {
        if let Some(p) = self.paths.borrow().get(&d) {
            return p.clone();
        }
        let mut p = ty::print::with_no_trimmed_paths!(
            ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        );
        // Functions nested in or generated in several impls may print alike: number them.
        let mut owner = self.path_owner.borrow_mut();
        let mut k = 1;
        let base = p.clone();
        while let Some(o) = owner.get(&p) {
            if *o == d {
                break;
            }
            k += 1;
            p = format!("{base}@{k}");
        }
        owner.insert(p.clone(), d);
        drop(owner);
        self.paths.borrow_mut().insert(d, p.clone());
        p
    }

    fn ty(&self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ids.borrow().get(&t) {
            return *i;
        }
        let id = self.ty_rows.borrow().len();
        self.ty_ids.borrow_mut().insert(t, id);
        self.ty_rows.borrow_mut().push(String::new());
        let text = ty::print::with_no_trimmed_paths!(
            ty::print::with_no_visible_paths!(format!("{t}"))
        );
        let mut kind = "other";
        let mut def = String::new();
        let mut args: Vec<usize> = vec![];
        match t.kind() {
            ty::Adt(d, a) => {
                kind = "adt";
                def = self.path(d.did());
                args.extend(self.generic_tys(a));
            }
            ty::Ref(_, u, m) => {
                kind = if m.is_mut() { "refmut" } else { "ref" };
                args.push(self.ty(*u));
            }
            ty::RawPtr(u, _) => {
                kind = "ptr";
                args.push(self.ty(*u));
            }
            ty::Slice(u) => {
                kind = "slice";
                args.push(self.ty(*u));
            }
            ty::Array(u, _) => {
                kind = "array";
                args.push(self.ty(*u));
            }
            ty::Tuple(us) => {
                kind = "tuple";
                for u in us.iter() {
                    args.push(self.ty(u));
                }
            }
            ty::FnDef(d, a) => {
                kind = "fndef";
                def = self.path(*d);
                args.extend(self.generic_tys(a.skip_binder()));
            }
            ty::FnPtr(sig, _) => {
                kind = "fnptr";
                for u in sig.skip_binder().inputs_and_output.iter() {
                    args.push(self.ty(u));
                }
            }
            ty::Closure(d, a) => {
                kind = "closure";
                def = self.path(*d);
                let up = a.as_closure().tupled_upvars_ty();
                if let ty::Tuple(us) = up.kind() {
                    for u in us.iter() {
                        args.push(self.ty(u));
                    }
                }
            }
            ty::Dynamic(preds, ..) => {
                kind = "dyn";
                if let Some(p) = preds.principal_def_id() {
                    def = self.path(p);
                }
                for p in preds.iter() {
                    if let ty::ExistentialPredicate::Trait(tr) = p.skip_binder() {
                        args.extend(self.generic_tys(tr.args));
                    }
                }
            }
            ty::Param(_) => kind = "param",
            ty::Alias(..) => kind = "alias",
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                kind = "prim"
            }
            ty::Never => kind = "never",
            _ => {}
        }
        self.ty_rows.borrow_mut()[id] = obj(&[
            ("s", s(&text)),
            ("k", s(kind)),
            ("d", s(&def)),
            ("a", arr(args.into_iter().map(n))),
        ]);
        id
    }

    fn generic_tys(&self, a: ty::GenericArgsRef<'tcx>) -> Vec<usize> {
        a.iter()
            .filter_map(|g| match g.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t)),
                _ => None,
            })
            .collect()
    }

    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        (f, l.line)
    }

    fn line(&self, sp: Span) -> usize {
        self.loc(sp).1
    }

    fn vis(&self, d: DefId) -> String {
        match self.tcx.visibility(d) {
            ty::Visibility::Public => "pub".into(),
            ty::Visibility::Restricted(m) => {
                if m.is_crate_root() {
                    "crate".into()
                } else {
                    format!("in {}", self.path(m.into()))
                }
            }
        }
    }
}

struct BodyCx<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> BodyCx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut items = vec![n(p.local.as_usize())];
        let mut pty = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let text = match el {
                ProjectionElem::Deref => "*".to_string(),
                ProjectionElem::Field(f, _) => match pty.ty.kind() {
                    ty::Adt(d, _) => {
                        let v = match pty.variant_index {
                            Some(v) => d.variant(v),
                            None if d.is_enum() => d.variant(rustc_abi::VariantIdx::from_u32(0)),
                            None => d.non_enum_variant(),
                        };
                        let fld = &v.fields[f];
                        if d.is_enum() {
                            format!(".{}:{}::{}", fld.name, self.cx.path(d.did()), v.name)
                        } else {
                            format!(".{}:{}", fld.name, self.cx.path(d.did()))
                        }
                    }
                    ty::Closure(d, _) => format!(".{}:{}", f.as_usize(), self.cx.path(*d)),
                    ty::Tuple(_) => format!(".{}:()", f.as_usize()),
                    _ => format!(".{}:?", f.as_usize()),
                },
                ProjectionElem::Downcast(name, _) => {
                    format!("as {}", name.map(|x| x.to_string()).unwrap_or_default())
                }
                ProjectionElem::Index(l) => format!("[_{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    if from_end {
                        format!("[-{offset}]")
                    } else {
                        format!("[{offset}]")
                    }
                }
                ProjectionElem::Subslice { from, to, .. } => format!("[{from}..{to}]"),
                _ => "cast".to_string(),
            };
            items.push(s(&text));
            pty = pty.projection_ty(tcx, el);
        }
        arr(items)
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        let mut f: Vec<(&str, String)> = vec![("t", n(self.cx.ty(t)))];
        if let ty::FnDef(d, a) = t.kind() {
            let (res, path) = self.resolve(*d, a.skip_binder());
            f.push(("fn", s(&path)));
            f.push(("decl", s(&self.cx.path(*d))));
            f.push(("res", s(res)));
            return obj(&f);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    f.push(("prom", n(p.as_usize())));
                    f.push(("def", s(&self.cx.path(u.def))));
                } else {
                    f.push(("def", s(&self.cx.path(u.def))));
                }
            }
            Const::Val(v, _) => {
                if let Some(id) = c.check_static_ptr(tcx) {
                    f.push(("static", s(&self.cx.path(id))));
                }
                if matches!(t.kind(), ty::Ref(_, u, _) if u.is_str()) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        f.push(("str", s(&String::from_utf8_lossy(b))));
                    }
                }
            }
            Const::Ty(..) => {}
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(bits) = c.const_.try_eval_bits(tcx, self.env) {
                if t.is_signed() {
                    let size = tcx
                        .layout_of(self.env.as_query_input(t))
                        .map(|l| l.size.bits())
                        .unwrap_or(128);
                    let v = if size < 128 {
                        let sh = 128 - size;
                        ((bits << sh) as i128) >> sh
                    } else {
                        bits as i128
                    };
                    f.push(("v", s(&n(v))));
                } else {
                    f.push(("v", s(&n(bits))));
                }
            }
        }
        obj(&f)
    }

    fn resolve(&self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> (&'static str, String) {
        let tcx = self.cx.tcx;
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            return ("ctor", self.cx.path(d));
        }
        let a = tcx.erase_and_anonymize_regions(a);
        match Instance::try_resolve(tcx, self.env, d, a) {
            Ok(Some(i)) => match i.def {
                InstanceKind::Item(id) => ("item", self.cx.path(id)),
                InstanceKind::Intrinsic(id) => ("intrinsic", self.cx.path(id)),
                InstanceKind::Virtual(id, _) => ("virtual", self.cx.path(id)),
                other => ("shim", self.cx.path(other.def_id())),
            },
            _ => ("unresolved", self.cx.path(d)),
        }
    }

    fn op(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => arr([s("c"), self.place(p)]),
            Operand::Move(p) => arr([s("m"), self.place(p)]),
            Operand::Constant(c) => arr([s("k"), self.konst(c)]),
            _ => arr([s("k"), obj(&[("t", n(self.cx.ty(self.cx.tcx.types.bool)))])]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => arr([s("use"), self.op(o)]),
            Rvalue::Repeat(o, _) => arr([s("repeat"), self.op(o)]),
            Rvalue::Ref(_, k, p) => {
                let k = match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                arr([s("ref"), s(k), self.place(p)])
            }
            Rvalue::Reborrow(_, m, p) => {
                arr([s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), self.place(p)])
            }
            Rvalue::ThreadLocalRef(d) => arr([s("tls"), s(&self.cx.path(*d))]),
            Rvalue::RawPtr(_, p) => arr([s("rawptr"), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let k = match k {
                    CastKind::PointerExposeProvenance => "expose",
                    CastKind::PointerWithExposedProvenance => "fromexposed",
                    CastKind::PointerCoercion(c, _) => match c {
                        ty::adjustment::PointerCoercion::ReifyFnPointer(_) => "reify",
                        ty::adjustment::PointerCoercion::ClosureFnPointer(_) => "closurefn",
                        ty::adjustment::PointerCoercion::Unsize => "unsize",
                        _ => "coerce",
                    },
                    CastKind::IntToInt => "int",
                    CastKind::FloatToInt => "f2i",
                    CastKind::FloatToFloat => "f2f",
                    CastKind::IntToFloat => "i2f",
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => "ptr",
                    CastKind::Transmute | CastKind::BoxDerefTransmute => "transmute",
                    CastKind::Subtype => "subtype",
                };
                arr([s("cast"), s(k), self.op(o), n(self.cx.ty(*t))])
            }
            Rvalue::BinaryOp(b, ops) => {
                arr([s("bin"), s(&format!("{b:?}")), self.op(&ops.0), self.op(&ops.1)])
            }
            Rvalue::UnaryOp(u, o) => arr([s("un"), s(&format!("{u:?}")), self.op(o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.cx.tcx).ty;
                arr([s("disc"), self.place(p), n(self.cx.ty(t))])
            }
            Rvalue::CopyForDeref(p) => arr([s("use"), arr([s("c"), self.place(p)])]),
            Rvalue::WrapUnsafeBinder(o, _) => arr([s("use"), self.op(o)]),
            Rvalue::Aggregate(k, ops) => {
                let mut fields: Vec<String> = vec![];
                let (kind, name, variant) = match **k {
                    AggregateKind::Array(_) => ("array", String::new(), String::new()),
                    AggregateKind::Tuple => ("tuple", String::new(), String::new()),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.cx.tcx.adt_def(d);
                        let var = def.variant(v);
                        match active {
                            Some(f) => fields.push(s(var.fields[f].name.as_str())),
                            None => {
                                for f in var.fields.iter() {
                                    fields.push(s(f.name.as_str()));
                                }
                            }
                        }
                        ("adt", self.cx.path(d), var.name.to_string())
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        ("closure", self.cx.path(d), String::new())
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", String::new(), String::new()),
                };
                arr([
                    s("agg"),
                    s(kind),
                    s(&name),
                    s(&variant),
                    arr(ops.iter().map(|o| self.op(o))),
                    arr(fields),
                ])
            }
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => n(b.as_usize()),
            _ => "null".into(),
        }
    }

    fn term(&self, t: &Terminator<'tcx>) -> String {
        let tcx = self.cx.tcx;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => arr([s("goto"), n(target.as_usize())]),
            TerminatorKind::FalseEdge { real_target, .. }
            | TerminatorKind::FalseUnwind { real_target, .. } => {
                arr([s("goto"), n(real_target.as_usize())])
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let t = discr.ty(&self.body.local_decls, tcx);
                let cases = targets
                    .iter()
                    .map(|(v, b)| arr([s(&n(v)), n(b.as_usize())]))
                    .collect::<Vec<_>>();
                arr([
                    s("switch"),
                    self.op(discr),
                    arr(cases),
                    n(targets.otherwise().as_usize()),
                    n(self.cx.ty(t)),
                ])
            }
            TerminatorKind::UnwindResume => arr([s("resume")]),
            TerminatorKind::UnwindTerminate(_) => arr([s("abort")]),
            TerminatorKind::Return => arr([s("ret")]),
            TerminatorKind::Unreachable => arr([s("unreach")]),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let t = place.ty(&self.body.local_decls, tcx).ty;
                arr([
                    s("drop"),
                    self.place(place),
                    n(self.cx.ty(t)),
                    n(target.as_usize()),
                    self.unwind(unwind),
                ])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let mut f: Vec<(&str, String)> = vec![];
                let ft = func.ty(&self.body.local_decls, tcx);
                if let ty::FnDef(d, a) = ft.kind() {
                    let a = a.skip_binder();
                    let (res, path) = self.resolve(*d, a);
                    f.push(("f", s(&path)));
                    f.push(("res", s(res)));
                    let decl = self.cx.path(*d);
                    if decl != path {
                        f.push(("decl", s(&decl)));
                    }
                    f.push(("ta", arr(self.cx.generic_tys(a).into_iter().map(n))));
                } else {
                    f.push(("res", s("fnptr")));
                    f.push(("fp", self.op(func)));
                }
                f.push(("a", arr(args.iter().map(|x| self.op(&x.node)))));
                f.push(("d", self.place(destination)));
                arr([
                    s("call"),
                    obj(&f),
                    target.map(|b| n(b.as_usize())).unwrap_or("null".into()),
                    self.unwind(unwind),
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                    AssertKind::Overflow(b, x, y) => (format!("overflow {b:?}"), vec![x, y]),
                    AssertKind::OverflowNeg(x) => ("overflow Neg".into(), vec![x]),
                    AssertKind::DivisionByZero(x) => ("divzero".into(), vec![x]),
                    AssertKind::RemainderByZero(x) => ("remzero".into(), vec![x]),
                    _ => ("other".into(), vec![]),
                };
                arr([
                    s("assert"),
                    s(&k),
                    self.op(cond),
                    if *expected { "true".into() } else { "false".into() },
                    arr(ops.into_iter().map(|o| self.op(o))),
                    n(target.as_usize()),
                    self.unwind(unwind),
                ])
            }
            TerminatorKind::TailCall { .. }
            | TerminatorKind::Yield { .. }
            | TerminatorKind::CoroutineDrop
            | TerminatorKind::InlineAsm { .. } => arr([s("other")]),
        }
    }

    fn json(&self, name: &str) -> String {
        let b = self.body;
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(arr([s(v.name.as_str()), self.place(p)]));
            }
        }
        let locals = arr(b.local_decls.iter().map(|l| n(self.cx.ty(l.ty))));
        let mut blocks: Vec<String> = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st: Vec<String> = vec![];
            for stmt in &bb.statements {
                match &stmt.kind {
                    StatementKind::Assign(a) => {
                        st.push(arr([
                            s("="),
                            self.place(&a.0),
                            self.rvalue(&a.1),
                            n(self.cx.line(stmt.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(arr([
                            s("setdisc"),
                            self.place(place),
                            n(variant_index.as_usize()),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(arr([s("dead"), n(l.as_usize())]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(arr([s("live"), n(l.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            blocks.push(obj(&[
                ("s", arr(st)),
                ("t", self.term(t)),
                ("l", n(self.cx.line(t.source_info.span))),
                ("c", if bb.is_cleanup { "1".into() } else { "0".into() }),
            ]));
        }
        obj(&[
            ("name", s(name)),
            ("args", n(b.arg_count)),
            ("locals", locals),
            ("vars", arr(names)),
            ("blocks", arr(blocks)),
        ])
    }
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let cx = Cx {
        tcx,
        ty_ids: Default::default(),
        ty_rows: Default::default(),
        paths: Default::default(),
        path_owner: Default::default(),
    };
    let mut bodies = std::io::BufWriter::new(std::fs::File::create(format!("{out}.bodies")).unwrap());
    let mut index = std::io::BufWriter::new(std::fs::File::create(format!("{out}.index")).unwrap());

    // Items: ADTs, traits, impls, statics.
    let mut line = |text: String| writeln!(index, "{text}").unwrap();
    let items = tcx.hir_crate_items(());
    let mut adts: Vec<DefId> = vec![];
    for id in items.definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(d),
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, d);
                let (file, l) = cx.loc(tcx.def_span(d));
                line(obj(&[
                    ("K", s("static")),
                    ("path", s(&cx.path(d))),
                    ("ty", n(cx.ty(t))),
                    ("freeze", if t.is_freeze(tcx, env) { "true".into() } else { "false".into() }),
                    ("mut", if tcx.is_mutable_static(d) { "true".into() } else { "false".into() }),
                    ("tls", if tcx.is_thread_local_static(d) { "true".into() } else { "false".into() }),
                    ("file", s(&file)),
                    ("line", n(l)),
                ]));
            }
            DefKind::Trait => {
                let methods: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                    .map(|i| s(&cx.path(i.def_id)))
                    .collect();
                line(obj(&[
                    ("K", s("trait")),
                    ("path", s(&cx.path(d))),
                    ("methods", arr(methods)),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = if of_trait {
                    let h = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    cx.path(h.def_id)
                } else {
                    String::new()
                };
                let methods: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                    .map(|i| {
                        let tm = i
                            .trait_item_def_id()
                            .map(|t| cx.path(t))
                            .unwrap_or_default();
                        arr([s(&cx.path(i.def_id)), s(&tm)])
                    })
                    .collect();
                let (file, l) = cx.loc(tcx.def_span(d));
                let derived = if tcx.is_automatically_derived(d) { "true" } else { "false" };
                line(obj(&[
                    ("K", s("impl")),
                    ("trait", s(&tr)),
                    ("self", n(cx.ty(self_ty))),
                    ("methods", arr(methods)),
                    ("derived", derived.into()),
                    ("file", s(&file)),
                    ("line", n(l)),
                ]));
            }
            _ => {}
        }
    }
    for d in adts {
        let def = tcx.adt_def(d);
        let mut vs: Vec<String> = vec![];
        let discrs: HashMap<_, _> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, x)| (i, x.val)).collect()
        } else {
            Default::default()
        };
        for (vi, v) in def.variants().iter_enumerated() {
            let fields = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    arr([s(f.name.as_str()), n(cx.ty(t)), s(&cx.vis(f.did))])
                })
                .collect::<Vec<_>>();
            vs.push(obj(&[
                ("name", s(v.name.as_str())),
                ("disc", discrs.get(&vi).map(|x| s(&n(x))).unwrap_or("null".into())),
                ("fields", arr(fields)),
            ]));
        }
        let (file, l) = cx.loc(tcx.def_span(d));
        line(obj(&[
            ("K", s("adt")),
            ("path", s(&cx.path(d))),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("vis", s(&cx.vis(d))),
            ("ty", n(cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
            ("variants", arr(vs)),
            ("file", s(&file)),
            ("line", n(l)),
        ]));
    }

    // Bodies.
    let mut count = 0usize;
    let mut offset = 0usize;
    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    for id in keys {
        let d = id.to_def_id();
        let kind = tcx.def_kind(d);
        let (body, kname) = match kind {
            DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(d), "fn"),
            DefKind::Closure => (tcx.optimized_mir(d), "closure"),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                (tcx.mir_for_ctfe(d), "const")
            }
            _ => continue,
        };
        let name = cx.path(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let bcx = BodyCx { cx: &cx, body, env };
        let mut text = bcx.json(&name);
        let (file, l) = cx.loc(tcx.def_span(d));
        let mut meta: Vec<(&str, String)> = vec![
            ("K", s("fn")),
            ("path", s(&name)),
            ("kind", s(kname)),
            ("file", s(&file)),
            ("line", n(l)),
            ("off", n(offset)),
        ];
        if kname == "closure" {
            meta.push(("parent", s(&cx.path(tcx.parent(d)))));
        } else if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            meta.push(("vis", s(&cx.vis(d))));
        }
        if matches!(kind, DefKind::AssocFn) {
            let parent = tcx.parent(d);
            match tcx.def_kind(parent) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    meta.push(("self", n(cx.ty(st))));
                }
                DefKind::Trait => meta.push(("trait", s(&cx.path(parent)))),
                _ => {}
            }
            let ai = tcx.associated_item(d);
            if let Some(t) = ai.trait_item_def_id() {
                meta.push(("impl_of", s(&cx.path(t))));
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let sig = tcx.liberate_late_bound_regions(d, sig);
            meta.push(("in", arr(sig.inputs().iter().map(|t| n(cx.ty(*t))))));
            meta.push(("out", n(cx.ty(sig.output()))));
        }
        meta.push(("len", n(text.len())));
        text.push('\n');
        bodies.write_all(text.as_bytes()).unwrap();
        offset += text.len();
        line(obj(&meta));
        count += 1;
        // Promoted constants.
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                let pname = format!("{name}::{{promoted#{}}}", pi.as_usize());
                let bcx = BodyCx { cx: &cx, body: pb, env };
                let mut text = bcx.json(&pname);
                line(obj(&[
                    ("K", s("fn")),
                    ("path", s(&pname)),
                    ("kind", s("promoted")),
                    ("file", s(&file)),
                    ("line", n(l)),
                    ("off", n(offset)),
                    ("len", n(text.len())),
                    ("parent", s(&name)),
                ]));
                text.push('\n');
                bodies.write_all(text.as_bytes()).unwrap();
                offset += text.len();
            }
        }
    }
    let rows = cx.ty_rows.borrow();
    line(obj(&[("K", s("types")), ("rows", arr(rows.iter().cloned()))]));
    line(obj(&[("K", s("end")), ("bodies", n(count))]));
}
