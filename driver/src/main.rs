//! mirx: dumps the type-checked program (MIR after promotion, before borrow
//! checking and before the coroutine transform) of one crate as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; writes only when compiling MIRX_CRATE.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    Map(Vec<(String, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
fn n(x: usize) -> J {
    J::Num(x as i128)
}
impl J {
    fn str_into(x: &str, o: &mut String) {
        o.push('"');
        for c in x.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                c if (c as u32) < 0x20 => {
                    let _ = write!(o, "\\u{:04x}", c as u32);
                }
                c => o.push(c),
            }
        }
        o.push('"');
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(i) => {
                let _ = write!(o, "{}", i);
            }
            J::Str(x) => Self::str_into(x, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    Self::str_into(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
            J::Map(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    Self::str_into(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<(String, J)>,
    adt_seen: HashMap<DefId, ()>,
    env: Option<TypingEnv<'tcx>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(J::Obj(vec![("ty", n(self.ty(t)))]));
            } else if let Some(c) = a.as_const() {
                v.push(self.tyconst(c));
            }
        }
        J::Arr(v)
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return J::Obj(vec![("const", J::Num(v as i128))]);
        }
        if let Some(env) = self.env {
            if let ty::ConstKind::Alias(..) = c.kind() {
                let c2 = Const::Ty(self.tcx.types.usize, c);
                let _ = (env, c2);
            }
        }
        J::Obj(vec![("cparam", s(with_no_trimmed_paths!(format!("{}", c))))])
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, id);
        let txt = with_no_trimmed_paths!(format!("{}", t));
        let mut o = vec![("s", s(txt))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(i) => {
                o.push(("k", s("uint")));
                o.push(("bits", n(i.bit_width().unwrap_or(64) as usize)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(d.did()))));
                let aj = self.args(a);
                o.push(("args", aj));
                self.adt(d.did());
            }
            ty::Array(e, c) => {
                o.push(("k", s("array")));
                let e = self.ty(*e);
                o.push(("elem", n(e)));
                let c = self.tyconst(*c);
                o.push(("len", c));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e);
                o.push(("elem", n(e)));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(*e);
                o.push(("elem", n(e)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*e);
                o.push(("elem", n(e)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                o.push(("elems", J::Arr(v)));
            }
            ty::FnDef(..) => o.push(("k", s("fndef"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                let v = a.as_closure().upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                o.push(("upvars", J::Arr(v)));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", s("coroutine")));
                o.push(("path", s(self.path(*d))));
                let v = a.as_coroutine().upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                o.push(("upvars", J::Arr(v)));
            }
            ty::Dynamic(p, _) => {
                o.push(("k", s("dyn")));
                if let Some(d) = p.principal_def_id() {
                    o.push(("path", s(self.path(d))));
                }
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
                o.push(("index", n(p.index as usize)));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::Obj(o);
        id
    }
    fn adt(&mut self, d: DefId) {
        if self.adt_seen.insert(d, ()).is_some() {
            return;
        }
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        let local = d.is_local();
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                J::Num(def.discriminant_for_variant(self.tcx, vi).val as i128)
            } else {
                J::Null
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut o = vec![("name", s(f.name.to_string()))];
                if local {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    o.push(("ty", n(self.ty(t))));
                    o.push(("pub", J::Bool(f.vis.is_public())));
                }
                fs.push(J::Obj(o));
            }
            vs.push(J::Obj(vec![
                ("name", s(v.name.to_string())),
                ("discr", discr),
                ("fields", J::Arr(fs)),
            ]));
        }
        let k = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let p = self.path(d);
        self.adts.push((
            p,
            J::Obj(vec![
                ("kind", s(k)),
                ("local", J::Bool(local)),
                ("variants", J::Arr(vs)),
            ]),
        ));
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::Arr(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![s("."), n(f.as_usize()), n(t)])
                }
                ProjectionElem::Index(l) => J::Arr(vec![s("[]"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    s("[c]"),
                    n(offset as usize),
                    n(min_length as usize),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("[..]"), n(from as usize), n(to as usize), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![s("as"), n(v.as_usize())]),
                _ => J::Arr(vec![s("?")]),
            };
            pty = pty.projection_ty(self.tcx, e);
            v.push(j);
        }
        let t = self.ty(pty.ty);
        J::Obj(vec![("l", n(p.local.as_usize())), ("p", J::Arr(v)), ("t", n(t))])
    }

    fn alloc_bytes(&self, a: AllocId, off: usize, len: Option<usize>) -> Option<(Vec<u8>, bool)> {
        match self.tcx.try_get_global_alloc(a)? {
            GlobalAlloc::Memory(m) => {
                let al = m.inner();
                let end = match len {
                    Some(l) => off + l,
                    None => al.len(),
                };
                let prov = !al.provenance().ptrs().is_empty();
                Some((al.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec(), prov))
            }
            _ => None,
        }
    }
    fn bytes_j(b: &[u8]) -> J {
        J::Arr(b.iter().map(|x| J::Num(*x as i128)).collect())
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tid = self.ty(t);
        let mut o = vec![("t", n(tid))];
        match v {
            ConstValue::ZeroSized => {
                if let ty::FnDef(d, a) = t.kind() {
                    let d: DefId = (*d).into();
                    let a = a.skip_binder();
                    o.push(("fn", self.callee(d, a)));
                } else {
                    o.push(("zst", J::Bool(true)));
                }
            }
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                let val = if t.is_signed() {
                    size.sign_extend(bits)
                } else {
                    bits as i128
                };
                // u128 values above i128::MAX do not occur in this crate
                o.push(("int", J::Num(val)));
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => o.push(("static", s(self.path(d)))),
                    Some(GlobalAlloc::Memory(_)) => {
                        if let Some((b, p)) =
                            self.alloc_bytes(prov.alloc_id(), off.bytes() as usize, None)
                        {
                            o.push(("ptrbytes", Self::bytes_j(&b)));
                            o.push(("prov", J::Bool(p)));
                        }
                    }
                    Some(GlobalAlloc::Function { instance }) => {
                        o.push(("fnptr", s(self.path(instance.def_id()))))
                    }
                    _ => o.push(("ptr", J::Bool(true))),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some((b, _)) = self.alloc_bytes(alloc_id, 0, Some(meta as usize)) {
                    o.push(("slice", Self::bytes_j(&b)));
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some((b, p)) = self.alloc_bytes(alloc_id, offset.bytes() as usize, None) {
                    o.push(("bytes", Self::bytes_j(&b)));
                    o.push(("prov", J::Bool(p)));
                }
            }
        }
        J::Obj(o)
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        match c.const_ {
            Const::Val(v, t) => self.constval(v, t),
            Const::Ty(_, k) => {
                let tid = self.ty(t);
                if let Some(v) = k.try_to_target_usize(self.tcx) {
                    J::Obj(vec![("t", n(tid)), ("int", J::Num(v as i128))])
                } else if let ty::ConstKind::Value(v) = k.kind() {
                    self.constval(self.tcx.valtree_to_const_val(v), t)
                } else {
                    J::Obj(vec![("t", n(tid)), ("cparam", s(format!("{}", k)))])
                }
            }
            Const::Unevaluated(u, _) => {
                let tid = self.ty(t);
                if let Some(p) = u.promoted {
                    return J::Obj(vec![
                        ("t", n(tid)),
                        ("promoted", n(p.as_usize())),
                        ("of", s(self.path(u.def))),
                    ]);
                }
                if let Some(env) = self.env {
                    use rustc_middle::ty::TypeVisitableExt;
                    if !u.args.has_param() {
                        if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                            let mut j = self.constval(v, t);
                            if let J::Obj(o) = &mut j {
                                o.push(("const", s(self.path(u.def))));
                            }
                            return j;
                        }
                    }
                }
                J::Obj(vec![("t", n(tid)), ("const", s(self.path(u.def)))])
            }
        }
    }

    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", s(self.path(d))),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("krate", s(tcx.crate_name(d.krate).to_string())),
            ("local", J::Bool(d.is_local())),
        ];
        let aj = self.args(a);
        o.push(("args", aj));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            if a.len() > 0 {
                if let Some(t) = a[0].as_type() {
                    let t = self.ty(t);
                    o.push(("self", n(t)));
                }
            }
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st2 = self.ty(st);
            o.push(("impl_self", n(st2)));
        }
        if let Some(env) = self.env {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
                    let rd = inst.def_id();
                    o.push(("res", s(self.path(rd))));
                    o.push(("res_local", J::Bool(rd.is_local())));
                    let ra = self.args(inst.args);
                    o.push(("res_args", ra));
                    if let ty::InstanceKind::Virtual(..) = inst.def {
                        o.push(("virtual", J::Bool(true)));
                    }
                }
            }
        }
        J::Obj(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::Obj(vec![("copy", self.place(body, p))]),
            Operand::Move(p) => J::Obj(vec![("move", self.place(body, p))]),
            Operand::Constant(c) => J::Obj(vec![("const", self.constant(c))]),
            _ => J::Obj(vec![("rtcheck", J::Bool(true))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::Obj(vec![("r", s("use")), ("o", self.operand(body, o))]),
            Rvalue::Repeat(o, c) => {
                let c = self.tyconst(*c);
                J::Obj(vec![("r", s("repeat")), ("o", self.operand(body, o)), ("n", c)])
            }
            Rvalue::Ref(_, bk, p) => J::Obj(vec![
                ("r", s("ref")),
                ("mut", J::Bool(matches!(bk, BorrowKind::Mut { .. }))),
                ("fake", J::Bool(matches!(bk, BorrowKind::Fake(_)))),
                ("place", self.place(body, p)),
            ]),
            Rvalue::RawPtr(_, p) => J::Obj(vec![
                ("r", s("ref")),
                ("raw", J::Bool(true)),
                ("place", self.place(body, p)),
            ]),
            Rvalue::Reborrow(_, _, p) => J::Obj(vec![
                ("r", s("use")),
                ("o", J::Obj(vec![("copy", self.place(body, p))])),
            ]),
            Rvalue::ThreadLocalRef(d) => {
                J::Obj(vec![("r", s("tls")), ("path", s(self.path(*d)))])
            }
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                J::Obj(vec![
                    ("r", s("cast")),
                    ("kind", s(format!("{:?}", k))),
                    ("o", self.operand(body, o)),
                    ("t", n(t)),
                ])
            }
            Rvalue::BinaryOp(op, ab) => J::Obj(vec![
                ("r", s("bin")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(body, &ab.0)),
                ("b", self.operand(body, &ab.1)),
            ]),
            Rvalue::UnaryOp(op, a) => J::Obj(vec![
                ("r", s("un")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(body, a)),
            ]),
            Rvalue::Discriminant(p) => {
                J::Obj(vec![("r", s("discr")), ("place", self.place(body, p))])
            }
            Rvalue::CopyForDeref(p) => J::Obj(vec![
                ("r", s("use")),
                ("o", J::Obj(vec![("copy", self.place(body, p))])),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        o.push(("k", s("array")));
                        o.push(("elem", n(t)));
                    }
                    AggregateKind::Tuple => o.push(("k", s("tuple"))),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        self.adt(*d);
                        o.push(("k", s("adt")));
                        o.push(("path", s(self.path(*d))));
                        o.push(("variant", n(v.as_usize())));
                        if let Some(f) = f {
                            o.push(("field", n(f.as_usize())));
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("k", s("closure")));
                        o.push(("path", s(self.path(*d))));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        o.push(("k", s("coroutine")));
                        o.push(("path", s(self.path(*d))));
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        o.push(("k", s("coroutine_closure")));
                        o.push(("path", s(self.path(*d))));
                    }
                    AggregateKind::RawPtr(..) => o.push(("k", s("rawptr"))),
                }
                let v = ops.iter().map(|x| self.operand(body, x)).collect();
                o.push(("ops", J::Arr(v)));
                J::Obj(o)
            }
            other => J::Obj(vec![("r", s("other")), ("dbg", s(format!("{:?}", other)))]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(f, _) = e {
                            upnames.insert(f.as_usize(), v.name.to_string());
                            break;
                        }
                    }
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let mut o = vec![("t", n(t))];
            if let Some(x) = names.get(&l.as_usize()) {
                o.push(("name", s(x.clone())));
            }
            locals.push(J::Obj(o));
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let pj = self.place(body, p);
                        let rj = self.rvalue(body, r);
                        st.push(J::Obj(vec![("s", s("=")), ("p", pj), ("v", rj), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, place);
                        st.push(J::Obj(vec![
                            ("s", s("setdiscr")),
                            ("p", pj),
                            ("v", n(variant_index.as_usize())),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Obj(vec![("s", s("dead")), ("l", n(l.as_usize()))]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::Obj(vec![("s", s("live")), ("l", n(l.as_usize()))]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::Obj(vec![("s", s("intrinsic")), ("dbg", s(format!("{:?}", i)))]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("to", n(target.as_usize())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    let t = discr.ty(&body.local_decls, self.tcx);
                    let t = self.ty(t);
                    o.push(("t", n(t)));
                    o.push(("o", self.operand(body, discr)));
                    let v = targets
                        .iter()
                        .map(|(v, b)| J::Arr(vec![J::Num(v as i128), n(b.as_usize())]))
                        .collect();
                    o.push(("vals", J::Arr(v)));
                    o.push(("else", n(targets.otherwise().as_usize())));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    o.push(("k", s("resume")))
                }
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", s("drop")));
                    o.push(("p", self.place(body, place)));
                    o.push(("to", n(target.as_usize())));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push(("k", s("call")));
                    o.push(("f", self.operand(body, func)));
                    let v = args.iter().map(|a| self.operand(body, &a.node)).collect();
                    o.push(("args", J::Arr(v)));
                    o.push(("dest", self.place(body, destination)));
                    o.push(("to", target.map(|t| n(t.as_usize())).unwrap_or(J::Null)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", s("assert")));
                    o.push(("o", self.operand(body, cond)));
                    o.push(("expected", J::Bool(*expected)));
                    o.push(("to", n(target.as_usize())));
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            o.push(("msg", s("bounds")));
                            o.push(("a", self.operand(body, len)));
                            o.push(("b", self.operand(body, index)));
                        }
                        AssertKind::Overflow(op, a, b) => {
                            o.push(("msg", s(format!("overflow:{:?}", op))));
                            o.push(("a", self.operand(body, a)));
                            o.push(("b", self.operand(body, b)));
                        }
                        AssertKind::OverflowNeg(a) => {
                            o.push(("msg", s("overflowneg")));
                            o.push(("a", self.operand(body, a)));
                        }
                        AssertKind::DivisionByZero(a) => {
                            o.push(("msg", s("div0")));
                            o.push(("a", self.operand(body, a)));
                        }
                        AssertKind::RemainderByZero(a) => {
                            o.push(("msg", s("rem0")));
                            o.push(("a", self.operand(body, a)));
                        }
                        AssertKind::ResumedAfterReturn(_)
                        | AssertKind::ResumedAfterPanic(_)
                        | AssertKind::ResumedAfterDrop(_) => o.push(("msg", s("resumed"))),
                        _ => o.push(("msg", s("other"))),
                    }
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    o.push(("k", s("yield")));
                    o.push(("o", self.operand(body, value)));
                    o.push(("to", n(resume.as_usize())));
                    o.push(("dest", self.place(body, resume_arg)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("to", n(real_target.as_usize())));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("to", n(real_target.as_usize())));
                }
                TerminatorKind::CoroutineDrop => o.push(("k", s("resume"))),
                other => {
                    o.push(("k", s("other")));
                    o.push(("dbg", s(format!("{:?}", other))));
                }
            }
            o.push(("sp", sp));
            blocks.push(J::Obj(vec![
                ("s", J::Arr(st)),
                ("t", J::Obj(o)),
                ("cleanup", J::Bool(b.is_cleanup)),
            ]));
        }
        let mut up: Vec<(usize, String)> = upnames.into_iter().collect();
        up.sort();
        J::Obj(vec![
            ("argc", n(body.arg_count)),
            ("locals", J::Arr(locals)),
            ("blocks", J::Arr(blocks)),
            ("sp", self.span(body.span)),
            (
                "upnames",
                J::Arr(up.into_iter().map(|(i, x)| J::Arr(vec![n(i), s(x)])).collect()),
            ),
        ])
    }
}

struct Dump {
    out: String,
}

impl rustc_driver::Callbacks for Dump {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut saved: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = vec![];
        for d in tcx.hir_body_owners() {
            let kind = tcx.def_kind(d);
            if !matches!(
                kind,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody
            ) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(d);
            let b = b.borrow().clone();
            let p = p.borrow().iter().cloned().collect();
            saved.push((d, b, p));
        }
        let mut cx = Cx {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: vec![],
            adt_seen: HashMap::new(),
            env: None,
        };
        let mut bodies = vec![];
        for (d, b, ps) in &saved {
            let did = d.to_def_id();
            cx.env = Some(TypingEnv::post_analysis(tcx, d.to_def_id()));
            let mut j = cx.body(b);
            let pj: Vec<J> = ps.iter().map(|x| cx.body(x)).collect();
            let kind = tcx.def_kind(did);
            let mut parent = did;
            while matches!(tcx.def_kind(parent), DefKind::Closure | DefKind::SyntheticCoroutineBody) {
                parent = tcx.parent(parent);
            }
            let tr = tcx
                .trait_impl_of_assoc(parent)
                .map(|im| cx.path(tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip().def_id));
            let selfty = tcx.impl_of_assoc(parent).map(|im| {
                let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                cx.ty(t)
            });
            if let J::Obj(o) = &mut j {
                o.push(("kind", s(format!("{:?}", kind))));
                o.push(("coroutine", J::Bool(tcx.is_coroutine(did))));
                o.push(("promoted", J::Arr(pj)));
                o.push(("parent", s(cx.path(parent))));
                o.push((
                    "unsafe_in",
                    J::Bool(false),
                ));
                let vis = match kind {
                    DefKind::Fn | DefKind::AssocFn => tcx.visibility(did).is_public(),
                    _ => false,
                };
                o.push(("pub", J::Bool(vis)));
                o.push(("impl_trait", tr.map(s).unwrap_or(J::Null)));
                o.push(("impl_self", selfty.map(n).unwrap_or(J::Null)));
                let g = tcx.generics_of(parent);
                let mut gv = vec![];
                let mut gd = Some(g);
                let mut stack = vec![];
                while let Some(g) = gd {
                    stack.push(g);
                    gd = g.parent.map(|p| tcx.generics_of(p));
                }
                for g in stack.iter().rev() {
                    for p in &g.own_params {
                        match p.kind {
                            ty::GenericParamDefKind::Lifetime => {}
                            _ => gv.push(s(p.name.to_string())),
                        }
                    }
                }
                o.push(("generics", J::Arr(gv)));
            }
            bodies.push((cx.path(did), j));
        }
        cx.env = Some(TypingEnv::fully_monomorphized());
        // impl table
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()).iter() {
            for im in is {
                let imd = im.to_def_id();
                let t = tcx.type_of(imd).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                let mut ms = vec![];
                for it in tcx.associated_items(imd).in_definition_order() {
                    ms.push((it.name().to_string(), s(cx.path(it.def_id))));
                }
                impls.push(J::Obj(vec![
                    ("trait", s(cx.path(*tr))),
                    ("self", n(t)),
                    ("methods", J::Map(ms)),
                    ("derived", J::Bool(tcx.is_automatically_derived(imd))),
                    ("sp", cx.span(tcx.def_span(imd))),
                ]));
            }
        }
        // statics and consts
        let mut statics = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                let mut o = vec![("t", n(tid)), ("mut", J::Bool(mutability.is_mut()))];
                if let Ok(a) = tcx.eval_static_initializer(d) {
                    let al = a.inner();
                    let b = al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len());
                    let ptrs = al.provenance().ptrs();
                    if ptrs.is_empty() {
                        if b.len() <= 4096 {
                            o.push(("bytes", Cx::bytes_j(b)));
                        }
                    } else if matches!(t.kind(), ty::Ref(_, e, _) if e.is_str() || e.is_slice()) {
                        let len = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
                        for (_, p) in ptrs.iter() {
                            if let Some((bb, _)) = cx.alloc_bytes(p.alloc_id(), 0, Some(len)) {
                                o.push(("str", Cx::bytes_j(&bb)));
                            }
                        }
                    }
                }
                statics.push((cx.path(d), J::Obj(o)));
            }
        }
        let mut out = String::new();
        J::Obj(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("types", J::Arr(cx.types.clone())),
            ("adts", J::Map(cx.adts.clone())),
            ("bodies", J::Map(bodies)),
            ("impls", J::Arr(impls)),
            ("statics", J::Map(statics)),
        ])
        .write(&mut out);
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, &out).expect("mirx: cannot write output");
        std::fs::rename(&tmp, &self.out).expect("mirx: cannot rename output");
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc as the first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("MIRX_CRATE").unwrap_or_default();
    match std::env::var("MIRX_OUT") {
        Ok(out) if !want.is_empty() && want == krate => {
            rustc_driver::catch_with_exit_code(|| {
                rustc_driver::compiler_entrypoint(&args, &mut Dump { out })
            })
        }
        _ => rustc_driver::catch_with_exit_code(|| {
            rustc_driver::compiler_entrypoint(&args, &mut Nop)
        }),
    }
}
