//! mirdump: a rustc driver that writes the type-checked program (MIR after const
//! promotion, before borrow-check steals it) of the crate under analysis as JSON.
//! It runs nothing of the crate; it only prints what the compiler's intermediate
//! representation contains.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::Visitor;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn js(s: impl Into<String>) -> J {
    J::S(s.into())
}
fn ji(i: usize) -> J {
    J::I(i as i128)
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(",\n")
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}

// ---------------------------------------------------------------- dumper
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    env: ty::TypingEnv<'tcx>,
    adts: BTreeMap<String, J>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// unique key for local items (def path with disambiguators)
    fn key(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        if d.is_local() {
            p
        } else {
            format!("{}{}", self.tcx.crate_name(d.krate), p)
        }
    }
    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::A(vec![js(f), ji(lo.line)])
    }
    fn args(&mut self, a: &[ty::GenericArg<'tcx>]) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(ji(self.ty(t)));
            } else if let Some(c) = x.as_const() {
                v.push(js(format!("{c:?}")));
            }
        }
        J::A(v)
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let path = self.path(def.did());
        if self.adts.contains_key(&path) {
            return;
        }
        self.adts.insert(path.clone(), J::N);
        let mut vs = vec![];
        for v in def.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let local = def.did().is_local();
                let t = if local { ji(self.ty(ty)) } else { J::N };
                fs.push(J::O(vec![("name", js(f.name.to_string())), ("ty", t), ("pub", J::B(f.vis.is_public()))]));
            }
            vs.push(J::O(vec![("name", js(v.name.to_string())), ("fields", J::A(fs))]));
        }
        let mut discrs = vec![];
        if def.is_enum() {
            for (_, d) in def.discriminants(self.tcx) {
                discrs.push(J::I(d.val as i128));
            }
        }
        let j = J::O(vec![
            ("path", js(path.clone())),
            ("key", js(self.key(def.did()))),
            ("local", J::B(def.did().is_local())),
            ("kind", js(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("discrs", J::A(discrs)),
            ("variants", J::A(vs)),
        ]);
        self.adts.insert(path, j);
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::N);
        self.tmap.insert(t, i);
        let s = with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::Bool => o.push(("k", js("bool"))),
            ty::Char => o.push(("k", js("char"))),
            ty::Str => o.push(("k", js("str"))),
            ty::Never => o.push(("k", js("never"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", js("int"))),
            ty::Float(_) => o.push(("k", js("float"))),
            ty::Adt(def, args) => {
                o.push(("k", js("adt")));
                o.push(("path", js(self.path(def.did()))));
                o.push(("enum", J::B(def.is_enum())));
                o.push(("box", J::B(def.is_box())));
                let a = self.args(args);
                o.push(("args", a));
                self.adt(*def);
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", js("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = ji(self.ty(*inner));
                o.push(("ty", x));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", js("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = ji(self.ty(*inner));
                o.push(("ty", x));
            }
            ty::Slice(inner) => {
                o.push(("k", js("slice")));
                let x = ji(self.ty(*inner));
                o.push(("ty", x));
            }
            ty::Array(inner, c) => {
                o.push(("k", js("array")));
                let x = ji(self.ty(*inner));
                o.push(("ty", x));
                o.push(("len", js(format!("{c}"))));
            }
            ty::Tuple(ts) => {
                o.push(("k", js("tuple")));
                let v: Vec<J> = ts.iter().map(|t| ji(self.ty(t))).collect();
                o.push(("tys", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", js("fndef")));
                let args: ty::GenericArgsRef<'tcx> = args.skip_binder();
                let d: DefId = *d;
                let f = self.fnref(d, args);
                o.push(("fn", f));
            }
            ty::Closure(d, args) => {
                o.push(("k", js("closure")));
                o.push(("key", js(self.key(*d))));
                let c = args.as_closure();
                let up: Vec<J> = c.upvar_tys().iter().map(|t| ji(self.ty(t))).collect();
                o.push(("upvars", J::A(up)));
                let pa = self.args(c.parent_args());
                o.push(("args", pa));
            }
            ty::Dynamic(p, _) => {
                o.push(("k", js("dyn")));
                let pd = p.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                o.push(("trait", js(pd)));
            }
            ty::Param(p) => {
                o.push(("k", js("param")));
                o.push(("name", js(p.name.to_string())));
                o.push(("idx", ji(p.index as usize)));
            }
            ty::Alias(..) => {
                o.push(("k", js("alias")));
            }
            ty::FnPtr(..) => o.push(("k", js("fnptr"))),
            _ => o.push(("k", js("other"))),
        }
        o.push(("s", js(s)));
        self.types[i] = J::O(o);
        i
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", js(self.path(d))),
            ("key", js(self.key(d))),
            ("name", js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
            ("local", J::B(d.is_local())),
            ("crate", js(tcx.crate_name(d.krate).to_string())),
        ];
        let a = self.args(args);
        o.push(("args", a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", js(self.path(tr))));
            if let Some(t) = args.types().next() {
                let x = ji(self.ty(t));
                o.push(("self", x));
            }
            // statically resolved impl, when the types are concrete enough
            let args_e = tcx.erase_and_anonymize_regions(args);
            if !args_e.has_escaping_bound_vars() {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, args_e) {
                    let rd = inst.def_id();
                    if rd != d || matches!(inst.def, ty::InstanceKind::Item(_)) {
                        o.push(("res", js(self.key(rd))));
                        o.push(("respath", js(self.path(rd))));
                        o.push(("reslocal", J::B(rd.is_local())));
                        let ra = self.args(inst.args);
                        o.push(("resargs", ra));
                    }
                }
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let x = ji(self.ty(st));
            o.push(("self", x));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            o.push(("ctor", J::B(true)));
            if tcx.def_kind(parent) == DefKind::Variant {
                o.push(("ctor_variant", js(tcx.item_name(parent).to_string())));
                o.push(("ctor_adt", js(self.path(tcx.parent(parent)))));
            } else {
                o.push(("ctor_adt", js(self.path(parent))));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
        }
        J::O(o)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![ji(p.local.as_usize())];
        let mut pt = body.local_decls[p.local].ty;
        let mut cur = rustc_middle::mir::PlaceTy::from_ty(pt);
        for e in p.projection.iter() {
            let x = match e {
                PlaceElem::Deref => {
                    let t = ji(self.ty(cur.ty));
                    J::A(vec![js("deref"), t])
                }
                PlaceElem::Field(f, t) => {
                    let ti = ji(self.ty(t));
                    // name of the field
                    let name = match cur.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_struct() || def.is_enum() || def.is_union() {
                                def.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    J::A(vec![js("f"), ji(f.as_usize()), js(name), ti])
                }
                PlaceElem::Index(l) => J::A(vec![js("idx"), ji(l.as_usize())]),
                PlaceElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![js("cidx"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                PlaceElem::Subslice { from, to, from_end } => {
                    J::A(vec![js("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                PlaceElem::Downcast(n, vi) => {
                    J::A(vec![js("dc"), ji(vi.as_usize()), js(n.map(|s| s.to_string()).unwrap_or_default())])
                }
                PlaceElem::OpaqueCast(_) => J::A(vec![js("oc")]),
                _ => J::A(vec![js("other")]),
            };
            v.push(x);
            cur = cur.projection_ty(self.tcx, e);
            pt = cur.ty;
        }
        let _ = pt;
        J::A(v)
    }
    fn bytes_of(&self, alloc_id: interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc_id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let (o, l) = (off as usize, len as usize);
                if o + l > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + l).to_vec())
            }
            _ => None,
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let ti = ji(self.ty(t));
        let mut o: Vec<(&'static str, J)> = vec![("ty", ti)];
        match v {
            ConstValue::ZeroSized => o.push(("c", js("zst"))),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let raw = i.to_bits(i.size());
                let val: i128 = if matches!(t.kind(), ty::Int(_)) {
                    let bits = i.size().bits();
                    if bits == 128 { raw as i128 } else if raw >> (bits - 1) & 1 == 1 { raw as i128 - (1i128 << bits) } else { raw as i128 }
                } else {
                    raw as i128
                };
                o.push(("c", js("int")));
                o.push(("v", J::I(val)));
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match tcx.try_get_global_alloc(aid) {
                    Some(GlobalAlloc::Static(d)) => {
                        o.push(("c", js("static")));
                        o.push(("key", js(self.key(d))));
                    }
                    Some(GlobalAlloc::Function { instance, .. }) => {
                        o.push(("c", js("fnptr")));
                        o.push(("key", js(self.key(instance.def_id()))));
                    }
                    Some(GlobalAlloc::Memory(a)) => {
                        // &[u8; N], &T of scalar
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(e, _) = inner.kind() {
                                if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                    let n = a.inner().len() as u64;
                                    if let Some(b) = self.bytes_of(aid, off.bytes(), n - off.bytes()) {
                                        o.push(("c", js("bytes")));
                                        o.push(("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                                        return J::O(o);
                                    }
                                }
                            }
                        }
                        o.push(("c", js("mem")));
                    }
                    _ => o.push(("c", js("ptr"))),
                }
            }
            ConstValue::Slice { .. } => {
                let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if is_str {
                        o.push(("c", js("str")));
                        o.push(("v", js(String::from_utf8_lossy(b).to_string())));
                    } else {
                        o.push(("c", js("bytes")));
                        o.push(("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                    }
                } else {
                    o.push(("c", js("slice?")));
                }
            }
            ConstValue::Indirect { .. } => o.push(("c", js("indirect"))),
        }
        J::O(o)
    }
    fn cnst(&mut self, c: &Const<'tcx>) -> J {
        match c {
            Const::Val(v, t) => {
                if let ty::FnDef(d, args) = t.kind() {
                    let a: ty::GenericArgsRef<'tcx> = args.skip_binder();
                    let d: DefId = *d;
                    let f = self.fnref(d, a);
                    let ti = ji(self.ty(*t));
                    return J::O(vec![("c", js("fn")), ("ty", ti), ("fn", f)]);
                }
                self.cval(*v, *t)
            }
            Const::Ty(t, c) => {
                let ti = ji(self.ty(*t));
                if let Some(v) = c.try_to_value() {
                    if let Some(l) = v.try_to_leaf() {
                        return J::O(vec![("c", js("int")), ("ty", ti), ("v", J::I(l.to_bits(l.size()) as i128))]);
                    }
                    let isref = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                    if isref {
                        let cv = self.tcx.valtree_to_const_val(v);
                        return self.cval(cv, *t);
                    }
                }
                J::O(vec![("c", js("tyconst")), ("ty", ti), ("s", js(format!("{c:?}")))])
            }
            Const::Unevaluated(u, t) => {
                let ti = ji(self.ty(*t));
                if let Some(p) = u.promoted {
                    return J::O(vec![("c", js("promoted")), ("ty", ti), ("of", js(self.key(u.def))), ("i", ji(p.as_usize()))]);
                }
                let mut o = vec![("c", js("uneval")), ("ty", ti), ("key", js(self.key(u.def))), ("path", js(self.path(u.def)))];
                if !u.args.has_param() {
                    if let Ok(v) = self.tcx.const_eval_resolve(self.env, *u, rustc_span::DUMMY_SP) {
                        let x = self.cval(v, *t);
                        o.push(("val", x));
                    }
                }
                J::O(o)
            }
        }
    }
    fn op(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![js("copy"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![js("move"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![js("const"), self.cnst(&c.const_)]),
            Operand::RuntimeChecks(r) => J::A(vec![js("rtc"), js(format!("{r:?}"))]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![js("use"), self.op(body, o)]),
            Rvalue::Repeat(o, c) => {
                let x = self.op(body, o);
                J::A(vec![js("repeat"), x, js(format!("{c}"))])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![
                js("ref"),
                js(match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                }),
                self.place(body, p),
            ]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![js("ref"), js(if m.is_mut() { "mut" } else { "shared" }), self.place(body, p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![js("rawptr"), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => {
                let x = self.op(body, o);
                let ti = ji(self.ty(*t));
                J::A(vec![js("cast"), js(format!("{k:?}")), x, ti])
            }
            Rvalue::BinaryOp(b, ops) => {
                let x = self.op(body, &ops.0);
                let y = self.op(body, &ops.1);
                J::A(vec![js("bin"), js(format!("{b:?}")), x, y])
            }
            Rvalue::UnaryOp(u, o) => {
                let x = self.op(body, o);
                J::A(vec![js("un"), js(format!("{u:?}")), x])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = ji(self.ty(t));
                J::A(vec![js("discr"), self.place(body, p), ti])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(body, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => J::A(vec![js("array"), ji(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![js("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let a = self.args(args);
                        J::A(vec![
                            js("adt"),
                            js(self.path(*d)),
                            ji(vi.as_usize()),
                            js(def.variant(*vi).name.to_string()),
                            J::A(def.variant(*vi).fields.iter().map(|f| js(f.name.to_string())).collect()),
                            a,
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let a = self.args(args.as_closure().parent_args());
                        J::A(vec![js("closure"), js(self.key(*d)), a])
                    }
                    _ => J::A(vec![js("other")]),
                };
                J::A(vec![js("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![js("use"), J::A(vec![js("copy"), self.place(body, p)])]),
            _ => J::A(vec![js("other"), js(format!("{r:?}"))]),
        }
    }
    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let bb = |b: BasicBlock| ji(b.as_usize());
        let mut v = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![js("goto"), bb(*target)],
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                vec![js("goto"), bb(*real_target)]
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.op(body, discr);
                let dt = discr.ty(&body.local_decls, self.tcx);
                let dti = ji(self.ty(dt));
                let tv: Vec<J> = targets.iter().map(|(x, b)| J::A(vec![J::I(x as i128), bb(b)])).collect();
                vec![js("switch"), d, dti, J::A(tv), bb(targets.otherwise())]
            }
            TerminatorKind::Return => vec![js("return")],
            TerminatorKind::Unreachable => vec![js("unreachable")],
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![js("resume")],
            TerminatorKind::Drop { target, place, .. } => {
                let p = self.place(body, place);
                vec![js("drop"), bb(*target), p]
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.op(body, func);
                let a: Vec<J> = args.iter().map(|x| self.op(body, &x.node)).collect();
                let d = self.place(body, destination);
                let dt = destination.ty(&body.local_decls, self.tcx).ty;
                let dti = ji(self.ty(dt));
                vec![js("call"), f, J::A(a), d, target.map(bb).unwrap_or(J::N), dti]
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.op(body, cond);
                let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                    AssertKind::Overflow(b, x, y) => (format!("overflow:{b:?}"), vec![x, y]),
                    AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![x]),
                    AssertKind::DivisionByZero(x) => ("div0".into(), vec![x]),
                    AssertKind::RemainderByZero(x) => ("rem0".into(), vec![x]),
                    _ => ("other".into(), vec![]),
                };
                let oj: Vec<J> = ops.into_iter().map(|o| self.op(body, o)).collect();
                vec![js("assert"), c, J::B(*expected), js(k), J::A(oj), bb(*target)]
            }
            other => vec![js("other"), js(format!("{other:?}"))],
        };
        v.push(sp);
        J::A(v)
    }
    fn body(&mut self, body: &Body<'tcx>) -> J {
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(ji(self.ty(l.ty)));
        }
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(body, p);
                names.push(J::A(vec![js(v.name.to_string()), pl]));
            }
        }
        let mut blocks = vec![];
        for bbd in body.basic_blocks.iter() {
            if bbd.is_cleanup {
                blocks.push(J::N);
                continue;
            }
            let mut st = vec![];
            for s in &bbd.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, &b.1);
                        let sp = self.span(s.source_info.span);
                        st.push(J::A(vec![p, r, sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![js("dead"), ji(l.as_usize())])),
                    StatementKind::SetDiscriminant { .. } => st.push(J::A(vec![js("setdiscr")])),
                    _ => {}
                }
            }
            let t = self.term(body, bbd.terminator());
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t)]));
        }
        J::O(vec![
            ("argc", ji(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("spread", body.spread_arg.map(|l| ji(l.as_usize())).unwrap_or(J::N)),
            ("span", self.span(body.span)),
        ])
    }
}

// user-written unsafe blocks
struct U<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    out: &'a mut Vec<Span>,
}
impl<'a, 'tcx> Visitor<'tcx> for U<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push(b.span);
        }
        hir::intravisit::walk_block(self, b);
    }
}

struct C {
    out: String,
}
impl Callbacks for C {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        // pass 1: clone every body before anything steals it
        let mut ids: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        // functions and closures first; constants (whose evaluation steals) last
        ids.sort_by_key(|d| match tcx.def_kind(d.to_def_id()) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => 0,
            _ => 1,
        });
        let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = vec![];
        for id in &ids {
            let dk = tcx.def_kind(id.to_def_id());
            if matches!(dk, DefKind::Ctor(..)) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(*id);
            let b = b.borrow().clone();
            let p: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
            bodies.push((*id, b, p));
        }
        let env = ty::TypingEnv::fully_monomorphized();
        let mut d = D { tcx, types: vec![], tmap: HashMap::new(), env, adts: BTreeMap::new() };
        let mut jb: BTreeMap<String, J> = BTreeMap::new();
        let eff = tcx.effective_visibilities(());
        for (id, b, ps) in &bodies {
            let did = id.to_def_id();
            d.env = ty::TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(did));
            let dk = tcx.def_kind(did);
            let main = d.body(b);
            let prom: Vec<J> = ps.iter().map(|p| d.body(p)).collect();
            let mut o = vec![
                ("path", js(d.path(did))),
                ("kind", js(format!("{dk:?}"))),
                ("span", d.span(tcx.def_span(did))),
                ("pub", J::B(eff.is_reachable(*id))),
                ("exported", J::B(eff.is_exported(*id))),
                ("body", main),
                ("promoted", J::A(prom)),
            ];
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                let ins: Vec<J> = sig.inputs().iter().map(|t| ji(d.ty(*t))).collect();
                o.push(("inputs", J::A(ins)));
                let out = ji(d.ty(sig.output()));
                o.push(("output", out));
                let g = tcx.generics_of(did);
                let mut gp = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gp.push(J::A(vec![ji(p.index as usize), js(p.name.to_string())]));
                    }
                }
                o.push(("generics", J::A(gp)));
                // bounds of the type parameters
                let mut preds = vec![];
                for (c, _) in tcx.clauses_of(did).instantiate_identity(tcx) {
                    let c = c.skip_norm_wip();
                    preds.push(js(with_no_trimmed_paths!(format!("{c}"))));
                }
                o.push(("preds", J::A(preds)));
            }
            if dk == DefKind::Closure {
                o.push(("parent", js(d.key(tcx.typeck_root_def_id(did)))));
                let g = tcx.generics_of(tcx.typeck_root_def_id(did));
                let mut gp = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gp.push(J::A(vec![ji(p.index as usize), js(p.name.to_string())]));
                    }
                }
                o.push(("generics", J::A(gp)));
                let kt = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if let ty::Closure(_, a) = kt.kind() {
                    o.push(("ckind", js(format!("{:?}", a.as_closure().kind()))));
                }
            }
            if let Some(im) = tcx.impl_of_assoc(did) {
                o.push(("impl", js(d.key(im))));
            }
            o.push(("name", js(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())));
            jb.insert(d.key(did), J::O(o));
        }
        // impls
        d.env = ty::TypingEnv::fully_monomorphized();
        let mut impls = vec![];
        let mut traits = vec![];
        let mut statics = vec![];
        let mut unsafes: Vec<J> = vec![];
        let mut us = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let sti = ji(d.ty(st));
                    let mut o = vec![("key", js(d.key(did))), ("self", sti), ("span", d.span(tcx.def_span(did)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", js(d.path(tr.def_id))));
                        let a = d.args(tr.args);
                        o.push(("targs", a));
                        let h = tcx.impl_trait_header(did);
                        o.push(("unsafe", J::B(h.safety.is_unsafe())));
                        o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                    }
                    let mut items: BTreeMap<String, J> = BTreeMap::new();
                    for it in tcx.associated_items(did).in_definition_order() {
                        items.insert(it.name().to_string(), js(d.key(it.def_id)));
                    }
                    o.push(("items", J::M(items)));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let mut items: BTreeMap<String, J> = BTreeMap::new();
                    for it in tcx.associated_items(did).in_definition_order() {
                        let has = it.defaultness(tcx).has_value();
                        items.insert(it.name().to_string(), J::A(vec![js(d.key(it.def_id)), J::B(has)]));
                    }
                    traits.push(J::O(vec![("path", js(d.path(did))), ("items", J::M(items))]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    d.adt(a);
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let ti = ji(d.ty(t));
                    let freeze = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                    statics.push(J::O(vec![
                        ("key", js(d.key(did))),
                        ("ty", ti),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(freeze)),
                        ("span", d.span(tcx.def_span(did))),
                    ]));
                }
                DefKind::ForeignMod => unsafes.push(J::A(vec![js("extern"), d.span(tcx.def_span(did))])),
                _ => {}
            }
        }
        tcx.hir_visit_all_item_likes_in_crate(&mut U { tcx, out: &mut us });
        for s in us {
            unsafes.push(J::A(vec![js("block"), d.span(s)]));
        }
        // attributes that subvert linkage or safety
        let adts = std::mem::take(&mut d.adts);
        let o = J::O(vec![
            ("crate", js(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
            ("types", J::A(d.types.clone())),
            ("adts", J::M(adts)),
            ("bodies", J::M(jb)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("statics", J::A(statics)),
            ("unsafes", J::A(unsafes)),
        ]);
        let mut s = String::new();
        o.w(&mut s);
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
        && !args.iter().any(|a| a == "--test");
    if !out.is_empty() && is {
        rustc_driver::compiler_entrypoint(&args, &mut C { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
