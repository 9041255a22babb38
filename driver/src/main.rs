//! mirfacts: a rustc driver that writes the type-checked program (MIR after
//! borrow checking and drop elaboration, before the coroutine transform) of the
//! selected crates as JSON.  It runs as RUSTC_WORKSPACE_WRAPPER under cargo, so it
//! sees exactly what the real build sees.  It decides nothing; /verif/sa does.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_transform;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_q: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, did: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(did);
        let name = match key.disambiguated_data.data {
            rustc_hir::definitions::DefPathData::CrateRoot => {
                return tcx.crate_name(did.krate).to_string()
            }
            rustc_hir::definitions::DefPathData::Impl => {
                return match tcx.impl_opt_trait_ref(did) {
                    Some(tr) => {
                        let tr = tr.skip_binder();
                        let mut ta = String::new();
                        if did.is_local() {
                            let v: Vec<String> = tr
                                .args
                                .types()
                                .skip(1)
                                .map(|t| self.short(t))
                                .collect();
                            if !v.is_empty() {
                                ta = format!("<{}>", v.join(","));
                            }
                        }
                        format!("<{} as {}{}>", self.short(tr.self_ty()), self.path(tr.def_id), ta)
                    }
                    None => {
                        let t = tcx.type_of(did).skip_binder();
                        self.short(t)
                    }
                };
            }
            rustc_hir::definitions::DefPathData::ForeignMod => "{extern}".to_string(),
            ref d => match d.get_opt_name() {
                Some(n) => n.to_string(),
                None => format!("{{{}#{}}}", key.disambiguated_data.data, key.disambiguated_data.disambiguator),
            },
        };
        let parent = DefId { krate: did.krate, index: key.parent.unwrap() };
        format!("{}::{}", self.path(parent), name)
    }
    fn short(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(d, _) => self.path(d.did()),
            TyKind::Ref(_, t, _) => format!("&{}", self.short(*t)),
            TyKind::Slice(t) => format!("[{}]", self.short(*t)),
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.short(t)).collect();
                format!("({})", v.join(","))
            }
            TyKind::Dynamic(p, ..) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", self.path(d)),
                None => "dyn".into(),
            },
            TyKind::Array(t, _) => format!("[{};_]", self.short(*t)),
            TyKind::RawPtr(t, _) => format!("*{}", self.short(*t)),
            _ => format!("{}", t),
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Const(_) => v.push("-1".into()),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.tyout.len();
        self.tys.insert(t, id);
        self.tyout.push(String::new());
        let body = match t.kind() {
            TyKind::Adt(d, a) => {
                if self.adts.insert(d.did(), ()).is_none() {
                    self.adt_q.push(d.did());
                }
                let p = self.path(d.did());
                let a = self.args(a);
                format!("\"k\":\"adt\",\"d\":{},\"a\":{}", js(&p), a)
            }
            TyKind::Ref(_, x, m) => {
                let x = self.ty(*x);
                format!("\"k\":\"ref\",\"m\":{},\"a\":[{}]", m.is_mut(), x)
            }
            TyKind::RawPtr(x, _) => {
                let x = self.ty(*x);
                format!("\"k\":\"ptr\",\"a\":[{}]", x)
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(v))
            }
            TyKind::Slice(x) => {
                let x = self.ty(*x);
                format!("\"k\":\"slice\",\"a\":[{}]", x)
            }
            TyKind::Array(x, n) => {
                let x = self.ty(*x);
                let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"a\":[{}],\"n\":{}", x, n)
            }
            TyKind::Closure(d, a) => {
                let p = self.path(*d);
                let parent = self.args(self.tcx.mk_args(a.as_closure().parent_args()));
                format!("\"k\":\"closure\",\"d\":{},\"a\":{}", js(&p), parent)
            }
            TyKind::Coroutine(d, a) => {
                let p = self.path(*d);
                let parent = self.args(self.tcx.mk_args(a.as_coroutine().parent_args()));
                format!("\"k\":\"coroutine\",\"d\":{},\"a\":{}", js(&p), parent)
            }
            TyKind::FnDef(d, a) => {
                let p = self.path(*d);
                let a = self.args(a.skip_binder());
                format!("\"k\":\"fndef\",\"d\":{},\"a\":{}", js(&p), a)
            }
            TyKind::Param(p) => format!("\"k\":\"param\",\"d\":{},\"i\":{}", js(p.name.as_str()), p.index),
            TyKind::Dynamic(p, ..) => {
                let d = p.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"d\":{}", js(&d))
            }
            TyKind::Alias(_, al) => {
                let a = self.args(al.args);
                format!("\"k\":\"alias\",\"a\":{}", a)
            }
            TyKind::Never => "\"k\":\"never\"".to_string(),
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            _ => "\"k\":\"prim\"".to_string(),
        };
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        self.tyout[id] = format!("{{{},\"s\":{}}}", body, js(&s));
        id
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = Vec::new();
        for el in p.projection.iter() {
            let s = match el {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        TyKind::Adt(d, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_union() {
                                String::new()
                            } else {
                                d.variant(vi).fields[f].name.to_string()
                            }
                        }
                        _ => String::new(),
                    };
                    format!("[\"f\",{},{}]", f.index(), js(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"c\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, vi) => format!(
                    "[\"v\",{},{}]",
                    vi.index(),
                    js(&n.map(|s| s.to_string()).unwrap_or_default())
                ),
                _ => "[\"o\"]".to_string(),
            };
            pt = pt.projection_ty(tcx, el);
            v.push(s);
        }
        format!("[{},{}]", p.local.index(), arr(v))
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.constant(body, &c.const_),
            #[allow(unreachable_patterns)]
            _ => "[\"rtchecks\"]".to_string(),
        }
    }

    fn bytes_of(&self, id: mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => Some("{\"z\":1}".to_string()),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let bits = i.to_bits(sz);
                let signed = matches!(t.kind(), TyKind::Int(_));
                let txt = if signed {
                    let sh = 128 - sz.bits();
                    (((bits << sh) as i128) >> sh).to_string()
                } else {
                    bits.to_string()
                };
                Some(format!("{{\"int\":{}}}", js(&txt)))
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => Some(format!("{{\"static\":{}}}", js(&self.path(d)))),
                    Some(GlobalAlloc::Function { instance, .. }) => {
                        let p = self.path(instance.def_id());
                        let a = self.args(instance.args);
                        Some(format!("{{\"fn\":{},\"fa\":{}}}", js(&p), a))
                    }
                    Some(GlobalAlloc::Memory(m)) => {
                        let len = m.inner().len();
                        let b = self.bytes_of(id, 0, len)?;
                        let b = &b[off.bytes() as usize..];
                        Some(format!("{{\"mem\":{}}}", arr(b.iter().map(|x| x.to_string()))))
                    }
                    _ => None,
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let b = self.bytes_of(alloc_id, 0, meta as usize)?;
                if let TyKind::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        return Some(format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(&b))));
                    }
                }
                Some(format!("{{\"bytes\":{}}}", arr(b.iter().map(|x| x.to_string()))))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) {
                    let a = m.inner();
                    if a.provenance().ptrs().is_empty() {
                        let len = a.len();
                        let b = self.bytes_of(alloc_id, 0, len)?;
                        let b = &b[offset.bytes() as usize..];
                        return Some(format!("{{\"raw\":{}}}", arr(b.iter().map(|x| x.to_string()))));
                    }
                }
                None
            }
        }
    }

    fn constant(&mut self, body: &Body<'tcx>, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        if let TyKind::FnDef(d, a) = t.kind() {
            let (d, a) = (*d, a.skip_binder());
            return format!("[\"fn\",{}]", self.fnref(body, d, a));
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let path = self.path(u.def);
                return format!("[\"promoted\",{},{},{}]", js(&path), p.index(), tid);
            }
        }
        let env = TypingEnv::post_analysis(tcx, body.source.def_id());
        let v = match c {
            Const::Val(v, _) => Some(*v),
            _ => c.eval(tcx, env, rustc_span::DUMMY_SP).ok(),
        };
        let name = if let Const::Unevaluated(u, _) = c {
            js(&self.path(u.def))
        } else {
            "null".into()
        };
        let val = v.and_then(|v| self.constval(v, t)).unwrap_or_else(|| "null".to_string());
        format!("[\"const\",{},{},{}]", val, tid, name)
    }

    fn fnref(&mut self, body: &Body<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let args = self.args(a);
        let env = TypingEnv::post_analysis(tcx, body.source.def_id());
        let mut res = "null".to_string();
        let mut kind = String::new();
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, a) {
            let rd = i.def_id();
            let rp = self.path(rd);
            let ra = self.args(i.args);
            kind = match i.def {
                ty::InstanceKind::Virtual(..) => "virtual".into(),
                ty::InstanceKind::Item(_) => "item".into(),
                _ => "shim".into(),
            };
            if rd != d || i.args != a {
                res = format!("{{\"d\":{},\"a\":{}}}", js(&rp), ra);
            }
        }
        let tr = tcx.opt_associated_item(d).and_then(|ai| {
            let _ = ai;
            tcx.trait_of_assoc(d)
        });
        let tr = tr.map(|t| js(&self.path(t))).unwrap_or("null".into());
        format!("{{\"d\":{},\"a\":{},\"r\":{},\"k\":{},\"t\":{}}}", js(&p), args, res, js(&kind), tr)
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(body, o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = !matches!(bk, BorrowKind::Shared);
                format!("[\"ref\",{},{}]", self.place(body, p), m)
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let f = self.ty(from);
                let tt = self.ty(*t);
                let o = self.operand(body, o);
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), o, f, tt)
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(body, &b.0);
                let y = self.operand(body, &b.1);
                let t = self.ty(b.0.ty(&body.local_decls, self.tcx));
                format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", op)), x, y, t)
            }
            Rvalue::UnaryOp(op, o) => {
                let x = self.operand(body, o);
                format!("[\"un\",{},{}]", js(&format!("{:?}", op)), x)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, p), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, a, _, fi) => {
                        if self.adts.insert(*d, ()).is_none() {
                            self.adt_q.push(*d);
                        }
                        let p = self.path(*d);
                        let vn = self.tcx.adt_def(*d).variant(*v).name.to_string();
                        let a = self.args(a);
                        format!(
                            "{{\"k\":\"adt\",\"d\":{},\"v\":{},\"n\":{},\"a\":{},\"u\":{}}}",
                            js(&p),
                            v.index(),
                            js(&vn),
                            a,
                            fi.map(|f| f.index() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let p = self.path(*d);
                        let a = self.args(self.tcx.mk_args(a.as_closure().parent_args()));
                        format!("{{\"k\":\"closure\",\"d\":{},\"a\":{}}}", js(&p), a)
                    }
                    AggregateKind::Coroutine(d, a) => {
                        let p = self.path(*d);
                        let a = self.args(self.tcx.mk_args(a.as_coroutine().parent_args()));
                        format!("{{\"k\":\"coroutine\",\"d\":{},\"a\":{}}}", js(&p), a)
                    }
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", k, arr(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"copy\",{}]]", self.place(body, p)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn line(&self, s: rustc_span::Span) -> String {
        // use-site of macros
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", r)),
            _ => "?".to_string(),
        };
        format!("{}:{}", f, l.line)
    }

    fn body(&mut self, path: &str, body: &Body<'tcx>, extra: &str) -> String {
        let mut o = String::new();
        let locals: Vec<String> = body
            .local_decls
            .iter()
            .map(|l| self.ty(l.ty).to_string())
            .collect();
        let names: Vec<String> = body
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) => {
                    Some(format!("[{},{}]", js(v.name.as_str()), self.place(body, p)))
                }
                _ => None,
            })
            .collect();
        let _ = write!(
            o,
            "{{\"path\":{},{}\"span\":{},\"argc\":{},\"coroutine\":{},\"spread\":{},\"locals\":{},\"names\":{},\"bbs\":[",
            js(path),
            extra,
            js(&self.line(body.span)),
            body.arg_count,
            body.coroutine.is_some(),
            body.spread_arg.map(|l| l.index() as i64).unwrap_or(-1),
            arr(locals),
            arr(names)
        );
        for (i, bb) in body.basic_blocks.iter_enumerated() {
            if i.index() > 0 {
                o.push(',');
            }
            let mut st = Vec::new();
            for s in &bb.statements {
                let l = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, &b.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, js(&l)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(format!("[\"setd\",{},{}]", p, variant_index.index()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.index())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let l = self.line(t.source_info.span);
            let tk = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(body, discr);
                    let ty = discr.ty(&body.local_decls, self.tcx);
                    let ty = self.ty(ty);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", js(&v.to_string()), t.index()))
                        .collect();
                    format!("[\"switch\",{},{},{},{}]", d, arr(v), targets.otherwise().index(), ty)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let t = self.ty(t);
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.index(), t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, self.tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    let d = self.place(body, destination);
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        arr(a),
                        d,
                        target.map(|t| t.index() as i64).unwrap_or(-1),
                        arr(at),
                        dt
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, cond);
                    let (k, ops) = match &**msg {
                        AssertKind::Overflow(op, a, b) => {
                            (format!("overflow:{:?}", op), vec![self.operand(body, a), self.operand(body, b)])
                        }
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(body, len), self.operand(body, index)])
                        }
                        AssertKind::OverflowNeg(a) => ("neg".into(), vec![self.operand(body, a)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(body, a)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(body, a)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        c,
                        expected,
                        target.index(),
                        js(&k),
                        arr(ops)
                    )
                }
                TerminatorKind::Yield { resume, resume_arg, drop, .. } => format!(
                    "[\"yield\",{},{},{}]",
                    resume.index(),
                    self.place(body, resume_arg),
                    drop.map(|d| d.index() as i64).unwrap_or(-1)
                ),
                TerminatorKind::CoroutineDrop => "[\"cdrop\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                _ => "[\"other\"]".into(),
            };
            let _ = write!(o, "[{},{},{},{}]", arr(st), tk, js(&l), bb.is_cleanup);
        }
        o.push_str("]}");
        o
    }
}

struct Cb {
    out: String,
}

thread_local! {
    /// Copies of the bodies, taken when they are built: later queries steal them.
    static BODIES: std::cell::RefCell<HashMap<LocalDefId, Body<'static>>> = Default::default();
}
type Prov = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static ORIG: std::sync::OnceLock<Prov> = std::sync::OnceLock::new();

fn keep_body<'tcx>(
    tcx: TyCtxt<'tcx>,
    did: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    // A coroutine body is copied before the state transform (which returns early on a
    // body without yield type), so that its suspension points are explicit.
    let pre = if tcx.is_coroutine(did.to_def_id()) {
        let (m, _) = tcx.mir_promoted(did);
        Some(m.borrow().clone())
    } else {
        None
    };
    let st = (ORIG.get().unwrap())(tcx, did);
    let b: Body<'tcx> = match pre {
        Some(mut b) => {
            if let Some(c) = b.coroutine.as_mut() {
                c.yield_ty = None;
            }
            rustc_mir_transform::run_analysis_to_runtime_passes(tcx, &mut b);
            b
        }
        None => st.borrow().clone(),
    };
    // the copies are read only in after_analysis, while tcx is alive
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|m| m.borrow_mut().insert(did, b));
    st
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(|_sess, providers| {
            let _ = ORIG.set(providers.queries.mir_drops_elaborated_and_const_checked);
            providers.queries.mir_drops_elaborated_and_const_checked = keep_body;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), tyout: vec![], adts: HashMap::new(), adt_q: vec![] };
        let mut bodies = Vec::new();
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
        let mut seen: HashMap<String, u32> = HashMap::new();
        for k in keys {
            let kind = tcx.def_kind(k);
            let ok = matches!(
                kind,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody
            );
            let isctor = matches!(kind, DefKind::Ctor(..));
            let isconst = matches!(kind, DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static { .. });
            if !ok && !isctor && !isconst {
                continue;
            }
            let path = cx.path(k.to_def_id());
            let path = {
                let n = seen.entry(path.clone()).or_insert(0);
                *n += 1;
                if *n > 1 { format!("{}@{}", path, n) } else { path }
            };
            if isctor {
                let p = tcx.parent(k.to_def_id());
                let pk = tcx.def_kind(p);
                let (adt, vi) = if matches!(pk, DefKind::Variant) {
                    let e = tcx.parent(p);
                    (e, tcx.adt_def(e).variant_index_with_ctor_id(k.to_def_id()).index())
                } else {
                    (p, 0)
                };
                let ap = cx.path(adt);
                cx.ty(tcx.type_of(adt).skip_binder());
                bodies.push(format!(
                    "{{\"path\":{},\"ctor\":{},\"v\":{}}}",
                    js(&path), js(&ap), vi
                ));
                continue;
            }
            if isconst {
                continue;
            }
            // promoted
            let promoted: Vec<String> = {
                let (_, pr) = tcx.mir_promoted(k);
                let n = if pr.is_stolen() {
                    let pm = tcx.promoted_mir(k.to_def_id());
                    pm.iter().map(|b| cx.body(&path, b, "")).collect()
                } else {
                    let pr = pr.borrow();
                    let v: Vec<_> = pr.iter().cloned().collect();
                    drop(pr);
                    v.iter().map(|b| cx.body(&path, b, "")).collect()
                };
                n
            };
            let _ = tcx.mir_drops_elaborated_and_const_checked(k);
            let b: Body<'static> = BODIES.with(|m| m.borrow().get(&k).cloned()).expect("body kept");
            let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
            // generics (types only, parents first)
            let mut gens: Vec<String> = Vec::new();
            let root = tcx.typeck_root_def_id(k.to_def_id());
            let mut stack = vec![];
            let mut g = Some(tcx.generics_of(root));
            while let Some(x) = g {
                stack.push(x);
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            for x in stack.iter().rev() {
                for p in &x.own_params {
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. })
                        || matches!(p.kind, ty::GenericParamDefKind::Const { .. })
                    {
                        gens.push(js(p.name.as_str()));
                    }
                }
            }
            let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                tcx.effective_visibilities(()).is_reachable(k)
            } else {
                false
            };
            let dp = tcx.def_path(k.to_def_id()).to_string_no_crate_verbose();
            let src = cx.line(tcx.def_span(k.to_def_id()));
            let from_exp = tcx.def_span(k.to_def_id()).from_expansion();
            let extra = format!(
                "\"kind\":{},\"generics\":{},\"promoted\":{},\"pub\":{},\"dp\":{},\"at\":{},\"exp\":{},",
                js(&format!("{:?}", kind)),
                arr(gens),
                arr(promoted),
                vis,
                js(&dp),
                js(&src),
                from_exp
            );
            bodies.push(cx.body(&path, &b, &extra));
        }
        // impls
        let mut impls = Vec::new();
        for (tr, list) in tcx.all_local_trait_impls(()) {
            for im in list {
                let im = im.to_def_id();
                let r = tcx.impl_trait_ref(im).skip_binder();
                let st = cx.ty(r.self_ty());
                let ta = cx.args(r.args);
                let items: Vec<String> = tcx
                    .associated_items(im)
                    .in_definition_order()
                    .filter(|i| i.is_fn() && i.opt_name().is_some())
                    .map(|i| {
                        let p = cx.path(i.def_id);
                        format!("{}:{}", js(i.name().as_str()), js(&p))
                    })
                    .collect();
                let mut gens: Vec<String> = Vec::new();
                for p in &tcx.generics_of(im).own_params {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gens.push(js(p.name.as_str()));
                    }
                }
                let tp = cx.path(*tr);
                let at: Vec<String> = tcx
                    .associated_items(im)
                    .in_definition_order()
                    .filter(|i| i.is_type() && i.opt_name().is_some())
                    .map(|i| {
                        let t = cx.ty(tcx.type_of(i.def_id).skip_binder());
                        format!("{}:{}", js(i.name().as_str()), t)
                    })
                    .collect();
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"targs\":{},\"generics\":{},\"items\":{{{}}},\"types\":{{{}}},\"at\":{}}}",
                    js(&tp),
                    st,
                    ta,
                    arr(gens),
                    items.join(","),
                    at.join(","),
                    js(&cx.line(tcx.def_span(im)))
                ));
            }
        }
        // consts
        let mut consts = Vec::new();
        for k in tcx.hir_body_owners() {
            if !matches!(tcx.def_kind(k), DefKind::Const{..} | DefKind::AssocConst{..}) {
                continue;
            }
            if tcx.generics_of(k).requires_monomorphization(tcx) {
                continue;
            }
            let t = tcx.type_of(k).skip_binder();
            if let Ok(v) = tcx.const_eval_poly(k.to_def_id()) {
                if let Some(s) = cx.constval(v, t) {
                    let p = cx.path(k.to_def_id());
                    let tt = cx.ty(t);
                    consts.push(format!("[{},{},{},{}]", js(&p), s, tt, js(&cx.line(tcx.def_span(k)))));
                }
            }
        }
        // adts
        let mut adts = Vec::new();
        while let Some(d) = cx.adt_q.pop() {
            let a = tcx.adt_def(d);
            let p = cx.path(d);
            let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
            let mut vs = Vec::new();
            if !a.is_union() {
                let discrs: Vec<String> = if a.is_enum() {
                    a.discriminants(tcx).map(|(_, d)| d.to_string()).collect()
                } else {
                    vec!["0".into()]
                };
                for (i, v) in a.variants().iter_enumerated() {
                    let local = d.is_local() || tcx.crate_name(d.krate).as_str() == "core";
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = if local { cx.ty(tcx.type_of(f.did).skip_binder()) as i64 } else { -1 };
                            format!("[{},{}]", js(f.name.as_str()), t)
                        })
                        .collect();
                    vs.push(format!(
                        "{{\"n\":{},\"d\":{},\"f\":{}}}",
                        js(v.name.as_str()),
                        js(&discrs[i.index()]),
                        arr(fs)
                    ));
                }
            }
            let drop = tcx
                .adt_destructor(d)
                .map(|x| js(&cx.path(x.did)))
                .unwrap_or("null".into());
            let mut gens: Vec<String> = Vec::new();
            for p in &tcx.generics_of(d).own_params {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    gens.push(js(p.name.as_str()));
                }
            }
            adts.push(format!(
                "{{\"d\":{},\"kind\":\"{}\",\"variants\":{},\"drop\":{},\"local\":{},\"generics\":{}}}",
                js(&p), kind, arr(vs), drop, d.is_local(), arr(gens)
            ));
        }
        let o = format!(
            "{{\"crate\":{},\"bodies\":[\n{}\n],\"impls\":[\n{}\n],\"adts\":[\n{}\n],\"consts\":[\n{}\n],\"types\":[\n{}\n]}}\n",
            js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            bodies.join(",\n"),
            impls.join(",\n"),
            adts.join(",\n"),
            consts.join(",\n"),
            cx.tyout.join(",\n")
        );
        std::fs::write(&self.out, o).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let mut name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    let dir = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    if !dir.is_empty() && !test && want.split(',').any(|c| c == name) {
        let out = format!("{}/{}.json", dir, name);
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
