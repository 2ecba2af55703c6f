//! Compiler driver that dumps facts (types, impls, MIR with resolved callees) about
//! each workspace crate, so that the rules in ../rules can decide properties from the
//! type-checked program.  Used as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args..].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

fn js(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_rows: Vec<String>,
    strs: HashMap<String, usize>,
    str_rows: Vec<String>,
    paths: HashMap<DefId, usize>,
    ext_adts: HashMap<DefId, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn s(&mut self, s: &str) -> usize {
        if let Some(&i) = self.strs.get(s) {
            return i;
        }
        let i = self.str_rows.len();
        self.strs.insert(s.to_string(), i);
        self.str_rows.push(s.to_string());
        i
    }
    fn path_str(&self, d: DefId) -> String {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(
            self.tcx.def_path_str(d)
        )))
    }
    fn p(&mut self, d: DefId) -> usize {
        if let Some(&i) = self.paths.get(&d) {
            return i;
        }
        let s = self.path_str(d);
        let i = self.s(&s);
        self.paths.insert(d, i);
        i
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_rows.len();
        self.ty_rows.push(String::new());
        self.tys.insert(t, i);
        let mut r = String::new();
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                let _ = write!(r, "[\"prim\",\"{}\"]", t);
            }
            ty::Adt(def, args) => {
                let p = self.p(def.did());
                if !def.did().is_local() {
                    self.ext_adts.insert(def.did(), ());
                }
                let mut a = Vec::new();
                for x in args.iter() {
                    if let Some(t) = x.as_type() {
                        a.push(self.ty(t).to_string());
                    }
                }
                let _ = write!(r, "[\"adt\",{},[{}]]", p, a.join(","));
            }
            ty::Ref(_, inner, m) => {
                let k = self.ty(*inner);
                let _ = write!(r, "[\"ref\",{},{}]", m.is_mut() as u8, k);
            }
            ty::RawPtr(inner, m) => {
                let k = self.ty(*inner);
                let _ = write!(r, "[\"ptr\",{},{}]", m.is_mut() as u8, k);
            }
            ty::Slice(inner) => {
                let k = self.ty(*inner);
                let _ = write!(r, "[\"slice\",{}]", k);
            }
            ty::Array(inner, _) => {
                let k = self.ty(*inner);
                let _ = write!(r, "[\"array\",{}]", k);
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(r, "[\"tuple\",[{}]]", v.join(","));
            }
            ty::FnDef(d, args) => {
                let p = self.p(*d);
                let args = args.skip_binder();
                let mut a = Vec::new();
                for x in args.iter() {
                    if let Some(t) = x.as_type() {
                        a.push(self.ty(t).to_string());
                    }
                }
                let _ = write!(r, "[\"fndef\",{},[{}]]", p, a.join(","));
            }
            ty::Closure(d, args) => {
                let p = self.p(*d);
                let up: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(r, "[\"closure\",{},[{}]]", p, up.join(","));
            }
            ty::Param(p) => {
                let k = self.s(p.name.as_str());
                let _ = write!(r, "[\"param\",{}]", k);
            }
            ty::Dynamic(..) => {
                let s = with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(
                    format!("{}", t)
                )));
                let k = self.s(&s);
                let _ = write!(r, "[\"dyn\",{}]", k);
            }
            _ => {
                let s = with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(
                    format!("{}", t)
                )));
                let k = self.s(&s);
                let _ = write!(r, "[\"other\",{}]", k);
            }
        }
        self.ty_rows[i] = r;
        i
    }
    fn loc(&mut self, sp: Span) -> (usize, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return (self.s("?"), 0);
        }
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        (self.s(&f), l.line)
    }
    fn line(&mut self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return 0;
        }
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
}

struct B<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    def: LocalDefId,
    out: String,
}

impl<'a, 'tcx> B<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) {
        let tcx = self.cx.tcx;
        let _ = write!(self.out, "[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => self.out.push_str(",0"),
                ProjectionElem::Field(f, _) => {
                    let (name, owner, vname) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            let v = def.variant(vi);
                            let vn = if def.is_enum() { Some(v.name) } else { None };
                            let n = self.cx.s(v.fields[f].name.as_str());
                            (n, self.cx.p(def.did()) as i64, vn)
                        }
                        ty::Closure(d, _) => {
                            let n = if let Some(l) = d.as_local() {
                                let caps: Vec<_> = tcx.closure_captures(l).iter().copied().collect();
                                caps.get(f.as_usize())
                                    .map(|c| c.to_string(tcx))
                                    .unwrap_or_else(|| f.as_usize().to_string())
                            } else {
                                f.as_usize().to_string()
                            };
                            let n = format!("{}:{}", f.as_usize(), n);
                            (self.cx.s(&n), self.cx.p(*d) as i64, None)
                        }
                        _ => (self.cx.s(&f.as_usize().to_string()), -1, None),
                    };
                    if let Some(vn) = vname {
                        let k = self.cx.s(vn.as_str());
                        let _ = write!(self.out, ",[0,{},{},{}]", name, owner, k);
                    } else {
                        let _ = write!(self.out, ",[0,{},{}]", name, owner);
                    }
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(self.out, ",[2,{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(self.out, ",[3,{},{}]", offset, from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(self.out, ",[4,{},{},{}]", from, to, from_end as u8);
                }
                ProjectionElem::Downcast(_, v) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    let k = self.cx.s(&n);
                    let _ = write!(self.out, ",[1,{}]", k);
                }
                _ => self.out.push_str(",[9]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        self.out.push(']');
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        let ti = self.cx.ty(t);
        let _ = write!(self.out, "[\"k\",{},", ti);
        let mut named: Option<String> = None;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(pr) = u.promoted {
                if u.def == self.def.to_def_id() {
                    let _ = write!(self.out, "\"p\",{}]", pr.as_usize());
                    return;
                }
            } else {
                named = Some(self.cx.path_str(u.def));
            }
        }
        let mut done = false;
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(sc) = c.const_.try_eval_scalar_int(tcx, self.env) {
                let size = sc.size();
                let bits = sc.to_bits(size);
                let s = if t.is_signed() {
                    format!("{}", size.sign_extend(bits))
                } else {
                    format!("{}", bits)
                };
                let big = s.len() > 15;
                if big {
                    let _ = write!(self.out, "\"i\",\"{}\"", s);
                } else {
                    let _ = write!(self.out, "\"i\",{}", s);
                }
                done = true;
            }
        } else if matches!(t.kind(), ty::Ref(_, inner, _) if inner.is_str()) {
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let s = String::from_utf8_lossy(bytes).into_owned();
                    self.out.push_str("\"s\",");
                    js(&mut self.out, &s);
                    done = true;
                }
            }
        } else if matches!(t.kind(), ty::FnDef(..) | ty::Closure(..)) {
            self.out.push_str("\"z\",0");
            done = true;
        } else if let ty::Ref(_, inner, _) = t.kind() {
            // statics and byte strings
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                if let ConstValue::Scalar(Scalar::Ptr(ptr, _)) = v {
                    let (prov, off) = ptr.prov_and_relative_offset();
                    match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(GlobalAlloc::Static(d)) => {
                            let p = self.cx.path_str(d);
                            self.out.push_str("\"static\",");
                            js(&mut self.out, &p);
                            done = true;
                        }
                        Some(GlobalAlloc::Memory(a))
                            if matches!(inner.kind(), ty::Array(e, _) if *e == tcx.types.u8) && off.bytes() == 0 =>
                        {
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..a.inner().len());
                            let s: String = b.iter().map(|x| *x as char).collect();
                            self.out.push_str("\"b\",");
                            js(&mut self.out, &s);
                            done = true;
                        }
                        _ => {}
                    }
                }
            }
        } else if let ty::RawPtr(..) = t.kind() {
            if let Ok(ConstValue::Scalar(Scalar::Ptr(ptr, _))) = c.const_.eval(tcx, self.env, c.span) {
                let (prov, _) = ptr.prov_and_relative_offset();
                if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                    let p = self.cx.path_str(d);
                    self.out.push_str("\"static\",");
                    js(&mut self.out, &p);
                    done = true;
                }
            }
        } else if let ty::Adt(def, _) = t.kind() {
            // fieldless enum constants
            if def.is_enum() {
                if let Some(sc) = c.const_.try_eval_scalar_int(tcx, self.env) {
                    let bits = sc.to_bits(sc.size());
                    for (vi, d) in def.discriminants(tcx) {
                        if d.val == bits && def.variant(vi).fields.is_empty() {
                            let n = def.variant(vi).name.to_string();
                            self.out.push_str("\"e\",");
                            js(&mut self.out, &n);
                            done = true;
                            break;
                        }
                    }
                }
            }
        }
        if !done {
            if let Some(f) = float_val(&c.const_, tcx, self.env, t) {
                let _ = write!(self.out, "\"f\",");
                js(&mut self.out, &f);
            } else {
                self.out.push_str("\"o\",0");
            }
        }
        if let Some(n) = named {
            self.out.push(',');
            js(&mut self.out, &n);
        }
        self.out.push(']');
    }

    fn op(&mut self, o: &Operand<'tcx>) {
        match o {
            Operand::Copy(p) => {
                self.out.push_str("[\"c\",");
                self.place(p);
                self.out.push(']');
            }
            Operand::Move(p) => {
                self.out.push_str("[\"m\",");
                self.place(p);
                self.out.push(']');
            }
            Operand::Constant(c) => self.konst(c),
            _ => self.out.push_str("[\"rt\"]"),
        }
    }

    fn ops<'b>(&mut self, it: impl Iterator<Item = &'b Operand<'tcx>>)
    where
        'tcx: 'b,
    {
        self.out.push('[');
        let mut first = true;
        for o in it {
            if !first {
                self.out.push(',');
            }
            first = false;
            self.op(o);
        }
        self.out.push(']');
    }

    fn rv(&mut self, r: &Rvalue<'tcx>) {
        match r {
            Rvalue::Use(o, ..) => {
                self.out.push_str("[\"use\",");
                self.op(o);
                self.out.push(']');
            }
            Rvalue::Repeat(o, _) => {
                self.out.push_str("[\"rep\",");
                self.op(o);
                self.out.push(']');
            }
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Shared => 0,
                    BorrowKind::Fake(_) => 2,
                    BorrowKind::Mut { .. } => 1,
                };
                let _ = write!(self.out, "[\"ref\",{},", k);
                self.place(p);
                self.out.push(']');
            }
            Rvalue::Reborrow(_, m, p) => {
                let _ = write!(self.out, "[\"ref\",{},", m.is_mut() as u8);
                self.place(p);
                self.out.push(']');
            }
            Rvalue::RawPtr(_, p) => {
                self.out.push_str("[\"ref\",3,");
                self.place(p);
                self.out.push(']');
            }
            Rvalue::CopyForDeref(p) => {
                self.out.push_str("[\"use\",[\"c\",");
                self.place(p);
                self.out.push_str("]]");
            }
            Rvalue::Cast(k, o, t) => {
                let ti = self.cx.ty(*t);
                let ks = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PointerCoercion(pc, _) => format!("{:?}", pc).split('(').next().unwrap().to_string(),
                    CastKind::FloatToInt => "f2i".into(),
                    CastKind::IntToFloat => "i2f".into(),
                    CastKind::FloatToFloat => "f2f".into(),
                    CastKind::Transmute => "transmute".into(),
                    CastKind::PtrToPtr => "p2p".into(),
                    CastKind::PointerExposeProvenance => "expose".into(),
                    _ => "other".into(),
                };
                let _ = write!(self.out, "[\"cast\",\"{}\",", ks);
                self.op(o);
                let _ = write!(self.out, ",{}]", ti);
            }
            Rvalue::BinaryOp(b, ops) => {
                let _ = write!(self.out, "[\"bin\",\"{:?}\",", b);
                self.op(&ops.0);
                self.out.push(',');
                self.op(&ops.1);
                self.out.push(']');
            }
            Rvalue::UnaryOp(u, o) => {
                let _ = write!(self.out, "[\"un\",\"{:?}\",", u);
                self.op(o);
                self.out.push(']');
            }
            Rvalue::Discriminant(p) => {
                self.out.push_str("[\"discr\",");
                self.place(p);
                self.out.push(']');
            }
            Rvalue::Aggregate(k, ops) => match &**k {
                AggregateKind::Adt(d, vi, _, _, active) => {
                    let tcx = self.cx.tcx;
                    let def = tcx.adt_def(*d);
                    let v = def.variant(*vi);
                    let pi = self.cx.p(*d);
                    let vn = self.cx.s(v.name.as_str());
                    let names: Vec<String> = if let Some(a) = active {
                        vec![self.cx.s(v.fields[*a].name.as_str()).to_string()]
                    } else {
                        v.fields.iter().map(|f| self.cx.s(f.name.as_str()).to_string()).collect()
                    };
                    let _ = write!(self.out, "[\"agg\",{},{},[{}],", pi, vn, names.join(","));
                    self.ops(ops.iter());
                    self.out.push(']');
                }
                AggregateKind::Array(_) => {
                    self.out.push_str("[\"arr\",");
                    self.ops(ops.iter());
                    self.out.push(']');
                }
                AggregateKind::Tuple => {
                    self.out.push_str("[\"tup\",");
                    self.ops(ops.iter());
                    self.out.push(']');
                }
                AggregateKind::Closure(d, _)
                | AggregateKind::Coroutine(d, _)
                | AggregateKind::CoroutineClosure(d, _) => {
                    let pi = self.cx.p(*d);
                    let _ = write!(self.out, "[\"clo\",{},", pi);
                    self.ops(ops.iter());
                    self.out.push(']');
                }
                AggregateKind::RawPtr(..) => {
                    self.out.push_str("[\"tup\",");
                    self.ops(ops.iter());
                    self.out.push(']');
                }
            },
            Rvalue::ThreadLocalRef(d) => {
                let s = self.cx.path_str(*d);
                self.out.push_str("[\"tls\",");
                js(&mut self.out, &s);
                self.out.push(']');
            }
            _ => self.out.push_str("[\"?\"]"),
        }
    }

    /// callee descriptor: [path, resolved path or null, kind, [generic type args], self ty]
    fn callee(&mut self, func: &Operand<'tcx>) {
        let tcx = self.cx.tcx;
        let t = func.ty(&self.body.local_decls, tcx);
        match t.kind() {
            ty::FnDef(d, args0) => {
                let pi = self.cx.p(*d);
                let args = args0.skip_binder();
                let mut a = Vec::new();
                for x in args.iter() {
                    if let Some(t) = x.as_type() {
                        a.push(self.cx.ty(t).to_string());
                    }
                }
                let is_trait = tcx.trait_of_assoc(*d).is_some();
                let mut res: i64 = -1;
                let mut kind = if is_trait { "trait" } else { "fn" };
                let erased = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, *d, erased) {
                    match inst.def {
                        InstanceKind::Item(rd) => {
                            res = self.cx.p(rd) as i64;
                            if is_trait && tcx.trait_of_assoc(rd).is_none() {
                                kind = "fn";
                            }
                        }
                        InstanceKind::Virtual(..) => kind = "virtual",
                        InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => {
                            if let Some(st) = args.types().next() {
                                if let ty::Closure(cd, _) = st.kind() {
                                    res = self.cx.p(*cd) as i64;
                                }
                            }
                            kind = "fn";
                        }
                        InstanceKind::Shim(ty::ShimKind::FnPtr(_, ft)) => {
                            if let ty::FnDef(fd, _) = ft.kind() {
                                res = self.cx.p(*fd) as i64;
                                kind = "fn";
                            } else {
                                kind = "fnptr";
                            }
                        }
                        InstanceKind::Intrinsic(_) => kind = "intrinsic",
                        _ => kind = "shim",
                    }
                }
                let _ = write!(self.out, "[{},{},\"{}\",[{}]]", pi, res, kind, a.join(","));
            }
            ty::FnPtr(..) => {
                self.out.push_str("[-1,-1,\"fnptr\",[],");
                self.op(func);
                self.out.push(']');
            }
            _ => {
                self.out.push_str("[-1,-1,\"unknown\",[]]");
            }
        }
    }

    fn run(&mut self, cleanup: &dyn Fn(BasicBlock) -> bool) {
        let body = self.body;
        self.out.push_str("{\"argc\":");
        let _ = write!(self.out, "{}", body.arg_count);
        // locals
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        self.out.push_str(",\"locals\":[");
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                self.out.push(',');
            }
            let t = self.cx.ty(l.ty);
            match names.get(&i.as_usize()) {
                Some(n) => {
                    let k = self.cx.s(n);
                    let _ = write!(self.out, "[{},{}]", t, k);
                }
                None => {
                    let _ = write!(self.out, "[{}]", t);
                }
            }
        }
        self.out.push_str("],\"bbs\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                self.out.push(',');
            }
            if cleanup(bi) {
                self.out.push('0');
                continue;
            }
            self.out.push_str("[[");
            let mut first = true;
            for st in &bb.statements {
                let mut tmp = String::new();
                std::mem::swap(&mut tmp, &mut self.out);
                let ok = match &st.kind {
                    StatementKind::Assign(b) => {
                        self.out.push_str("[\"=\",");
                        self.place(&b.0);
                        self.out.push(',');
                        self.rv(&b.1);
                        let l = self.cx.line(st.source_info.span);
                        let _ = write!(self.out, ",{}]", l);
                        true
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, self.cx.tcx).ty;
                        let n = match t.kind() {
                            ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_usize().to_string(),
                        };
                        self.out.push_str("[\"sd\",");
                        self.place(place);
                        self.out.push(',');
                        js(&mut self.out, &n);
                        self.out.push(']');
                        true
                    }
                    StatementKind::StorageDead(l) => {
                        let _ = write!(self.out, "[\"d\",{}]", l.as_usize());
                        true
                    }
                    _ => false,
                };
                std::mem::swap(&mut tmp, &mut self.out);
                if ok {
                    if !first {
                        self.out.push(',');
                    }
                    first = false;
                    self.out.push_str(&tmp);
                }
            }
            self.out.push_str("],");
            let t = bb.terminator();
            let line = self.cx.line(t.source_info.span);
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(self.out, "[\"goto\",{}]", target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.cx.tcx);
                    let ti = self.cx.ty(dt);
                    self.out.push_str("[\"switch\",");
                    self.op(discr);
                    self.out.push_str(",[");
                    for (i, (v, b)) in targets.iter().enumerate() {
                        if i > 0 {
                            self.out.push(',');
                        }
                        let _ = write!(self.out, "[{},{}]", v, b.as_usize());
                    }
                    let _ = write!(self.out, "],{},{},{}]", targets.otherwise().as_usize(), ti, line);
                }
                TerminatorKind::Return => self.out.push_str("[\"ret\"]"),
                TerminatorKind::Unreachable => self.out.push_str("[\"unreach\"]"),
                TerminatorKind::Drop { place, target, .. } => {
                    self.out.push_str("[\"drop\",");
                    self.place(place);
                    let _ = write!(self.out, ",{},{}]", target.as_usize(), line);
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    self.out.push_str("[\"call\",");
                    self.callee(func);
                    self.out.push(',');
                    self.ops(args.iter().map(|a| &a.node));
                    self.out.push(',');
                    self.place(destination);
                    match target {
                        Some(t) => {
                            let _ = write!(self.out, ",{}", t.as_usize());
                        }
                        None => self.out.push_str(",-1"),
                    }
                    let _ = write!(self.out, ",{}]", line);
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    self.out.push_str("[\"assert\",");
                    self.op(cond);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    let _ = write!(self.out, ",{},\"{}\",{},{}]", *expected as u8, kind, target.as_usize(), line);
                }
                TerminatorKind::Yield { resume, .. } => {
                    let _ = write!(self.out, "[\"goto\",{}]", resume.as_usize());
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(self.out, "[\"goto\",{}]", real_target.as_usize());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(self.out, "[\"goto\",{}]", real_target.as_usize());
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    self.out.push_str("[\"call\",");
                    self.callee(func);
                    self.out.push(',');
                    self.ops(args.iter().map(|a| &a.node));
                    let _ = write!(self.out, ",[0],-1,{}]", line);
                }
                _ => self.out.push_str("[\"unreach\"]"),
            }
            self.out.push(']');
        }
        self.out.push_str("]}");
    }
}

fn float_val<'tcx>(c: &mir::Const<'tcx>, tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Option<String> {
    if !t.is_floating_point() {
        return None;
    }
    let sc = c.try_eval_scalar_int(tcx, env)?;
    let b = sc.to_bits(sc.size());
    match sc.size().bytes() {
        8 => Some(format!("{:?}", f64::from_bits(b as u64))),
        4 => Some(format!("{:?}", f32::from_bits(b as u32))),
        _ => None,
    }
}

struct UnsafeFinder {
    blocks: Vec<Span>,
}
impl<'v> rustc_hir::intravisit::Visitor<'v> for UnsafeFinder {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.blocks.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, dest: &std::path::Path) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_rows: vec![],
        strs: HashMap::new(),
        str_rows: vec![],
        paths: HashMap::new(),
        ext_adts: HashMap::new(),
    };
    let mut rows: Vec<String> = Vec::new();

    // ADTs, impls, statics, fns signatures
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                adt_row(&mut cx, did, &mut rows);
            }
            DefKind::Impl { .. } => {
                let mut r = String::from("I\t{\"trait\":");
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let sti = cx.ty(st);
                match tcx.impl_opt_trait_ref(did) {
                    Some(tr) => {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let p = cx.path_str(tr.def_id);
                        js(&mut r, &p);
                        let full = with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", tr))));
                        r.push_str(",\"ref\":");
                        js(&mut r, &full);
                    }
                    None => r.push_str("null"),
                }
                let _ = write!(r, ",\"self\":{},\"derived\":{},\"items\":[", sti, tcx.is_automatically_derived(did));
                for (i, it) in tcx.associated_item_def_ids(did).iter().enumerate() {
                    if i > 0 {
                        r.push(',');
                    }
                    let p = cx.path_str(*it);
                    js(&mut r, &p);
                }
                let (f, l) = cx.loc(tcx.def_span(did));
                let _ = write!(r, "],\"file\":{},\"line\":{}}}", f, l);
                rows.push(r);
            }
            DefKind::Trait => {
                let mut r = String::from("T\t{\"path\":");
                let p = cx.path_str(did);
                js(&mut r, &p);
                r.push_str(",\"items\":[");
                for (i, it) in tcx.associated_items(did).in_definition_order().enumerate() {
                    if i > 0 {
                        r.push(',');
                    }
                    r.push('[');
                    let p = cx.path_str(it.def_id);
                    js(&mut r, &p);
                    let _ = write!(r, ",{}]", it.defaultness(tcx).has_value());
                }
                let (f, l) = cx.loc(tcx.def_span(did));
                let _ = write!(r, "],\"file\":{},\"line\":{}}}", f, l);
                rows.push(r);
            }
            DefKind::Static { .. } => {
                let mut r = String::from("S\t{\"path\":");
                let p = cx.path_str(did);
                js(&mut r, &p);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let (f, l) = cx.loc(tcx.def_span(did));
                let m = matches!(tcx.def_kind(did), DefKind::Static { mutability, .. } if mutability.is_mut());
                let _ = write!(r, ",\"ty\":{},\"mut\":{},\"file\":{},\"line\":{}}}", ti, m, f, l);
                rows.push(r);
            }
            _ => {}
        }
    }

    for def in tcx.hir_body_owners() {
        let did = def.to_def_id();
        let kind = tcx.def_kind(did);
        let (kname, body): (&str, &Body<'tcx>) = match kind {
            DefKind::Fn => ("fn", tcx.optimized_mir(did)),
            DefKind::AssocFn => ("method", tcx.optimized_mir(did)),
            DefKind::Closure => ("closure", tcx.optimized_mir(did)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } => ("const", tcx.mir_for_ctfe(did)),
            DefKind::Static { .. } => ("static", tcx.mir_for_ctfe(did)),
            _ => continue,
        };
        if tcx.is_constructor(did) {
            continue;
        }
        let mut r = String::from("F\t");
        let p = cx.path_str(did);
        let mut head = String::from("{\"path\":");
        js(&mut head, &p);
        let sp = tcx.def_span(did);
        let (f, l) = cx.loc(sp);
        let endl = {
            let b = tcx.hir_body_owned_by(def).value.span.source_callsite();
            tcx.sess.source_map().lookup_char_pos(b.hi()).line
        };
        let _ = write!(head, ",\"kind\":\"{}\",\"file\":{},\"line\":{},\"end\":{}", kname, f, l, endl);
        let parent = tcx.parent(did);
        let pk = tcx.def_kind(parent);
        if kname == "closure" {
            let pp = cx.path_str(parent);
            head.push_str(",\"parent\":");
            js(&mut head, &pp);
            if body.source.def_id().is_local() {
                if let rustc_hir::ExprKind::Closure(c) = tcx.hir_node_by_def_id(def).expect_expr().kind {
                    let _ = write!(head, ",\"coroutine\":{}", matches!(c.kind, rustc_hir::ClosureKind::Coroutine(_)));
                }
            }
        } else if let DefKind::Impl { of_trait } = pk {
            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
            let ti = cx.ty(st);
            let _ = write!(head, ",\"self\":{}", ti);
            if of_trait {
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    let tp = cx.path_str(tr.skip_binder().def_id);
                    head.push_str(",\"trait\":");
                    js(&mut head, &tp);
                }
                if tcx.is_automatically_derived(parent) {
                    head.push_str(",\"derived\":1");
                }
            }
        } else if let DefKind::Trait = pk {
            let tp = cx.path_str(parent);
            head.push_str(",\"in_trait\":");
            js(&mut head, &tp);
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(did).is_public();
            let eff = tcx.effective_visibilities(()).is_reachable(def);
            let _ = write!(head, ",\"pub\":{},\"reach\":{}", vis, eff);
            let name = tcx.item_name(did);
            head.push_str(",\"name\":");
            js(&mut head, name.as_str());
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let _ = write!(head, ",\"unsafe\":{}", sig.safety().is_unsafe());
        }
        if tcx.def_span(did).from_expansion() {
            head.push_str(",\"macro\":1");
        }
        // unsafe blocks
        if kname != "closure" {
            let mut u = UnsafeFinder { blocks: vec![] };
            use rustc_hir::intravisit::Visitor;
            u.visit_body(tcx.hir_body_owned_by(def));
            if !u.blocks.is_empty() {
                let lines: Vec<String> = u.blocks.iter().map(|s| cx.line(*s).to_string()).collect();
                let _ = write!(head, ",\"unsafe_blocks\":[{}]", lines.join(","));
            }
        }
        // callees (cheap call graph without parsing the body)
        let env = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => TypingEnv::post_analysis(tcx, did),
            _ => TypingEnv::post_analysis(tcx, did),
        };
        let mut blist = String::from("[");
        let promoted: Vec<Body<'tcx>> = match kname {
            "fn" | "method" | "closure" => tcx.promoted_mir(did).iter().cloned().collect(),
            _ => tcx.promoted_mir(did).iter().cloned().collect(),
        };
        {
            let cl = |b: BasicBlock| body.basic_blocks[b].is_cleanup;
            let mut bb = B { cx: &mut cx, body, env, def, out: String::new() };
            bb.run(&cl);
            blist.push_str(&bb.out);
        }
        for pb in &promoted {
            blist.push(',');
            let cl = |b: BasicBlock| pb.basic_blocks[b].is_cleanup;
            let mut bb = B { cx: &mut cx, body: pb, env, def, out: String::new() };
            bb.run(&cl);
            blist.push_str(&bb.out);
        }
        blist.push(']');
        head.push('}');
        r.push_str(&head);
        r.push('\t');
        r.push_str(&blist);
        rows.push(r);
    }
    // external ADTs referenced (one level; fields may reference more)
    let mut seen: HashMap<DefId, ()> = HashMap::new();
    loop {
        let todo: Vec<DefId> = {
            let mut v: Vec<DefId> = cx
                .ext_adts
                .keys()
                .copied()
                .filter(|d| !seen.contains_key(d))
                .filter(|d| {
                    // only workspace crates matter; std & third party ADTs stay opaque
                    std::env::var("FACTDUMP_WS")
                        .map(|w| w.split(',').any(|n| n == tcx.crate_name(d.krate).as_str()))
                        .unwrap_or(false)
                })
                .collect();
            v.sort_by_key(|d| tcx.def_path_hash(*d));
            v
        };
        if todo.is_empty() {
            break;
        }
        for d in todo {
            seen.insert(d, ());
            let _ = cx.p(d);
        }
    }

    let mut head = String::from("H\t{\"crate\":");
    js(&mut head, &krate);
    head.push_str(",\"files\":{");
    let mut first = true;
    for f in tcx.sess.source_map().files().iter() {
        if let Some(src) = &f.src {
            if f.cnum != LOCAL_CRATE {
                continue;
            }
            let name = format!("{}", f.name.prefer_local_unconditionally());
            if name.starts_with('<') {
                continue;
            }
            if !first {
                head.push(',');
            }
            first = false;
            js(&mut head, &name);
            // CRC-32 and length of the normalized text
            let mut h: u32 = 0xffff_ffff;
            for b in src.as_bytes() {
                h ^= *b as u32;
                for _ in 0..8 {
                    h = if h & 1 != 0 { (h >> 1) ^ 0xedb8_8320 } else { h >> 1 };
                }
            }
            let h = ((src.len() as u64) << 32) | (!h) as u64;
            let _ = write!(head, ":\"{:016x}\"", h);
        }
    }
    head.push_str("}}");

    let mut out = String::new();
    out.push_str(&head);
    out.push('\n');
    out.push_str("Y\t[");
    for (i, t) in cx.ty_rows.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(t);
    }
    out.push_str("]\nX\t[");
    for (i, s) in cx.str_rows.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        js(&mut out, s);
    }
    out.push_str("]\n");
    for r in rows {
        out.push_str(&r);
        out.push('\n');
    }
    let tmp = dest.with_extension("tmp");
    let mut f = std::fs::File::create(&tmp).expect("create facts");
    f.write_all(out.as_bytes()).expect("write facts");
    drop(f);
    std::fs::rename(&tmp, dest).expect("rename facts");
}

fn adt_row<'tcx>(cx: &mut Cx<'tcx>, did: DefId, rows: &mut Vec<String>) {
    let tcx = cx.tcx;
    let def = tcx.adt_def(did);
    let mut r = String::from("A\t{\"path\":");
    let p = cx.path_str(did);
    js(&mut r, &p);
    let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
    let (f, l) = cx.loc(tcx.def_span(did));
    let _ = write!(r, ",\"kind\":\"{}\",\"file\":{},\"line\":{},\"pub\":{},\"variants\":[", k, f, l, tcx.visibility(did).is_public());
    let discs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![] };
    for (vi, v) in def.variants().iter_enumerated() {
        if vi.as_usize() > 0 {
            r.push(',');
        }
        r.push_str("{\"name\":");
        js(&mut r, v.name.as_str());
        if let Some(d) = discs.get(vi.as_usize()) {
            let _ = write!(r, ",\"discr\":\"{}\"", d);
        }
        r.push_str(",\"fields\":[");
        for (i, fd) in v.fields.iter().enumerate() {
            if i > 0 {
                r.push(',');
            }
            let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
            let ti = cx.ty(t);
            r.push('[');
            js(&mut r, fd.name.as_str());
            let _ = write!(r, ",{},{}]", ti, fd.vis.is_public());
        }
        r.push_str("]}");
    }
    r.push_str("]}");
    rows.push(r);
}

struct Cb {
    dest: Option<std::path::PathBuf>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(d) = &self.dest {
            dump(tcx, d);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: drop the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let get = |k: &str| {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().or_else(|| {
            args.iter().find_map(|a| a.strip_prefix(&format!("{}=", k)).map(|s| s.to_string()))
        })
    };
    let out_dir = get("--out-dir");
    let crate_name = get("--crate-name");
    let crate_type = get("--crate-type").unwrap_or_default();
    let extra = args
        .iter()
        .find_map(|a| a.strip_prefix("extra-filename=").or_else(|| a.strip_prefix("-Cextra-filename=")))
        .unwrap_or("")
        .to_string();
    let is_test = args.iter().any(|a| a == "--test");
    let dest = match (out_dir, crate_name) {
        (Some(o), Some(n)) if n != "build_script_build" && n != "___" && !is_test && crate_type != "proc-macro" => {
            Some(std::path::Path::new(&o).join(format!("{}{}.facts", n, extra)))
        }
        _ => None,
    };
    if dest.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=no".into());
        args.push("-Awarnings".into());
    }
    let mut cb = Cb { dest };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
