// rga-driver: a rustc driver that dumps the type-checked program (MIR with resolved
// callees, types, ADTs, visibility, impls, unsafe use) of one crate as JSON.
// It never runs the analysed code: it stops the compiler after analysis.
#![feature(rustc_private)]
#![allow(rustc::internal, clippy::all)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      '\r' => o.push_str("\\r"),
      c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Cx<'tcx> {
  tcx: TyCtxt<'tcx>,
  types: Vec<String>,
  tmap: HashMap<Ty<'tcx>, usize>,
  adts: HashMap<DefId, ()>,
  adt_queue: Vec<DefId>,
  queue: VecDeque<(Instance<'tcx>, ty::TypingEnv<'tcx>)>,
  seen: HashMap<Instance<'tcx>, String>,
  keys: HashSet<String>,
  allow: Vec<String>,
  deny: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
  fn path(&self, d: DefId) -> String {
    let s = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))));
    s
  }
  fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }

  fn ty(&mut self, t: Ty<'tcx>) -> usize {
    if let Some(i) = self.tmap.get(&t) { return *i; }
    let id = self.types.len();
    self.types.push(String::new());
    self.tmap.insert(t, id);
    let s = match *t.kind() {
      ty::Bool => "{\"k\":\"bool\"}".to_string(),
      ty::Char => "{\"k\":\"char\"}".to_string(),
      ty::Int(i) => format!("{{\"k\":\"int\",\"n\":{},\"s\":true}}", js(i.name_str())),
      ty::Uint(i) => format!("{{\"k\":\"int\",\"n\":{},\"s\":false}}", js(i.name_str())),
      ty::Float(i) => format!("{{\"k\":\"float\",\"n\":{}}}", js(i.name_str())),
      ty::Str => "{\"k\":\"str\"}".to_string(),
      ty::Never => "{\"k\":\"never\"}".to_string(),
      ty::Adt(def, args) => {
        if self.adts.insert(def.did(), ()).is_none() { self.adt_queue.push(def.did()); }
        let a = self.args(args);
        // instantiated field types per variant (bounded: skip foreign heavy ones)
        format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", js(&self.path(def.did())), a)
      }
      ty::Array(e, n) => { let e = self.ty(e); let n = self.tyconst(n); format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, n) }
      ty::Slice(e) => { let e = self.ty(e); format!("{{\"k\":\"slice\",\"e\":{}}}", e) }
      ty::RawPtr(e, m) => { let e = self.ty(e); format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", e, m.is_mut()) }
      ty::Ref(_, e, m) => { let e = self.ty(e); format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", e, m.is_mut()) }
      ty::FnDef(d, a) => {
        let p = js(&self.path(d)); let a = a.skip_binder(); let a = self.args(a);
        format!("{{\"k\":\"fndef\",\"p\":{},\"a\":{}}}", p, a)
      }
      ty::Tuple(ts) => { let v = ts.iter().map(|t| self.ty(t).to_string()).collect(); format!("{{\"k\":\"tuple\",\"e\":{}}}", arr(v)) }
      ty::Closure(d, a) => {
        let v: Vec<String> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
        format!("{{\"k\":\"closure\",\"p\":{},\"up\":{},\"kind\":{}}}", js(&self.path(d)), arr(v), js(&format!("{:?}", a.as_closure().kind_ty())))
      }
      ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", js(p.name.as_str())),
      ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"d\":{}}}", js(&format!("{}", t))),
      ty::Alias(..) => format!("{{\"k\":\"alias\",\"d\":{}}}", js(&self.tystr(t))),
      ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"d\":{}}}", js(&self.tystr(t))),
      _ => format!("{{\"k\":\"other\",\"d\":{}}}", js(&self.tystr(t))),
    };
    let mut s = s; s.pop();
    let _ = write!(s, ",\"s_\":{}}}", js(&self.tystr(t)));
    self.types[id] = s;
    id
  }
  fn tystr(&self, t: Ty<'tcx>) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(t.to_string())))
  }
  fn tyconst(&self, c: ty::Const<'tcx>) -> String {
    if let Some(n) = c.try_to_target_usize(self.tcx) { return n.to_string(); }
    js(&c.to_string())
  }
  fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
    let v = a.iter().filter_map(|x| match x.kind() {
      GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
      GenericArgKind::Const(c) => Some(format!("{{\"c\":{}}}", self.tyconst(c))),
      GenericArgKind::Lifetime(_) => None,
      _ => None,
    }).collect();
    arr(v)
  }

  fn key(&mut self, inst: Instance<'tcx>) -> String {
    if let Some(k) = self.seen.get(&inst) { return k.clone(); }
    let a: Vec<String> = inst.args.iter().filter_map(|x| match x.kind() {
      GenericArgKind::Type(t) => Some(self.tystr(t)),
      GenericArgKind::Const(c) => Some(c.to_string()),
      _ => None,
    }).collect();
    let kind = match inst.def { InstanceKind::Item(_) => "".to_string(), o => format!("#{}", format!("{:?}", o).split('(').next().unwrap()) };
    let mut base = format!("{}<{}>{}", self.path(inst.def_id()), a.join(", "), kind);
    // closures print identically for distinct definitions in the same parent
    if self.tcx.is_closure_like(inst.def_id()) {
      base = format!("{}<{}>{}", ty::print::with_no_trimmed_paths!(self.tcx.def_path_debug_str(inst.def_id())), a.join(", "), kind);
    }
    let mut k = base.clone(); let mut n = 1;
    while self.keys.contains(&k) { n += 1; k = format!("{}~{}", base, n); }
    self.keys.insert(k.clone());
    self.seen.insert(inst, k.clone());
    k
  }

  fn want(&self, inst: &Instance<'tcx>) -> bool {
    let d = inst.def_id();
    match inst.def { InstanceKind::Item(_) => {}, _ => return false }
    if d.is_local() { return true; }
    if !self.tcx.is_mir_available(d) { return false; }
    let p = self.path(d);
    let full = format!("{}", p);
    for x in &self.deny { if full.contains(x.as_str()) { return false; } }
    for x in &self.allow { if full.contains(x.as_str()) { return true; } }
    false
  }

  fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
    let tcx = self.tcx;
    let mut s = format!("{{\"p\":{},\"a\":{},\"crate\":{}", js(&self.path(d)), self.args(a), js(&self.krate(d)));
    let _ = write!(s, ",\"name\":{}", js(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()));
    if let Some(tr) = tcx.trait_of_assoc(d) {
      let _ = write!(s, ",\"trait\":{}", js(&self.path(tr)));
      let st = a.type_at(0); let st = self.ty(st);
      let _ = write!(s, ",\"self\":{}", st);
    } else if let Some(im) = tcx.impl_of_assoc(d) {
      let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
      let st = self.ty(st);
      let _ = write!(s, ",\"impl_self\":{}", st);
    }
    let safe = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().safety().is_unsafe();
    let _ = write!(s, ",\"unsafe\":{}", safe);
    if let Some(i) = tcx.intrinsic(d) { let _ = write!(s, ",\"intrinsic\":{}", js(i.name.as_str())); }
    if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure) {
      let a2 = tcx.erase_and_anonymize_regions(a);
      if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a2) {
        let k = self.key(inst);
        let rp = self.path(inst.def_id());
        let _ = write!(s, ",\"r\":{},\"rp\":{},\"rk\":{},\"rcrate\":{}", js(&k), js(&rp), js(format!("{:?}", inst.def).split('(').next().unwrap()), js(&self.krate(inst.def_id())));
        if let Some(im) = tcx.impl_of_assoc(inst.def_id()) {
          if let Some(tr) = tcx.impl_opt_trait_ref(im) {
            let st = tr.instantiate_identity().skip_norm_wip(); let st = self.ty(st.self_ty());
            let _ = write!(s, ",\"r_impl_self\":{}", st);
          }
        }
        if self.want(&inst) { self.queue.push_back((inst, env)); }
      }
    }
    s.push('}');
    s
  }

  fn span(&self, sp: Span) -> String {
    let sm = self.tcx.sess.source_map();
    // outermost expansion site gives the user-visible line
    let sp = sp.source_callsite();
    let lo = sm.lookup_char_pos(sp.lo());
    let f = match &lo.file.name { n => format!("{}", n.prefer_local_unconditionally()) };
    format!("[{},{}]", js(&f), lo.line)
  }

  fn place(&mut self, p: &Place<'tcx>) -> String {
    let pr: Vec<String> = p.projection.iter().map(|e| match e {
      ProjectionElem::Deref => "[\"*\"]".to_string(),
      ProjectionElem::Field(i, t) => format!("[\".\",{},{}]", i.as_usize(), self.ty(t)),
      ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
      ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
      ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
      ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
      ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
      _ => "[\"?\"]".to_string(),
    }).collect();
    format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(pr))
  }

  fn cst(&mut self, c: &mir::Const<'tcx>, env: ty::TypingEnv<'tcx>, span: Span) -> String {
    let t = c.ty();
    let tid = self.ty(t);
    if let ty::FnDef(d, a) = *t.kind() {
      let cal = self.callee(d, a.skip_binder(), env);
      return format!("{{\"fn\":{},\"t\":{}}}", cal, tid);
    }
    match c {
      mir::Const::Ty(_, k) => {
        if let Some(n) = k.try_to_target_usize(self.tcx) { return format!("{{\"bits\":\"{}\",\"t\":{}}}", n, tid); }
        return format!("{{\"cparam\":{},\"t\":{}}}", js(&k.to_string()), tid);
      }
      mir::Const::Unevaluated(u, _) if u.promoted.is_some() => {
        let k = self.promoted_key(u, env);
        return format!("{{\"promoted\":{},\"t\":{}}}", js(&k), tid);
      }
      _ => {}
    }
    let scalar_like = t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point();
    if scalar_like && !t.has_param() {
      if !c.has_param() {
        if let Some(b) = c.try_eval_bits(self.tcx, env) { return format!("{{\"bits\":\"{}\",\"t\":{}}}", b, tid); }
      }
    }
    if let mir::Const::Unevaluated(u, _) = c {
      let p = self.path(u.def); let a = self.args(u.args);
      // Named constant: resolve to an item with its own body when local
      let mut extra = String::new();
      let mut rdef = u.def; let mut rargs = u.args;
      if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, u.def, self.tcx.erase_and_anonymize_regions(u.args)) { rdef = i.def_id(); rargs = i.args; }
      let inst = Instance::new_raw(rdef, rargs);
      let k = self.key(inst);
      if rdef.is_local() { self.queue.push_back((inst, env)); }
      let _ = write!(extra, ",\"r\":{}", js(&k));
      if !c.has_param() && scalar_like { if let Some(b) = c.try_eval_bits(self.tcx, env) { let _ = write!(extra, ",\"bits\":\"{}\"", b); } }
      return format!("{{\"named\":{},\"a\":{},\"t\":{}{}}}", js(&p), a, tid, extra);
    }
    if let mir::Const::Val(v, _) = c {
      if let ConstValue::ZeroSized = v { return format!("{{\"zst\":true,\"t\":{}}}", tid); }
      if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
        let (prov, _) = p.prov_and_relative_offset();
        if let mir::interpret::GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) {
          return format!("{{\"static\":{},\"mut\":{},\"t\":{}}}", js(&self.path(d)), self.tcx.is_mutable_static(d), tid);
        }
      }
      // small enum constants (e.g. Ordering::Less): scalar of an ADT type
      if let ConstValue::Scalar(mir::interpret::Scalar::Int(i)) = v {
        let b = i.to_bits(i.size());
        let d = c.to_string();
        return format!("{{\"bits\":\"{}\",\"t\":{},\"d\":{}}}", b, tid, js(&d));
      }
    }
    let _ = span;
    format!("{{\"opaque\":{},\"t\":{}}}", js(&c.to_string()), tid)
  }

  fn promoted_key(&mut self, u: &mir::UnevaluatedConst<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
    let inst = Instance::new_raw(u.def, u.args);
    let k = self.key(inst);
    let _ = env;
    format!("{}@p{}", k, u.promoted.unwrap().as_usize())
  }

  fn operand(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
    match o {
      Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
      Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
      Operand::Constant(c) => format!("[\"k\",{}]", self.cst(&c.const_, env, c.span)),
      _ => "[\"rc\"]".to_string(),
    }
  }

  fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
    match r {
      Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
      Rvalue::Repeat(o, c) => { let o = self.operand(o, env); format!("[\"repeat\",{},{}]", o, self.tyconst(*c)) }
      Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
      Rvalue::RawPtr(k, p) => format!("[\"addr\",{},{}]", js(&format!("{:?}", k)), self.place(p)),
      Rvalue::Cast(k, o, t) => {
        let kk = format!("{:?}", k);
        let src = o.ty(&body.local_decls, self.tcx); let src = self.ty(src);
        let o = self.operand(o, env); let t = self.ty(*t); format!("[\"cast\",{},{},{},{}]", js(&kk), o, t, src)
      }
      Rvalue::BinaryOp(b, ops) => { let ot = ops.0.ty(&body.local_decls, self.tcx); let ot = self.ty(ot); let x = self.operand(&ops.0, env); let y = self.operand(&ops.1, env); format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", b)), x, y, ot) }
      Rvalue::UnaryOp(b, o) => { let ot = o.ty(&body.local_decls, self.tcx); let ot = self.ty(ot); let o = self.operand(o, env); format!("[\"un\",{},{},{}]", js(&format!("{:?}", b)), o, ot) }
      Rvalue::Discriminant(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; let t = self.ty(t); format!("[\"discr\",{},{}]", self.place(p), t) }
      Rvalue::Aggregate(k, ops) => {
        let ops: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
        let kk = match **k {
          AggregateKind::Array(t) => format!("{{\"k\":\"array\",\"t\":{}}}", self.ty(t)),
          AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
          AggregateKind::Adt(d, v, a, _, f) => {
            if self.adts.insert(d, ()).is_none() { self.adt_queue.push(d); }
            format!("{{\"k\":\"adt\",\"p\":{},\"v\":{},\"a\":{},\"u\":{}}}", js(&self.path(d)), v.as_usize(), self.args(a), f.map(|f| f.as_usize() as i64).unwrap_or(-1))
          }
          AggregateKind::Closure(d, a) => {
            let a = self.tcx.erase_and_anonymize_regions(a);
            let inst = Instance::new_raw(d, a);
            let key = self.key(inst);
            if self.want(&inst) { self.queue.push_back((inst, env)); }
            format!("{{\"k\":\"closure\",\"key\":{}}}", js(&key))
          }
          AggregateKind::RawPtr(..) => "{\"k\":\"rawptr\"}".to_string(),
          _ => "{\"k\":\"other\"}".to_string(),
        };
        format!("[\"agg\",{},{}]", kk, arr(ops))
      }
      Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
      Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
      _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
    }
  }

  fn body(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
    let mut s = String::from("{");
    let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
    let _ = write!(s, "\"locals\":{},\"argc\":{}", arr(locals), body.arg_count);
    if let Some(l) = body.spread_arg { let _ = write!(s, ",\"spread\":{}", l.as_usize()); }
    let names: Vec<String> = body.var_debug_info.iter().filter_map(|v| match &v.value {
      VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some(format!("[{},{}]", p.local.as_usize(), js(v.name.as_str()))),
      _ => None,
    }).collect();
    let _ = write!(s, ",\"names\":{}", arr(names));
    let mut blocks = vec![];
    for bb in body.basic_blocks.iter() {
      let mut st = vec![];
      for x in &bb.statements {
        let sp = self.span(x.source_info.span);
        match &x.kind {
          StatementKind::Assign(b) => {
            let (p, r) = &**b;
            let pl = self.place(p); let rv = self.rvalue(body, r, env);
            st.push(format!("[\"=\",{},{},{}]", pl, rv, sp));
          }
          StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"setd\",{},{},{}]", self.place(place), variant_index.as_usize(), sp)),
          StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
          StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
          StatementKind::Intrinsic(i) => match &**i {
            NonDivergingIntrinsic::Assume(o) => st.push(format!("[\"assume\",{}]", self.operand(o, env))),
            NonDivergingIntrinsic::CopyNonOverlapping(_) => st.push("[\"copynonoverlapping\"]".to_string()),
          },
          _ => {}
        }
      }
      let tm = bb.terminator();
      let sp = self.span(tm.source_info.span);
      let t = match &tm.kind {
        TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
        TerminatorKind::SwitchInt { discr, targets } => {
          let ot = discr.ty(&body.local_decls, self.tcx); let ot = self.ty(ot);
          let d = self.operand(discr, env);
          let v: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
          format!("[\"switch\",{},{},{},{}]", d, arr(v), targets.otherwise().as_usize(), ot)
        }
        TerminatorKind::Return => "[\"ret\"]".to_string(),
        TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
        TerminatorKind::Drop { place, target, .. } => { let t = place.ty(&body.local_decls, self.tcx).ty; let t = self.ty(t); format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), t) }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let f = self.operand(func, env);
          let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
          let d = self.place(destination);
          format!("[\"call\",{},{},{},{}]", f, arr(a), d, target.map(|t| t.as_usize() as i64).unwrap_or(-1))
        }
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds".to_string(), AssertKind::Overflow(b, ..) => format!("overflow:{:?}", b), AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(), AssertKind::DivisionByZero(_) => "div0".to_string(), AssertKind::RemainderByZero(_) => "rem0".to_string(), _ => "other".to_string() };
          let ops: Vec<String> = match &**msg { AssertKind::BoundsCheck { len, index } => vec![self.operand(len, env), self.operand(index, env)], AssertKind::Overflow(_, a, b) => vec![self.operand(a, env), self.operand(b, env)], _ => vec![] };
          format!("[\"assert\",{},{},{},{},{}]", self.operand(cond, env), expected, js(&m), target.as_usize(), arr(ops))
        }
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".to_string(),
        o => format!("[\"otherterm\",{}]", js(&format!("{:?}", o))),
      };
      blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"c\":{}}}", arr(st), t, sp, bb.is_cleanup));
    }
    let _ = write!(s, ",\"bbs\":[\n{}]}}", blocks.join(",\n"));
    s
  }

  fn vis(&self, d: DefId) -> String {
    match self.tcx.visibility(d) { ty::Visibility::Public => "pub".into(), ty::Visibility::Restricted(m) => format!("in:{}", self.path(m.to_def_id())) }
  }
}

struct Cb { out: String }

impl Callbacks for Cb {
  fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
    dump(tcx, &self.out);
    Compilation::Continue
  }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
  let rd = |v: &str| std::env::var(v).ok().map(|p| std::fs::read_to_string(p).unwrap().lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')).map(|l| l.trim().to_string()).collect()).unwrap_or_default();
  let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: HashMap::new(), adt_queue: vec![], queue: VecDeque::new(), seen: HashMap::new(), keys: HashSet::new(), allow: rd("RGA_ALLOW"), deny: rd("RGA_DENY") };
  let eff = tcx.effective_visibilities(());
  let mut fns: Vec<String> = vec![];
  let mut done: HashSet<Instance<'tcx>> = HashSet::new();
  let mut roots: HashMap<Instance<'tcx>, DefId> = HashMap::new();
  let mut unsafe_blocks: Vec<String> = vec![];
  for ld in tcx.hir_body_owners() {
    let d = ld.to_def_id();
    let kind = tcx.def_kind(d);
    match kind { DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {}, _ => continue }
    let args = ty::GenericArgs::identity_for_item(tcx, d);
    let args = tcx.erase_and_anonymize_regions(args);
    let inst = Instance::new_raw(d, args);
    roots.insert(inst, d);
    let env = ty::TypingEnv::post_analysis(tcx, d);
    cx.queue.push_back((inst, env));
  }
  while let Some((inst, env)) = cx.queue.pop_front() {
    if !done.insert(inst) { continue; }
    let d = inst.def_id();
    let kind = tcx.def_kind(d);
    let body: Body<'tcx> = match kind {
      DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => { if !tcx.is_mir_available(d) { continue; } tcx.instance_mir(inst.def).clone() }
      DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => { if !d.is_local() { continue; } if !tcx.is_mir_available(d) && !d.is_local() { continue; } tcx.mir_for_ctfe(d).clone() }
      _ => continue,
    };
    let k = cx.key(inst);
    let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body.clone())) { Ok(b) => b, Err(_) => { eprintln!("rga: cannot normalise {}", k); continue } };
    let root = roots.contains_key(&inst);
    let mut s = format!("{{\"key\":{},\"path\":{},\"crate\":{},\"local\":{},\"root\":{},\"kind\":{},\"span\":{}", js(&k), js(&cx.path(d)), js(&cx.krate(d)), d.is_local(), root, js(&format!("{:?}", kind)), cx.span(tcx.def_span(d)));
    let _ = write!(s, ",\"args\":{}", cx.args(inst.args));
    let _ = write!(s, ",\"name\":{}", js(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()));
    if d.is_local() && kind != DefKind::Closure {
      let _ = write!(s, ",\"vis\":{},\"reach\":{}", js(&cx.vis(d)), eff.is_reachable(d.expect_local()));
    }
    if kind == DefKind::Closure { let p = tcx.typeck_root_def_id(d); let _ = write!(s, ",\"parent\":{}", js(&cx.path(p))); }
    if let Some(tr) = tcx.trait_of_assoc(d) { let _ = write!(s, ",\"in_trait\":{}", js(&cx.path(tr))); }
    if let Some(im) = tcx.impl_of_assoc(d) {
      let st = tcx.type_of(im).instantiate_identity().skip_norm_wip(); let st = cx.ty(st);
      let _ = write!(s, ",\"impl_self\":{}", st);
      if let Some(tr) = tcx.impl_opt_trait_ref(im) {
        let tr = tr.instantiate_identity().skip_norm_wip();
        let a = cx.args(tr.args);
        let _ = write!(s, ",\"impl_trait\":{},\"impl_trait_args\":{}", js(&cx.path(tr.def_id)), a);
      }
      let _ = write!(s, ",\"derived\":{}", tcx.is_automatically_derived(im));
    }
    if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
      let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
      let ins: Vec<String> = sig.inputs().iter().map(|t| { let t = tcx.erase_and_anonymize_regions(*t); cx.ty(t).to_string() }).collect();
      let o = tcx.erase_and_anonymize_regions(sig.output()); let o = cx.ty(o);
      let _ = write!(s, ",\"inputs\":{},\"output\":{},\"unsafe\":{}", arr(ins), o, sig.safety().is_unsafe());
    }
    let b = cx.body(&body, env);
    let _ = write!(s, ",\"body\":{}}}", b);
    fns.push(s);
    if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
      let pm = tcx.promoted_mir(d).clone();
      for (i, pb) in pm.iter_enumerated() {
        let pb = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, pb.clone())) { Ok(b) => b, Err(_) => continue };
        let b = cx.body(&pb, env);
        fns.push(format!("{{\"key\":{},\"path\":{},\"crate\":{},\"local\":{},\"root\":false,\"kind\":\"Promoted\",\"span\":{},\"args\":[],\"name\":\"\",\"body\":{}}}", js(&format!("{}@p{}", k, i.as_usize())), js(&cx.path(d)), js(&cx.krate(d)), d.is_local(), cx.span(tcx.def_span(d)), b));
      }
    }
  }
  // unsafe blocks, unsafe impls and statics of the local crate (HIR level)
  struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<String>, cx: *const Cx<'tcx>, owner: String }
  impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
      if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
        let cx = unsafe { &*self.cx };
        self.out.push(format!("{{\"in\":{},\"span\":{}}}", js(&self.owner), cx.span(b.span)));
      }
      rustc_hir::intravisit::walk_block(self, b);
    }
  }
  for ld in tcx.hir_body_owners() {
    let owner = cx.path(tcx.typeck_root_def_id(ld.to_def_id()));
    if tcx.is_closure_like(ld.to_def_id()) { continue; }
    let cxp: *const Cx<'tcx> = &cx;
    let mut v = V { tcx, out: &mut unsafe_blocks, cx: cxp, owner };
    let b = tcx.hir_body_owned_by(ld);
    rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
  }
  // items: statics, impls, adts
  let mut items: Vec<String> = vec![];
  for id in tcx.hir_crate_items(()).definitions() {
    let d = id.to_def_id();
    match tcx.def_kind(d) {
      DefKind::Static { .. } => { let t = tcx.type_of(d).instantiate_identity().skip_norm_wip(); let t = cx.ty(t); items.push(format!("{{\"kind\":\"static\",\"path\":{},\"mut\":{},\"t\":{}}}", js(&cx.path(d)), tcx.is_mutable_static(d), t)) }
      DefKind::Impl { of_trait } => {
        let st = tcx.type_of(d).instantiate_identity().skip_norm_wip(); let st = cx.ty(st);
        let mut s = format!("{{\"kind\":\"impl\",\"self\":{},\"span\":{},\"derived\":{}", st, cx.span(tcx.def_span(d)), tcx.is_automatically_derived(d));
        if of_trait { let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip(); let a = cx.args(tr.args); let hdr = tcx.impl_trait_header(d); let _ = write!(s, ",\"trait\":{},\"targs\":{},\"unsafe\":{}", js(&cx.path(tr.def_id)), a, hdr.safety.is_unsafe()); }
        let ms: Vec<String> = tcx.associated_item_def_ids(d).iter().map(|m| format!("[{},{},{}]", js(tcx.opt_item_name(*m).map(|s| s.to_string()).unwrap_or_default().as_str()), js(&cx.path(*m)), js(&cx.vis(*m)))).collect();
        let _ = write!(s, ",\"items\":{}}}", arr(ms));
        items.push(s);
      }
      DefKind::Struct | DefKind::Enum | DefKind::Union => { if cx.adts.insert(d, ()).is_none() { cx.adt_queue.push(d); } }
      _ => {}
    }
  }
  let mut adts: Vec<String> = vec![];
  while let Some(d) = cx.adt_queue.pop() {
    let def = tcx.adt_def(d);
    let local = d.is_local();
    let mut vs = vec![];
    for (vi, v) in def.variants().iter_enumerated() {
      let fs: Vec<String> = v.fields.iter().map(|f| {
        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
        let t = tcx.erase_and_anonymize_regions(t);
        let keep = local || matches!(cx.krate(d).as_str(), "core" | "alloc" | "ordered_float");
        let tid = if keep { cx.ty(t).to_string() } else { "-1".to_string() };
        format!("{{\"n\":{},\"t\":{},\"vis\":{}}}", js(f.name.as_str()), tid, js(&cx.vis(f.did)))
      }).collect();
      let discr = if def.is_enum() { format!("{}", def.discriminant_for_variant(tcx, vi).val) } else { "0".into() };
      vs.push(format!("{{\"n\":{},\"f\":{},\"d\":{}}}", js(v.name.as_str()), arr(fs), js(&discr)));
    }
    let gens: Vec<String> = tcx.generics_of(d).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| js(p.name.as_str())).collect();
    adts.push(format!("{{\"path\":{},\"kind\":{},\"local\":{},\"vis\":{},\"reach\":{},\"transparent\":{},\"reprc\":{},\"gen\":{},\"variants\":{},\"span\":{}}}", js(&cx.path(d)), js(&format!("{:?}", def.adt_kind())), local, js(&cx.vis(d)), if local { eff.is_reachable(d.expect_local()) } else { true }, def.repr().transparent(), def.repr().c(), arr(gens), arr(vs), cx.span(tcx.def_span(d))));
  }
  let js_out = format!("{{\"crate\":{},\n\"fns\":[\n{}\n],\n\"adts\":[\n{}\n],\n\"items\":[\n{}\n],\n\"unsafe\":{},\n\"types\":[\n{}\n]}}\n", js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), fns.join(",\n"), adts.join(",\n"), items.join(",\n"), arr(unsafe_blocks), cx.types.join(",\n"));
  std::fs::write(out, js_out).unwrap();
}

struct NoCb;
impl Callbacks for NoCb {}

fn main() {
  let mut args: Vec<String> = std::env::args().collect();
  // invoked as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
  if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
  let target = std::env::var("RGA_CRATE").unwrap_or_default();
  let out = std::env::var("RGA_OUT").unwrap_or_default();
  let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
  let is_test = args.iter().any(|a| a == "--test");
  if name == target && !out.is_empty() && !is_test {
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Zalways-encode-mir".into());
    args.push("--cap-lints=allow".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
  } else {
    rustc_driver::compiler_entrypoint(&args, &mut NoCb);
  }
}
