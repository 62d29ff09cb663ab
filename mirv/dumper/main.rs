//! MIR dumper: a rustc driver (through rustc_public) that writes, as JSON, the
//! monomorphic MIR of everything reachable from the crate named by MIRV_CRATE.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{Body, ConstOperand};
use rustc_public::rustc_internal::internal;
use rustc_public::ty::{
    Allocation, ConstantKind, GenericArgKind, GenericArgs, MirConst, RigidTy, Ty, TyKind,
};
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;
use std::process::ExitCode;

fn idx<T: serde::Serialize>(t: &T) -> String {
    serde_json::to_value(t).unwrap().to_string()
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Map<String, Value>,
    insts: Map<String, Value>,
    allocs: Map<String, Value>,
    queue: VecDeque<Instance>,
    seen_inst: HashSet<Instance>,
    seen_ty: HashSet<Ty>,
    layout_wanted: HashSet<Ty>,
    tyq: VecDeque<Ty>,
    stop: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn args(&mut self, a: &GenericArgs) -> Vec<Value> {
        let mut out = vec![];
        for k in &a.0 {
            match k {
                GenericArgKind::Type(t) => {
                    self.ty(*t);
                    out.push(json!({"ty": t}));
                }
                GenericArgKind::Const(c) => {
                    out.push(json!({"const": c.eval_target_usize().ok(), "dbg": format!("{:?}", c.kind())}));
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        out
    }
    fn ty(&mut self, t: Ty) {
        if self.seen_ty.insert(t) {
            self.tyq.push_back(t);
        }
    }
    fn drain_types(&mut self) {
        while let Some(t) = self.tyq.pop_front() {
            let v = self.ty_json(t);
            self.types.insert(idx(&t), v);
        }
    }
    fn ty_json(&mut self, t: Ty) -> Value {
        let s = format!("{}", t);
        let mut v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","bits": i.num_bytes()*8}),
                RigidTy::Uint(i) => json!({"k":"uint","bits": i.num_bytes()*8}),
                RigidTy::Float(f) => json!({"k":"float","f": format!("{:?}", f)}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Slice(e) => { self.ty(e); json!({"k":"slice","e":e}) }
                RigidTy::Array(e, n) => { self.ty(e); json!({"k":"array","e":e,"n":n.eval_target_usize().ok()}) }
                RigidTy::RawPtr(e, m) => { self.ty(e); json!({"k":"ptr","e":e,"mut": format!("{:?}", m)}) }
                RigidTy::Ref(_, e, m) => { self.ty(e); json!({"k":"ref","e":e,"mut": format!("{:?}", m)}) }
                RigidTy::Tuple(es) => { for e in &es { self.ty(*e); } json!({"k":"tuple","es":es}) }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                RigidTy::FnDef(def, args) => {
                    let a = self.args(&args);
                    let inst = Instance::resolve(def, &args).ok();
                    if let Some(i) = inst { self.enqueue(i); }
                    json!({"k":"fndef","def":def.name(),"args":a,"inst":inst.map(|i| idx(&i.def))})
                }
                RigidTy::Closure(def, args) => {
                    // upvar types: last generic arg is the tupled upvars type
                    let a = self.args(&args);
                    json!({"k":"closure","def":def.name(),"args":a})
                }
                RigidTy::Adt(def, args) => {
                    let a = self.args(&args);
                    let mut vs = vec![];
                    for var in def.variants() {
                        let mut fs = vec![];
                        for f in var.fields() {
                            let ft = f.ty_with_args(&args);
                            self.ty(ft);
                            fs.push(json!({"n": f.name, "t": ft}));
                        }
                        let d = if def.kind() == rustc_public::ty::AdtKind::Enum {
                            json!(def.discriminant_for_variant(var.idx()).val.to_string())
                        } else { Value::Null };
                        vs.push(json!({"n": var.name(), "d": d, "f": fs}));
                    }
                    let did = internal(self.tcx, def.def_id());
                    let hasdrop = self.tcx.adt_destructor(did).is_some();
                    json!({"k":"adt","def":def.name(),"krate":def.krate().name,"kind":format!("{:?}",def.kind()),
                        "args":a,"vs":vs,"box":def.is_box(),"drop":hasdrop})
                }
                o => json!({"k":"other","dbg":format!("{:?}",o)}),
            },
            o => json!({"k":"nonrigid","dbg":format!("{:?}",o)}),
        };
        v["s"] = json!(s);
        v
    }
    fn enqueue(&mut self, i: Instance) {
        if self.seen_inst.insert(i) {
            self.queue.push_back(i);
        }
    }
    fn alloc(&mut self, id: AllocId) {
        let key = idx(&id);
        if self.allocs.contains_key(&key) { return; }
        self.allocs.insert(key.clone(), Value::Null);
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => { self.enqueue(i); json!({"k":"fn","inst":idx(&i.def)}) }
            GlobalAlloc::VTable(t, _) => { self.ty(t); json!({"k":"vtable","ty":t}) }
            GlobalAlloc::Static(s) => {
                let n = s.name();
                match s.eval_initializer() {
                    Ok(a) => { let m = self.mem(&a); json!({"k":"static","name":n,"mem":m}) }
                    Err(_) => json!({"k":"static","name":n}),
                }
            }
            GlobalAlloc::Memory(a) => { let m = self.mem(&a); json!({"k":"mem","mem":m}) }
            GlobalAlloc::TypeId{..} => json!({"k":"typeid"}),
        };
        self.allocs.insert(key, v);
    }
    fn mem(&mut self, a: &Allocation) -> Value {
        let mut ps = vec![];
        for (off, p) in &a.provenance.ptrs {
            self.alloc(p.0);
            ps.push(json!([off, idx(&p.0)]));
        }
        let bytes: Vec<Value> = a.bytes.iter().map(|b| match b { Some(x) => json!(x), None => Value::Null }).collect();
        json!({"b": bytes, "p": ps})
    }
    fn konst(&mut self, c: &MirConst) -> Value {
        let t = c.ty();
        self.ty(t);
        let k = match c.kind() {
            ConstantKind::ZeroSized => json!({"k":"zst"}),
            ConstantKind::Allocated(a) => {
                self.want_layout(t, 0);
                let m = self.mem(a);
                json!({"k":"alloc","mem":m})
            }
            ConstantKind::Ty(tc) => json!({"k":"tyconst","v":tc.eval_target_usize().ok(),"dbg":format!("{:?}",tc)}),
            o => json!({"k":"other","dbg":format!("{:?}",o)}),
        };
        json!({"t": t, "c": k})
    }
    fn want_layout(&mut self, t: Ty, depth: usize) {
        if depth > 6 || !self.layout_wanted.insert(t) { return; }
        self.ty(t);
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _))
            | TyKind::RigidTy(RigidTy::Slice(e)) | TyKind::RigidTy(RigidTy::Array(e, _)) => self.want_layout(e, depth + 1),
            TyKind::RigidTy(RigidTy::Tuple(es)) => for e in es { self.want_layout(e, depth + 1) },
            TyKind::RigidTy(RigidTy::Adt(d, args)) => for v in d.variants() { for f in v.fields() {
                self.want_layout(f.ty_with_args(&args), depth + 1) } },
            _ => {}
        }
    }
    fn inst(&mut self, i: Instance) {
        let args = self.args(&i.args());
        let did = internal(self.tcx, i.def.def_id());
        let name = i.def.def_id().name();
        let krate = self.tcx.crate_name(did.krate).to_string();
        let mut derived = false;
        if let Some(im) = self.tcx.impl_of_assoc(did) {
            derived = self.tcx.is_automatically_derived(im);
        }
        let path = self.tcx.def_path_str(did);
        let stopped = self.stop.iter().any(|p| name.starts_with(p.as_str()) || i.name().starts_with(p.as_str()));
        let body = if stopped || matches!(i.kind, InstanceKind::Virtual { .. }) || i.is_empty_shim() { None } else { i.body() };
        let b = match &body {
            None => Value::Null,
            Some(b) => self.body(b),
        };
        let is_closure = self.tcx.is_closure_like(did);
        let lang_ty = i.ty();
        self.ty(lang_ty);
        let sp = i.def.def_id().span();
        let v = json!({
            "name": i.name(), "def": name, "path": path, "krate": krate, "derived": derived,
            "kind": format!("{:?}", i.kind), "args": args, "empty_shim": i.is_empty_shim(),
            "intrinsic": i.intrinsic_name(), "closure": is_closure, "ty": lang_ty, "body": b,
            "stopped": stopped, "span": sp.diagnostic(),
        });
        self.insts.insert(idx(&i.def), v);
    }
    fn body(&mut self, b: &Body) -> Value {
        let mut col = Collect { tys: vec![], consts: vec![] };
        col.visit_body(b);
        for t in col.tys { self.ty(t); }
        let mut consts: Map<String, Value> = Map::new();
        for c in col.consts {
            let key = format!("{}", serde_json::to_value(&c).unwrap()["id"]);
            let v = self.konst(&c);
            consts.insert(key, v);
        }
        let mut v = serde_json::to_value(b).unwrap();
        // lines for obligations
        let blocks: Vec<Value> = b.blocks.iter().map(|bl| {
            json!(bl.terminator.source_info.span.get_lines().start_line)
        }).collect();
        v["lines"] = json!(blocks);
        v["consts"] = Value::Object(consts);
        v["spread"] = json!(b.spread_arg());
        slim(&mut v);
        v
    }
}

/// Drop what the verifier never looks at.
fn slim(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.remove("span");
            m.remove("source_info");
            m.remove("var_debug_info");
            m.remove("user_ty");
            if m.contains_key("const_") {
                let id = m["const_"]["id"].to_string();
                m.insert("const_".into(), json!(id));
            }
            for (_, x) in m.iter_mut() { slim(x); }
        }
        Value::Array(a) => for x in a { slim(x); },
        _ => {}
    }
}

struct Collect { tys: Vec<Ty>, consts: Vec<MirConst> }
impl MirVisitor for Collect {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) { self.tys.push(*ty); }
    fn visit_const_operand(&mut self, c: &ConstOperand, _l: Location) {
        self.consts.push(c.const_.clone());
    }
}

fn run<'tcx>(tcx: TyCtxt<'tcx>) -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    let want = std::env::var("MIRV_CRATE").unwrap_or_default();
    if krate.name != want { return ControlFlow::Continue(()); }
    let out = std::env::var("MIRV_OUT").expect("MIRV_OUT");
    let stop = std::env::var("MIRV_STOP").unwrap_or_default().split('|').filter(|s| !s.is_empty()).map(String::from).collect();
    let only: Vec<String> = std::env::var("MIRV_ROOTS").unwrap_or_default().split('|').filter(|s| !s.is_empty()).map(String::from).collect();
    let mut d = Dump { tcx, types: Map::new(), insts: Map::new(), allocs: Map::new(), queue: VecDeque::new(),
        seen_inst: HashSet::new(), seen_ty: HashSet::new(), layout_wanted: HashSet::new(), tyq: VecDeque::new(), stop };
    let mut roots = vec![];
    let mut items = vec![];
    for item in rustc_public::all_local_items() {
        let generic = item.requires_monomorphization();
        items.push(json!({"name": item.name(), "generic": generic, "kind": format!("{:?}", item.kind())}));
        let wanted = only.is_empty() || only.iter().any(|r| item.name() == *r);
        if !generic && item.kind() == ItemKind::Fn && wanted {
            if let Ok(i) = Instance::try_from(item) {
                roots.push(idx(&i.def));
                d.enqueue(i);
            }
        }
    }
    while let Some(i) = d.queue.pop_front() {
        d.inst(i);
        d.drain_types();
    }
    let wanted: Vec<Ty> = d.layout_wanted.iter().copied().collect();
    let mut layouts = Map::new();
    for t in wanted {
        if let Ok(l) = t.layout() {
            // the range of a 128-bit integer is out of what a JSON number holds
            if let Ok(v) = serde_json::to_value(l.shape()) {
                layouts.insert(idx(&t), v);
            }
        }
    }
    d.drain_types();
    let v = json!({"crate": krate.name, "roots": roots, "items": items, "types": d.types, "insts": d.insts,
        "allocs": d.allocs, "layouts": layouts});
    std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() -> ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && !args[1].starts_with('-') { args.remove(0); }
    let _ : HashMap<u8,u8> = HashMap::new();
    let r = rustc_public::run_with_tcx!(&args, run);
    match r {
        Ok(()) => ExitCode::SUCCESS,
        Err(rustc_public::CompilerError::Skipped) => ExitCode::SUCCESS,
        Err(_) => ExitCode::FAILURE,
    }
}
