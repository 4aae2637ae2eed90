// Dumps the MIR of everything reachable from the analysed crate, resolved per
// polymorphic instance, as JSON. No code of the analysed crate is run.
//
// usage: palm-driver OUT.json <rustc arguments>
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, VecDeque};

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Value>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    bodies: Map<String, Value>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    seen: HashMap<String, ()>,
    env: TypingEnv<'tcx>,
    depth: usize,
}

fn max_depth() -> usize {
    std::env::var("PALM_DEPTH").ok().and_then(|x| x.parse().ok()).unwrap_or(12)
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, def: DefId) -> String {
        let p = ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(def));
        if def.is_local() { format!("crate::{}", p) } else { p }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(Value::Null);
        self.type_ids.insert(t, id);
        let name = ty::print::with_no_trimmed_paths!(t.to_string());
        let v = match t.kind() {
            ty::Bool => json!({"k":"bool"}),
            ty::Char => json!({"k":"char"}),
            ty::Int(_) | ty::Uint(_) => json!({"k":"int"}),
            ty::Float(_) => json!({"k":"float"}),
            ty::Str => json!({"k":"str"}),
            ty::Never => json!({"k":"never"}),
            ty::Adt(def, args) => {
                let args_v: Vec<Value> = args.types().map(|a| Value::from(self.ty(a))).collect();
                let mut variants = vec![];
                let local = def.did().is_local();
                let interesting = true;
                let _ = local;
                if interesting {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let fields: Vec<Value> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let fty = f.ty(self.tcx, args);
                                let fty = self.tcx.try_normalize_erasing_regions(self.env, fty)
                                    .unwrap_or_else(|_| fty.skip_norm_wip());
                                json!([f.name.to_string(), self.ty(fty)])
                            })
                            .collect();
                        let discr = if def.is_enum() {
                            Value::from(def.discriminant_for_variant(self.tcx, vi).val.to_string())
                        } else {
                            Value::Null
                        };
                        variants.push(json!({"name": v.name.to_string(), "fields": fields, "discr": discr}));
                    }
                }
                let mut drop_key = Value::Null;
                if let Some(d) = self.tcx.adt_destructor(def.did()) {
                    if d.did.is_local() {
                        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, d.did, args) {
                            let k = self.key(&inst);
                            drop_key = Value::from(k.clone());
                            self.enqueue(k, inst);
                        }
                    }
                }
                json!({"k":"adt","drop_key":drop_key,"path":self.path(def.did()),"kind": if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"},
                    "args":args_v,"variants":variants,
                    "has_drop": self.tcx.adt_destructor(def.did()).map(|d| self.path(d.did)),
                    "manually_drop": def.is_manually_drop(), "phantom": def.is_phantom_data(), "is_box": def.is_box()})
            }
            ty::Ref(_, t, m) => json!({"k":"ref","mut":m.is_mut(),"t":self.ty(*t)}),
            ty::RawPtr(t, m) => json!({"k":"ptr","mut":m.is_mut(),"t":self.ty(*t)}),
            ty::Slice(t) => json!({"k":"slice","t":self.ty(*t)}),
            ty::Array(t, n) => json!({"k":"array","t":self.ty(*t),"n":n.try_to_target_usize(self.tcx)}),
            ty::Tuple(ts) => { let v: Vec<Value> = ts.iter().map(|t| Value::from(self.ty(t))).collect(); json!({"k":"tuple","ts":v}) }
            ty::Closure(def, args) => {
                let up: Vec<Value> = args.as_closure().upvar_tys().iter().map(|t| Value::from(self.ty(t))).collect();
                json!({"k":"closure","path":self.path(*def),"ups":up})
            }
            ty::FnDef(def, args) => { let args = args.skip_binder(); json!({"k":"fndef","path":self.path(*def), "args": args.types().map(|a| self.ty(a)).collect::<Vec<_>>() })}
            ty::FnPtr(..) => json!({"k":"fnptr"}),
            ty::Dynamic(..) => json!({"k":"dyn"}),
            ty::Param(p) => json!({"k":"param","n":p.name.to_string()}),
            ty::Alias(..) => json!({"k":"alias"}),
            _ => json!({"k":"other"}),
        };
        let mut v = v;
        v["s"] = Value::from(name);
        self.types[id] = v;
        id
    }

    fn key(&self, inst: &Instance<'tcx>) -> String {
        let args = self.tcx.erase_and_anonymize_regions(inst.args);
        let p = match inst.def {
            ty::InstanceKind::Item(d) => self.path(d),
            other => format!("{:?}", other),
        };
        let a: Vec<String> = args.iter().filter_map(|a| {
            if let Some(t) = a.as_type() { Some(ty::print::with_no_trimmed_paths!(t.to_string())) }
            else if let Some(c) = a.as_const() { Some(ty::print::with_no_trimmed_paths!(c.to_string())) }
            else { None }
        }).collect();
        format!("{}<{}>", p, a.join(","))
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> Value {
        let mut out = vec![Value::from(p.local.as_usize())];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let v = match e {
                ProjectionElem::Deref => { let t = self.ty(pt.ty); json!({"p":"deref","of":t}) }
                ProjectionElem::Field(f, t) => { let of = self.ty(pt.ty); json!({"p":"field","i":f.as_usize(),"t":self.ty(t),"of":of}) }
                ProjectionElem::Index(l) => json!({"p":"index","l":l.as_usize()}),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!({"p":"cindex","o":offset,"min":min_length,"from_end":from_end}),
                ProjectionElem::Subslice { from, to, from_end } => json!({"p":"subslice","from":from,"to":to,"from_end":from_end}),
                ProjectionElem::Downcast(n, v) => json!({"p":"downcast","v":v.as_usize(),"n":n.map(|n|n.to_string())}),
                _ => json!({"p":"other"}),
            };
            out.push(v);
            pt = pt.projection_ty(self.tcx, e);
        }
        Value::from(out)
    }

    fn place_ty(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> usize {
        let t = p.ty(&body.local_decls, self.tcx).ty;
        self.ty(t)
    }

    fn op_ty(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>) -> usize {
        let t = o.ty(&body.local_decls, self.tcx);
        self.ty(t)
    }

    fn const_(&mut self, c: &Const<'tcx>) -> Value {
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(def, args) = t.kind() {
            let args = args.skip_binder();
            return self.fn_ref(*def, args, tid);
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.try_eval_bits(self.tcx, self.env) {
                let signed = matches!(t.kind(), ty::Int(_));
                let v = if signed {
                    let size = t.primitive_size(self.tcx);
                    (size.sign_extend(b)).to_string()
                } else { b.to_string() };
                return json!({"c":"int","v":v,"t":tid});
            }
        }
        match c {
            Const::Unevaluated(u, _) => {
                if let Some(pr) = u.promoted {
                    // instantiate the promoted body so that its value can be read off
                    let bodies = self.tcx.promoted_mir(u.def);
                    let b = &bodies[pr];
                    let args = u.args;
                    let inst = Instance { def: ty::InstanceKind::Item(u.def), args };
                    if let Ok(b) = inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, b.clone())) {
                        let v = self.body(&b);
                        return json!({"c":"promoted","body":v,"t":tid});
                    }
                }
                let p = self.path(u.def);
                let args: Vec<Value> = u.args.types().map(|a| Value::from(self.ty(a))).collect();
                json!({"c":"uneval","path":p,"args":args,"t":tid})
            }
            Const::Ty(_, c2) => json!({"c":"tyconst","s":c2.to_string(),"t":tid}),
            Const::Val(v, _) => {
                if matches!(v, mir::ConstValue::Scalar(_) | mir::ConstValue::Indirect { .. }) && matches!(t.kind(), ty::Adt(..) | ty::Tuple(..))
                {
                    if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(*v, t) {
                        let fs: Vec<Value> = d.fields.iter().map(|(v, t)| self.const_(&Const::Val(*v, *t))).collect();
                        let s = ty::print::with_no_trimmed_paths!(c.to_string());
                        return json!({"c":"agg","v":d.variant.map_or(0, |v| v.as_usize()),"fs":fs,"t":tid,"s":s});
                    }
                }
                let s = match v {
                    mir::ConstValue::ZeroSized => "zst".to_string(),
                    _ => { let s = ty::print::with_no_trimmed_paths!(c.to_string()); s }
                };
                json!({"c":"val","s":s,"t":tid})
            }
        }
    }

    fn fn_ref(&mut self, def: DefId, args: GenericArgsRef<'tcx>, tid: usize) -> Value {
        let tcx = self.tcx;
        let path = self.path(def);
        let targs: Vec<Value> = args.types().map(|a| Value::from(self.ty(a))).collect();
        let mut o = json!({"c":"fn","path":path,"args":targs,"t":tid});
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o["trait"] = Value::from(self.path(tr));
            o["method"] = Value::from(tcx.item_name(def).to_string());
        }
        match Instance::try_resolve(tcx, self.env, def, args) {
            Ok(Some(inst)) => {
                let k = self.key(&inst);
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Shim(..) => "shim",
                    _ => "other",
                };
                o["kind"] = Value::from(kind);
                if let ty::InstanceKind::Item(d) = inst.def {
                    o["rpath"] = Value::from(self.path(d));
                    let ra: Vec<Value> = inst.args.types().map(|a| Value::from(self.ty(a))).collect();
                    o["rargs"] = Value::from(ra);
                }
                o["key"] = Value::from(k.clone());
                self.enqueue(k, inst);
                // a slice iterator's own version works on its representation: give the trait's body as well
                if let ty::InstanceKind::Item(d) = inst.def {
                    if d != def && o.get("trait").is_some() && tcx.defaultness(def).has_value()
                        && o["rpath"].as_str().map_or(false, |r| r.starts_with("<std::slice::Iter")) {
                        let given = Instance { def: ty::InstanceKind::Item(def), args };
                        let k = self.key(&given);
                        o["given"] = Value::from(k.clone());
                        self.enqueue(k, given);
                    }
                }
            }
            _ => {
                o["kind"] = Value::from("unresolved");
                // an implementation of the library's that it may specialise does what the special ones do
                if let Some(tr) = tcx.trait_of_assoc(def) {
                    let given = tcx.defaultness(def).has_value() && matches!(args.types().next().map(|t| t.kind()), Some(ty::Param(_) | ty::Alias(..)))
                        && tcx.is_diagnostic_item(rustc_span::sym::Iterator, tr);
                    if given {
                        // an iterator of the caller's: what the trait says the method does
                        let given = Instance { def: ty::InstanceKind::Item(def), args };
                        let k = self.key(&given);
                        o["given"] = Value::from(k.clone());
                        self.enqueue(k, given);
                    } else if !tr.is_local() {
                        let tref = ty::TraitRef::from_assoc(tcx, tr, args);
                        if let Ok(rustc_middle::traits::ImplSource::UserDefined(d)) = tcx.codegen_select_candidate(self.env.as_query_input(tref)) {
                            if let Some(leaf) = tcx.trait_def(tr).ancestors(tcx, d.impl_def_id).ok().and_then(|a| a.leaf_def(tcx, def)) {
                                if leaf.defining_node.def_id() == d.impl_def_id && !d.impl_def_id.is_local() {
                                    let given = Instance { def: ty::InstanceKind::Item(leaf.item.def_id), args: args.rebase_onto(tcx, tr, d.args) };
                                    let k = self.key(&given);
                                    o["given"] = Value::from(k.clone());
                                    self.enqueue(k, given);
                                }
                            }
                        }
                    }
                }
            }
        }
        o
    }

    fn enqueue(&mut self, k: String, inst: Instance<'tcx>) {
        if self.seen.contains_key(&k) { return; }
        if self.depth + 1 > max_depth() { return; }
        match inst.def {
            ty::InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) { return; }
                if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) { return; }
            }
            ty::InstanceKind::Shim(..) => {}
            _ => return,
        }
        self.seen.insert(k.clone(), ());
        self.queue.push_back((k, inst, self.env, self.depth + 1));
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>) -> Value {
        match o {
            Operand::Copy(p) => json!({"o":"copy","p":self.place(p, body)}),
            Operand::Move(p) => json!({"o":"move","p":self.place(p, body)}),
            Operand::Constant(c) => json!({"o":"const","c":self.const_(&c.const_)}),
            Operand::RuntimeChecks(_) => json!({"o":"rtcheck"}),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> Value {
        match r {
            Rvalue::Use(o, _) => json!({"r":"use","o":self.operand(o, body)}),
            Rvalue::Repeat(o, n) => json!({"r":"repeat","o":self.operand(o, body),"n":n.to_string()}),
            Rvalue::Ref(_, bk, p) => json!({"r":"ref","mut":matches!(bk, BorrowKind::Mut{..}),"p":self.place(p, body)}),
            Rvalue::Reborrow(_, m, p) => json!({"r":"use","mut":m.is_mut(),"o":{"o":"copy","p":self.place(p, body)}}),
            Rvalue::RawPtr(k, p) => json!({"r":"rawptr","mut":matches!(k, RawPtrKind::Mut),"p":self.place(p, body)}),
            Rvalue::Cast(k, o, t) => json!({"r":"cast","k":format!("{:?}",k),"o":self.operand(o, body),"t":self.ty(*t),
                "from": self.op_ty(o, body)}),
            Rvalue::BinaryOp(op, b) => json!({"r":"bin","op":format!("{:?}",op),"a":self.operand(&b.0, body),"b":self.operand(&b.1, body)}),
            Rvalue::UnaryOp(op, a) => json!({"r":"un","op":format!("{:?}",op),"a":self.operand(a, body)}),
            Rvalue::Discriminant(p) => json!({"r":"discr","p":self.place(p, body),"of":self.place_ty(p, body)}),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<Value> = ops.iter().map(|o| self.operand(o, body)).collect();
                let t = r.ty(&body.local_decls, self.tcx);
                let tid = self.ty(t);
                let (kind, var) = match **k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, _) => ("adt", v.as_usize()),
                    AggregateKind::Closure(d, a) => {
                        // closures are called through their type: make sure the body is dumped
                        let inst = Instance { def: ty::InstanceKind::Item(d), args: a };
                        let k = self.key(&inst);
                        self.enqueue(k.clone(), inst);
                        return json!({"r":"agg","k":"closure","v":0,"t":tid,"os":os,"key":k});
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                json!({"r":"agg","k":kind,"v":var,"t":tid,"os":os})
            }
            Rvalue::CopyForDeref(p) => json!({"r":"use","o":{"o":"copy","p":self.place(p, body)}}),
            Rvalue::WrapUnsafeBinder(o, _) => json!({"r":"use","o":self.operand(o, body)}),
            Rvalue::ThreadLocalRef(_) => json!({"r":"other"}),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", f, lo.line)
    }

    fn unwind(u: &UnwindAction) -> Value {
        match u {
            UnwindAction::Cleanup(b) => Value::from(b.as_usize()),
            UnwindAction::Continue => Value::from("continue"),
            UnwindAction::Unreachable => Value::from("unreachable"),
            UnwindAction::Terminate(_) => Value::from("terminate"),
        }
    }

    fn body(&mut self, body: &Body<'tcx>) -> Value {
        let locals: Vec<Value> = body.local_decls.iter().map(|d| Value::from(self.ty(d.ty))).collect();
        let mut names = Map::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize().to_string(), Value::from(v.name.to_string()));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                let v = match &s.kind {
                    StatementKind::Assign(b) => json!({"s":"assign","p":self.place(&b.0, body),"r":self.rvalue(&b.1, body),"sp":sp}),
                    StatementKind::SetDiscriminant { place, variant_index } => json!({"s":"setdiscr","p":self.place(place, body),"of":self.place_ty(place, body),"v":variant_index.as_usize(),"sp":sp}),
                    StatementKind::StorageDead(l) => json!({"s":"dead","l":l.as_usize()}),
                    StatementKind::StorageLive(l) => json!({"s":"live","l":l.as_usize()}),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => json!({"s":"assume","o":self.operand(o, body)}),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => json!({"s":"copynonoverlapping","src":self.operand(&c.src, body),"dst":self.operand(&c.dst, body),"count":self.operand(&c.count, body),"sp":sp}),
                    },
                    _ => continue,
                };
                stmts.push(v);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut tv = match &t.kind {
                TerminatorKind::Goto { target, .. } => json!({"k":"goto","t":target.as_usize()}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vals: Vec<Value> = targets.iter().map(|(v, b)| json!([v.to_string(), b.as_usize()])).collect();
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    json!({"k":"switch","o":self.operand(discr, body),"dt":self.ty(dt),"vals":vals,"otherwise":targets.otherwise().as_usize()})
                }
                TerminatorKind::UnwindResume => json!({"k":"resume"}),
                TerminatorKind::UnwindTerminate(_) => json!({"k":"abort"}),
                TerminatorKind::Return => json!({"k":"return"}),
                TerminatorKind::Unreachable => json!({"k":"unreachable"}),
                TerminatorKind::Drop { place, target, unwind, replace, .. } => json!({"k":"drop","p":self.place(place, body),"ty":self.place_ty(place, body),"t":target.as_usize(),"u":Self::unwind(unwind),"replace":replace}),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, body);
                    let a: Vec<Value> = args.iter().map(|a| self.operand(&a.node, body)).collect();
                    let at: Vec<Value> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, self.tcx); Value::from(self.ty(t)) }).collect();
                    json!({"k":"call","f":f,"args":a,"at":at,"dest":self.place(destination, body),"dty":self.place_ty(destination, body),"t":target.map(|t| t.as_usize()),"u":Self::unwind(unwind)})
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (kind, ops): (String, Vec<Value>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, body), self.operand(index, body)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![self.operand(a, body), self.operand(b, body)]),
                        AssertKind::OverflowNeg(a) => ("overflowneg".into(), vec![self.operand(a, body)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(a, body)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(a, body)]),
                        _ => ("other".into(), vec![]),
                    };
                    json!({"k":"assert","o":self.operand(cond, body),"expected":expected,"msg":kind,"ops":ops,"t":target.as_usize(),"u":Self::unwind(unwind)})
                }
                _ => json!({"k":"other"}),
            };
            tv["sp"] = Value::from(sp);
            blocks.push(json!({"s":stmts,"t":tv,"c":bb.is_cleanup}));
        }
        json!({"args":body.arg_count,"spread":body.spread_arg.map(|l| l.as_usize()),"locals":locals,"names":names,"blocks":blocks,"sp":self.span(body.span)})
    }

    fn run_queue(&mut self) {
        while let Some((k, inst, env, depth)) = self.queue.pop_front() {
            self.env = env;
            self.depth = depth;
            let tcx = self.tcx;
            let b: &Body<'tcx> = match inst.def {
                ty::InstanceKind::Item(d) => {
                    if !tcx.is_mir_available(d) { continue; }
                    tcx.instance_mir(inst.def)
                }
                ty::InstanceKind::Shim(..) => tcx.instance_mir(inst.def),
                _ => continue,
            };
            let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b.clone())) {
                Ok(b) => b,
                Err(_) => continue,
            };
            let mut v = self.body(&b);
            if let ty::InstanceKind::Item(d) = inst.def {
                v["path"] = Value::from(self.path(d));
                v["local"] = Value::from(d.is_local());
            } else {
                v["path"] = Value::from(format!("{:?}", inst.def));
                v["local"] = Value::from(false);
            }
            v["depth"] = Value::from(depth);
            self.bodies.insert(k, v);
        }
    }
}

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut roots = vec![];
        let env0 = TypingEnv::fully_monomorphized();
        let mut d = Dump { tcx, types: vec![], type_ids: HashMap::new(), bodies: Map::new(), queue: VecDeque::new(), seen: HashMap::new(), env: env0, depth: 0 };
        let vis = tcx.effective_visibilities(());
        for ld in tcx.mir_keys(()) {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) { continue; }
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let inst = Instance { def: ty::InstanceKind::Item(did), args };
            d.env = TypingEnv::post_analysis(tcx, did);
            d.depth = 0;
            let k = d.key(&inst);
            d.enqueue(k.clone(), inst);
            // what the item is: inherent method of / trait impl for which type
            let mut o = json!({"key":k,"path":d.path(did),"name":tcx.item_name(did).to_string(),"public":vis.is_reachable(*ld),"sp":d.span(tcx.def_span(did))});
            let parent = tcx.parent(did);
            if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                o["self"] = Value::from(d.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o["trait"] = Value::from(d.path(tr.def_id));
                    o["trait_s"] = Value::from(ty::print::with_no_trimmed_paths!(tr.to_string()));
                }
            }
            o["safe"] = Value::from(tcx.fn_sig(did).skip_binder().skip_binder().safety().is_safe());
            roots.push(o);
            d.run_queue();
        }
        // trait impls for local types, for the type level rules
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let did = id.owner_id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(did) {
                let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let preds: Vec<Value> = tcx.clauses_of(did).clauses.iter().map(|(p, _)| Value::from(ty::print::with_no_trimmed_paths!(p.to_string()))).collect();
                impls.push(json!({"trait":d.path(tr.def_id),"self":ty::print::with_no_trimmed_paths!(tr.self_ty().to_string()),"preds":preds,"sp":d.span(tcx.def_span(did))}));
            }
        }
        let out = json!({"crate":tcx.crate_name(LOCAL_CRATE).to_string(),"roots":roots,"types":d.types,"bodies":d.bodies,"impls":impls});
        std::fs::write(&self.out, serde_json::to_vec(&out).unwrap()).unwrap();
        rustc_driver::Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = args.remove(1);
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
