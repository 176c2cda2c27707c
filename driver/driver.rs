// Facts driver: a rustc wrapper that dumps, for each workspace crate it is asked about, the
// drop-elaborated MIR of every body with resolved callees and named places, plus ADT tables and
// the digest of every source file the compiler read. It only observes; it never changes the build.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    tys: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn forwarded(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> (DefId, ty::GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        let (to, order) = match self.path(d).as_str() {
            "std::convert::Into::into" => (rustc_span::sym::From, [1, 0]),
            "std::convert::TryInto::try_into" => (rustc_span::sym::TryFrom, [1, 0]),
            _ => return (d, args),
        };
        let Some(tr) = tcx.get_diagnostic_item(to) else { return (d, args) };
        let Some(f) = tcx.associated_items(tr).in_definition_order().find(|i| i.is_fn()) else { return (d, args) };
        (f.def_id, tcx.mk_args_from_iter(order.iter().map(|i| args[*i])))
    }

    fn key(&self, d: DefId) -> String {
        let kn = self.tcx.crate_name(d.krate).to_string();
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{kn}{p}")
    }
    fn path(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() && !s.starts_with('<') { format!("{}::{}", self.krate, s) } else { s }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let s = with_no_trimmed_paths!(t.to_string());
        let i = self.tys.len();
        self.tys.push(s);
        self.tymap.insert(t, i);
        i
    }
    fn note_adt(&mut self, d: DefId) {
        let k = self.path(d);
        if self.adts.contains_key(&k) {
            return;
        }
        self.adts.insert(k.clone(), String::new());
        let adt = self.tcx.adt_def(d);
        let mut o = String::new();
        let _ = write!(o, "{{\"kind\":\"{}\",\"local\":{},\"variants\":[", if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" }, d.is_local());
        for (i, v) in adt.variants().iter_enumerated() {
            if i.as_usize() > 0 {
                o.push(',');
            }
            let disc = if adt.is_enum() { adt.discriminant_for_variant(self.tcx, i).val.to_string() } else { "0".into() };
            o.push_str("{\"name\":");
            esc(v.name.as_str(), &mut o);
            let _ = write!(o, ",\"disc\":\"{disc}\",\"fields\":[");
            for (j, f) in v.fields.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                o.push('[');
                esc(f.name.as_str(), &mut o);
                let ft = with_no_trimmed_paths!(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip().to_string());
                o.push(',');
                esc(&ft, &mut o);
                o.push(']');
            }
            o.push_str("]}");
        }
        o.push_str("]}");
        self.adts.insert(k, o);
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>, o: &mut String) {
        let _ = write!(o, "[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            o.push(',');
            match elem {
                ProjectionElem::Deref => o.push_str("\"*\""),
                // what a box points to is what the box is
                ProjectionElem::Field(..) if pt.ty.is_box() => o.push_str("\"?\""),
                ProjectionElem::Field(idx, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variants().get(vi).and_then(|v| v.fields.get(idx)).map(|f| f.name.to_string()).unwrap_or_else(|| idx.as_usize().to_string())
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) if d.is_local() => {
                            let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                            names.get(idx).map(|n| format!("^{}^{}", idx.as_usize(), n)).unwrap_or_else(|| idx.as_usize().to_string())
                        }
                        _ => idx.as_usize().to_string(),
                    };
                    o.push_str("[\"f\",");
                    esc(&name, o);
                    let _ = write!(o, ",{}]", idx.as_usize());
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(sym, vi) => {
                    let n = match (sym, pt.ty.kind()) {
                        (Some(s), _) => s.to_string(),
                        (None, ty::Adt(def, _)) => def.variant(vi).name.to_string(),
                        _ => vi.as_usize().to_string(),
                    };
                    o.push_str("[\"d\",");
                    esc(&n, o);
                    o.push(']');
                }
                _ => o.push_str("\"?\""),
            }
            pt = pt.projection_ty(self.tcx, elem);
        }
        o.push(']');
    }

    fn constant(&mut self, env: ty::TypingEnv<'tcx>, owner: DefId, c: &ConstOperand<'tcx>, o: &mut String) {
        let cty = c.const_.ty();
        o.push_str("{\"t\":");
        let ti = self.ty(cty);
        let _ = write!(o, "{ti}");
        match cty.kind() {
            ty::FnDef(d, args) => {
                self.fnref(env, *d, args.skip_binder(), o);
                o.push('}');
                return;
            }
            ty::Closure(d, _) => {
                o.push_str(",\"clo\":");
                let k = self.key(*d);
                esc(&k, o);
                o.push('}');
                return;
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"prom\":{}", p.as_usize());
                if u.def != owner {
                    o.push_str(",\"promof\":");
                    let k = self.key(u.def);
                    esc(&k, o);
                }
                o.push('}');
                return;
            }
            o.push_str(",\"cp\":");
            let pth = self.path(u.def);
            esc(&pth, o);
            o.push_str(",\"ck\":");
            let k = self.key(u.def);
            esc(&k, o);
        }
        let needs_subst = c.const_.has_param();
        if !needs_subst || !matches!(c.const_, Const::Unevaluated(..)) {
            if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                self.constval(v, cty, o);
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push_str(",\"cparam\":");
            let s = ct.to_string();
            esc(&s, o);
        }
        o.push('}');
    }

    fn constval(&mut self, v: ConstValue, cty: Ty<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match cty.kind() {
                    ty::Bool => {
                        let _ = write!(o, ",\"v\":{}", if bits == 0 { "false" } else { "true" });
                    }
                    ty::Char => {
                        o.push_str(",\"v\":");
                        let s = char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default();
                        esc(&s, o);
                    }
                    ty::Int(_) => {
                        let sz = i.size();
                        let _ = write!(o, ",\"v\":{}", sz.sign_extend(bits));
                    }
                    ty::Uint(_) => {
                        let _ = write!(o, ",\"v\":{bits}");
                    }
                    ty::Adt(def, _) if def.is_enum() => {
                        self.note_adt(def.did());
                        let mut n = None;
                        for (vi, vd) in def.variants().iter_enumerated() {
                            let dv = def.discriminant_for_variant(tcx, vi).val;
                            let trunc = i.size().truncate(dv);
                            if trunc == bits && vd.fields.is_empty() {
                                n = Some(vd.name.to_string());
                            }
                        }
                        if let Some(n) = n {
                            o.push_str(",\"var\":");
                            esc(&n, o);
                        } else {
                            let _ = write!(o, ",\"bits\":{bits}");
                        }
                    }
                    _ => {
                        let _ = write!(o, ",\"bits\":\"{bits}\"");
                    }
                }
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let id = p.provenance.alloc_id();
                match tcx.try_get_global_alloc(id) {
                    Some(mir::interpret::GlobalAlloc::Static(d)) => {
                        o.push_str(",\"static\":");
                        let k = self.key(d);
                        esc(&k, o);
                    }
                    Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                        // &[u8; N] literals
                        let inner = a.inner();
                        if let ty::Ref(_, t, _) = cty.kind()
                            && let ty::Array(et, _) = t.kind()
                            && matches!(et.kind(), ty::Uint(ty::UintTy::U8))
                        {
                            let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..inner.len());
                            o.push_str(",\"bytes\":[");
                            for (i, x) in b.iter().enumerate() {
                                if i > 0 {
                                    o.push(',');
                                }
                                let _ = write!(o, "{x}");
                            }
                            o.push(']');
                        }
                    }
                    _ => {}
                }
            }
            ConstValue::ZeroSized => {
                o.push_str(",\"zst\":1");
                if let ty::Adt(def, _) = cty.kind()
                    && def.is_enum()
                {
                    self.note_adt(def.did());
                }
            }
            ConstValue::Slice { .. } => {
                if let ty::Ref(_, t, _) = cty.kind() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if t.is_str() {
                            o.push_str(",\"v\":");
                            esc(&String::from_utf8_lossy(b), o);
                        } else {
                            o.push_str(",\"bytes\":[");
                            for (i, x) in b.iter().enumerate() {
                                if i > 0 {
                                    o.push(',');
                                }
                                let _ = write!(o, "{x}");
                            }
                            o.push(']');
                        }
                    }
                }
            }
            ConstValue::Indirect { .. } => {
                o.push_str(",\"ind\":1");
            }
        }
    }

    fn fnref(&mut self, env: ty::TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>, o: &mut String) {
        o.push_str(",\"fn\":");
        let p = self.path(d);
        esc(&p, o);
        o.push_str(",\"fk\":");
        let k = self.key(d);
        esc(&k, o);
        o.push_str(",\"ga\":[");
        let mut first = true;
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if !first {
                    o.push(',');
                }
                first = false;
                let i = self.ty(t);
                let _ = write!(o, "{i}");
            }
        }
        o.push(']');
        let tcx = self.tcx;
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args = tcx.erase_and_anonymize_regions(args);
            // `x.into()` is `From::from(x)` and `s.parse()` is `FromStr::from_str(s)`: name the impl that runs.
            let (d, args) = self.forwarded(d, args);
            if !args.has_escaping_bound_vars() {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                    let rd = inst.def_id();
                    o.push_str(",\"rga\":[");
                    let ts: Vec<String> = inst.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                    o.push_str(&ts.join(","));
                    o.push(']');
                    if rd != d {
                        o.push_str(",\"rn\":");
                        let p = self.path(rd);
                        esc(&p, o);
                        o.push_str(",\"rk\":");
                        let k = self.key(rd);
                        esc(&k, o);
                    }
                    if matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                        o.push_str(",\"virt\":1");
                    }
                } else if tcx.def_kind(tcx.parent(d)) == DefKind::Trait {
                    // A provided method of a type that is not known here: an implementation may override it.
                    o.push_str(",\"open\":1");
                }
            }
        }
        // The ADT constructor?
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt_did, vname) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                (tcx.parent(parent), tcx.item_name(parent).to_string())
            } else {
                (parent, tcx.item_name(parent).to_string())
            };
            self.note_adt(adt_did);
            o.push_str(",\"ctor\":");
            let p = self.path(adt_did);
            esc(&p, o);
            o.push_str(",\"ctorv\":");
            esc(&vname, o);
        }
    }

    fn operand(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, owner: DefId, op: &Operand<'tcx>, o: &mut String) {
        match op {
            Operand::Copy(p) | Operand::Move(p) => self.place(body, p, o),
            Operand::Constant(c) => self.constant(env, owner, c, o),
            _ => o.push_str("{\"v\":false}"),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, owner: DefId, rv: &Rvalue<'tcx>, o: &mut String) {
        match rv {
            Rvalue::Use(op, ..) => {
                o.push_str("[\"use\",");
                self.operand(body, env, owner, op, o);
                o.push(']');
            }
            Rvalue::CopyForDeref(p) => {
                o.push_str("[\"use\",");
                self.place(body, p, o);
                o.push(']');
            }
            Rvalue::Repeat(op, n) => {
                o.push_str("[\"rep\",");
                self.operand(body, env, owner, op, o);
                o.push(',');
                let s = n.to_string();
                esc(&s, o);
                o.push(']');
            }
            Rvalue::Ref(_, bk, p) => {
                o.push_str(if matches!(bk, BorrowKind::Mut { .. }) { "[\"refm\"," } else { "[\"ref\"," });
                self.place(body, p, o);
                o.push(']');
            }
            Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                o.push_str("[\"ref\",");
                self.place(body, p, o);
                o.push(']');
            }
            Rvalue::ThreadLocalRef(d) => {
                o.push_str("[\"tls\",");
                let k = self.key(*d);
                esc(&k, o);
                o.push(']');
            }
            Rvalue::Cast(k, op, t) => {
                o.push_str("[\"cast\",");
                let ks = format!("{k:?}");
                let ks: String = ks.chars().take_while(|c| c.is_alphanumeric()).collect();
                esc(&ks, o);
                o.push(',');
                self.operand(body, env, owner, op, o);
                let ti = self.ty(*t);
                let si = self.ty(op.ty(body, self.tcx));
                let _ = write!(o, ",{ti},{si}]");
            }
            Rvalue::BinaryOp(b, ab) => {
                let _ = write!(o, "[\"bin\",\"{b:?}\",");
                self.operand(body, env, owner, &ab.0, o);
                o.push(',');
                self.operand(body, env, owner, &ab.1, o);
                o.push(']');
            }
            Rvalue::UnaryOp(u, a) => {
                let _ = write!(o, "[\"un\",\"{u:?}\",");
                self.operand(body, env, owner, a, o);
                o.push(']');
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                o.push_str("[\"disc\",");
                self.place(body, p, o);
                o.push(',');
                if let ty::Adt(def, _) = t.kind() {
                    self.note_adt(def.did());
                    let pp = self.path(def.did());
                    esc(&pp, o);
                } else {
                    o.push_str("null");
                }
                o.push(']');
            }
            Rvalue::Aggregate(k, ops) => {
                o.push_str("[\"agg\",");
                match &**k {
                    AggregateKind::Array(_) => o.push_str("\"array\",null,null"),
                    AggregateKind::Tuple => o.push_str("\"tuple\",null,null"),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        self.note_adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let p = self.path(*d);
                        o.push_str("\"adt\",");
                        esc(&p, o);
                        o.push(',');
                        if def.is_enum() { esc(def.variant(*vi).name.as_str(), o) } else { o.push_str("null") }
                        let _ = active;
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        o.push_str("\"closure\",");
                        let kk = self.key(*d);
                        esc(&kk, o);
                        o.push_str(",null");
                    }
                    AggregateKind::RawPtr(..) => o.push_str("\"rawptr\",null,null"),
                }
                o.push_str(",[");
                for (i, a) in ops.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    self.operand(body, env, owner, a, o);
                }
                o.push_str("]]");
            }
            _ => o.push_str("[\"other\"]"),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> u32 {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as u32
    }

    fn body(&mut self, body: &Body<'tcx>, owner: DefId, o: &mut String) {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let _ = write!(o, "\"args\":{},\"locals\":[", body.arg_count);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert_with(|| v.name.to_string());
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            if l.as_usize() > 0 {
                o.push(',');
            }
            let ti = self.ty(d.ty);
            let _ = write!(o, "[{ti}");
            o.push(',');
            match names.get(&l.as_usize()) {
                Some(n) => esc(n, o),
                None => o.push_str("null"),
            }
            let mut t = d.ty;
            while let ty::Ref(_, u, _) = t.kind() {
                t = *u;
            }
            match t.kind() {
                ty::Closure(c, _) | ty::Coroutine(c, _) => {
                    o.push(',');
                    let k = self.key(*c);
                    esc(&k, o);
                }
                _ => {}
            }
            o.push(']');
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        o.push('[');
                        self.place(body, &pr.0, o);
                        o.push(',');
                        self.rvalue(body, env, owner, &pr.1, o);
                        let _ = write!(o, ",{}]", self.line(s.source_info.span));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        o.push('[');
                        self.place(body, place, o);
                        let _ = write!(o, ",[\"setdisc\",{}],{}]", variant_index.as_usize(), self.line(s.source_info.span));
                    }
                    _ => {}
                }
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let ln = self.line(term.source_info.span);
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", target.as_usize());
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push_str("[\"switch\",");
                    self.operand(body, env, owner, discr, o);
                    let dt = discr.ty(body, tcx);
                    let ti = self.ty(dt);
                    o.push_str(",[");
                    for (i, (v, t)) in targets.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let vs = match dt.kind() {
                            ty::Int(_) => {
                                let sz = tcx.layout_of(env.as_query_input(dt)).map(|l| l.size).ok();
                                sz.map(|s| s.sign_extend(v).to_string()).unwrap_or_else(|| v.to_string())
                            }
                            _ => v.to_string(),
                        };
                        let _ = write!(o, "[\"{vs}\",{}]", t.as_usize());
                    }
                    let _ = write!(o, "],{},{ti},{ln}]", targets.otherwise().as_usize());
                }
                TerminatorKind::Return => o.push_str("[\"ret\"]"),
                TerminatorKind::Unreachable => o.push_str("[\"unreach\"]"),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push_str("[\"drop\",");
                    self.place(body, place, o);
                    let t = place.ty(body, tcx).ty;
                    let ti = self.ty(t);
                    let _ = write!(o, ",{},{ti},{ln}]", target.as_usize());
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    o.push_str("[\"call\",");
                    self.operand(body, env, owner, func, o);
                    o.push_str(",[");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        self.operand(body, env, owner, &a.node, o);
                    }
                    o.push_str("],");
                    self.place(body, destination, o);
                    match target {
                        Some(t) => {
                            let _ = write!(o, ",{}", t.as_usize());
                        }
                        None => o.push_str(",null"),
                    }
                    let exp = fn_span.from_expansion();
                    let _ = write!(o, ",{ln},{}]", exp);
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push_str("[\"assert\",");
                    self.operand(body, env, owner, cond, o);
                    let mk = format!("{msg:?}");
                    let mk: String = match &**msg {
                        AssertKind::BoundsCheck { .. } => "BoundsCheck".into(),
                        AssertKind::Overflow(op, ..) => format!("Overflow{op:?}"),
                        AssertKind::DivisionByZero(..) => "DivisionByZero".into(),
                        AssertKind::RemainderByZero(..) => "RemainderByZero".into(),
                        AssertKind::OverflowNeg(..) => "OverflowNeg".into(),
                        _ => mk.chars().take_while(|c| c.is_alphanumeric()).collect(),
                    };
                    let _ = write!(o, ",{expected},\"{mk}\",{},{ln}]", target.as_usize());
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    o.push_str("[\"yield\",");
                    self.operand(body, env, owner, value, o);
                    let _ = write!(o, ",{},", resume.as_usize());
                    self.place(body, resume_arg, o);
                    o.push(']');
                }
                TerminatorKind::TailCall { .. } => o.push_str("[\"unreach\"]"),
                _ => o.push_str("[\"unreach\"]"),
            }
            o.push('}');
        }
        o.push(']');
    }
}

struct Cb {
    out: String,
    /// Bodies of coroutines before they are turned into state machines.
    coroutines: HashMap<LocalDefId, Body<'static>>,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        for ld in tcx.hir_body_owners() {
            if tcx.is_coroutine(ld.to_def_id()) && !tcx.type_of(ld).skip_binder().references_error() {
                let st = tcx.mir_promoted(ld).0;
                if !st.is_stolen() {
                    let b: Body<'tcx> = st.borrow().clone();
                    // SAFETY: the type context outlives both callbacks of one compilation.
                    self.coroutines.insert(ld, unsafe { std::mem::transmute::<Body<'tcx>, Body<'static>>(b) });
                }
            }
        }
        Compilation::Continue
    }

    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, krate: krate.clone(), tys: vec![], tymap: HashMap::new(), adts: BTreeMap::new() };
        let mut o = String::with_capacity(1 << 24);
        o.push_str("{\"crate\":");
        esc(&krate, &mut o);
        o.push_str(",\"files\":{");
        let sm = tcx.sess.source_map();
        let mut first = true;
        for f in sm.files().iter() {
            if f.cnum != LOCAL_CRATE {
                continue;
            }
            if let rustc_span::FileName::Real(r) = &f.name {
                if let Some(p) = r.local_path() {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    esc(&p.to_string_lossy(), &mut o);
                    o.push(':');
                    esc(&f.src_hash.to_string(), &mut o);
                }
            }
        }
        o.push_str("},\"bodies\":[\n");
        // Every local body owner, closures included.
        let mut first = true;
        let owners: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for ld in owners {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
            if matches!(kind, DefKind::Ctor(..)) {
                continue;
            }
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody);
            if !is_const && !is_fn {
                continue;
            }
            if !first {
                o.push_str(",\n");
            }
            first = false;
            o.push_str("{\"key\":");
            let k = cx.key(d);
            esc(&k, &mut o);
            o.push_str(",\"name\":");
            let p = cx.path(d);
            esc(&p, &mut o);
            o.push_str(",\"kind\":");
            let ks = format!("{kind:?}");
            let ks: String = ks.chars().take_while(|c| c.is_alphanumeric()).collect();
            esc(&ks, &mut o);
            let sp = tcx.def_span(d);
            let loc = sm.lookup_char_pos(sp.source_callsite().lo());
            o.push_str(",\"file\":");
            let fname = match &loc.file.name {
                rustc_span::FileName::Real(r) => r.local_path().map(|p| p.to_string_lossy().to_string()).unwrap_or_default(),
                _ => String::new(),
            };
            esc(&fname, &mut o);
            let _ = write!(o, ",\"line\":{},\"exp\":{}", loc.line, sp.from_expansion());
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                // The type parameters of the function and of what contains it, in the order of its generic arguments.
                let mut names: Vec<String> = Vec::new();
                let g = tcx.generics_of(d);
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        names.push(p.name.to_string());
                    }
                }
                o.push_str(",\"gen\":[");
                for (i, n) in names.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(n, &mut o);
                }
                o.push(']');
                let _ = write!(o, ",\"pub\":{},\"async\":{}", tcx.visibility(d).is_public(), tcx.asyncness(d).is_async());
                if matches!(kind, DefKind::AssocFn) {
                    if let Some(imp) = tcx.impl_of_assoc(d) {
                        let st = with_no_trimmed_paths!(tcx.type_of(imp).instantiate_identity().skip_norm_wip().to_string());
                        o.push_str(",\"self\":");
                        esc(&st, &mut o);
                        if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                            o.push_str(",\"trait\":");
                            let tn = with_no_trimmed_paths!(tr.instantiate_identity().skip_norm_wip().to_string());
                            esc(&tn, &mut o);
                        }
                    }
                }
            }
            if matches!(kind, DefKind::Closure) {
                if let Some(ck) = tcx.coroutine_kind(d) {
                    o.push_str(",\"coroutine\":");
                    let s = format!("{ck:?}");
                    esc(&s, &mut o);
                }
                o.push_str(",\"upvars\":[");
                let names = tcx.closure_saved_names_of_captured_variables(d);
                for (i, n) in names.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(&n.to_string(), &mut o);
                }
                o.push(']');
            }
            o.push(',');
            if is_const {
                let b = tcx.mir_for_ctfe(ld);
                cx.body(b, d, &mut o);
            } else {
                let st = tcx.mir_drops_elaborated_and_const_checked(ld);
                if let Some(b) = self.coroutines.get(&ld) {
                    let b: &Body<'tcx> = unsafe { std::mem::transmute::<&Body<'static>, &Body<'tcx>>(b) };
                    cx.body(b, d, &mut o);
                } else if st.is_stolen() {
                    o.push_str("\"opt\":true,");
                    let b = tcx.optimized_mir(d);
                    cx.body(b, d, &mut o);
                } else {
                    let b = st.borrow();
                    cx.body(&b, d, &mut o);
                }
            }
            let proms = tcx.promoted_mir(d);
            o.push_str(",\"prom\":[");
            for (i, pb) in proms.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('{');
                cx.body(pb, d, &mut o);
                o.push('}');
            }
            o.push_str("]}");
        }
        // local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                cx.note_adt(d);
            }
        }
        o.push_str("\n],\"adts\":{");
        let mut first = true;
        for (k, v) in &cx.adts {
            if !first {
                o.push_str(",\n");
            }
            first = false;
            esc(k, &mut o);
            o.push(':');
            o.push_str(v);
        }
        o.push_str("},\"types\":[");
        for (i, t) in cx.tys.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            esc(t, &mut o);
        }
        o.push_str("]}");
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, o).expect("facts write");
        std::fs::rename(&tmp, &self.out).expect("facts rename");
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let dir = std::env::var("VF_FACTS").unwrap_or_default();
    let wanted = std::env::var("VF_CRATES").unwrap_or_default();
    let want = !dir.is_empty() && !is_test && name != "build_script_build" && !name.is_empty() && !name.starts_with("___") && (wanted.is_empty() || wanted.split(',').any(|c| c == name));
    if !want {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let kind = if args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin") { ".bin" } else { "" };
    let mut cb = Cb { out: format!("{dir}/{name}{kind}.json"), coroutines: HashMap::new() };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
