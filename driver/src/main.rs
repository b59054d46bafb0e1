//! A rustc driver (RUSTC_WORKSPACE_WRAPPER) that type-checks a workspace crate and writes the
//! resolved program (MIR of every body, with resolved callees, constants, variable names and macro
//! provenance; statics; generic bounds) as one JSON file per crate into $VP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    krate: String,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("{}::{}", self.krate, p)
        } else {
            p
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn span(&self, s: Span) -> String {
        let mut macs = Vec::new();
        for e in s.macro_backtrace() {
            if let rustc_span::ExpnKind::Macro(_, name) = e.kind {
                macs.push(esc(name.as_str()));
            }
        }
        let root = s.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(root.lo());
        let file = format!("{}", loc.file.name.prefer_remapped_unconditionally());
        if macs.is_empty() {
            format!("\"f\":{},\"ln\":{}", esc(&file), loc.line)
        } else {
            format!("\"f\":{},\"ln\":{},\"mac\":[{}]", esc(&file), loc.line, macs.join(","))
        }
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("{{\"l\":{}", p.local.as_u32());
        if !p.projection.is_empty() {
            o.push_str(",\"pr\":[");
            for (i, e) in p.projection.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                match e {
                    ProjectionElem::Deref => o.push_str("[\"deref\"]"),
                    ProjectionElem::Field(f, t) => {
                        let base = Place::ty_from(p.local, &p.projection[..i], &body.local_decls, self.tcx);
                        let mut name = format!("{}", f.as_u32());
                        if let ty::Adt(adt, _) = base.ty.kind() {
                            let v = match base.variant_index {
                                Some(v) => v,
                                None => rustc_abi::VariantIdx::from_u32(0),
                            };
                            if !adt.is_box() {
                                if let Some(fd) = adt.variants().get(v).and_then(|v| v.fields.get(f)) {
                                    name = fd.name.to_string();
                                }
                            }
                        }
                        let _ = write!(o, "[\"field\",{},{},{},{}]", f.as_u32(), esc(&name), esc(&self.ty(t)), esc(&self.ty(base.ty)));
                    }
                    ProjectionElem::Index(l) => {
                        let _ = write!(o, "[\"index\",{}]", l.as_u32());
                    }
                    ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                        let _ = write!(o, "[\"cindex\",{},{},{}]", offset, min_length, from_end);
                    }
                    ProjectionElem::Subslice { from, to, from_end } => {
                        let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                    }
                    ProjectionElem::Downcast(n, v) => {
                        let _ = write!(
                            o,
                            "[\"down\",{},{}]",
                            v.as_u32(),
                            esc(&n.map(|s| s.to_string()).unwrap_or_default())
                        );
                    }
                    _ => o.push_str("[\"other\"]"),
                }
            }
            o.push(']');
        }
        let t = p.ty(&body.local_decls, self.tcx).ty;
        let _ = write!(o, ",\"ty\":{}}}", esc(&self.ty(t)));
        o
    }
    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("\"fn\":{}", esc(&self.path(d)));
        let gs: Vec<String> = args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| esc(&with_no_trimmed_paths!(format!("{}", a))))
            .collect();
        let _ = write!(o, ",\"ga\":[{}]", gs.join(","));
        // DefIds of closures among the generic args
        let mut cl = Vec::new();
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if let ty::Closure(cd, _) = t.kind() {
                    cl.push(esc(&self.path(*cd)));
                }
            }
        }
        if !cl.is_empty() {
            let _ = write!(o, ",\"gcl\":[{}]", cl.join(","));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
            if !args.is_empty() {
                if let Some(t) = args[0].as_type() {
                    let _ = write!(o, ",\"self\":{}", esc(&self.ty(t)));
                }
            }
        }
        let _ = write!(o, ",\"name\":{}", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()));
        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        if is_ctor {
            o.push_str(",\"ctor\":true");
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(d).skip_binder();
            if sig.safety().is_unsafe() {
                o.push_str(",\"unsafe\":true");
            }
            if tcx.is_foreign_item(d) {
                o.push_str(",\"foreign\":true");
            }
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = inst.def_id();
                if rd != d || matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                    let _ = write!(o, ",\"res\":{}", esc(&self.path(rd)));
                }
                if matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                    o.push_str(",\"virtual\":true");
                }
            }
        }
        let _ = write!(o, ",\"local\":{}", d.is_local());
        o
    }
    fn alloc_bytes(&self, prov: rustc_middle::mir::interpret::CtfeProvenance, off: u64, len: Option<u64>) -> Option<String> {
        match self.tcx.global_alloc(prov.alloc_id()) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let total = a.size().bytes();
                let len = len.unwrap_or(total.saturating_sub(off));
                if off + len > total || len > 1 << 16 {
                    return None;
                }
                // an allocation holding pointers (e.g. &[&str]) : report the targets
                if !a.provenance().ptrs().is_empty() {
                    let mut parts = Vec::new();
                    for (o, p) in a.provenance().ptrs().iter() {
                        if o.bytes() >= off && o.bytes() < off + len {
                            // length word follows, when this is a fat pointer
                            let mut l = None;
                            if o.bytes() + 16 <= total {
                                if let Ok(Scalar::Int(i)) = a.read_scalar(
                                    &self.tcx,
                                    AllocRange { start: *o + rustc_abi::Size::from_bytes(8), size: rustc_abi::Size::from_bytes(8) },
                                    false,
                                ) {
                                    l = Some(i.to_bits(i.size()) as u64);
                                }
                            }
                            let base = a
                                .read_scalar(&self.tcx, AllocRange { start: *o, size: rustc_abi::Size::from_bytes(8) }, true)
                                .ok();
                            let mut toff = 0;
                            if let Some(Scalar::Ptr(p2, _)) = base {
                                toff = p2.into_raw_parts().1.bytes();
                            }
                            if let Some(s) = self.alloc_bytes(*p, toff, l) {
                                parts.push(s);
                            } else {
                                parts.push("null".into());
                            }
                        }
                    }
                    return Some(format!("{{\"ptrs\":[{}]}}", parts.join(",")));
                }
                let bs = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                let v: Vec<String> = bs.iter().map(|b| b.to_string()).collect();
                Some(format!("{{\"bytes\":[{}]}}", v.join(",")))
            }
            GlobalAlloc::Static(d) => {
                let mut s = format!("{{\"static\":{}", esc(&self.path(d)));
                if let Ok(a) = self.tcx.eval_static_initializer(d) {
                    let id = self.tcx.reserve_and_set_memory_alloc(a);
                    if let Some(b) = self.alloc_bytes(rustc_middle::mir::interpret::CtfeProvenance::from(id), 0, None) {
                        let _ = write!(s, ",\"init\":{}", b);
                    }
                }
                let m = self.tcx.is_mutable_static(d);
                let _ = write!(s, ",\"mut\":{}}}", m);
                Some(s)
            }
            GlobalAlloc::Function { instance } => Some(format!("{{\"fnptr\":{}}}", esc(&self.path(instance.def_id())))),
            _ => None,
        }
    }
    fn konst(&self, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = format!("{{\"k\":\"const\",\"ty\":{}", esc(&self.ty(t)));
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let _ = write!(o, ",{}", self.fnref(*d, args));
            }
            _ => {
                if let Const::Unevaluated(u, _) = c {
                    let _ = write!(o, ",\"uneval\":{}", esc(&self.path(u.def)));
                    if let Some(p) = u.promoted {
                        let _ = write!(o, ",\"promoted\":{}", p.as_u32());
                    }
                }
                let val = match c {
                    Const::Val(v, _) => Some(*v),
                    _ => c.eval(tcx, self.env, rustc_span::DUMMY_SP).ok(),
                };
                if let Some(v) = val {
                    match v {
                        ConstValue::Scalar(Scalar::Int(i)) => {
                            let bits = i.to_bits(i.size());
                            if let ty::Int(_) = t.kind() {
                                let sz = i.size().bits();
                                let mut x = bits as i128;
                                if sz < 128 && (bits >> (sz - 1)) & 1 == 1 {
                                    x -= 1i128 << sz;
                                }
                                let _ = write!(o, ",\"v\":{}", x);
                            } else {
                                let _ = write!(o, ",\"v\":{}", bits);
                            }
                        }
                        ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                            let (prov, off) = p.into_raw_parts();
                            if let Some(s) = self.alloc_bytes(prov, off.bytes(), None) {
                                let _ = write!(o, ",\"mem\":{}", s);
                            }
                        }
                        ConstValue::Slice { alloc_id, meta } => {
                            let elem_is_byte = matches!(t.kind(), ty::Ref(_, inner, _) if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8));
                            let len = if elem_is_byte { Some(meta) } else { None };
                            if let Some(s) = self.alloc_bytes(rustc_middle::mir::interpret::CtfeProvenance::from(alloc_id), 0, len) {
                                let _ = write!(o, ",\"mem\":{}", s);
                            }
                        }
                        ConstValue::Indirect { alloc_id, offset } => {
                            if let Some(s) = self.alloc_bytes(
                                rustc_middle::mir::interpret::CtfeProvenance::from(alloc_id),
                                offset.bytes(),
                                None,
                            ) {
                                let _ = write!(o, ",\"mem\":{}", s);
                            }
                        }
                        ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                    }
                }
                let _ = write!(o, ",\"s\":{}", esc(&with_no_trimmed_paths!(format!("{}", c))));
            }
        }
        o.push('}');
        o
    }
    fn op(&self, body: &Body<'tcx>, p: &Operand<'tcx>) -> String {
        match p {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("{{\"k\":\"const\",\"ty\":\"bool\",\"rt\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn rv(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":[{}]}}", self.op(body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"repeat\",\"o\":[{}],\"n\":{}}}", self.op(body, o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                format!("{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(body, p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}", m.is_mut(), self.place(body, p))
            }
            Rvalue::RawPtr(k, p) => {
                format!("{{\"k\":\"rawptr\",\"kind\":{},\"p\":{}}}", esc(&format!("{:?}", k)), self.place(body, p))
            }
            Rvalue::Cast(k, o, t) => {
                format!("{{\"k\":\"cast\",\"ck\":{},\"o\":[{}],\"ty\":{}}}", esc(&format!("{:?}", k)), self.op(body, o), esc(&self.ty(*t)))
            }
            Rvalue::BinaryOp(b, x) => {
                format!("{{\"k\":\"bin\",\"op\":{},\"o\":[{},{}]}}", esc(&format!("{:?}", b)), self.op(body, &x.0), self.op(body, &x.1))
            }
            Rvalue::UnaryOp(u, o) => format!("{{\"k\":\"un\",\"op\":{},\"o\":[{}]}}", esc(&format!("{:?}", u)), self.op(body, o)),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(body, p)),
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"o\":[{{\"k\":\"copy\",\"p\":{}}}]}}", self.place(body, p))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(body, o)).collect();
                let mut extra = String::new();
                let kind = match &**k {
                    AggregateKind::Array(_) => "array".to_string(),
                    AggregateKind::Tuple => "tuple".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let fs: Vec<String> = var.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        let _ = write!(
                            extra,
                            ",\"adt\":{},\"vi\":{},\"vn\":{},\"fs\":[{}]",
                            esc(&self.path(*d)),
                            v.as_u32(),
                            esc(var.name.as_str()),
                            fs.join(",")
                        );
                        "adt".to_string()
                    }
                    AggregateKind::Closure(d, _) => {
                        let _ = write!(extra, ",\"fn\":{}", esc(&self.path(*d)));
                        "closure".to_string()
                    }
                    AggregateKind::RawPtr(..) => "rawptr".to_string(),
                    _ => "other".to_string(),
                };
                format!("{{\"k\":\"agg\",\"ak\":{},\"o\":[{}]{}}}", esc(&kind), os.join(","), extra)
            }
            Rvalue::ThreadLocalRef(d) => format!("{{\"k\":\"tls\",\"d\":{}}}", esc(&self.path(*d))),
            _ => "{\"k\":\"other\"}".to_string(),
        }
    }
    fn body(&self, did: LocalDefId, body: &Body<'tcx>, extra: &str) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let d = did.to_def_id();
        let _ = write!(o, "{{\"id\":{},\"kind\":{}", esc(&self.path(d)), esc(&format!("{:?}", tcx.def_kind(d))));
        let _ = write!(o, ",{}", self.span(body.span));
        o.push_str(extra);
        let _ = write!(o, ",\"argc\":{},\"locals\":[", body.arg_count);
        let mut names: Vec<Vec<String>> = vec![Vec::new(); body.local_decls.len()];
        let mut capt: Vec<String> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()].push(v.name.to_string());
                } else {
                    capt.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, &p)));
                }
            }
        }
        for (i, (_, ld)) in body.local_decls.iter_enumerated().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"ty\":{}", esc(&self.ty(ld.ty)));
            if let Some(n) = names[i].first() {
                let _ = write!(o, ",\"n\":{}", esc(n));
                let at = self.tcx.sess.source_map().lookup_char_pos(ld.source_info.span.source_callsite().lo());
                let _ = write!(o, ",\"at\":\"{}:{}\"", at.line, at.col.0);
                let mac = ld.source_info.span.from_expansion();
                if mac {
                    o.push_str(",\"nm\":true");
                }
            }
            if ld.mutability.is_mut() {
                o.push_str(",\"m\":true");
            }
            o.push('}');
        }
        let _ = write!(o, "],\"capt\":[{}]", capt.join(","));
        // number of local-defined type params & bounds
        let mut bounds = Vec::new();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let preds = tcx.clauses_of(d).instantiate_identity(tcx);
            for p in preds.clauses.iter() {
                let p = p.skip_norm_wip();
                if let ty::ClauseKind::Trait(tp) = p.kind().skip_binder() {
                    bounds.push(format!("[{},{}]", esc(&self.ty(tp.self_ty())), esc(&self.path(tp.def_id()))));
                }
            }
        }
        let _ = write!(o, ",\"bounds\":[{}]", bounds.join(","));
        o.push_str(",\"blocks\":[");
        for (i, (_, bb)) in body.basic_blocks.iter_enumerated().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cl\":{},\"st\":[", bb.is_cleanup);
            let mut first = true;
            for s in &bb.statements {
                let js = match &s.kind {
                    StatementKind::Assign(b) => {
                        format!("{{\"k\":\"=\",\"p\":{},\"r\":{},{}}}", self.place(body, &b.0), self.rv(body, &b.1), self.span(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("{{\"k\":\"setd\",\"p\":{},\"v\":{},{}}}", self.place(body, place), variant_index.as_u32(), self.span(s.source_info.span))
                    }
                    StatementKind::StorageDead(l) => format!("{{\"k\":\"dead\",\"l\":{}}}", l.as_u32()),
                    StatementKind::StorageLive(l) => format!("{{\"k\":\"live\",\"l\":{}}}", l.as_u32()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&js);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let un = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => format!("{}", b.as_u32()),
                _ => "null".to_string(),
            };
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "{{\"k\":\"goto\",\"t\":{},{}}}", target.as_u32(), sp);
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                    let _ = write!(
                        o,
                        "{{\"k\":\"switch\",\"o\":{},\"ts\":[{}],\"ow\":{},{}}}",
                        self.op(body, discr),
                        ts.join(","),
                        targets.otherwise().as_u32(),
                        sp
                    );
                }
                TerminatorKind::Return => {
                    let _ = write!(o, "{{\"k\":\"return\",{}}}", sp);
                }
                TerminatorKind::Unreachable => {
                    let _ = write!(o, "{{\"k\":\"unreachable\",{}}}", sp);
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    let _ = write!(o, "{{\"k\":\"resume\",{}}}", sp);
                }
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let _ = write!(
                        o,
                        "{{\"k\":\"drop\",\"p\":{},\"t\":{},\"u\":{},{}}}",
                        self.place(body, place),
                        target.as_u32(),
                        un(unwind),
                        sp
                    );
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(body, &x.node)).collect();
                    let tg = target.map(|b| b.as_u32().to_string()).unwrap_or("null".into());
                    let _ = write!(
                        o,
                        "{{\"k\":\"call\",\"fun\":{},\"a\":[{}],\"d\":{},\"t\":{},\"u\":{},{}}}",
                        self.op(body, func),
                        a.join(","),
                        self.place(body, destination),
                        tg,
                        un(unwind),
                        sp
                    );
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (mk, mo): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    let mos: Vec<String> = mo.iter().map(|x| self.op(body, x)).collect();
                    let _ = write!(
                        o,
                        "{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"mo\":[{}],\"t\":{},\"u\":{},{}}}",
                        self.op(body, cond),
                        expected,
                        esc(&mk),
                        mos.join(","),
                        target.as_u32(),
                        un(unwind),
                        sp
                    );
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "{{\"k\":\"goto\",\"t\":{},{}}}", real_target.as_u32(), sp);
                }
                other => {
                    let _ = write!(o, "{{\"k\":\"other\",\"s\":{},{}}}", esc(&format!("{:?}", other)), sp);
                }
            }
            o.push('}');
        }
        o.push_str("]}");
        o
    }
}

/// the blocks marked unsafe by the programmer, outside of code that macros of other crates generate
struct Unsafe<'a, 'tcx>(&'a Cx<'tcx>, Vec<String>);
impl<'v, 'a, 'tcx> rustc_hir::intravisit::Visitor<'v> for Unsafe<'a, 'tcx> {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let foreign = b.span.ctxt().outer_expn_data().macro_def_id.is_some_and(|m| !m.is_local());
            if !foreign {
                let sm = self.0.tcx.sess.source_map();
                let lo = sm.lookup_char_pos(b.span.lo());
                let hi = sm.lookup_char_pos(b.span.hi());
                self.1.push(format!("[{},{}]", lo.line, hi.line));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let Ok(out) = std::env::var("VP_OUT") else {
            return rustc_driver::Compilation::Continue;
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if krate == "build_script_build" {
            return rustc_driver::Compilation::Continue;
        }
        let is_lib = !tcx.crate_types().iter().any(|t| *t == rustc_structures::CrateType::Executable);
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"crate\":{},\"lib\":{},\"debug_assertions\":{},\"fns\":[",
            esc(&krate),
            is_lib,
            tcx.sess.opts.debug_assertions
        );
        let mut first = true;
        let mut statics = Vec::new();
        for &did in tcx.mir_keys(()).iter() {
            let d = did.to_def_id();
            let kind = tcx.def_kind(d);
            let cx = Cx { tcx, env: ty::TypingEnv::post_analysis(tcx, d), krate: krate.clone() };
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let body = tcx.optimized_mir(d);
                    let mut extra = String::new();
                    if kind != DefKind::Closure {
                        let _ = write!(extra, ",\"pub\":{}", tcx.visibility(d).is_public());
                        let sig = tcx.fn_sig(d).skip_binder();
                        let _ = write!(extra, ",\"unsafe\":{}", sig.safety().is_unsafe());
                        if let Some(im) = tcx.impl_of_assoc(d) {
                            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                                let tr = tr.instantiate_identity().skip_norm_wip();
                                let _ = write!(
                                    extra,
                                    ",\"impl_trait\":{},\"impl_self\":{}",
                                    esc(&cx.path(tr.def_id)),
                                    esc(&cx.ty(tr.self_ty()))
                                );
                            }
                        }
                    } else {
                        let _ = write!(extra, ",\"parent\":{}", esc(&cx.path(tcx.typeck_root_def_id(d))));
                    }
                    if let Some(hb) = tcx.hir_maybe_body_owned_by(did) {
                        let mut v = Unsafe(&cx, Vec::new());
                        rustc_hir::intravisit::Visitor::visit_expr(&mut v, hb.value);
                        let _ = write!(extra, ",\"ub\":[{}]", v.1.join(","));
                    }
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&cx.body(did, body, &extra));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push(format!(
                        "{{\"id\":{},\"ty\":{},\"mut\":{},\"freeze\":{},{}}}",
                        esc(&cx.path(d)),
                        esc(&cx.ty(t)),
                        tcx.is_mutable_static(d),
                        t.is_freeze(tcx, cx.env),
                        cx.span(tcx.def_span(d))
                    ));
                }
                _ => {}
            }
        }
        // types with the types of their fields, implementations marked unsafe
        let mut adts = Vec::new();
        let mut uimpls = Vec::new();
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            let cx = Cx { tcx, env: ty::TypingEnv::post_analysis(tcx, d), krate: krate.clone() };
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let fs: Vec<String> = tcx
                        .adt_def(d)
                        .all_fields()
                        .map(|f| esc(&cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())))
                        .collect();
                    adts.push(format!("{{\"id\":{},\"fs\":[{}],{}}}", esc(&cx.path(d)), fs.join(","), cx.span(tcx.def_span(d))));
                }
                DefKind::Impl { of_trait: true } => {
                    if tcx.impl_trait_header(d).safety.is_unsafe() {
                        uimpls.push(format!("{{\"id\":{},{}}}", esc(&cx.path(d)), cx.span(tcx.def_span(d))));
                    }
                }
                _ => {}
            }
        }
        let _ = write!(
            o,
            "],\"statics\":[{}],\"adts\":[{}],\"unsafe_impls\":[{}]}}\n",
            statics.join(","),
            adts.join(","),
            uimpls.join(",")
        );
        let name = format!("{}/{}.{}.json", out, krate, if is_lib { "lib" } else { "bin" });
        std::fs::write(&name, o).expect("write dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if std::env::var("VP_OUT").is_ok() && args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=no".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
