// MIR dumper: runs as rustc on the probe crate and writes, as JSON, the
// monomorphised MIR of every function of the hpl_* crates, of the closures in
// them, and of the dependency functions named in the follow list.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::HashMap;
use std::collections::HashSet;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

struct Cx {
    types: HashMap<Ty, usize>,
    tyq: VecDeque<Ty>,
    tyout: Vec<String>,
    insts: HashMap<Instance, usize>,
    instq: VecDeque<Instance>,
    follow: Vec<String>,
    nofollow: Vec<String>,
    crates: Vec<String>,
    modelled: HashSet<String>,
}

fn args_have_param(args: &GenericArgs) -> bool {
    args.0.iter().any(|a| match a {
        GenericArgKind::Type(t) => matches!(t.kind(), TyKind::Param(_)),
        GenericArgKind::Const(c) => matches!(c.kind(), TyConstKind::Param(_)),
        _ => false,
    })
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.insert(t, i);
        self.tyq.push_back(t);
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|x| match x {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => "{\"c\":null}".into(),
                }),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn want(&self, inst: &Instance, called: &str) -> bool {
        let krate = inst.def.krate().name;
        let name = inst.def.name();
        for n in &self.nofollow {
            if name.contains(n.as_str()) {
                return false;
            }
        }
        if krate.starts_with("hpl_") {
            return true;
        }
        if self.follow.iter().any(|f| name.starts_with(f.as_str()) || inst.name().starts_with(f.as_str())) {
            return true;
        }
        // "@crate": everything of the crate, but for the functions that have a model ("=name")
        self.crates.contains(&krate) && !self.modelled.contains(&name) && !self.modelled.contains(called)
    }
    fn inst(&mut self, i: Instance, called: &str) -> String {
        // -> "null" or id
        if matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) && self.want(&i, called) && (i.kind == InstanceKind::Shim || i.has_body()) {
            if let Some(id) = self.insts.get(&i) {
                return id.to_string();
            }
            let id = self.insts.len();
            self.insts.insert(i, id);
            self.instq.push_back(i);
            return id.to_string();
        }
        "null".into()
    }
    fn fnref(&mut self, def: FnDef, args: &GenericArgs) -> String {
        let mut o = format!("{{\"def\":{},\"ga\":{}", js(&def.name()), self.gargs(args));
        let _ = write!(o, ",\"crate\":{}", js(&def.krate().name));
        match Instance::resolve(def, args) {
            Ok(i) => {
                let id = self.inst(i, &def.name());
                let _ = write!(
                    o,
                    ",\"rdef\":{},\"rga\":{},\"rk\":{},\"id\":{},\"rcrate\":{}",
                    js(&i.def.name()),
                    self.gargs(&i.args()),
                    js(match i.kind {
                        InstanceKind::Item => "item",
                        InstanceKind::Intrinsic => "intrinsic",
                        InstanceKind::LlvmIntrinsic => "llvm",
                        InstanceKind::Virtual { .. } => "virtual",
                        InstanceKind::Shim => "shim",
                    }),
                    id,
                    js(&i.def.krate().name)
                );
            }
            Err(_) => {
                o.push_str(",\"rdef\":null,\"id\":null");
            }
        }
        o.push('}');
        o
    }
    fn emit_ty(&mut self, t: Ty) -> String {
        let k = t.kind();
        match k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".into(),
                RigidTy::Char => "{\"k\":\"char\"}".into(),
                RigidTy::Int(i) => format!(
                    "{{\"k\":\"int\",\"bits\":{},\"signed\":true,\"size\":{}}}",
                    i.num_bytes() * 8,
                    matches!(i, IntTy::Isize)
                ),
                RigidTy::Uint(i) => format!(
                    "{{\"k\":\"int\",\"bits\":{},\"signed\":false,\"size\":{}}}",
                    i.num_bytes() * 8,
                    matches!(i, UintTy::Usize)
                ),
                RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Array(e, n) => format!(
                    "{{\"k\":\"array\",\"e\":{},\"n\":{}}}",
                    self.ty(e),
                    n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                ),
                RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
                RigidTy::Ref(_, e, m) => {
                    format!("{{\"k\":\"ref\",\"e\":{},\"mut\":{}}}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::RawPtr(e, m) => {
                    format!("{{\"k\":\"ptr\",\"e\":{},\"mut\":{}}}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"e\":[{}]}}", v.join(","))
                }
                RigidTy::FnDef(d, a) => format!("{{\"k\":\"fndef\",\"f\":{}}}", self.fnref(d, &a)),
                RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
                RigidTy::Closure(d, a) => {
                    let n = a.0.len();
                    let kind = match a.0[n - 3].ty().map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Int(IntTy::I8))) => ClosureKind::Fn,
                        Some(TyKind::RigidTy(RigidTy::Int(IntTy::I16))) => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    };
                    let ups = self.ty(*a.0[n - 1].ty().unwrap());
                    let id = match Instance::resolve_closure(d, &a, kind.clone()) {
                        Ok(i) => self.inst(i, ""),
                        Err(_) => "null".into(),
                    };
                    format!(
                        "{{\"k\":\"closure\",\"name\":{},\"ck\":{},\"ups\":{},\"id\":{}}}",
                        js(&d.name()),
                        js(&format!("{:?}", kind)),
                        ups,
                        id
                    )
                }
                RigidTy::Dynamic(preds, _) => {
                    let mut n = String::new();
                    for p in preds {
                        if let ExistentialPredicate::Trait(tr) = p.value {
                            n = tr.def_id.name();
                        }
                    }
                    format!("{{\"k\":\"dyn\",\"name\":{}}}", js(&n))
                }
                RigidTy::Adt(d, a) => {
                    let name = d.name();
                    let krate = d.krate().name;
                    let ga = self.gargs(&a);
                    let isstd = krate == "std" || krate == "core" || krate == "alloc" || krate == "hashbrown";
                    let expand = !isstd
                        || [
                            "std::option::Option",
                            "std::result::Result",
                            "std::ops::Range",
                            "std::ops::RangeInclusive",
                            "std::ops::RangeFrom",
                            "std::ops::RangeTo",
                            "std::ops::RangeToInclusive",
                            "std::ops::RangeFull",
                            "std::ops::ControlFlow",
                            "std::ops::Bound",
                            "std::cmp::Ordering",
                            "std::borrow::Cow",
                            "std::convert::Infallible",
                            "std::cmp::Reverse",
                            "std::marker::PhantomData",
                        ]
                        .contains(&name.as_str());
                    let mut o = format!(
                        "{{\"k\":\"adt\",\"name\":{},\"crate\":{},\"ga\":{},\"enum\":{},\"s\":{}",
                        js(&name),
                        js(&krate),
                        ga,
                        d.kind().is_enum(),
                        js(&format!("{}", t))
                    );
                    if expand && !d.kind().is_union() {
                        o.push_str(",\"v\":[");
                        for (i, v) in d.variants().iter().enumerate() {
                            if i > 0 {
                                o.push(',');
                            }
                            let discr = if d.kind().is_enum() {
                                d.discriminant_for_variant(v.idx()).val.to_string()
                            } else {
                                "0".into()
                            };
                            let fs: Vec<String> = v
                                .fields()
                                .iter()
                                .map(|f| format!("[{},{}]", js(&f.name), self.ty(f.ty_with_args(&a))))
                                .collect();
                            let _ = write!(
                                o,
                                "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                                js(&v.name()),
                                discr,
                                fs.join(",")
                            );
                        }
                        o.push(']');
                    }
                    o.push('}');
                    o
                }
                other => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
            },
            other => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
        }
    }

    // ---- constants ----
    fn read_uint(al: &Allocation, off: usize, n: usize) -> Option<u128> {
        if n == 0 {
            return Some(0);
        }
        al.read_partial_uint(off..off + n).ok()
    }
    fn prov_at(al: &Allocation, off: usize) -> Option<Prov> {
        al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.clone())
    }
    fn ptr_target(&mut self, al: &Allocation, off: usize, pointee: Ty, depth: usize) -> String {
        let Some(p) = Self::prov_at(al, off) else {
            // dangling / integer pointer: ok for ZST pointee or empty slices
            let meta = match pointee.kind() {
                TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) => {
                    Self::read_uint(al, off + 8, 8).unwrap_or(0)
                }
                _ => 0,
            };
            return match pointee.kind() {
                TyKind::RigidTy(RigidTy::Str) if meta == 0 => "{\"bytes\":\"\"}".into(),
                TyKind::RigidTy(RigidTy::Slice(_)) if meta == 0 => "{\"arr\":[]}".into(),
                _ => {
                    if let Ok(l) = pointee.layout() {
                        if l.shape().size.bytes() == 0 {
                            let empty = Allocation {
                                bytes: vec![],
                                provenance: ProvenanceMap { ptrs: vec![] },
                                align: 1,
                                mutability: Mutability::Not,
                            };
                            return self.cval(&empty, 0, pointee, depth + 1);
                        }
                    }
                    "{\"unk\":\"noprov\"}".into()
                }
            };
        };
        let addend = Self::read_uint(al, off, 8).unwrap_or(0) as usize;
        match GlobalAlloc::from(p.0) {
            GlobalAlloc::Memory(m) => match pointee.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let len = Self::read_uint(al, off + 8, 8).unwrap_or(0) as usize;
                    let b: Vec<u8> = m.bytes[addend..addend + len].iter().map(|x| x.unwrap_or(0)).collect();
                    format!("{{\"bytes\":\"{}\"}}", hex(&b))
                }
                TyKind::RigidTy(RigidTy::Slice(e)) => {
                    let len = Self::read_uint(al, off + 8, 8).unwrap_or(0) as usize;
                    self.carr(&m, addend, e, len, depth + 1)
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => "{\"unk\":\"dyn\"}".into(),
                _ => self.cval(&m, addend, pointee, depth + 1),
            },
            GlobalAlloc::Function(i) => {
                let id = self.inst(i, "");
                format!("{{\"fnptr\":{},\"id\":{}}}", js(&i.def.name()), id)
            }
            GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", js(&s.name())),
            _ => "{\"unk\":\"galloc\"}".into(),
        }
    }
    fn carr(&mut self, al: &Allocation, off: usize, e: Ty, n: usize, depth: usize) -> String {
        if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = e.kind() {
            let b: Vec<u8> = al.bytes[off..off + n].iter().map(|x| x.unwrap_or(0)).collect();
            return format!("{{\"bytes\":\"{}\"}}", hex(&b));
        }
        let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
        let v: Vec<String> = (0..n).map(|i| self.cval(al, off + i * sz, e, depth + 1)).collect();
        format!("{{\"arr\":[{}]}}", v.join(","))
    }
    fn cval(&mut self, al: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 24 {
            return "{\"unk\":\"depth\"}".into();
        }
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match Self::read_uint(al, off, 1) {
                    Some(x) => format!("{{\"b\":{}}}", x != 0),
                    None => "{\"unk\":\"u\"}".into(),
                },
                RigidTy::Char => match Self::read_uint(al, off, 4) {
                    Some(x) => format!("{{\"i\":\"{}\"}}", x),
                    None => "{\"unk\":\"u\"}".into(),
                },
                RigidTy::Int(i) => {
                    let n = i.num_bytes();
                    match Self::read_uint(al, off, n) {
                        Some(x) => {
                            let sh = 128 - 8 * n as u32;
                            let v = ((x << sh) as i128) >> sh;
                            format!("{{\"i\":\"{}\"}}", v)
                        }
                        None => "{\"unk\":\"u\"}".into(),
                    }
                }
                RigidTy::Uint(i) => match Self::read_uint(al, off, i.num_bytes()) {
                    Some(x) => format!("{{\"i\":\"{}\"}}", x),
                    None => "{\"unk\":\"u\"}".into(),
                },
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    self.carr(al, off, e, n, depth + 1)
                }
                RigidTy::Tuple(ts) => {
                    if ts.is_empty() {
                        return "{\"f\":[]}".into();
                    }
                    let Ok(l) = t.layout() else { return "{\"unk\":\"layout\"}".into() };
                    let FieldsShape::Arbitrary { offsets } = l.shape().fields else {
                        return "{\"unk\":\"shape\"}".into();
                    };
                    let v: Vec<String> = ts
                        .iter()
                        .enumerate()
                        .map(|(i, x)| self.cval(al, off + offsets[i].bytes(), *x, depth + 1))
                        .collect();
                    format!("{{\"f\":[{}]}}", v.join(","))
                }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let s = self.ptr_target(al, off, e, depth);
                    format!("{{\"ref\":{}}}", s)
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"zst\":1}".into(),
                RigidTy::FnPtr(_) => self.ptr_target(al, off, t, depth),
                RigidTy::Adt(d, a) => {
                    let Ok(l) = t.layout() else { return "{\"unk\":\"layout\"}".into() };
                    let sh = l.shape();
                    if d.kind().is_union() {
                        return "{\"unk\":\"union\"}".into();
                    }
                    let vs = d.variants();
                    let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                        VariantsShape::Empty => return "{\"unk\":\"empty\"}".into(),
                        VariantsShape::Single { index } => {
                            let offs = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                                _ => vec![],
                            };
                            (index.to_index(), offs)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let (prim, _) = match tag {
                                rustc_public::abi::Scalar::Initialized { value, valid_range } => {
                                    (value.clone(), valid_range.clone())
                                }
                                rustc_public::abi::Scalar::Union { value } => {
                                    (value.clone(), rustc_public::abi::WrappingRange { start: 0, end: 0 })
                                }
                            };
                            let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                            let is_ptr = Self::prov_at(al, off + toff).is_some();
                            let raw = if is_ptr { None } else { Self::read_uint(al, off + toff, tsz) };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(raw) = raw else { return "{\"unk\":\"tag\"}".into() };
                                    let mut r = None;
                                    for (i, v) in vs.iter().enumerate() {
                                        let m = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        if d.discriminant_for_variant(v.idx()).val & m == raw {
                                            r = Some(i);
                                        }
                                    }
                                    match r {
                                        Some(i) => i,
                                        None => return "{\"unk\":\"tagv\"}".into(),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    match raw {
                                        None => untagged_variant.to_index(),
                                        Some(raw) => {
                                            let m = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                            let rel = raw.wrapping_sub(*niche_start) & m;
                                            let s = niche_variants.start().to_index() as u128;
                                            let e = niche_variants.end().to_index() as u128;
                                            if rel <= e - s {
                                                (s + rel) as usize
                                            } else {
                                                untagged_variant.to_index()
                                            }
                                        }
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                        }
                    };
                    let fs = vs[vi].fields();
                    let mut out = vec![];
                    for (i, f) in fs.iter().enumerate() {
                        let fo = offs.get(i).copied().unwrap_or(0);
                        out.push(self.cval(al, off + fo, f.ty_with_args(&a), depth + 1));
                    }
                    format!("{{\"v\":{},\"f\":[{}]}}", vi, out.join(","))
                }
                _ => "{\"unk\":\"ty\"}".into(),
            },
            _ => "{\"unk\":\"ty\"}".into(),
        }
    }
    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            let f = self.fnref(d, &a);
            return format!("{{\"t\":{},\"fn\":{}}}", tid, f);
        }
        let v = match c.const_.kind() {
            ConstantKind::Allocated(al) => self.cval(al, 0, t, 0),
            ConstantKind::ZeroSized => {
                let al = Allocation {
                    bytes: vec![],
                    provenance: ProvenanceMap { ptrs: vec![] },
                    align: 1,
                    mutability: Mutability::Not,
                };
                self.cval(&al, 0, t, 0)
            }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"i\":\"{}\"}}", n),
                Err(_) => "{\"unk\":\"tyconst\"}".into(),
            },
            k => format!("{{\"unk\":{}}}", js(&format!("{:?}", k))),
        };
        format!("{{\"t\":{},\"val\":{}}}", tid, v)
    }

    // ---- bodies ----
    fn place(&mut self, p: &Place) -> String {
        let v: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            })
            .collect();
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn operands(&mut self, o: &[Operand]) -> String {
        let v: Vec<String> = o.iter().map(|x| self.operand(x)).collect();
        format!("[{}]", v.join(","))
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = self.operands(ops);
                match k {
                    AggregateKind::Array(t) => format!("[\"arr\",{},{}]", self.ty(*t), ops),
                    AggregateKind::Tuple => format!("[\"tup\",{}]", ops),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            self.ty(t),
                            v.to_index(),
                            ops,
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"clo\",{},{}]", self.ty(t), ops)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{},{}]", self.ty(*t), ops),
                    _ => "[\"unk\",\"coroutine\"]".into(),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y))
            }
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!(
                "[\"ref\",{},{}]",
                matches!(b, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::Repeat(o, c) => format!(
                "[\"rep\",{},{}]",
                self.operand(o),
                c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(_) => "[\"unk\",\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p)),
        }
    }
    fn line(&self, s: Span) -> String {
        s.get_lines().start_line.to_string()
    }
    fn body(&mut self, id: usize, i: Instance) -> Option<String> {
        let b = i.body()?;
        let mut o = format!(
            "{{\"id\":{},\"def\":{},\"inst\":{},\"crate\":{},\"ga\":{},\"file\":{},\"line\":{},\"shim\":{},\"argc\":{},\"spread\":{},\"locals\":[",
            id,
            js(&i.def.name()),
            js(&i.name()),
            js(&i.def.krate().name),
            self.gargs(&i.args()),
            js(&b.span.get_filename()),
            self.line(b.span),
            i.kind == InstanceKind::Shim,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into())
        );
        let ls: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        o.push_str(&ls.join(","));
        o.push_str("],\"names\":{");
        let mut first = true;
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(o, "{}:{}", js(&format!("{}", l)), js(&v.name));
            }
        }
        o.push_str("},\"blocks\":[");
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let mut st: Vec<String> = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p);
                        let rs = self.rvalue(r);
                        st.push(format!("[\"=\",{},{}]", ps, rs));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    StatementKind::Intrinsic(n) => match n {
                        NonDivergingIntrinsic::Assume(op) => {
                            st.push(format!("[\"assume\",{}]", self.operand(op)))
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => st.push("[\"unk\",\"copyno\"]".into()),
                    },
                    _ => {}
                }
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!("[\"switch\",{},[{}],{}]", self.operand(discr), v.join(","), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        self.operand(func),
                        self.operands(args),
                        self.place(destination),
                        target.map(|x| x.to_string()).unwrap_or("null".into()),
                        self.line(bb.terminator.source_info.span)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(40).collect();
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        js(&m),
                        target,
                        self.line(bb.terminator.source_info.span)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"unk\",\"asm\"]".into(),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{}}}", st.join(","), t);
        }
        o.push_str("]}");
        Some(o)
    }
}

fn analyze() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let follow: Vec<String> = std::fs::read_to_string(std::env::var("MIRDUMP_FOLLOW").unwrap())
        .unwrap()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let nofollow = follow.iter().filter(|l| l.starts_with('!')).map(|l| l[1..].to_string()).collect();
    let modelled = follow.iter().filter(|l| l.starts_with('=')).map(|l| l[1..].to_string()).collect();
    let crates = follow.iter().filter(|l| l.starts_with('@')).map(|l| l[1..].to_string()).collect();
    let follow = follow.into_iter().filter(|l| !l.starts_with('!') && !l.starts_with('@') && !l.starts_with('=')).collect();
    let mut cx = Cx {
        types: HashMap::new(),
        tyq: VecDeque::new(),
        tyout: vec![],
        insts: HashMap::new(),
        instq: VecDeque::new(),
        follow,
        nofollow,
        crates,
        modelled,
    };
    let mut roots = vec![];
    let mut crates: Vec<Crate> = external_crates().into_iter().filter(|c| c.name.starts_with("hpl_")).collect();
    crates.sort_by(|a, b| a.name.cmp(&b.name));
    crates.dedup_by(|a, b| a.name == b.name);
    for k in &crates {
        for f in k.fn_defs() {
            let TyKind::RigidTy(RigidTy::FnDef(d, args)) = f.ty().kind() else { continue };
            if args_have_param(&args) || !d.has_body() {
                continue;
            }
            let n = d.name();
            if n.contains("serde::") || n.contains("schemars::") || n.contains("_::<impl") || n.contains("fmt::Debug") || n.contains("prost::")
            {
                continue;
            }
            if let Ok(i) = Instance::resolve(d, &args) {
                let id = cx.inst(i, "");
                if id != "null" {
                    roots.push(id);
                }
            }
        }
    }
    let mut bodies: Vec<String> = vec![];
    loop {
        if let Some(i) = cx.instq.pop_front() {
            let id = cx.insts[&i];
            if let Some(b) = cx.body(id, i) {
                bodies.push(b);
            }
        } else if let Some(t) = cx.tyq.pop_front() {
            let s = cx.emit_ty(t);
            cx.tyout.push(s);
        } else {
            break;
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    write!(
        f,
        "{{\"crates\":[{}],\n\"roots\":[{}],\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n]}}\n",
        crates.iter().map(|c| js(&c.name)).collect::<Vec<_>>().join(","),
        roots.join(","),
        cx.tyout.join(",\n"),
        bodies.join(",\n")
    )
    .unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // invoked as a rustc wrapper: argv[1] is the path of rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_probe = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "hplprobe");
    if !is_probe {
        let st = std::process::Command::new("rustc").args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run_driver!(&args, analyze);
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
