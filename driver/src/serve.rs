use crate::json::{self, i, s, J};
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::DefId;
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::unix::net::UnixListener;

pub struct Srv<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<Ty>,
    ty_ids: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    inst_ids: HashMap<Instance, usize>,
    statics: Vec<StaticDef>,
    static_ids: HashMap<StaticDef, usize>,
    traits: HashMap<String, (TraitDef, HashMap<String, FnDef>)>,
    roots: HashMap<String, Instance>,
}

fn read_uint(b: &[Option<u8>]) -> Option<u128> {
    let mut r: u128 = 0;
    for (k, x) in b.iter().enumerate() {
        r |= ((*x)? as u128) << (8 * k);
    }
    Some(r)
}
fn sext(v: u128, bytes: usize) -> i128 {
    let sh = 128 - 8 * bytes as u32;
    ((v << sh) as i128) >> sh
}
fn hex(b: &[u8]) -> String {
    let mut o = String::with_capacity(b.len() * 2);
    for x in b {
        o.push_str(&format!("{:02x}", x));
    }
    o
}

impl<'tcx> Srv<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(x) = self.ty_ids.get(&t) {
            return *x;
        }
        let n = self.tys.len();
        self.tys.push(t);
        self.ty_ids.insert(t, n);
        n
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(x) = self.inst_ids.get(&t) {
            return *x;
        }
        let n = self.insts.len();
        self.insts.push(t);
        self.inst_ids.insert(t, n);
        n
    }
    fn stat(&mut self, t: StaticDef) -> usize {
        if let Some(x) = self.static_ids.get(&t) {
            return *x;
        }
        let n = self.statics.len();
        self.statics.push(t);
        self.static_ids.insert(t, n);
        n
    }
    fn path(&self, d: DefId) -> String {
        let id = rustc_internal::internal(self.tcx, d);
        rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(id))
        ))
    }
    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(J::I(self.ty(*t) as i128)),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => v.push(J::O(vec![("c", J::I(n as i128))])),
                    Err(_) => v.push(J::O(vec![("cs", s(format!("{:?}", c.kind())))])),
                },
            }
        }
        J::A(v)
    }

    fn inst_info(&mut self, n: usize) -> J {
        let inst = self.insts[n];
        let did = inst.def.def_id();
        let mut o: Vec<(&'static str, J)> = vec![("id", i(n))];
        o.push(("path", s(self.path(did))));
        o.push(("full", s(inst.name())));
        let a = inst.args();
        o.push(("args", self.args(&a)));
        let k = match inst.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        o.push(("kind", s(k)));
        if let InstanceKind::Virtual { idx } = inst.kind {
            o.push(("vidx", i(idx)));
        }
        if let Some(nm) = inst.intrinsic_name() {
            o.push(("intrinsic", s(nm)));
        }
        o.push(("crate", s(self.krate(did))));
        o.push(("has_body", J::B(inst.has_body())));
        let id = rustc_internal::internal(self.tcx, did);
        if let Some(ai) = self.tcx.opt_associated_item(id) {
            if let Some(tid) = ai.trait_item_def_id() {
                let sd: DefId = rustc_internal::stable(tid);
                o.push(("titem", s(self.path(sd))));
            }
            // the arguments of the trait's item, of which this function is the implementation
            let par = self.tcx.parent(id);
            if matches!(self.tcx.def_kind(par), rustc_hir::def::DefKind::Impl { of_trait: true }) {
                let ia = rustc_internal::internal(self.tcx, inst).args;
                let tr = self.tcx.impl_trait_ref(par).instantiate(self.tcx, ia).skip_norm_wip();
                let ta = ia.rebase_onto(self.tcx, par, tr.args);
                let ta = self.tcx.normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new_wip(ta));
                let sa = GenericArgs(
                    ta.iter()
                        .filter_map(|x| match x.kind() {
                            rustc_middle::ty::GenericArgKind::Type(t) => Some(GenericArgKind::Type(rustc_internal::stable(t))),
                            rustc_middle::ty::GenericArgKind::Const(c) => Some(GenericArgKind::Const(rustc_internal::stable(c))),
                            _ => None,
                        })
                        .collect(),
                );
                o.push(("targs", self.args(&sa)));
                o.push(("derived", J::B(self.tcx.is_automatically_derived(par))));
            }
        }
        if inst.kind == InstanceKind::Shim {
            o.push(("shim", s(format!("{:?}", rustc_internal::internal(self.tcx, inst).def))));
        }
        let t = inst.ty();
        o.push(("fty", i(self.ty(t))));
        J::O(o)
    }
    fn krate(&self, d: DefId) -> String {
        let id = rustc_internal::internal(self.tcx, d);
        self.tcx.crate_name(id.krate).to_string()
    }

    fn ty_info(&mut self, n: usize) -> J {
        let t = self.tys[n];
        let mut o: Vec<(&'static str, J)> = vec![("id", i(n)), ("str", s(format!("{}", rustc_internal::internal(self.tcx, t))))];
        let kind = t.kind();
        let r = match kind.rigid() {
            Some(r) => r.clone(),
            None => {
                o.push(("k", s("other")));
                return J::O(o);
            }
        };
        match r {
            RigidTy::Bool => o.push(("k", s("bool"))),
            RigidTy::Char => o.push(("k", s("char"))),
            RigidTy::Int(x) => {
                o.push(("k", s("int")));
                o.push(("bits", i(x.num_bytes() * 8)));
            }
            RigidTy::Uint(x) => {
                o.push(("k", s("uint")));
                o.push(("bits", i(x.num_bytes() * 8)));
            }
            RigidTy::Float(x) => {
                o.push(("k", s("float")));
                o.push(("bits", i(match x { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 })));
            }
            RigidTy::Adt(def, a) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.def_id()))));
                o.push(("crate", s(self.krate(def.def_id()))));
                o.push(("args", self.args(&a)));
                o.push(("adt", s(match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" })));
                o.push(("box", J::B(def.is_box())));
                let id = rustc_internal::internal(self.tcx, def.def_id());
                o.push(("drop", J::B(self.tcx.adt_destructor(id).is_some())));
                let mut vs = vec![];
                let is_enum = def.kind() == AdtKind::Enum;
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let fty = f.ty_with_args(&a);
                        fs.push(J::A(vec![s(f.name.clone()), i(self.ty(fty))]));
                    }
                    let d = if is_enum {
                        let dd = def.discriminant_for_variant(v.idx());
                        J::S(dd.val.to_string())
                    } else {
                        J::Null
                    };
                    vs.push(J::O(vec![("name", s(v.name())), ("discr", d), ("fields", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
                if is_enum {
                    if let Some(dt) = t.kind().discriminant_ty() {
                        o.push(("dty", i(self.ty(dt))));
                    }
                }
            }
            RigidTy::Str => o.push(("k", s("str"))),
            RigidTy::Array(e, c) => {
                o.push(("k", s("array")));
                o.push(("to", i(self.ty(e))));
                if let Ok(n) = c.eval_target_usize() {
                    o.push(("len", i(n as usize)));
                }
            }
            RigidTy::Slice(e) => {
                o.push(("k", s("slice")));
                o.push(("to", i(self.ty(e))));
            }
            RigidTy::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("to", i(self.ty(e))));
                o.push(("mut", J::B(m == Mutability::Mut)));
            }
            RigidTy::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("to", i(self.ty(e))));
                o.push(("mut", J::B(m == Mutability::Mut)));
            }
            RigidTy::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(d.def_id()))));
                if let Ok(inst) = Instance::resolve(d, &a) {
                    o.push(("inst", i(self.inst(inst))));
                }
            }
            RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
            RigidTy::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(d.def_id()))));
                let it = rustc_internal::internal(self.tcx, t);
                let mut up = vec![];
                if let rustc_middle::ty::TyKind::Closure(_, ca) = it.kind() {
                    for u in ca.as_closure().upvar_tys() {
                        let st: Ty = rustc_internal::stable(u);
                        up.push(i(self.ty(st)));
                    }
                    o.push(("ckind", s(format!("{:?}", ca.as_closure().kind()))));
                }
                let _ = a;
                o.push(("upvars", J::A(up)));
            }
            RigidTy::Dynamic(..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = t.kind().trait_principal() {
                    o.push(("path", s(self.path(p.value.def_id.def_id()))));
                }
            }
            RigidTy::Never => o.push(("k", s("never"))),
            RigidTy::Tuple(v) => {
                o.push(("k", s("tuple")));
                let mut a = vec![];
                for x in v {
                    a.push(i(self.ty(x)));
                }
                o.push(("elems", J::A(a)));
            }
            _ => o.push(("k", s("other"))),
        }
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            o.push(("size", i(sh.size.bytes())));
            o.push(("align", i(sh.abi_align as usize)));
        }
        J::O(o)
    }

    // ---------------------------------------------------------------- constants
    fn decode(&mut self, al: &Allocation, off: usize, t: Ty) -> J {
        let kind = t.kind();
        let r = match kind.rigid() {
            Some(r) => r.clone(),
            None => return J::O(vec![("unk", s(format!("{:?}", t)))]),
        };
        let sh: LayoutShape = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return J::O(vec![("unk", s("layout"))]),
        };
        let size = sh.size.bytes();
        let bytes = |o: usize, n: usize| -> Option<u128> {
            if o + n <= al.bytes.len() {
                read_uint(&al.bytes[o..o + n])
            } else {
                None
            }
        };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Float(_) => match bytes(off, size) {
                Some(v) => {
                    if v > i128::MAX as u128 {
                        J::O(vec![("big", s(v))])
                    } else if matches!(t.kind().rigid(), Some(RigidTy::Float(_))) {
                        J::O(vec![("f", s(v)), ("bits", i(size * 8))])
                    } else if matches!(t.kind().rigid(), Some(RigidTy::Bool)) {
                        J::B(v != 0)
                    } else {
                        // NonZero pointers stored as integers never happen here
                        if self.prov(al, off).is_some() {
                            J::O(vec![("unk", s("int with provenance"))])
                        } else {
                            J::I(v as i128)
                        }
                    }
                }
                None => J::O(vec![("undef", J::B(true))]),
            },
            RigidTy::Int(_) => match bytes(off, size) {
                Some(v) => J::I(sext(v, size)),
                None => J::O(vec![("undef", J::B(true))]),
            },
            RigidTy::Tuple(ts) => {
                let offs = self.offsets(&sh, ts.len());
                let mut v = vec![];
                for (k, x) in ts.iter().enumerate() {
                    v.push(self.decode(al, off + offs[k], *x));
                }
                J::O(vec![("t", J::A(v))])
            }
            RigidTy::Closure(..) => {
                let it = rustc_internal::internal(self.tcx, t);
                let mut v = vec![];
                if let rustc_middle::ty::TyKind::Closure(_, ca) = it.kind() {
                    let us: Vec<Ty> = ca.as_closure().upvar_tys().iter().map(|u| rustc_internal::stable(u)).collect();
                    let offs = self.offsets(&sh, us.len());
                    for (k, x) in us.iter().enumerate() {
                        v.push(self.decode(al, off + offs[k], *x));
                    }
                }
                J::O(vec![("t", J::A(v))])
            }
            RigidTy::Array(e, c) => {
                let n = c.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) && off + n <= al.bytes.len() {
                    let b: Vec<u8> = al.bytes[off..off + n].iter().map(|x| x.unwrap_or(0)).collect();
                    return J::O(vec![("ab", s(hex(&b)))]);
                }
                let mut v = vec![];
                for k in 0..n {
                    v.push(self.decode(al, off + k * es, e));
                }
                J::O(vec![("t", J::A(v))])
            }
            RigidTy::Adt(def, a) => {
                if def.kind() == AdtKind::Union {
                    let f = def.variants()[0].fields();
                    // a union constant: decode through the widest field
                    let mut best: Option<(usize, Ty, usize)> = None;
                    for (k, fd) in f.iter().enumerate() {
                        let ft = fd.ty_with_args(&a);
                        let z = ft.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        if best.is_none() || best.unwrap().2 < z {
                            best = Some((k, ft, z));
                        }
                    }
                    if let Some((k, ft, _)) = best {
                        let x = self.decode(al, off, ft);
                        return J::O(vec![("u", i(k)), ("v", x)]);
                    }
                    return J::O(vec![("unk", s("union"))]);
                }
                if def.kind() == AdtKind::Struct {
                    let fs = def.variants()[0].fields();
                    let offs = self.offsets(&sh, fs.len());
                    let mut v = vec![];
                    for (k, f) in fs.iter().enumerate() {
                        let ft = f.ty_with_args(&a);
                        v.push(self.decode(al, off + offs[k], ft));
                    }
                    return J::O(vec![("t", J::A(v))]);
                }
                // enum
                let vars = def.variants();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return J::O(vec![("unk", s("empty enum"))]),
                    VariantsShape::Single { index } => {
                        let n = vars[index.to_index()].fields().len();
                        (index.to_index(), self.offsets(&sh, n))
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tsize = {
                            use rustc_public::abi::Scalar;
                            let p = match tag {
                                Scalar::Initialized { value, .. } => *value,
                                Scalar::Union { value } => *value,
                            };
                            p.size(&rustc_public::target::MachineInfo::target()).bytes()
                        };
                        let has_prov = self.prov(al, off + toff).is_some();
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let v = match bytes(off + toff, tsize) {
                                    Some(v) => v,
                                    None => return J::O(vec![("undef", J::B(true))]),
                                };
                                let mut f = 0;
                                for (k, va) in vars.iter().enumerate() {
                                    let d = def.discriminant_for_variant(va.idx()).val;
                                    let m = if tsize == 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                    if d & m == v {
                                        f = k;
                                    }
                                }
                                f
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    untagged_variant.to_index()
                                } else {
                                    match bytes(off + toff, tsize) {
                                        None => untagged_variant.to_index(),
                                        Some(v) => {
                                            let m = if tsize == 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                            let rel = v.wrapping_sub(*niche_start) & m;
                                            let st = niche_variants.start().to_index();
                                            let en = niche_variants.end().to_index();
                                            if rel <= (en - st) as u128 {
                                                st + rel as usize
                                            } else {
                                                untagged_variant.to_index()
                                            }
                                        }
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let fs = vars[vi].fields();
                let mut v = vec![i(vi)];
                for (k, f) in fs.iter().enumerate() {
                    let ft = f.ty_with_args(&a);
                    v.push(self.decode(al, off + offs[k], ft));
                }
                J::O(vec![("e", J::A(v))])
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => self.decode_ptr(al, off, to),
            RigidTy::FnPtr(_) => match self.prov(al, off) {
                Some(GlobalAlloc::Function(inst)) => J::O(vec![("fn", i(self.inst(inst)))]),
                _ => J::O(vec![("unk", s("fnptr"))]),
            },
            RigidTy::FnDef(..) | RigidTy::Never => J::O(vec![("z", J::B(true))]),
            RigidTy::Pat(inner, _) => self.decode(al, off, inner),
            _ => J::O(vec![("unk", s(format!("{:?}", t.kind())))]),
        }
    }
    fn prov(&self, al: &Allocation, off: usize) -> Option<GlobalAlloc> {
        for (o, p) in &al.provenance.ptrs {
            if *o == off {
                return Some(GlobalAlloc::from(p.0));
            }
        }
        None
    }
    fn offsets(&self, sh: &LayoutShape, n: usize) -> Vec<usize> {
        match &sh.fields {
            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
            _ => vec![0; n],
        }
    }
    fn decode_ptr(&mut self, al: &Allocation, off: usize, to: Ty) -> J {
        let p = self.prov(al, off);
        let addr = if off + 8 <= al.bytes.len() { read_uint(&al.bytes[off..off + 8]).unwrap_or(0) as usize } else { 0 };
        let meta = || -> usize {
            if off + 16 <= al.bytes.len() {
                read_uint(&al.bytes[off + 8..off + 16]).unwrap_or(0) as usize
            } else {
                0
            }
        };
        let tk = to.kind();
        let rk = tk.rigid().cloned();
        match p {
            None => match rk {
                Some(RigidTy::Str) if meta() == 0 => J::O(vec![("s", s(""))]),
                Some(RigidTy::Slice(_)) if meta() == 0 => J::O(vec![("sl", J::A(vec![]))]),
                _ => {
                    if to.layout().map(|l| l.shape().size.bytes() == 0 && l.shape().is_sized()).unwrap_or(false) {
                        let empty = Allocation { bytes: vec![], ..al.clone() };
                        let v = self.decode(&empty, 0, to);
                        J::O(vec![("r", v)])
                    } else {
                        J::O(vec![("addr", i(addr))])
                    }
                }
            },
            Some(GlobalAlloc::Memory(m)) => match rk {
                Some(RigidTy::Str) => {
                    let n = meta();
                    let b: Vec<u8> = m.bytes[addr..addr + n].iter().map(|x| x.unwrap_or(0)).collect();
                    J::O(vec![("s", s(hex(&b)))])
                }
                Some(RigidTy::Slice(e)) => {
                    let n = meta();
                    if matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) {
                        let b: Vec<u8> = m.bytes[addr..addr + n].iter().map(|x| x.unwrap_or(0)).collect();
                        return J::O(vec![("sb", s(hex(&b)))]);
                    }
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let mut v = vec![];
                    for k in 0..n {
                        v.push(self.decode(&m, addr + k * es, e));
                    }
                    J::O(vec![("sl", J::A(v))])
                }
                Some(RigidTy::Dynamic(..)) => match self.prov(al, off + 8) {
                    Some(GlobalAlloc::VTable(ct, _)) => {
                        let v = self.decode(&m, addr, ct);
                        J::O(vec![("dyn", i(self.ty(ct))), ("r", v)])
                    }
                    _ => J::O(vec![("unk", s("dyn"))]),
                },
                _ => {
                    let v = self.decode(&m, addr, to);
                    J::O(vec![("r", v)])
                }
            },
            Some(GlobalAlloc::Static(d)) => J::O(vec![("st", i(self.stat(d)))]),
            Some(GlobalAlloc::Function(inst)) => J::O(vec![("fn", i(self.inst(inst)))]),
            Some(GlobalAlloc::VTable(t, _)) => J::O(vec![("vt", i(self.ty(t)))]),
            Some(x) => J::O(vec![("unk", s(format!("{:?}", x)))]),
        }
    }
    fn konst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let v = match c.kind() {
            ConstantKind::Allocated(al) => self.decode(al, 0, t),
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(vt, al) => self.decode(al, 0, *vt),
                TyConstKind::ZSTValue(vt) => self.zst(*vt),
                k => J::O(vec![("unk", s(format!("{:?}", k)))]),
            },
            k => J::O(vec![("unk", s(format!("{:?}", k)))]),
        };
        J::A(vec![s("k"), i(self.ty(t)), v])
    }
    fn zst(&mut self, t: Ty) -> J {
        match t.kind().rigid() {
            Some(RigidTy::FnDef(..)) => J::O(vec![("z", J::B(true))]),
            _ => {
                let al = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                self.decode(&al, 0, t)
            }
        }
    }

    // ---------------------------------------------------------------- bodies
    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> J {
        let mut t = locals[p.local].ty;
        let mut v = vec![];
        for e in &p.projection {
            let bt = i(self.ty(t));
            let x = match e {
                ProjectionElem::Deref => J::A(vec![s("d"), bt]),
                ProjectionElem::Field(n, ft) => J::A(vec![s("f"), i(*n), i(self.ty(*ft)), bt]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(*l), bt]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), i(*offset as usize), i(*min_length as usize), J::B(*from_end), bt])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), i(*from as usize), i(*to as usize), J::B(*from_end), bt]),
                ProjectionElem::Downcast(vi) => J::A(vec![s("v"), i(vi.to_index())]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![s("o")]),
            };
            v.push(x);
            t = e.ty(t).unwrap_or(t);
        }
        J::A(vec![i(p.local), J::A(v), i(self.ty(t))])
    }
    fn op(&mut self, o: &Operand, locals: &[LocalDecl]) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, locals)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, locals)]),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => J::A(vec![s("rt"), s(format!("{:?}", r))]),
        }
    }
    fn opty(&mut self, o: &Operand, locals: &[LocalDecl]) -> J {
        match o.ty(locals) {
            Ok(t) => i(self.ty(t)),
            Err(_) => J::Null,
        }
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o, locals)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, locals)])]),
            Rvalue::Ref(_, b, p) => J::A(vec![s("ref"), self.place(p, locals), J::B(matches!(b, BorrowKind::Mut { .. }))]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, locals)])]),
            Rvalue::AddressOf(_, p) => J::A(vec![s("ref"), self.place(p, locals), J::B(true)]),
            Rvalue::Aggregate(k, ops) => {
                let os = J::A(ops.iter().map(|o| self.op(o, locals)).collect());
                match k {
                    AggregateKind::Array(t) => J::A(vec![s("arr"), os, i(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tup"), os]),
                    AggregateKind::Adt(def, vi, a, _, active) => {
                        let t = def.ty_with_args(a);
                        J::A(vec![s("adt"), os, i(self.ty(t)), i(vi.to_index()), s(match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" }), match active { Some(f) => i(*f), None => J::Null }])
                    }
                    AggregateKind::Closure(..) | AggregateKind::Coroutine(..) | AggregateKind::CoroutineClosure(..) => J::A(vec![s("tup"), os]),
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), os, i(self.ty(*t))]),
                }
            }
            Rvalue::BinaryOp(b, x, y) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(x, locals), self.op(y, locals), self.opty(x, locals), self.opty(y, locals)]),
            Rvalue::CheckedBinaryOp(b, x, y) => J::A(vec![s("cbin"), s(format!("{:?}", b)), self.op(x, locals), self.op(y, locals), self.opty(x, locals), self.opty(y, locals)]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(o, locals), self.opty(o, locals), i(self.ty(*t))]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                J::A(vec![s("discr"), self.place(p, locals), i(t)])
            }
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p, locals)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("rep"), self.op(o, locals), i(n.eval_target_usize().unwrap_or(0) as usize)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(d.name())]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o, locals), self.opty(o, locals)]),
        }
    }
    fn body(&mut self, n: usize) -> J {
        let inst = self.insts[n];
        let b = match inst.body() {
            Some(b) => b,
            None => return J::O(vec![("nobody", J::B(true))]),
        };
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let argc = b.arg_locals().len();
        let lt = J::A(locals.iter().map(|l| i(self.ty(l.ty))).collect());
        let mut blocks = vec![];
        for bl in &b.blocks {
            let mut st = vec![];
            for x in &bl.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => st.push(J::A(vec![s("="), self.place(p, &locals), self.rv(r, &locals)])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("sd"), self.place(place, &locals), i(variant_index.to_index())]))
                    }
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("sl"), i(*l)])),
                    StatementKind::StorageDead(_) => {}
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(J::A(vec![s("cno"), self.op(&c.src, &locals), self.op(&c.dst, &locals), self.op(&c.count, &locals)]))
                    }
                    _ => {}
                }
            }
            let t = match &bl.terminator.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), i(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<J> = targets.branches().map(|(v, t)| J::A(vec![s(v), i(t)])).collect();
                    J::A(vec![s("switch"), self.op(discr, &locals), self.opty(discr, &locals), J::A(br), i(targets.otherwise())])
                }
                TerminatorKind::Resume => J::A(vec![s("resume")]),
                TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    J::A(vec![s("drop"), self.place(place, &locals), i(t), i(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.ty(&locals).ok().map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => match Instance::resolve(d, &a) {
                            Ok(inst) => J::O(vec![("inst", i(self.inst(inst))), ("path", s(self.path(d.def_id()))), ("args", self.args(&a))]),
                            Err(e) => J::O(vec![("err", s(format!("{:?}", e)))]),
                        },
                        _ => J::O(vec![("ptr", self.op(func, &locals))]),
                    };
                    let aj = J::A(args.iter().map(|o| self.op(o, &locals)).collect());
                    let at = J::A(args.iter().map(|o| self.opty(o, &locals)).collect());
                    let loc = s(bl.terminator.source_info.span.diagnostic());
                    J::A(vec![s("call"), f, aj, self.place(destination, &locals), match target { Some(t) => i(*t), None => J::Null }, loc, at])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let d = msg.description().map(|x| x.to_string()).unwrap_or_else(|_| format!("{:?}", msg));
                    J::A(vec![s("assert"), self.op(cond, &locals), J::B(*expected), s(d), i(*target), s(bl.terminator.source_info.span.diagnostic())])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            blocks.push(J::A(vec![J::A(st), t]));
        }
        let sp = match b.spread_arg() {
            Some(l) => i(l),
            None => J::Null,
        };
        let loc = s(b.span.diagnostic());
        J::O(vec![("argc", i(argc)), ("spread", sp), ("locals", lt), ("blocks", J::A(blocks)), ("loc", loc)])
    }

    fn load_traits(&mut self) {
        for td in rustc_public::all_trait_decls() {
            let p = self.path(td.def_id());
            let mut m = HashMap::new();
            for ai in td.associated_items() {
                if let AssocKind::Fn { name, .. } = &ai.kind {
                    m.insert(name.clone(), FnDef(ai.def_id.def_id()));
                }
            }
            self.traits.insert(p, (td, m));
        }
    }

    fn handle(&mut self, q: &J) -> J {
        match q.st("cmd").as_str() {
            "root" => match self.roots.get(&q.st("name")).cloned() {
                Some(x) => {
                    let n = self.inst(x);
                    J::O(vec![("inst", i(n))])
                }
                None => J::O(vec![("err", s("no such root"))]),
            },
            "roots" => J::A(self.roots.keys().map(|k| s(k.clone())).collect()),
            "ty" => self.ty_info(q.us("id")),
            "inst" => self.inst_info(q.us("id")),
            "body" => self.body(q.us("id")),
            "static" => {
                let d = self.statics[q.us("id")];
                let t = d.ty();
                let name = self.path(d.def_id());
                match d.eval_initializer() {
                    Ok(al) => {
                        let v = self.decode(&al, 0, t);
                        J::O(vec![("ty", i(self.ty(t))), ("v", v), ("name", s(name))])
                    }
                    Err(e) => J::O(vec![("err", s(format!("{:?}", e))), ("name", s(name))]),
                }
            }
            "method" => {
                if self.traits.is_empty() {
                    self.load_traits();
                }
                let tr = q.st("trait");
                let f = match self.traits.get(&tr).and_then(|x| x.1.get(&q.st("name"))) {
                    Some(f) => *f,
                    None => return J::O(vec![("err", s(format!("no trait method {} {}", tr, q.st("name"))))]),
                };
                let mut ga = vec![];
                for a in q.arr("args") {
                    if let J::I(n) = a {
                        ga.push(GenericArgKind::Type(self.tys[n as usize]));
                    } else {
                        ga.push(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }));
                    }
                }
                match Instance::resolve(f, &GenericArgs(ga)) {
                    Ok(inst) => J::O(vec![("inst", i(self.inst(inst)))]),
                    Err(e) => J::O(vec![("err", s(format!("{:?}", e)))]),
                }
            }
            "closure" => {
                let t = self.tys[q.us("ty")];
                let k = match q.st("kind").as_str() {
                    "once" => ClosureKind::FnOnce,
                    "mut" => ClosureKind::FnMut,
                    _ => ClosureKind::Fn,
                };
                match t.kind().rigid() {
                    Some(RigidTy::Closure(d, a)) => match Instance::resolve_closure(*d, a, k) {
                        Ok(inst) => J::O(vec![("inst", i(self.inst(inst)))]),
                        Err(e) => J::O(vec![("err", s(format!("{:?}", e)))]),
                    },
                    _ => J::O(vec![("err", s("not a closure"))]),
                }
            }
            "mkty" => {
                // {"op":"ref|refmut|tuple", "args":[..]}
                let a: Vec<Ty> = q.arr("args").iter().filter_map(|x| if let J::I(n) = x { Some(self.tys[*n as usize]) } else { None }).collect();
                let t = match q.st("op").as_str() {
                    "ref" => Ty::new_ref(Region { kind: RegionKind::ReErased }, a[0], Mutability::Not),
                    "refmut" => Ty::new_ref(Region { kind: RegionKind::ReErased }, a[0], Mutability::Mut),
                    _ => Ty::new_tuple(&a),
                };
                J::O(vec![("ty", i(self.ty(t)))])
            }
            x => J::O(vec![("err", s(format!("bad cmd {}", x)))]),
        }
    }
}

pub fn serve(tcx: TyCtxt<'_>, sock: &str) {
    let mut srv = Srv {
        tcx,
        tys: vec![],
        ty_ids: HashMap::new(),
        insts: vec![],
        inst_ids: HashMap::new(),
        statics: vec![],
        static_ids: HashMap::new(),
        traits: HashMap::new(),
        roots: HashMap::new(),
    };
    for it in rustc_public::all_local_items() {
        let kind = it.ty().kind();
        if let TyKind::RigidTy(RigidTy::FnDef(..)) = kind {
            if !it.requires_monomorphization() {
                if let Ok(inst) = Instance::try_from(it) {
                    srv.roots.insert(it.name(), inst);
                }
            }
        }
    }
    let _ = std::fs::remove_file(sock);
    let l = UnixListener::bind(sock).expect("bind");
    println!("READY");
    let _ = std::io::stdout().flush();
    for c in l.incoming() {
        let mut c = match c {
            Ok(c) => c,
            Err(_) => continue,
        };
        let mut len = [0u8; 4];
        if c.read_exact(&mut len).is_err() {
            continue;
        }
        let mut buf = vec![0u8; u32::from_le_bytes(len) as usize];
        if c.read_exact(&mut buf).is_err() {
            continue;
        }
        let q = json::parse(&String::from_utf8_lossy(&buf));
        if q.st("cmd") == "quit" {
            break;
        }
        let qq = std::panic::AssertUnwindSafe(&mut srv);
        let r = std::panic::catch_unwind(move || {
            let qq = qq;
            qq.0.handle(&q)
        });
        let r = match r {
            Ok(r) => r,
            Err(_) => J::O(vec![("err", s("panic in server"))]),
        };
        let mut o = String::new();
        r.write(&mut o);
        let b = o.as_bytes();
        let _ = c.write_all(&(b.len() as u32).to_le_bytes());
        let _ = c.write_all(b);
    }
    let _ = std::fs::remove_file(sock);
}
