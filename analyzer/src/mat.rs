//! Types: symbolic materialisation, constants, layout.
use crate::term::*;
use crate::val::*;
use rustc_public::CrateDefType;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::Mutability;
use rustc_public::ty::*;
use rustc_public::{abi::*, CrateDef};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

thread_local! {
    /// element (or pointee) type of symbolic objects, by object name
    pub static OBJ_TY: RefCell<HashMap<String, Ty>> = RefCell::new(HashMap::new());
    /// assumed bounds of symbolic cells, by name
    pub static BOUNDS: RefCell<HashMap<String, (Option<i128>, Option<i128>)>> = RefCell::new(HashMap::new());
    /// names of symbolic cells replaced by constants
    pub static PIN: RefCell<HashMap<String, i128>> = RefCell::new(HashMap::new());
    /// contents of constant tables
    pub static TABLES: RefCell<HashMap<String, Rc<Vec<Val>>>> = RefCell::new(HashMap::new());
}
pub fn reset_mat() {
    OBJ_TY.with(|m| m.borrow_mut().clear());
    BOUNDS.with(|m| m.borrow_mut().clear());
    PIN.with(|m| m.borrow_mut().clear());
    TABLES.with(|m| m.borrow_mut().clear());
}
pub fn assume_bounds(name: &str, lo: Option<i128>, hi: Option<i128>) {
    BOUNDS.with(|m| m.borrow_mut().insert(name.into(), (lo, hi)));
}
pub fn pin(name: &str, v: i128) {
    PIN.with(|m| m.borrow_mut().insert(name.into(), v));
}
pub fn obj_ty(name: &str) -> Option<Ty> {
    OBJ_TY.with(|m| m.borrow().get(name).copied())
}
pub fn set_obj_ty(name: &str, t: Ty) {
    OBJ_TY.with(|m| m.borrow_mut().insert(name.into(), t));
}

pub fn rigid(t: Ty) -> Option<RigidTy> {
    match t.kind() {
        TyKind::RigidTy(r) => Some(r),
        _ => None,
    }
}
pub fn int_bounds(t: Ty) -> Option<(i128, i128)> {
    Some(match rigid(t)? {
        RigidTy::Bool => (0, 1),
        RigidTy::Char => (0, 0x10FFFF),
        RigidTy::Int(i) => {
            let b = i.num_bytes() * 8;
            if b == 128 {
                (i128::MIN / 4, i128::MAX / 4)
            } else {
                (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1)
            }
        }
        RigidTy::Uint(i) => {
            let b = i.num_bytes() * 8;
            if b == 128 {
                (0, i128::MAX / 4)
            } else {
                (0, (1i128 << b) - 1)
            }
        }
        _ => return None,
    })
}
pub fn adt_name(t: Ty) -> String {
    match rigid(t) {
        Some(RigidTy::Adt(d, _)) => d.name().to_string(),
        _ => String::new(),
    }
}
/// last path segment of an ADT's name
pub fn adt_last(t: Ty) -> String {
    let n = adt_name(t);
    n.rsplit("::").next().unwrap_or("").to_string()
}
pub fn type_arg(t: Ty, k: usize) -> Option<Ty> {
    match rigid(t)? {
        RigidTy::Adt(_, a) => a.0.iter().filter_map(|x| x.ty().copied()).nth(k),
        _ => None,
    }
}
pub fn pointee(t: Ty) -> Option<Ty> {
    match rigid(t)? {
        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => Some(t),
        _ => None,
    }
}
pub fn strip_refs(mut t: Ty) -> Ty {
    while let Some(p) = pointee(t) {
        t = p;
    }
    t
}
pub fn field_tys(t: Ty, variant: usize) -> Vec<(String, Ty)> {
    match rigid(t) {
        Some(RigidTy::Adt(d, a)) => d.variants()[variant].fields().iter().map(|f| (f.name.to_string(), f.ty_with_args(&a))).collect(),
        Some(RigidTy::Tuple(v)) => v.iter().enumerate().map(|(i, t)| (i.to_string(), *t)).collect(),
        _ => vec![],
    }
}
pub fn is_fieldless_enum(t: Ty) -> bool {
    match rigid(t) {
        Some(RigidTy::Adt(d, _)) => d.kind() == AdtKind::Enum && d.variants().iter().all(|v| v.fields().is_empty()),
        _ => false,
    }
}
pub fn size_of(t: Ty) -> usize {
    t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0)
}

fn app_named(name: &str, args: &[Arg], b: (i128, i128)) -> Lin {
    if let Some(v) = PIN.with(|p| p.borrow().get(name).copied()) {
        return Lin::k(v);
    }
    let o = BOUNDS.with(|m| m.borrow().get(name).copied()).unwrap_or((None, None));
    Lin::s(app(name, args.to_vec(), Some(o.0.unwrap_or(b.0)), Some(o.1.unwrap_or(b.1)), 0))
}

/// A symbolic value of type `t` named `name(args)`.
pub fn mat(st: &mut State, t: Ty, name: &str, args: &[Arg]) -> Val {
    if let Some((lo, hi)) = int_bounds(t) {
        let l = app_named(name, args, (lo, hi));
        return if matches!(rigid(t), Some(RigidTy::Bool)) { Val::Bool(Cond::sym1(l)) } else { Val::Int(l) };
    }
    match rigid(t) {
        Some(RigidTy::Adt(d, a)) => match d.kind() {
            AdtKind::Struct => {
                let last = d.name().rsplit("::").next().unwrap_or("").to_string();
                if last == "Vec" {
                    let et = a.0[0].ty().copied().unwrap();
                    set_obj_ty(name, et);
                    let len = app_named(&format!("{name}.len"), args, (0, i64::MAX as i128));
                    let id = st.alloc(Obj::Seq(Seq { ty: et, base: SeqBase::Sym(obj(name, args.to_vec())), chain: vec![] }));
                    return Val::Vec(id, len);
                }
                Val::agg(field_tys(t, 0).iter().map(|(f, ft)| mat(st, *ft, &format!("{name}.{f}"), args)).collect())
            }
            AdtKind::Enum => {
                let n = d.num_variants();
                let disc = app_named(&format!("{name}.disc"), args, (0, n as i128 - 1));
                let mut m = BTreeMap::new();
                for v in 0..n {
                    let vs = &d.variants()[v];
                    let fs = vs.fields().iter().map(|f| mat(st, f.ty_with_args(&a), &format!("{name}.{}.{}", vs.name(), f.name), args)).collect();
                    m.insert(v as u32, fs);
                }
                Val::Enum(disc, Rc::new(m))
            }
            AdtKind::Union => Val::Top(0),
        },
        Some(RigidTy::Tuple(ts)) => Val::agg(ts.iter().enumerate().map(|(i, t)| mat(st, *t, &format!("{name}.{i}"), args)).collect()),
        Some(RigidTy::Ref(_, p, _)) | Some(RigidTy::RawPtr(p, _)) => match rigid(p) {
            Some(RigidTy::Slice(e)) => {
                set_obj_ty(name, e);
                let len = app_named(&format!("{name}.len"), args, (0, i64::MAX as i128));
                Val::Ptr(Ptr { base: Base::Sym(obj(name, args.to_vec())), path: vec![], view: Some((Lin::k(0), len)) })
            }
            Some(RigidTy::Str) => {
                let o = obj(name, args.to_vec());
                Val::Ptr(Ptr { base: Base::Bytes(o), path: vec![], view: Some((Lin::k(0), str_len(o))) })
            }
            _ => {
                let v = mat(st, p, name, args);
                let id = st.alloc(Obj::Cell(v));
                Val::Ptr(Ptr::to(Base::Heap(id)))
            }
        },
        Some(RigidTy::FnPtr(_)) => Val::Fn(FnVal::Sym(app_named(name, args, (0, i64::MAX as i128)))),
        _ => Val::Top(0),
    }
}

/// Element of a symbolic object. Elements may not own heap storage.
pub fn elem(t: Ty, o: O, i: &Lin) -> Val {
    if is_given(o) && matches!(rigid(t), Some(RigidTy::Char)) && i.is_const().is_some() {
        return Val::Int(ch(o, i));
    }
    let mut args = obj_args(o);
    args.push(Arg::L(i.clone()));
    let mut dummy = State::new();
    mat(&mut dummy, t, &format!("{}[]", obj_name(o)), &args)
}
/// Pointee of a symbolic single object.
pub fn single(t: Ty, o: O) -> Val {
    let mut dummy = State::new();
    mat(&mut dummy, t, &obj_name(o), &obj_args(o))
}
pub fn byte_at(o: O, i: &Lin) -> Val {
    if ascii_of(o) == Some(true) {
        return Val::Int(ch(o, i));
    }
    if let (Some(b), Some(w)) = (i.is_const(), layout(o)) {
        match char_of_byte(&w, b) {
            Some((k, _, 1)) => return Val::Int(ch(o, &Lin::k(k as i128))),
            Some(_) => return Val::Int(Lin::s(app("byte", vec![Arg::O(o), Arg::L(i.clone())], Some(128), Some(255), 0))),
            None => {}
        }
    }
    Val::Int(Lin::s(app("byte", vec![Arg::O(o), Arg::L(i.clone())], Some(0), Some(255), 0)))
}

fn uint(b: &[Option<u8>]) -> Option<u128> {
    let mut v: u128 = 0;
    for (i, x) in b.iter().enumerate() {
        v |= ((*x)? as u128) << (8 * i);
    }
    Some(v)
}

/// Decodes a constant of type `t` at `off` in an allocation.
pub fn decode(st: &mut State, a: &Allocation, off: usize, t: Ty) -> Val {
    let r = match rigid(t) {
        Some(r) => r,
        None => return Val::Top(UNK),
    };
    if let Some((lo, _)) = int_bounds(t) {
        let n = size_of(t);
        let Some(b) = a.bytes.get(off..off + n) else { return Val::Top(UNK) };
        let Some(mut v) = uint(b).map(|x| x as i128) else { return Val::Undef };
        if lo < 0 && n < 16 && v >= 1i128 << (8 * n - 1) {
            v -= 1i128 << (8 * n);
        }
        return if matches!(r, RigidTy::Bool) { Val::bool(v != 0) } else { Val::int(v) };
    }
    match &r {
        RigidTy::Tuple(_) | RigidTy::Adt(..) => decode_adt(st, a, off, t, &r),
        RigidTy::Array(e, n) => {
            let n = n.eval_target_usize().unwrap_or(0) as usize;
            let es = size_of(*e);
            Val::agg((0..n).map(|i| decode(st, a, off + i * es, *e)).collect())
        }
        // what a static that can change holds is not known
        RigidTy::RawPtr(_, Mutability::Mut) if a.provenance.ptrs.iter().any(|x| x.0 == off && matches!(GlobalAlloc::from(x.1 .0), GlobalAlloc::Static(_))) => Val::Top(UNK),
        RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => decode_ptr(st, a, off, *p),
        RigidTy::FnPtr(_) => {
            let prov = a.provenance.ptrs.iter().find(|x| x.0 == off);
            match prov.map(|p| GlobalAlloc::from(p.1 .0)) {
                Some(GlobalAlloc::Function(i)) => Val::Fn(FnVal::Inst(i)),
                _ => Val::Top(UNK),
            }
        }
        RigidTy::FnDef(d, args) => match Instance::resolve(*d, args) {
            Ok(i) => Val::Fn(FnVal::Inst(i)),
            _ => Val::Top(UNK),
        },
        RigidTy::Closure(d, args) => Val::Clos(*d, args.clone(), Rc::new(vec![])),
        _ => Val::Top(UNK),
    }
}

fn decode_ptr(st: &mut State, a: &Allocation, off: usize, p: Ty) -> Val {
    let Some(prov) = a.provenance.ptrs.iter().find(|x| x.0 == off) else { return Val::Top(UNK) };
    let delta = uint(&a.bytes[off..off + 8]).unwrap_or(0) as usize;
    let g = GlobalAlloc::from(prov.1 .0);
    let mem = match &g {
        GlobalAlloc::Memory(m) => m.clone(),
        GlobalAlloc::Static(s) if crate::effects::changeable(s.ty(), &mut Default::default()) => return Val::Top(UNK),
        GlobalAlloc::Static(s) => match s.eval_initializer() {
            Ok(m) => m,
            Err(_) => return Val::Top(UNK),
        },
        _ => return Val::Top(UNK),
    };
    let key = format!("{:?}", prov.1 .0);
    match rigid(p) {
        Some(RigidTy::Str) => {
            let n = uint(&a.bytes[off + 8..off + 16]).unwrap_or(0) as usize;
            let bytes: Vec<u8> = mem.bytes[delta..delta + n].iter().map(|b| b.unwrap_or(0)).collect();
            const_str(&String::from_utf8_lossy(&bytes))
        }
        Some(RigidTy::Slice(e)) => {
            let n = uint(&a.bytes[off + 8..off + 16]).unwrap_or(0) as usize;
            const_seq(st, &mem, delta, e, n, &key)
        }
        Some(RigidTy::Array(e, n)) => {
            let n = n.eval_target_usize().unwrap_or(0) as usize;
            const_seq(st, &mem, delta, e, n, &key)
        }
        _ => {
            let v = decode(st, &mem, delta, p);
            // constants are immutable: their content names the object
            let name = format!("const:{v:?}");
            set_obj_ty(&name, p);
            CONSTS.with(|c| c.borrow_mut().insert(name.clone(), v));
            Val::Ptr(Ptr::to(Base::Sym(obj(&name, vec![]))))
        }
    }
}
thread_local! {
    pub static CONSTS: RefCell<HashMap<String, Val>> = RefCell::new(HashMap::new());
}
pub fn const_str(s: &str) -> Val {
    let name = format!("str:{s}");
    let o = obj(&name, vec![]);
    set_ascii(&name, s.is_ascii());
    Val::Ptr(Ptr { base: Base::Bytes(o), path: vec![], view: Some((Lin::k(0), Lin::k(s.len() as i128))) })
}
fn const_seq(st: &mut State, mem: &Allocation, delta: usize, e: Ty, n: usize, key: &str) -> Val {
    let name = format!("table:{key}:{delta}:{n}");
    let es = size_of(e);
    if !TABLES.with(|t| t.borrow().contains_key(&name)) {
        let v: Vec<Val> = (0..n).map(|i| decode(st, mem, delta + i * es, e)).collect();
        TABLES.with(|t| t.borrow_mut().insert(name.clone(), Rc::new(v)));
        set_obj_ty(&name, e);
    }
    Val::Ptr(Ptr { base: Base::Sym(obj(&name, vec![])), path: vec![], view: Some((Lin::k(0), Lin::k(n as i128))) })
}
pub fn table(name: &str) -> Option<Rc<Vec<Val>>> {
    TABLES.with(|t| t.borrow().get(name).cloned())
}

fn decode_adt(st: &mut State, a: &Allocation, off: usize, t: Ty, r: &RigidTy) -> Val {
    let Ok(l) = t.layout() else { return Val::Top(UNK) };
    let sh = l.shape();
    let is_enum = matches!(r, RigidTy::Adt(d, _) if d.kind() == AdtKind::Enum);
    let (variant, offs): (usize, Vec<usize>) = match &sh.variants {
        VariantsShape::Single { index } => match &sh.fields {
            FieldsShape::Arbitrary { offsets } => (rustc_idx(index), offsets.iter().map(|x| x.bytes()).collect()),
            _ => (rustc_idx(index), vec![]),
        },
        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
            let toff = match &sh.fields {
                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                _ => 0,
            };
            let tsize = match tag {
                Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                    Primitive::Int { length, .. } => match length {
                        IntegerLength::I8 => 1,
                        IntegerLength::I16 => 2,
                        IntegerLength::I32 => 4,
                        IntegerLength::I64 => 8,
                        IntegerLength::I128 => 16,
                    },
                    _ => 8,
                },
            };
            let has_prov = a.provenance.ptrs.iter().any(|x| x.0 == off + toff);
            let Some(tv) = a.bytes.get(off + toff..off + toff + tsize).and_then(uint) else { return Val::Undef };
            let RigidTy::Adt(d, _) = r else { return Val::Top(UNK) };
            let k = match tag_encoding {
                TagEncoding::Direct => {
                    let mut k = None;
                    for i in 0..d.num_variants() {
                        let dv = d.variants()[i].idx();
                        let mask = if tsize == 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                        if d.discriminant_for_variant(dv).val & mask == tv {
                            k = Some(i);
                        }
                    }
                    match k {
                        Some(k) => k,
                        None => return Val::Top(UNK),
                    }
                }
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    let (s, e) = (rustc_idx(niche_variants.start()), rustc_idx(niche_variants.end()));
                    let rel = tv.wrapping_sub(*niche_start);
                    if !has_prov && rel <= (e - s) as u128 {
                        s + rel as usize
                    } else {
                        rustc_idx(untagged_variant)
                    }
                }
            };
            (k, variants[k].offsets.iter().map(|x| x.bytes()).collect())
        }
        VariantsShape::Empty => return Val::Top(UNK),
    };
    let ft = field_tys(t, if is_enum { variant } else { 0 });
    let vals: Vec<Val> = ft.iter().enumerate().map(|(i, (_, ft))| decode(st, a, off + offs.get(i).copied().unwrap_or(0), *ft)).collect();
    if is_enum {
        Val::variant(variant as u32, vals)
    } else {
        Val::agg(vals)
    }
}
fn rustc_idx(v: &VariantIdx) -> usize {
    format!("{v:?}").chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)
}
