//! Abstract values, memory places and analysis states.
use crate::form::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const LEN_MAX: i128 = 1 << 48;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PE {
    F(u32),
    V(u32),
    I(Form),
}

#[derive(Clone, Debug)]
pub enum Base {
    Local(u32, u32),
    Obj(KeyId, Ty),
    /// element of a symbolic region
    Elem(KeyId, Form, Ty),
    Const(Rc<Val>),
}
impl PartialEq for Base {
    fn eq(&self, o: &Base) -> bool {
        match (self, o) {
            (Base::Local(a, b), Base::Local(c, d)) => a == c && b == d,
            (Base::Obj(a, _), Base::Obj(b, _)) => a == b,
            (Base::Elem(a, f, _), Base::Elem(b, g, _)) => a == b && f == g,
            (Base::Const(a), Base::Const(b)) => Rc::ptr_eq(a, b) || a == b,
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Pl {
    pub base: Base,
    pub path: Rc<Vec<PE>>,
}
impl Pl {
    pub fn new(base: Base) -> Pl {
        Pl { base, path: Rc::new(vec![]) }
    }
    pub fn local(uid: u32, l: usize) -> Pl {
        Pl::new(Base::Local(uid, l as u32))
    }
    pub fn push(&self, e: PE) -> Pl {
        let mut p = (*self.path).clone();
        p.push(e);
        Pl { base: self.base.clone(), path: Rc::new(p) }
    }
}

#[derive(Clone, Debug)]
pub enum SBase {
    /// symbolic region of elements
    Sym(KeyId, Ty),
    /// array or vector stored at a place
    Obj(Pl, Ty),
    Bytes(Rc<Vec<u8>>),
    Vals(Rc<Vec<Val>>),
    /// formatted text
    Text(Rc<Vec<Piece>>),
}
impl PartialEq for SBase {
    fn eq(&self, o: &SBase) -> bool {
        match (self, o) {
            (SBase::Sym(a, _), SBase::Sym(b, _)) => a == b,
            (SBase::Obj(a, _), SBase::Obj(b, _)) => a == b,
            (SBase::Bytes(a), SBase::Bytes(b)) => a == b,
            (SBase::Vals(a), SBase::Vals(b)) => a == b,
            (SBase::Text(a), SBase::Text(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct SliceV {
    pub base: SBase,
    pub start: Form,
    pub len: Form,
}

#[derive(Clone, Debug)]
pub struct AggV {
    pub ty: Ty,
    pub f: Vec<Val>,
}
impl PartialEq for AggV {
    fn eq(&self, o: &AggV) -> bool {
        self.f == o.f
    }
}
#[derive(Clone, Debug)]
pub struct EnumV {
    pub ty: Ty,
    pub v: u32,
    pub f: Vec<Val>,
}
impl PartialEq for EnumV {
    fn eq(&self, o: &EnumV) -> bool {
        self.v == o.v && self.f == o.f
    }
}
#[derive(Clone, Debug)]
pub struct VecV {
    pub elem: Ty,
    /// unknown leading elements: region and count
    pub base: Option<(KeyId, Form)>,
    pub items: Vec<Val>,
}
impl PartialEq for VecV {
    fn eq(&self, o: &VecV) -> bool {
        self.base == o.base && self.items == o.items
    }
}
impl VecV {
    pub fn len(&self) -> Form {
        match &self.base {
            Some((_, n)) => n.addk(self.items.len() as i128),
            None => Form::k(self.items.len() as i128),
        }
    }
}

#[derive(Clone, Debug)]
pub struct ArgV {
    pub val: Val,
    pub ty: Ty,
    pub how: String, // Display, Debug, UpperHex, ...
    pub spec: String,
}
impl PartialEq for ArgV {
    fn eq(&self, o: &ArgV) -> bool {
        self.val == o.val && self.how == o.how && self.spec == o.spec
    }
}
#[derive(Clone, PartialEq, Debug)]
pub enum Piece {
    Lit(String),
    Arg(Rc<ArgV>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum IterV {
    /// remaining elements of a slice; true: yields by value out of an owned vector
    Slice(SliceV, bool),
    /// chunks of a slice
    /// what is left, the size; for exact chunks, the whole
    Chunks(SliceV, Form, Option<Rc<SliceV>>),
}

#[derive(Clone, Debug)]
pub enum Val {
    Undef,
    Int(Form),
    /// true iff the form's value lies in the set
    Bool(Form, VSet),
    Agg(Rc<AggV>),
    Enum(Rc<EnumV>),
    Sym(KeyId, Ty),
    Ref(Pl),
    Slice(Rc<SliceV>),
    Vec(Rc<VecV>),
    /// String contents
    Str(Rc<Vec<Piece>>),
    /// fat pointer to a value of known type
    Dyn(Rc<Val>, Ty),
    /// fat pointer to a value of unknown type
    SymDyn(KeyId, Ty),
    Fn(Ty),
    Fmt(Rc<Vec<Piece>>),
    FmtArg(Rc<ArgV>),
    Iter(Rc<IterV>),
    Opaque(KeyId),
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Undef, Undef) => true,
            (Int(a), Int(b)) => a == b,
            (Bool(a, s), Bool(b, t)) => a == b && s == t,
            (Agg(a), Agg(b)) => Rc::ptr_eq(a, b) || a == b,
            (Enum(a), Enum(b)) => Rc::ptr_eq(a, b) || a == b,
            (Sym(a, _), Sym(b, _)) => a == b,
            (Ref(a), Ref(b)) => a == b,
            (Slice(a), Slice(b)) => a == b,
            (Vec(a), Vec(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Dyn(a, s), Dyn(b, t)) => a == b && s == t,
            (SymDyn(a, _), SymDyn(b, _)) => a == b,
            (Fn(a), Fn(b)) => a == b,
            (Fmt(a), Fmt(b)) => a == b,
            (FmtArg(a), FmtArg(b)) => a == b,
            (Iter(a), Iter(b)) => a == b,
            (Opaque(a), Opaque(b)) => a == b,
            _ => false,
        }
    }
}

impl std::hash::Hash for Val {
    /// coarser than equality
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        use Val::*;
        std::mem::discriminant(self).hash(h);
        match self {
            Int(f) => f.hash(h),
            Bool(f, _) => f.hash(h),
            Agg(a) => a.f.hash(h),
            Enum(e) => {
                e.v.hash(h);
                e.f.hash(h)
            }
            Sym(k, _) | SymDyn(k, _) | Opaque(k) => k.hash(h),
            Ref(p) => p.path.hash(h),
            Slice(s) => {
                if let SBase::Sym(k, _) = &s.base {
                    k.hash(h);
                }
                s.start.hash(h);
                s.len.hash(h);
            }
            Vec(v) => {
                v.items.hash(h);
            }
            Dyn(v, _) => v.hash(h),
            _ => {}
        }
    }
}

impl Val {
    pub fn int(k: i128) -> Val {
        Val::Int(Form::k(k))
    }
    pub fn bool(b: bool) -> Val {
        Val::Bool(Form::k(if b { 1 } else { 0 }), VSet::one(1))
    }
    pub fn agg(ty: Ty, f: Vec<Val>) -> Val {
        Val::Agg(Rc::new(AggV { ty, f }))
    }
    pub fn en(ty: Ty, v: u32, f: Vec<Val>) -> Val {
        Val::Enum(Rc::new(EnumV { ty, v, f }))
    }
    pub fn unit() -> Val {
        Val::agg(Ty::new_tuple(&[]), vec![])
    }
    pub fn slice(base: SBase, start: Form, len: Form) -> Val {
        Val::Slice(Rc::new(SliceV { base, start, len }))
    }
    pub fn str_const(s: &str) -> Val {
        let b = s.as_bytes().to_vec();
        let n = b.len() as i128;
        Val::slice(SBase::Bytes(Rc::new(b)), Form::k(0), Form::k(n))
    }
    pub fn show(&self) -> String {
        self.show_d(6)
    }
    pub fn show_d(&self, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        let list = |f: &[Val]| f.iter().map(|x| x.show_d(d - 1)).collect::<std::vec::Vec<_>>().join(", ");
        match self {
            Val::Undef => "undef".into(),
            Val::Int(f) => f.show(),
            Val::Bool(f, s) => {
                if let Some(c) = f.constant() {
                    return format!("{}", s.contains(c));
                }
                format!("({} in {})", f.show(), s.show())
            }
            Val::Agg(a) => format!("{}({})", short_ty(a.ty), list(&a.f)),
            Val::Enum(e) => format!("{}::{}({})", short_ty(e.ty), variant_name(e.ty, e.v), list(&e.f)),
            Val::Sym(k, t) => format!("sym {}:{}", key_name(*k), short_ty(*t)),
            Val::Ref(p) => format!("&{}", show_pl(p)),
            Val::Slice(s) => show_slice(s),
            Val::Vec(v) => format!(
                "vec[{}{}]",
                match &v.base {
                    Some((k, n)) => format!("{}*{}; ", key_name(*k), n.show()),
                    None => "".into(),
                },
                list(&v.items)
            ),
            Val::Str(p) => format!("string {}", show_pieces(p)),
            Val::Dyn(p, t) => format!("dyn({}: {})", p.show_d(d - 1), short_ty(*t)),
            Val::SymDyn(k, _) => format!("symdyn {}", key_name(*k)),
            Val::Fn(t) => format!("fn {}", short_ty(*t)),
            Val::Fmt(p) => format!("fmt {}", show_pieces(p)),
            Val::FmtArg(a) => format!("arg {}", show_pieces(&[Piece::Arg(a.clone())])),
            Val::Iter(i) => match &**i {
                IterV::Slice(s, _) => format!("iter {}", show_slice(s)),
                IterV::Chunks(s, n, _) => format!("chunks({}) {}", n.show(), show_slice(s)),
            },
            Val::Opaque(k) => format!("opaque {}", key_name(*k)),
        }
    }
}
pub fn show_slice(s: &SliceV) -> String {
    if let (SBase::Bytes(b), Some(st), Some(n)) = (&s.base, s.start.constant(), s.len.constant()) {
        let (st, n) = (st as usize, n as usize);
        if st + n <= b.len() {
            if let Ok(t) = std::str::from_utf8(&b[st..st + n]) {
                return format!("{:?}", t);
            }
        }
    }
    let b = match &s.base {
        SBase::Sym(k, _) => key_name(*k),
        SBase::Obj(p, _) => format!("*{}", show_pl(p)),
        SBase::Bytes(_) => "const".into(),
        SBase::Vals(_) => "consts".into(),
        SBase::Text(p) => format!("text {}", show_pieces(p)),
    };
    format!("{}[{}; len {}]", b, s.start.show(), s.len.show())
}
pub fn show_pieces(p: &[Piece]) -> String {
    let mut s = String::from("\"");
    for x in p {
        match x {
            Piece::Lit(t) => s.push_str(&t.replace('\n', "\\n")),
            Piece::Arg(a) => {
                s.push_str(&format!("{{{}:{}{}}}", a.val.show_d(4), &a.how, &a.spec));
            }
        }
    }
    s.push('"');
    s
}
pub fn show_pl(p: &Pl) -> String {
    let mut s = match &p.base {
        Base::Local(u, l) => format!("f{}._{}", u, l),
        Base::Obj(k, _) => key_name(*k),
        Base::Elem(k, f, _) => format!("{}[{}]", key_name(*k), f.show()),
        Base::Const(_) => "const".into(),
    };
    for e in p.path.iter() {
        match e {
            PE::F(i) => s.push_str(&format!(".{}", i)),
            PE::V(i) => s.push_str(&format!(".v{}", i)),
            PE::I(f) => s.push_str(&format!("[{}]", f.show())),
        }
    }
    s
}

// ---------------------------------------------------------------- types
thread_local! {
    static KINDS: RefCell<HashMap<Ty, Rc<TyKind>>> = RefCell::new(HashMap::new());
    /// values given to symbolic keys explicitly
    pub static DEFS: RefCell<HashMap<KeyId, Val>> = RefCell::new(HashMap::new());
    /// variant index (as a form) given to symbolic enum keys
    /// types of the objects behind pointers
    pub static OBJ_TYS: RefCell<HashMap<KeyId, Ty>> = RefCell::new(HashMap::new());
    pub static DISCRS: RefCell<HashMap<KeyId, Form>> = RefCell::new(HashMap::new());
}
pub fn kind(t: Ty) -> Rc<TyKind> {
    KINDS.with(|k| {
        if let Some(x) = k.borrow().get(&t) {
            return x.clone();
        }
        let x = Rc::new(t.kind());
        k.borrow_mut().insert(t, x.clone());
        x
    })
}
pub fn rigid(t: Ty) -> RigidTy {
    match &*kind(t) {
        TyKind::RigidTy(r) => r.clone(),
        k => panic!("non-rigid type {:?}", k),
    }
}
/// path of the type's definition, without generics, crate prefix normalised
pub fn adt_name(t: Ty) -> String {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => norm_name(&def_name(d)),
        _ => String::new(),
    }
}
fn def_name(d: &AdtDef) -> String {
    use rustc_public::CrateDef;
    d.name().to_string()
}
pub fn norm_name(s: &str) -> String {
    // drop generic arguments that follow `::` and map core/alloc to std
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '<' && out.ends_with("::") {
            // keep `::<impl ...>` groups
            let rest: String = b[i..].iter().take(6).collect();
            if rest != "<impl " {
                let mut d = 0;
                while i < b.len() {
                    if b[i] == '<' {
                        d += 1;
                    }
                    if b[i] == '>' && b[i - 1] != '-' {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    i += 1;
                }
                i += 1;
                out.pop();
                out.pop();
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    let mut r = String::new();
    let mut cur = out.as_str();
    // replace path roots
    while !cur.is_empty() {
        let boundary = r.is_empty() || !r.chars().last().map(|c| c.is_alphanumeric() || c == '_' || c == ':').unwrap_or(false);
        if boundary && cur.starts_with("core::") {
            r.push_str("std::");
            cur = &cur[6..];
            continue;
        }
        if boundary && cur.starts_with("alloc::") {
            r.push_str("std::");
            cur = &cur[7..];
            continue;
        }
        let c = cur.chars().next().unwrap();
        r.push(c);
        cur = &cur[c.len_utf8()..];
    }
    r
}
pub fn short_ty(t: Ty) -> String {
    match &*kind(t) {
        TyKind::RigidTy(r) => match r {
            RigidTy::Adt(d, _) => {
                let n = def_name(d);
                n.rsplit("::").next().unwrap().to_string()
            }
            RigidTy::Closure(..) => "closure".into(),
            RigidTy::Tuple(_) => "".into(),
            RigidTy::Ref(_, t, _) => format!("&{}", short_ty(*t)),
            RigidTy::Slice(t) => format!("[{}]", short_ty(*t)),
            RigidTy::Array(t, _) => format!("[{};_]", short_ty(*t)),
            _ => format!("{}", t),
        },
        _ => format!("{}", t),
    }
}
pub fn variant_name(t: Ty, v: u32) -> String {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            d.variants().get(v as usize).map(|x| x.name().to_string()).unwrap_or_else(|| format!("v{}", v))
        }
        _ => format!("v{}", v),
    }
}
pub fn variant_index(t: Ty, name: &str) -> Option<u32> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants().iter().position(|x| x.name().to_string() == name).map(|x| x as u32),
        _ => None,
    }
}
pub fn num_variants(t: Ty) -> u32 {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.num_variants() as u32,
        _ => 1,
    }
}
pub fn is_enum(t: Ty) -> bool {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.kind() == AdtKind::Enum,
        _ => false,
    }
}
pub fn variant_fields(t: Ty, v: u32) -> Vec<Ty> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            d.variants()[v as usize].fields().iter().map(|f| f.ty_with_args(a)).collect()
        }
        _ => vec![],
    }
}
pub fn field_names(t: Ty, v: u32) -> Vec<String> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants()[v as usize].fields().iter().map(|f| f.name.to_string()).collect(),
        _ => vec![],
    }
}
pub fn field_index(t: Ty, name: &str) -> Option<usize> {
    field_names(t, 0).iter().position(|x| x == name)
}
pub fn discr_of_variant(t: Ty, v: u32) -> i128 {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            let dd = d.discriminant_for_variant(d.variants()[v as usize].idx());
            // sign-extend
            match int_range(dd.ty) {
                Some((lo, hi)) if lo < 0 => {
                    let x = dd.val as i128;
                    if x > hi {
                        x - (hi - lo + 1)
                    } else {
                        x
                    }
                }
                _ => dd.val as i128,
            }
        }
        _ => v as i128,
    }
}
pub fn int_range(t: Ty) -> Option<(i128, i128)> {
    let (bits, signed) = int_bits(t)?;
    let bits = bits.min(100);
    Some(if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) })
}
pub fn int_bits(t: Ty) -> Option<(u32, bool)> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Pat(base, _)) => int_bits(*base),
        TyKind::RigidTy(RigidTy::Int(i)) => Some((
            match i {
                IntTy::Isize => 64,
                IntTy::I8 => 8,
                IntTy::I16 => 16,
                IntTy::I32 => 32,
                IntTy::I64 => 64,
                IntTy::I128 => 128,
            },
            true,
        )),
        TyKind::RigidTy(RigidTy::Uint(i)) => Some((
            match i {
                UintTy::Usize => 64,
                UintTy::U8 => 8,
                UintTy::U16 => 16,
                UintTy::U32 => 32,
                UintTy::U64 => 64,
                UintTy::U128 => 128,
            },
            false,
        )),
        TyKind::RigidTy(RigidTy::Char) => Some((32, false)),
        _ => None,
    }
}
pub fn is_bool(t: Ty) -> bool {
    matches!(&*kind(t), TyKind::RigidTy(RigidTy::Bool))
}
/// pointee of a reference, raw pointer or box
pub fn pointee(t: Ty) -> Option<Ty> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Ref(_, p, _)) | TyKind::RigidTy(RigidTy::RawPtr(p, _)) => Some(*p),
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => a.0.first().and_then(|x| x.ty().cloned()),
        TyKind::RigidTy(RigidTy::Adt(_, a)) => {
            let n = adt_name(t);
            if n == "std::ptr::NonNull" || n == "std::ptr::Unique" || n == "std::ptr::unique::Unique" || n == "std::ptr::non_null::NonNull" {
                a.0.first().and_then(|x| x.ty().cloned())
            } else {
                None
            }
        }
        _ => None,
    }
}
pub fn generic_ty(t: Ty, i: usize) -> Option<Ty> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(_, a)) => {
            let tys: Vec<Ty> = a.0.iter().filter_map(|x| x.ty().cloned()).collect();
            tys.get(i).cloned()
        }
        _ => None,
    }
}
/// element type of a slice/str/array type
pub fn elem_ty(t: Ty) -> Option<Ty> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Slice(e)) => Some(*e),
        TyKind::RigidTy(RigidTy::Array(e, _)) => Some(*e),
        TyKind::RigidTy(RigidTy::Str) => Some(Ty::unsigned_ty(UintTy::U8)),
        _ => None,
    }
}
pub fn array_len(t: Ty) -> Option<u64> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Array(_, n)) => n.eval_target_usize().ok(),
        _ => None,
    }
}
pub fn is_unsized_seq(t: Ty) -> bool {
    matches!(&*kind(t), TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str))
}
pub fn is_dyn(t: Ty) -> bool {
    matches!(&*kind(t), TyKind::RigidTy(RigidTy::Dynamic(..)))
}
pub fn is_vec(t: Ty) -> bool {
    adt_name(t) == "std::vec::Vec"
}
pub fn is_string(t: Ty) -> bool {
    adt_name(t) == "std::string::String"
}

/// a fresh view of the symbolic value `key` of type `t`; scalars, pointers and vectors are expanded
pub fn sym(k: KeyId, t: Ty) -> Val {
    if let Some(v) = DEFS.with(|d| d.borrow().get(&k).cloned()) {
        return v;
    }
    let name = || key_name(k);
    if let Some((lo, hi)) = int_range(t) {
        let (lo, hi) = if matches!(&*kind(t), TyKind::RigidTy(RigidTy::Char)) { (0, 0x10FFFF) } else { (lo, hi) };
        return Val::Int(Form::named(&name(), lo, hi));
    }
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Bool) => Val::Bool(Form::named(&name(), 0, 1), VSet::one(1)),
        TyKind::RigidTy(RigidTy::FnDef(..)) => Val::Fn(t),
        TyKind::RigidTy(RigidTy::Ref(..)) | TyKind::RigidTy(RigidTy::RawPtr(..)) => sym_ptr(k, t),
        TyKind::RigidTy(RigidTy::Tuple(ts)) if ts.is_empty() => Val::unit(),
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            if pointee(t).is_some() {
                return sym_ptr(k, t);
            }
            if is_vec(t) {
                let e = generic_ty(t, 0).unwrap();
                return Val::Vec(Rc::new(VecV {
                    elem: e,
                    base: Some((k, Form::named(&format!("{}.len", name()), 0, LEN_MAX))),
                    items: vec![],
                }));
            }
            if d.kind() == AdtKind::Enum && d.num_variants() == 1 {
                return Val::en(t, 0, sym_fields(k, t, 0));
            }
            // a decoded bit string: described by its number of bits
            if adt_name(t) == "rx509::der::types::ASNBitString" {
                let bits = Form::named(&format!("bits!{}", name()), 0, 8 * LEN_MAX);
                return crate::model::bit_string(t, key(&format!("{}*", name())), 0, &bits);
            }
            Val::Sym(k, t)
        }
        _ => Val::Sym(k, t),
    }
}
fn sym_ptr(k: KeyId, t: Ty) -> Val {
    let p = pointee(t).unwrap();
    let n = key_name(k);
    if let Some(e) = elem_ty(p) {
        if is_unsized_seq(p) {
            return Val::slice(SBase::Sym(key(&format!("{}*", n)), e), Form::k(0), Form::named(&format!("{}.len", n), 0, LEN_MAX));
        }
    }
    if is_dyn(p) {
        return Val::SymDyn(key(&format!("{}*", n)), p);
    }
    let ok = key(&format!("{}*", n));
    OBJ_TYS.with(|o| o.borrow_mut().insert(ok, p));
    Val::Ref(Pl::new(Base::Obj(ok, p)))
}
/// expand one level of a symbolic struct, tuple, array or closure
pub fn expand(k: KeyId, t: Ty) -> Option<Val> {
    let v = sym(k, t);
    if !matches!(v, Val::Sym(..)) {
        return Some(v);
    }
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Tuple(ts)) => {
            Some(Val::agg(t, ts.iter().enumerate().map(|(i, x)| sym(key(&format!("{}.{}", key_name(k), i)), *x)).collect()))
        }
        TyKind::RigidTy(RigidTy::Array(e, _)) => {
            let n = array_len(t)?;
            if n > 4096 {
                return None;
            }
            Some(Val::agg(t, (0..n).map(|i| sym_elem(k, &Form::k(i as i128), *e)).collect()))
        }
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct => Some(Val::agg(t, sym_fields(k, t, 0))),
        _ => None,
    }
}
pub fn sym_fields(k: KeyId, t: Ty, v: u32) -> Vec<Val> {
    let e = is_enum(t);
    variant_fields(t, v)
        .iter()
        .enumerate()
        .map(|(i, x)| {
            let n = if e { format!("{}.v{}.{}", key_name(k), v, i) } else { format!("{}.{}", key_name(k), i) };
            sym(key(&n), *x)
        })
        .collect()
}
/// element `off` of the symbolic region `k`
pub fn sym_elem(k: KeyId, off: &Form, e: Ty) -> Val {
    if let Some((lo, hi)) = int_range(e) {
        return Val::Int(Form::elem(k, off, lo, hi));
    }
    if is_bool(e) {
        return Val::Bool(Form::elem(k, off, 0, 1), VSet::one(1));
    }
    sym(key(&format!("{}[{}]", key_name(k), off.show())), e)
}
/// variant index of a symbolic enum
pub fn sym_discr(k: KeyId, t: Ty) -> Form {
    if let Some(f) = DISCRS.with(|d| d.borrow().get(&k).cloned()) {
        return f;
    }
    let n = num_variants(t) as i128;
    Form::atom(atom(AtomKind::Discr(k), 0, n - 1))
}

// ---------------------------------------------------------------- states
#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    /// text written to a sink
    Emit(String, Rc<Vec<Piece>>),
    /// call of a method on a receiver of unknown type, or of a function modelled as an event
    Call(String, Rc<Vec<Val>>),
    /// a generalised loop was entered; the events of its iterations are in the record
    Loop(usize),
}

#[derive(Clone, PartialEq)]
pub struct Frame {
    pub inst: Instance,
    pub locals: Vec<Val>,
}

#[derive(Clone, PartialEq, Default)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Rc<BTreeMap<KeyId, Val>>,
    pub facts: Facts,
    pub trace: Rc<Vec<Event>>,
    pub taint: Option<Rc<String>>,
    pub nheap: u32,
}

impl State {
    pub fn emit(&mut self, e: Event) {
        Rc::make_mut(&mut self.trace).push(e);
    }
    pub fn heap_set(&mut self, k: KeyId, v: Val) {
        Rc::make_mut(&mut self.heap).insert(k, v);
    }
    pub fn obj_ty(&self, k: KeyId) -> Option<Ty> {
        OBJ_TYS.with(|o| o.borrow().get(&k).cloned())
    }
    pub fn new_obj(&mut self, v: Val, t: Ty) -> Pl {
        let k = key(&format!("h{}", self.nheap));
        self.nheap += 1;
        OBJ_TYS.with(|o| o.borrow_mut().insert(k, t));
        self.heap_set(k, v);
        Pl::new(Base::Obj(k, t))
    }
    pub fn top(&self) -> u32 {
        self.frames.len() as u32 - 1
    }
    pub fn taint(&mut self, why: &str) {
        if self.taint.is_none() {
            self.taint = Some(Rc::new(why.to_string()));
        }
    }
}

/// Index of a variant (the rustc_public accessor is private).
pub fn vidx(v: impl std::borrow::Borrow<rustc_public::ty::VariantIdx>) -> usize {
    const _: () = assert!(std::mem::size_of::<rustc_public::ty::VariantIdx>() == std::mem::size_of::<usize>());
    let v = v.borrow();
    // SAFETY: VariantIdx is a usize and a zero-sized marker.
    unsafe { *(v as *const rustc_public::ty::VariantIdx as *const usize) }
}
