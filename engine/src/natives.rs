//! Models of the standard library functions the decoder uses.
use crate::form::*;
use crate::interp::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::HashMap;
use std::rc::Rc;

pub type Out = R<Option<Vec<(State, Val)>>>;

fn one(st: State, v: Val) -> Out {
    Ok(Some(vec![(st, v)]))
}

pub fn ret_ty(en: &mut En, inst: Instance) -> Option<Ty> {
    if let Ok(a) = inst.fn_abi() {
        return Some(a.ret.ty);
    }
    en.info(inst).map(|i| i.body.ret_local().ty)
}
pub fn opt_none(t: Ty) -> Val {
    Val::en(t, variant_index(t, "None").unwrap_or(0), vec![])
}
pub fn opt_some(t: Ty, v: Val) -> Val {
    Val::en(t, variant_index(t, "Some").unwrap_or(1), vec![v])
}
pub fn res_ok(t: Ty, v: Val) -> Val {
    Val::en(t, 0, vec![v])
}
pub fn res_err(t: Ty, v: Val) -> Val {
    Val::en(t, 1, vec![v])
}

thread_local! {
    static METHODS: std::cell::RefCell<HashMap<(String, String), Option<FnDef>>> = std::cell::RefCell::new(HashMap::new());
}
/// method of a trait, by the trait's normalised path
pub fn trait_method(tr: &str, m: &str) -> Option<FnDef> {
    METHODS.with(|c| {
        let k = (tr.to_string(), m.to_string());
        if let Some(x) = c.borrow().get(&k) {
            return *x;
        }
        let mut r = None;
        for t in rustc_public::all_trait_decls() {
            if norm_name(&t.name().to_string()) == tr {
                for a in t.associated_items() {
                    if let AssocKind::Fn { name, .. } = &a.kind {
                        if name.to_string() == m {
                            r = Some(FnDef(a.def_id.0));
                        }
                    }
                }
            }
        }
        c.borrow_mut().insert(k, r);
        r
    })
}
pub fn method_on(tr: &str, m: &str, t: Ty) -> Option<Instance> {
    let d = trait_method(tr, m)?;
    Instance::resolve(d, &GenericArgs(vec![GenericArgKind::Type(t)])).ok()
}

fn generic_args(inst: Instance) -> Vec<Ty> {
    inst.args().0.iter().filter_map(|x| x.ty().cloned()).collect()
}

/// view of a slice, array or vector behind a reference
pub fn as_slice(en: &En, st: &State, v: &Val) -> R<SliceV> {
    match v {
        Val::Slice(s) => Ok((**s).clone()),
        Val::Ref(p) => {
            let t = en.read_pl(st, p)?;
            slice_of_place(&t, p)
        }
        Val::Sym(k, t) if is_string(*t) => Ok(sym_text(*k)),
        Val::Sym(k, t) => match sym(*k, *t) {
            Val::Sym(..) => unsup(format!("slice of symbolic {}", short_ty(*t))),
            x => as_slice(en, st, &x),
        },
        v => unsup(format!("slice expected, got {}", v.show_d(2))),
    }
}
fn slice_of_place(t: &Val, p: &Pl) -> R<SliceV> {
    match t {
        Val::Vec(v) => match (&v.base, v.items.is_empty()) {
            (Some((k, n)), true) => Ok(SliceV { base: SBase::Sym(*k, v.elem), start: Form::k(0), len: n.clone() }),
            (None, false) if !matches!(p.base, Base::Local(..)) || v.items.iter().all(is_plain) => {
                Ok(SliceV { base: SBase::Vals(Rc::new(v.items.clone())), start: Form::k(0), len: v.len() })
            }
            _ => Ok(SliceV { base: SBase::Obj(p.clone(), v.elem), start: Form::k(0), len: v.len() }),
        },
        Val::Agg(a) if elem_ty(a.ty).is_some() => Ok(SliceV {
            base: SBase::Obj(p.clone(), elem_ty(a.ty).unwrap()),
            start: Form::k(0),
            len: Form::k(a.f.len() as i128),
        }),
        Val::Slice(s) => Ok((**s).clone()),
        Val::Str(p) => Ok(str_slice(p)),
        Val::Sym(k, t) if is_string(*t) => Ok(sym_text(*k)),
        Val::Sym(k, t) if array_len(*t).is_some() => Ok(SliceV {
            base: SBase::Sym(*k, elem_ty(*t).unwrap()),
            start: Form::k(0),
            len: Form::k(array_len(*t).unwrap() as i128),
        }),
        v => unsup(format!("slice of {}", v.show_d(2))),
    }
}
fn is_plain(v: &Val) -> bool {
    match v {
        Val::Int(_) | Val::Bool(..) | Val::Slice(_) => true,
        Val::Agg(a) => a.f.iter().all(is_plain),
        Val::Enum(a) => a.f.iter().all(is_plain),
        Val::Sym(..) => true,
        _ => false,
    }
}
/// a field of a plain structure
fn field_at(v: &Val, i: usize) -> R<Val> {
    match v {
        Val::Agg(a) if i < a.f.len() => Ok(a.f[i].clone()),
        v => unsup(format!("structure expected, got {}", v.show_d(2))),
    }
}
fn with_field(v: &Val, i: usize, x: Val) -> R<Val> {
    match v {
        Val::Agg(a) if i < a.f.len() => {
            let mut f = a.f.clone();
            f[i] = x;
            Ok(Val::agg(a.ty, f))
        }
        v => unsup(format!("structure expected, got {}", v.show_d(2))),
    }
}
/// the first (last) place of a value in octets that are not known: there is none, or it is somewhere
fn found_in(en: &En, st: &State, s: &SliceV, x: &Form, ahead: bool, some: &dyn Fn(Form, State) -> R<(State, Val)>, none: (State, Val)) -> R<Option<Vec<(State, Val)>>> {
    if !ge0(en, st, &s.len.addk(-1))? {
        return one(none.0, none.1);
    }
    let f = Form::named(&format!("{} {} in {}", if ahead { "first" } else { "last" }, x.show(), show_slice(s)), -1, LEN_MAX);
    if truth(en, st, &f, VSet::one(-1))? {
        return one(none.0, none.1);
    }
    let mut s3 = st.clone();
    if !s3.facts.assume(&s.len.sub(&f), &VSet::range(1, LEN_MAX)) {
        return Err(Stop::Infeasible);
    }
    if let Ok(Val::Int(e)) = en.slice_elem(&s3, s, &f) {
        if !s3.facts.assume(&e.sub(x), &VSet::one(0)) {
            return Err(Stop::Infeasible);
        }
    }
    let (s3, v) = some(f, s3)?;
    one(s3, v)
}
/// the text of a symbolic string
fn sym_text(k: KeyId) -> SliceV {
    SliceV {
        base: SBase::Sym(key(&format!("{}.text", key_name(k))), Ty::unsigned_ty(UintTy::U8)),
        start: Form::k(0),
        len: Form::named(&format!("{}.text.len", key_name(k)), 0, LEN_MAX),
    }
}
pub fn str_slice(p: &Rc<Vec<Piece>>) -> SliceV {
    // a string that is one whole symbolic text is that text
    if p.len() == 1 {
        if let Piece::Arg(a) = &p[0] {
            if a.how == "text" {
                if let Val::Slice(s) = &a.val {
                    return (**s).clone();
                }
            }
        }
    }
    if p.iter().all(|x| matches!(x, Piece::Lit(_))) {
        let s: String = p
            .iter()
            .map(|x| match x {
                Piece::Lit(t) => t.clone(),
                _ => String::new(),
            })
            .collect();
        let n = s.len() as i128;
        return SliceV { base: SBase::Bytes(Rc::new(s.into_bytes())), start: Form::k(0), len: Form::k(n) };
    }
    let n = format!("len({})", show_pieces(p));
    SliceV { base: SBase::Text(p.clone()), start: Form::k(0), len: Form::named(&n, 0, LEN_MAX) }
}
pub fn text_pieces(s: &SliceV) -> Vec<Piece> {
    match (&s.base, s.start.constant(), s.len.constant()) {
        (SBase::Bytes(b), Some(st), Some(n)) => {
            if let Ok(t) = std::str::from_utf8(&b[st as usize..(st + n) as usize]) {
                if t.is_empty() {
                    return vec![];
                }
                return vec![Piece::Lit(t.to_string())];
            }
        }
        _ => {}
    }
    if let SBase::Text(p) = &s.base {
        return (**p).clone();
    }
    vec![Piece::Arg(Rc::new(ArgV { val: Val::Slice(Rc::new(s.clone())), ty: Ty::unsigned_ty(UintTy::U8), how: "text".into(), spec: "".into() }))]
}
pub fn push_pieces(v: &mut Vec<Piece>, more: Vec<Piece>) {
    for p in more {
        if let (Some(Piece::Lit(a)), Piece::Lit(b)) = (v.last_mut(), &p) {
            a.push_str(b);
            continue;
        }
        if let Piece::Lit(t) = &p {
            if t.is_empty() {
                continue;
            }
        }
        v.push(p);
    }
}

/// split or decide `f in s`
pub fn truth(en: &En, st: &State, f: &Form, s: VSet) -> R<bool> {
    match en.decide(st, f, &s) {
        Some(b) => Ok(b),
        None => split_bool(f, &s),
    }
}
fn ge0(en: &En, st: &State, f: &Form) -> R<bool> {
    truth(en, st, f, VSet::range(0, INF))
}
fn elem_ref(en: &En, st: &State, s: &SliceV, i: &Form) -> R<Val> {
    let p = en.slice_elem_pl(st, s, i)?;
    elem_ref_pl(en, st, p)
}
fn elem_ref_pl(_en: &En, _st: &State, p: Pl) -> R<Val> {
    Ok(Val::Ref(p))
}
fn sub(s: &SliceV, from: &Form, to: &Form) -> Val {
    Val::Slice(Rc::new(SliceV { base: s.base.clone(), start: s.start.add(from), len: to.sub(from) }))
}

/// range bounds (from, to-exclusive) of an index value
fn range_of(en: &En, st: &State, i: &Val, len: &Form) -> R<Option<(Form, Form)>> {
    let a = match i {
        Val::Agg(a) => a.clone(),
        Val::Sym(k, t) => match expand(*k, *t) {
            Some(Val::Agg(a)) => a,
            _ => return Ok(None),
        },
        _ => return Ok(None),
    };
    let n = adt_name(a.ty);
    let n = n.rsplit("::").next().unwrap_or("");
    let int = |v: &Val| en.as_int(st, v);
    Ok(Some(match n {
        "Range" => (int(&a.f[0])?, int(&a.f[1])?),
        "RangeFrom" => (int(&a.f[0])?, len.clone()),
        "RangeTo" => (Form::k(0), int(&a.f[0])?),
        "RangeFull" => (Form::k(0), len.clone()),
        "RangeInclusive" => (int(&a.f[0])?, int(&a.f[1])?.addk(1)),
        "RangeToInclusive" => (Form::k(0), int(&a.f[0])?.addk(1)),
        _ => return Ok(None),
    }))
}

/// element or subslice selected by an index value; None if out of bounds
fn get_index(en: &En, st: &State, s: &SliceV, i: &Val) -> R<Option<Val>> {
    match i {
        Val::Int(f) => {
            if ge0(en, st, &s.len.sub(f).addk(-1))? {
                Ok(Some(elem_ref(en, st, s, f)?))
            } else {
                Ok(None)
            }
        }
        _ => match range_of(en, st, i, &s.len)? {
            Some((a, b)) => {
                if !ge0(en, st, &b.sub(&a))? {
                    return Ok(None);
                }
                if !ge0(en, st, &s.len.sub(&b))? {
                    return Ok(None);
                }
                Ok(Some(sub(s, &a, &b)))
            }
            None => unsup(format!("index by {}", i.show_d(2))),
        },
    }
}

fn equal_int(en: &En, st: &State, a: &Val, b: &Val) -> R<bool> {
    let d = en.as_int(st, a)?.sub(&en.as_int(st, b)?);
    truth(en, st, &d, VSet::one(0))
}
fn named_eq(en: &En, st: &State, a: &str, b: &str) -> R<bool> {
    if a == b {
        return Ok(true);
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    let f = Form::named(&format!("eq({} ; {})", x, y), 0, 1);
    truth(en, st, &f, VSet::one(1))
}
/// equality of two values of the same shape, by splitting where needed
pub fn equal(en: &En, st: &State, a: &Val, b: &Val) -> R<bool> {
    if a == b && !matches!(a, Val::Undef | Val::Opaque(_)) {
        return Ok(true);
    }
    match (a, b) {
        (Val::Int(_), Val::Int(_)) => equal_int(en, st, a, b),
        (Val::Bool(f, s), Val::Bool(..)) => {
            let x = truth(en, st, f, s.clone())?;
            let y = en.truth(st, b)?;
            Ok(x == y)
        }
        (Val::Ref(_), Val::Ref(_)) => {
            let (x, y) = (en.load(st, a)?, en.load(st, b)?);
            equal(en, st, &x, &y)
        }
        (Val::Slice(x), Val::Slice(y)) => equal_slices(en, st, x, y),
        (Val::Agg(x), Val::Agg(y)) if x.f.len() == y.f.len() => {
            for (p, q) in x.f.iter().zip(y.f.iter()) {
                if !equal(en, st, p, q)? {
                    return Ok(false);
                }
            }
            Ok(true)
        }
        (Val::Sym(k, t), _) if is_string(*t) => equal(en, st, &Val::Slice(Rc::new(sym_text(*k))), b),
        (_, Val::Sym(k, t)) if is_string(*t) => equal(en, st, a, &Val::Slice(Rc::new(sym_text(*k)))),
        (Val::Agg(x), Val::Slice(_) | Val::Str(_) | Val::Ref(_)) if x.f.len() == 1 && adt_name(x.ty) == "std::string::String" => equal(en, st, &x.f[0], b),
        (Val::Slice(_) | Val::Str(_) | Val::Ref(_), Val::Agg(y)) if y.f.len() == 1 && adt_name(y.ty) == "std::string::String" => equal(en, st, a, &y.f[0]),
        (Val::Vec(_) | Val::Str(_), _) | (_, Val::Vec(_) | Val::Str(_)) => {
            let p = Pl::new(Base::Const(Rc::new(a.clone())));
            let q = Pl::new(Base::Const(Rc::new(b.clone())));
            let (x, y) = (slice_of_place(a, &p)?, slice_of_place(b, &q)?);
            equal_slices(en, st, &x, &y)
        }
        _ => {
            let named = |v: &Val| matches!(v, Val::Sym(_, t) if !is_enum(*t));
            if named(a) || named(b) {
                let x = match a {
                    Val::Sym(k, t) => expand(*k, *t),
                    v => Some(v.clone()),
                };
                let y = match b {
                    Val::Sym(k, t) => expand(*k, *t),
                    v => Some(v.clone()),
                };
                if let (Some(x), Some(y)) = (x, y) {
                    if x != *a || y != *b {
                        return equal(en, st, &x, &y);
                    }
                }
            }
            if matches!(a, Val::Sym(..) | Val::Enum(_)) && matches!(b, Val::Sym(..) | Val::Enum(_)) {
                let (i, f) = en.enum_fields(st, a)?;
                let (j, g) = en.enum_fields(st, b)?;
                if i != j {
                    return Ok(false);
                }
                for (p, q) in f.iter().zip(g.iter()) {
                    if !equal(en, st, p, q)? {
                        return Ok(false);
                    }
                }
                return Ok(true);
            }
            unsup(format!("comparison of {} with {}", a.show_d(2), b.show_d(2)))
        }
    }
}
pub fn equal_slices(en: &En, st: &State, x: &SliceV, y: &SliceV) -> R<bool> {
    if x == y {
        return Ok(true);
    }
    if x.base == y.base && st.facts.eq0(&x.start.sub(&y.start)) && st.facts.eq0(&x.len.sub(&y.len)) {
        return Ok(true);
    }
    let d = x.len.sub(&y.len);
    if !truth(en, st, &d, VSet::one(0))? {
        return Ok(false);
    }
    let n = match (st.facts.const_of(&x.len), st.facts.const_of(&y.len)) {
        (Some(n), _) | (_, Some(n)) => n,
        _ => return named_eq(en, st, &show_slice(x), &show_slice(y)),
    };
    if n > 64 {
        return named_eq(en, st, &show_slice(x), &show_slice(y));
    }
    for i in 0..n {
        let (a, b) = (en.slice_elem(st, x, &Form::k(i))?, en.slice_elem(st, y, &Form::k(i))?);
        if !equal(en, st, &a, &b)? {
            return Ok(false);
        }
    }
    Ok(true)
}

fn vec_of(v: &Val) -> R<Rc<VecV>> {
    match v {
        Val::Vec(v) => Ok(v.clone()),
        Val::Sym(k, t) => match sym(*k, *t) {
            Val::Vec(v) => Ok(v),
            _ => unsup("vector expected"),
        },
        v => unsup(format!("vector expected, got {}", v.show_d(2))),
    }
}
/// make the last element explicit; false if the vector is empty
fn expose_tail(en: &En, st: &State, v: &VecV) -> R<Option<VecV>> {
    if !v.items.is_empty() {
        return Ok(Some(v.clone()));
    }
    match &v.base {
        None => Ok(None),
        Some((k, n)) => {
            if ge0(en, st, &n.addk(-1))? {
                let m = n.addk(-1);
                let e = sym_elem(*k, &m, v.elem);
                Ok(Some(VecV { elem: v.elem, base: Some((*k, m)), items: vec![e] }))
            } else {
                Ok(None)
            }
        }
    }
}
/// all elements of a vector of known length
pub fn to_vec_val(en: &En, st: &State, s: &SliceV, e: Ty) -> R<Val> {
    match &s.base {
        SBase::Sym(k, _) if s.start.constant() == Some(0) => {
            Ok(Val::Vec(Rc::new(VecV { elem: e, base: Some((*k, s.len.clone())), items: vec![] })))
        }
        _ => {
            if let Some(n) = st.facts.const_of(&s.len) {
                if n <= 64 {
                    let mut items = vec![];
                    for i in 0..n {
                        items.push(en.slice_elem(st, s, &Form::k(i))?);
                    }
                    return Ok(Val::Vec(Rc::new(VecV { elem: e, base: None, items })));
                }
            }
            match &s.base {
                SBase::Sym(k, _) => {
                    // a region that starts in the middle of another
                    let nk = key(&format!("{}@{}", key_name(*k), s.start.show()));
                    Ok(Val::Vec(Rc::new(VecV { elem: e, base: Some((nk, s.len.clone())), items: vec![] })))
                }
                _ => unsup("copy of a slice of unknown length"),
            }
        }
    }
}

pub fn alloc_event(en: &mut En, st: &State, what: &str, n: &Form, from: Option<&SliceV>) {
    if !crate::observe::on() {
        return;
    }
    let (func, span) = en.cur.clone();
    en.allocs.push(Alloc { what: what.to_string(), size: n.clone(), from: from.cloned(), func, span, state: st.clone() });
}

/// an element of a list that is an octet of the input
fn octet_event(en: &mut En, st: &State, v: &Val) {
    if let Val::Int(f) = v {
        let a = f.atoms();
        if crate::observe::on() && a.len() == 1 && *f == Form::atom(a[0]) && atom_range(a[0]) == (0, 255) && atom_name(a[0]).ends_with(']') {
            alloc_event(en, st, "octets copied one by one", &Form::k(1), None);
        }
    }
}

pub fn intrinsic(en: &mut En, st: &State, name: &str, inst: Instance, args: &[Val]) -> Out {
    let st2 = st.clone();
    match name {
        "discriminant_value" => {
            let v = en.load(st, &args[0])?;
            let d = en.discriminant(&v)?;
            // variant index for unit-like comparison
            return one(st2, d);
        }
        "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "assume" => {
            if name == "assume" {
                let mut s = st.clone();
                if let Val::Bool(f, set) = &args[0] {
                    if !s.facts.assume(f, set) {
                        return Err(Stop::Infeasible);
                    }
                }
                return one(s, Val::unit());
            }
            return one(st2, Val::unit());
        }
        "likely" | "unlikely" | "black_box" => return one(st2, args[0].clone()),
        "size_of" | "align_of" | "min_align_of" | "size_of_val" => {
            let t = generic_args(inst)[0];
            return one(st2, Val::int(size_of(t)? as i128));
        }
        "needs_drop" => return one(st2, Val::bool(false)),
        "saturating_add" | "saturating_sub" => {
            let t = generic_args(inst)[0];
            let (lo, hi) = int_range(t).unwrap();
            let (a, b) = (en.as_int(st, &args[0])?, en.as_int(st, &args[1])?);
            let f = if name == "saturating_add" { a.add(&b) } else { a.sub(&b) };
            let r = st.facts.vset(&f);
            if r.is_empty() {
                return Err(Stop::Infeasible);
            }
            if r.lo() >= lo && r.hi() <= hi {
                return one(st2, Val::Int(f));
            }
            if r.hi() < lo {
                return one(st2, Val::int(lo));
            }
            if r.lo() > hi {
                return one(st2, Val::int(hi));
            }
            return Err(Stop::Split(f, vec![VSet::range(-INF, lo - 1), VSet::range(lo, hi), VSet::range(hi + 1, INF)]));
        }
        "wrapping_add" | "unchecked_add" | "wrapping_sub" | "unchecked_sub" => {
            let t = generic_args(inst)[0];
            let (a, b) = (en.as_int(st, &args[0])?, en.as_int(st, &args[1])?);
            let f = if name.ends_with("add") { a.add(&b) } else { a.sub(&b) };
            let f = en.wrap(st, f, t)?;
            return one(st2, Val::Int(f));
        }
        "wrapping_mul" | "unchecked_mul" => {
            let t = generic_args(inst)[0];
            let (a, b) = (en.as_int(st, &args[0])?, en.as_int(st, &args[1])?);
            let f = en.mul(st, &a, &b)?;
            let f = en.wrap(st, f, t)?;
            return one(st2, Val::Int(f));
        }
        "exact_div" | "unchecked_div" | "unchecked_rem" => {
            let (a, b) = (en.as_int(st, &args[0])?, en.as_int(st, &args[1])?);
            let f = en.div_rem(st, &a, &b, name == "unchecked_rem")?;
            return one(st2, Val::Int(f));
        }
        "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "ctlz_nonzero" | "cttz_nonzero" => {
            let t = generic_args(inst)[0];
            let (bits, signed) = int_bits(t).unwrap();
            let f = en.as_int(st, &args[0])?;
            let k = bits.min(64);
            let mask = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
            let n = name.to_string();
            let fun = move |x: i128| -> i128 {
                let u = (x as u128) & mask;
                let r = match n.as_str() {
                    "ctpop" => u.count_ones() as u128,
                    "ctlz" | "ctlz_nonzero" => (u.leading_zeros() - (128 - bits)) as u128,
                    "cttz" | "cttz_nonzero" => (u.trailing_zeros().min(bits)) as u128,
                    "bswap" => u.swap_bytes() >> (128 - bits),
                    _ => u.reverse_bits() >> (128 - bits),
                };
                let _ = k;
                r as i128
            };
            if signed && name == "bswap" {
                return unsup("byte swap of a signed integer");
            }
            if name == "bswap" && bits > 8 && f.constant().is_none() {
                // only meaningful on a sum of octets
                let by = octets_of(&f, (bits / 8) as usize);
                if let Some(by) = by {
                    let mut r = Form::k(0);
                    for (i, b) in by.iter().enumerate() {
                        r = r.comb(1, b, 1i128 << (8 * (by.len() - 1 - i)));
                    }
                    return one(st2, Val::Int(r));
                }
                return unsup("byte swap");
            }
            return match f.map_small(&fun) {
                Some(g) => one(st2, Val::Int(g)),
                None => unsup(format!("{} of {}", name, f.show())),
            };
        }
        "read_via_copy" | "volatile_load" => {
            let v = en.load(st, &args[0])?;
            return one(st2, v);
        }
        "write_via_move" => {
            let mut s = st.clone();
            en.store(&mut s, &args[0], args[1].clone())?;
            return one(s, Val::unit());
        }
        "write_box_via_move" => {
            let mut s = st.clone();
            en.store(&mut s, &args[0], args[1].clone())?;
            return one(s, args[0].clone());
        }
        "typed_swap_nonoverlapping" => {
            let mut s = st.clone();
            let (a, b) = (en.load(st, &args[0])?, en.load(st, &args[1])?);
            en.store(&mut s, &args[0], b)?;
            en.store(&mut s, &args[1], a)?;
            return one(s, Val::unit());
        }
        "slice_get_unchecked" => {
            // (slice pointer, index) -> element pointer
            let s = as_slice(en, st, &args[0])?;
            let f = en.as_int(st, &args[1])?;
            let r = elem_ref(en, st, &s, &f)?;
            return one(st2, r);
        }
        "transmute" | "transmute_unchecked" => {
            let (from, to) = (generic_args(inst)[0], generic_args(inst)[1]);
            let v = en.cast(st, &rustc_public::mir::CastKind::Transmute, args[0].clone(), from, to)?;
            return one(st2, v);
        }
        "abort" => return Err(Stop::Panic("abort".into())),
        "ub_checks" | "overflow_checks" => return one(st2, Val::bool(name == "overflow_checks")),
        "type_id" | "type_name" | "caller_location" => {
            let t = ret_ty(en, inst);
            return match t {
                Some(t) => one(st2, sym(key(&format!("{}()", name)), t)),
                None => unsup(name.to_string()),
            };
        }
        _ => {}
    }
    Ok(None)
}
/// split a form into its little-endian octets if it is a sum of octet atoms times powers of 256
fn octets_of(f: &Form, n: usize) -> Option<Vec<Form>> {
    if f.c < 0 {
        return None;
    }
    let mut r = vec![Form::k(0); n];
    for i in 0..n {
        r[i] = Form::k((f.c >> (8 * i)) & 0xff);
    }
    for (a, t) in f.t.iter() {
        let (lo, hi) = atom_range(*a);
        match t {
            Term::Lin(k) if lo >= 0 && hi <= 255 && *k > 0 && (*k & (*k - 1)) == 0 && k.trailing_zeros() % 8 == 0 => {
                let i = (k.trailing_zeros() / 8) as usize;
                if i >= n || r[i].constant() != Some(0) {
                    return None;
                }
                r[i] = Form::atom(*a);
            }
            _ => return None,
        }
    }
    Some(r)
}

/// call a closure or function value
pub fn call_value(en: &mut En, st: &State, f: &Val, env: Option<Val>, args: Vec<Val>) -> R<Vec<(State, Val)>> {
    let ty = match f {
        Val::Agg(a) => a.ty,
        Val::Fn(t) => *t,
        Val::Ref(_) => {
            let v = en.load(st, f)?;
            return call_value(en, st, &v, Some(f.clone()), args);
        }
        v => return unsup(format!("call of {}", v.show_d(2))),
    };
    match &*kind(ty) {
        TyKind::RigidTy(RigidTy::Closure(d, ga)) => {
            let inst = Instance::resolve_closure(*d, ga, ClosureKind::FnMut)
                .or_else(|_| Instance::resolve_closure(*d, ga, ClosureKind::FnOnce))
                .map_err(|_| Stop::Unsup("closure".into()))?;
            // by reference if the body expects one
            let byref = en
                .info(inst)
                .map(|i| i.body.arg_locals().first().map(|l| pointee(l.ty).is_some()).unwrap_or(false))
                .unwrap_or(false);
            let mut st = st.clone();
            let e = if byref {
                match env {
                    Some(e) => e,
                    None => Val::Ref(st.new_obj(f.clone(), ty)),
                }
            } else {
                f.clone()
            };
            let mut a = vec![e];
            a.extend(args);
            en.call_inst(&st, inst, a)
        }
        TyKind::RigidTy(RigidTy::FnDef(..)) => en.call_ty(st, ty, args, false),
        _ => unsup("call of unknown function value"),
    }
}

/// next() of an iterator stored at a place
pub fn iter_next(en: &mut En, st: &State, p: &Pl, t: Ty) -> R<Vec<(State, Val)>> {
    let i = match method_on("std::iter::Iterator", "next", t) {
        Some(i) => i,
        None => return unsup(format!("no iterator {}", short_ty(t))),
    };
    en.call_inst(st, i, vec![Val::Ref(p.clone())])
}

/// run a loop that is implemented natively; `body` performs one iteration on the top frame (label 0 repeats)
fn native_loop(
    en: &mut En,
    st: &State,
    inst: Instance,
    locals: Vec<Val>,
    what: &str,
    body: &dyn Fn(&mut En, State) -> Vec<(State, usize)>,
) -> Vec<(State, usize)> {
    let mut s = st.clone();
    s.frames.push(Rc::new(Frame { inst, locals }));
    let span = en.cur.1.clone();
    let outs = en.run_loop(s, 0, body, &|_| true, what, &span);
    outs
}
fn pop_frame(mut s: State) -> (State, Vec<Val>) {
    let f = s.frames.pop().unwrap();
    (s, f.locals.clone())
}
fn set_local(s: &mut State, i: usize, v: Val) {
    let u = s.top() as usize;
    Rc::make_mut(&mut s.frames[u]).locals[i] = v;
}
fn get_local(s: &State, i: usize) -> Val {
    s.frames[s.top() as usize].locals[i].clone()
}
/// run `f`, turning case distinctions and ends into recorded outcomes
fn settle(en: &mut En, st: State, f: &mut dyn FnMut(&mut En, &State) -> R<Vec<(State, usize)>>) -> Vec<(State, usize)> {
    let mut work = vec![st];
    let mut out = vec![];
    let mut n = 0;
    while let Some(s) = work.pop() {
        n += 1;
        if n > 4000 {
            en.end(EndKind::Unsup("too many cases in a native loop".into()), s);
            return out;
        }
        match f(en, &s) {
            Ok(v) => out.extend(v),
            Err(Stop::Split(g, sets)) => {
                let cur = s.facts.vset(&g);
                let mut progress = false;
                let mut next = vec![];
                for set in sets {
                    let mut t = s.clone();
                    if !t.facts.assume(&g, &set) {
                        progress = true;
                        continue;
                    }
                    progress |= t.facts.vset(&g) != cur;
                    next.push(t);
                }
                if progress {
                    work.extend(next);
                } else {
                    en.end(EndKind::Unsup(format!("case distinction without progress on {}", g.show())), s);
                }
            }
            Err(Stop::Panic(m)) => en.end(EndKind::Panic(m), s),
            Err(Stop::Unsup(m)) => en.end(EndKind::Unsup(m), s),
            Err(Stop::Infeasible) => {}
        }
    }
    out
}
fn each_variant(en: &mut En, outs: Vec<(State, Val)>) -> Vec<(State, u32, Vec<Val>)> {
    let mut r = vec![];
    for (s, v) in outs {
        let mut acc: Vec<(State, u32, Vec<Val>)> = vec![];
        let v2 = v.clone();
        settle(en, s, &mut |en, s| {
            let (i, f) = en.enum_fields(s, &v2)?;
            acc.push((s.clone(), i, f));
            Ok(vec![])
        });
        r.extend(acc);
    }
    r
}

/// item loop: locals = [iterator, acc, f]; `step(en, state, item)` -> (state, label)
fn item_loop(
    en: &mut En,
    st: &State,
    inst: Instance,
    it: Val,
    it_ty: Ty,
    by_ref: Option<Pl>,
    rest: Vec<Val>,
    what: &str,
    step: &dyn Fn(&mut En, &State, Val) -> R<Vec<(State, usize)>>,
) -> Vec<(State, usize)> {
    let mut locals = vec![it];
    locals.extend(rest);
    let body = |en: &mut En, s: State| -> Vec<(State, usize)> {
        let p = match &by_ref {
            Some(p) => p.clone(),
            None => Pl::local(s.top(), 0),
        };
        let mut nx: Vec<(State, Val)> = vec![];
        settle(en, s, &mut |en, s| {
            nx.extend(iter_next(en, s, &p, it_ty)?);
            Ok(vec![])
        });
        let mut out = vec![];
        for (s, i, f) in each_variant(en, nx) {
            if i == 0 {
                out.push((s, 1));
            } else {
                let item = f[0].clone();
                out.extend(settle(en, s, &mut |en, s| step(en, s, item.clone())));
            }
        }
        out
    };
    native_loop(en, st, inst, locals, what, &body)
}

impl En {
    /// call `next` until there is no more
    pub fn exhaust(&mut self, st: State, next: Instance, it: Val, what: &str) {
        let body = |en: &mut En, s: State| -> Vec<(State, usize)> {
            let p = Pl::local(s.top(), 0);
            let mut nx: Vec<(State, Val)> = vec![];
            settle(en, s, &mut |en, s| {
                nx.extend(en.call_inst(s, next, vec![Val::Ref(p.clone())])?);
                Ok(vec![])
            });
            each_variant(en, nx).into_iter().map(|(s, i, _)| (s, if i == 0 { 1 } else { 0 })).collect()
        };
        native_loop(self, &st, next, vec![it], what, &body);
    }
}
fn default_iter_method(en: &mut En, st: &State, m: &str, inst: Instance, args: &[Val], self_ty: Ty) -> Out {
    let rt = ret_ty(en, inst);
    // by-value or by-reference receiver
    let (by_ref, it) = match (&args[0], m) {
        (Val::Ref(p), "all" | "any" | "find" | "position" | "find_map" | "try_fold" | "try_for_each" | "nth") => (Some(p.clone()), Val::unit()),
        (v, _) => (None, v.clone()),
    };
    let up = |n: usize| -> Val { args.get(n).cloned().unwrap_or(Val::unit()) };
    let fin = |s: State| pop_frame(s);
    match m {
        "fold" => {
            let step = |en: &mut En, s: &State, item: Val| -> R<Vec<(State, usize)>> {
                let f = get_local(s, 2);
                let env = Val::Ref(Pl::local(s.top(), 2));
                let acc = get_local(s, 1);
                let r = call_value(en, s, &f, Some(env), vec![acc, item])?;
                Ok(r.into_iter()
                    .map(|(mut s, v)| {
                        set_local(&mut s, 1, v);
                        (s, 0)
                    })
                    .collect())
            };
            let outs = item_loop(en, st, inst, it, self_ty, by_ref, vec![up(1), up(2)], "Iterator::fold", &step);
            Ok(Some(
                outs.into_iter()
                    .map(|(s, _)| {
                        let (s, l) = fin(s);
                        (s, l[1].clone())
                    })
                    .collect(),
            ))
        }
        "for_each" => {
            let step = |en: &mut En, s: &State, item: Val| -> R<Vec<(State, usize)>> {
                let f = get_local(s, 1);
                let env = Val::Ref(Pl::local(s.top(), 1));
                let r = call_value(en, s, &f, Some(env), vec![item])?;
                Ok(r.into_iter().map(|(s, _)| (s, 0)).collect())
            };
            let outs = item_loop(en, st, inst, it, self_ty, by_ref, vec![up(1)], "Iterator::for_each", &step);
            Ok(Some(outs.into_iter().map(|(s, _)| (fin(s).0, Val::unit())).collect()))
        }
        "count" => {
            let step = |en: &mut En, s: &State, _item: Val| -> R<Vec<(State, usize)>> {
                let mut s = s.clone();
                let c = en.as_int(&s, &get_local(&s, 1))?.addk(1);
                set_local(&mut s, 1, Val::Int(c));
                Ok(vec![(s, 0)])
            };
            let outs = item_loop(en, st, inst, it, self_ty, by_ref, vec![Val::int(0)], "Iterator::count", &step);
            Ok(Some(
                outs.into_iter()
                    .map(|(s, _)| {
                        let (s, l) = fin(s);
                        (s, l[1].clone())
                    })
                    .collect(),
            ))
        }
        "all" | "any" => {
            let stop_on = m == "any";
            let step = move |en: &mut En, s: &State, item: Val| -> R<Vec<(State, usize)>> {
                let f = get_local(s, 1);
                let env = Val::Ref(Pl::local(s.top(), 1));
                let r = call_value(en, s, &f, Some(env), vec![item])?;
                let mut out = vec![];
                for (s, v) in r {
                    out.extend(settle(en, s, &mut |en, s| {
                        let b = en.truth(s, &v)?;
                        Ok(vec![(s.clone(), if b == stop_on { 2 } else { 0 })])
                    }));
                }
                Ok(out)
            };
            let outs = item_loop(en, st, inst, it, self_ty, by_ref, vec![up(1)], "Iterator::all/any", &step);
            Ok(Some(
                outs.into_iter()
                    .map(|(s, l)| (fin(s).0, Val::bool(if l == 2 { stop_on } else { !stop_on })))
                    .collect(),
            ))
        }
        "find" | "position" | "find_map" => {
            let rt = match rt {
                Some(t) => t,
                None => return unsup("type of find"),
            };
            let mm = m.to_string();
            let step = move |en: &mut En, s: &State, item: Val| -> R<Vec<(State, usize)>> {
                let f = get_local(s, 1);
                let env = Val::Ref(Pl::local(s.top(), 1));
                let mut s0 = s.clone();
                let arg = if mm == "find" {
                    let it = s0.new_obj(item.clone(), Ty::unsigned_ty(UintTy::U8));
                    Val::Ref(it)
                } else {
                    item.clone()
                };
                let r = call_value(en, &s0, &f, Some(env), vec![arg])?;
                let mut out = vec![];
                for (s, v) in r {
                    out.extend(settle(en, s, &mut |en, s| {
                        let mut s = s.clone();
                        if mm == "find_map" {
                            let (i, f) = en.enum_fields(&s, &v)?;
                            if i == 1 {
                                set_local(&mut s, 2, f[0].clone());
                                return Ok(vec![(s, 2)]);
                            }
                            return Ok(vec![(s, 0)]);
                        }
                        if en.truth(&s, &v)? {
                            if mm == "find" {
                                set_local(&mut s, 2, item.clone());
                            }
                            Ok(vec![(s, 2)])
                        } else {
                            if mm == "position" {
                                let c = en.as_int(&s, &get_local(&s, 2))?.addk(1);
                                set_local(&mut s, 2, Val::Int(c));
                            }
                            Ok(vec![(s, 0)])
                        }
                    }));
                }
                Ok(out)
            };
            let init = if m == "position" { Val::int(0) } else { Val::Undef };
            let outs = item_loop(en, st, inst, it, self_ty, by_ref, vec![up(1), init], "Iterator::find", &step);
            Ok(Some(
                outs.into_iter()
                    .map(|(s, lb)| {
                        let (s, l) = fin(s);
                        (s, if lb == 2 { opt_some(rt, l[2].clone()) } else { opt_none(rt) })
                    })
                    .collect(),
            ))
        }
        _ => Ok(None),
    }
}

/// collect an iterator into a vector
fn collect_vec(en: &mut En, st: &State, inst: Instance, it: Val, it_ty: Ty, init: VecV) -> Out {
    // a whole owned sequence
    if let Val::Iter(i) = &it {
        if let IterV::Slice(SliceV { base: SBase::Sym(k, _), start, len }, true) = &**i {
            if start.constant() == Some(0) && init.base.is_none() && init.items.is_empty() {
                if let IterV::Slice(s, _) = &**i {
                    alloc_event(en, st, "collect", len, Some(s));
                }
                return one(st.clone(), Val::Vec(Rc::new(VecV { elem: init.elem, base: Some((*k, len.clone())), items: vec![] })));
            }
        }
    }
    let step = |en: &mut En, s: &State, item: Val| -> R<Vec<(State, usize)>> {
        octet_event(en, s, &item);
        let mut s = s.clone();
        let mut v = (*vec_of(&get_local(&s, 1))?).clone();
        v.items.push(item);
        set_local(&mut s, 1, Val::Vec(Rc::new(v)));
        Ok(vec![(s, 0)])
    };
    let outs = item_loop(en, st, inst, it, it_ty, None, vec![Val::Vec(Rc::new(init))], "Iterator::collect", &step);
    Ok(Some(
        outs.into_iter()
            .map(|(s, _)| {
                let (s, l) = pop_frame(s);
                (s, l[1].clone())
            })
            .collect(),
    ))
}

/// decode the compact format template
pub fn decode_template(t: &[u8], args: &[Rc<ArgV>]) -> R<Vec<Piece>> {
    let mut out: Vec<Piece> = vec![];
    let mut i = 0;
    let mut next = 0usize;
    while i < t.len() {
        let b = t[i];
        i += 1;
        if b == 0 {
            break;
        }
        if b < 0x80 {
            let n = b as usize;
            let s = String::from_utf8_lossy(&t[i..i + n]).to_string();
            push_pieces(&mut out, vec![Piece::Lit(s)]);
            i += n;
            continue;
        }
        if b == 0x80 {
            let n = t[i] as usize | (t[i + 1] as usize) << 8;
            i += 2;
            let s = String::from_utf8_lossy(&t[i..i + n]).to_string();
            push_pieces(&mut out, vec![Piece::Lit(s)]);
            i += n;
            continue;
        }
        if b < 0xC0 {
            return unsup("format template");
        }
        let mut spec = String::new();
        if b & 1 != 0 {
            let f = u32::from_le_bytes([t[i], t[i + 1], t[i + 2], t[i + 3]]);
            i += 4;
            // space fill, no flags
            if f & 0x1fffff != 0x20 || f >> 21 != 0 {
                spec.push_str(&format!("#{:x}", f));
            }
        }
        if b & 2 != 0 {
            let w = u16::from_le_bytes([t[i], t[i + 1]]);
            i += 2;
            spec.push_str(&format!("w{}{}", if b & 16 != 0 { "$" } else { "" }, w));
        }
        if b & 4 != 0 {
            let w = u16::from_le_bytes([t[i], t[i + 1]]);
            i += 2;
            spec.push_str(&format!(".{}{}", if b & 32 != 0 { "$" } else { "" }, w));
        }
        if b & 8 != 0 {
            next = u16::from_le_bytes([t[i], t[i + 1]]) as usize;
            i += 2;
        }
        let a = match args.get(next) {
            Some(a) => a.clone(),
            None => return unsup("format argument"),
        };
        next += 1;
        push_pieces(&mut out, arg_pieces(&a, &spec));
    }
    Ok(out)
}
fn arg_pieces(a: &Rc<ArgV>, spec: &str) -> Vec<Piece> {
    if spec.is_empty() && a.how == "Display" {
        if let Val::Slice(s) = &a.val {
            return text_pieces(s);
        }
        if let Val::Str(p) = &a.val {
            return (**p).clone();
        }
        if let Val::Int(f) = &a.val {
            if let (Some(c), true) = (f.constant(), int_bits(a.ty).map(|b| b.0 <= 64).unwrap_or(false)) {
                if !matches!(&*kind(a.ty), TyKind::RigidTy(RigidTy::Char)) {
                    return vec![Piece::Lit(c.to_string())];
                }
                if let Some(ch) = char::from_u32(c as u32) {
                    return vec![Piece::Lit(ch.to_string())];
                }
            }
        }
    }
    if spec.is_empty() {
        return vec![Piece::Arg(a.clone())];
    }
    vec![Piece::Arg(Rc::new(ArgV { val: a.val.clone(), ty: a.ty, how: a.how.clone(), spec: spec.to_string() }))]
}
/// strip references
fn strip(en: &En, st: &State, v: &Val, t: Ty) -> (Val, Ty) {
    let mut v = v.clone();
    let mut t = t;
    for _ in 0..6 {
        match pointee(t) {
            Some(p) if !is_dyn(p) => {
                if is_unsized_seq(p) {
                    break;
                }
                match en.load(st, &v) {
                    Ok(x) => {
                        v = x;
                        t = p;
                    }
                    Err(_) => break,
                }
            }
            _ => break,
        }
    }
    (v, t)
}

/// write pieces to a sink, running local Display implementations
pub fn write_pieces(en: &mut En, st: &State, sink: &Val, pieces: &[Piece], io: Option<&str>) -> R<Vec<(State, Val)>> {
    let mut cur = vec![st.clone()];
    for p in pieces {
        let mut next = vec![];
        for s in cur {
            let mut done = false;
            if let Piece::Arg(a) = p {
                if a.spec.is_empty() && a.how == "Display" {
                    if let Some(i) = local_display(a.ty, "std::fmt::Display") {
                        let f = match io {
                            Some(n) => Val::Ref(Pl::new(Base::Obj(key(n), a.ty))),
                            None => sink.clone(),
                        };
                        let mut s2 = s.clone();
                        let r = match &a.val {
                            v if pointee(a.ty).is_some() => v.clone(),
                            v => Val::Ref(s2.new_obj(v.clone(), a.ty)),
                        };
                        let outs = en.call_inst(&s2, i, vec![r, f])?;
                        for (s3, _) in outs {
                            next.push(s3);
                        }
                        done = true;
                    }
                }
            }
            if !done {
                let mut s = s;
                emit(en, &mut s, sink, vec![p.clone()], io)?;
                next.push(s);
            }
        }
        cur = next;
    }
    Ok(cur.into_iter().map(|s| (s, Val::unit())).collect())
}
fn local_display(t: Ty, tr: &str) -> Option<Instance> {
    let adt = matches!(&*kind(t), TyKind::RigidTy(RigidTy::Adt(..)));
    if !adt {
        return None;
    }
    let i = method_on(tr, "fmt", t)?;
    if i.def.krate().is_local {
        Some(i)
    } else {
        None
    }
}
pub fn sink_name(en: &En, st: &State, sink: &Val) -> String {
    match sink {
        Val::Ref(p) => {
            if let Ok(v @ Val::Ref(_)) = en.read_pl(st, p) {
                return sink_name(en, st, &v);
            }
            match &p.base {
                Base::Obj(k, _) => key_name(*k),
                _ => show_pl(p),
            }
        }
        Val::SymDyn(k, _) => key_name(*k),
        Val::Dyn(p, _) => sink_name(en, st, p),
        v => v.show_d(2),
    }
}
pub fn emit(en: &mut En, st: &mut State, sink: &Val, pieces: Vec<Piece>, io: Option<&str>) -> R<()> {
    if pieces.is_empty() {
        return Ok(());
    }
    // values that live in locals are resolved now
    let pieces: Vec<Piece> = pieces
        .into_iter()
        .map(|p| match p {
            Piece::Arg(a) => Piece::Arg(Rc::new(ArgV { val: en.snapshot(st, &a.val), ty: a.ty, how: a.how.clone(), spec: a.spec.clone() })),
            p => p,
        })
        .collect();
    let name = match io {
        Some(n) => n.to_string(),
        None => {
            // writing to a string in memory
            if let Val::Ref(p) = sink {
                let cur = en.read_pl(st, p);
                if let Ok(Val::Str(s)) = cur {
                    let mut v = (*s).clone();
                    push_pieces(&mut v, pieces);
                    return en.write_pl(st, p, Val::Str(Rc::new(v)));
                }
                if let Ok(Val::Ref(_)) = cur {
                    let inner = cur.unwrap();
                    return emit(en, st, &inner, pieces, None);
                }
            }
            sink_name(en, st, sink)
        }
    };
    // consecutive writes to the same sink are one text
    if let Some(Event::Emit(n, p)) = st.trace.last() {
        if *n == name {
            let mut v = (**p).clone();
            push_pieces(&mut v, pieces);
            let e = Event::Emit(name, Rc::new(v));
            let t = Rc::make_mut(&mut st.trace);
            t.pop();
            t.push(e);
            return Ok(());
        }
    }
    st.emit(Event::Emit(name, Rc::new(pieces)));
    Ok(())
}

fn fmt_pieces(en: &En, st: &State, v: &Val) -> R<Rc<Vec<Piece>>> {
    match v {
        Val::Fmt(p) => Ok(p.clone()),
        Val::Ref(_) => {
            let x = en.load(st, v)?;
            fmt_pieces(en, st, &x)
        }
        v => unsup(format!("format arguments expected, got {}", v.show_d(2))),
    }
}

pub fn native(en: &mut En, st: &State, name: &str, inst: Instance, args: &[Val]) -> Out {
    let st2 = st.clone();
    macro_rules! rt {
        () => {
            match ret_ty(en, inst) {
                Some(t) => t,
                None => return unsup(format!("return type of {}", name)),
            }
        };
    }
    // ---------------------------------------------------------------- slices and strings
    // trimming leaves some part of the text
    if let Some(m) = name.strip_prefix("std::str::<impl str>::").or_else(|| name.strip_prefix("std::slice::ascii::<impl [u8]>::")) {
        if m.starts_with("trim") {
            let s = as_slice(en, st, &args[0])?;
            let mut s3 = st.clone();
            let nm = show_slice(&s);
            let a = if m.contains("_end") || m.contains("_right") { Form::k(0) } else { Form::named(&format!("{} start({})", m, nm), 0, LEN_MAX) };
            let b = if m.contains("_start") || m.contains("_left") { Form::k(0) } else { Form::named(&format!("{} end({})", m, nm), 0, LEN_MAX) };
            let left = s.len.sub(&a).sub(&b);
            if !s3.facts.assume(&left, &VSet::range(0, LEN_MAX)) {
                return Err(Stop::Infeasible);
            }
            return one(s3, Val::Slice(Rc::new(SliceV { base: s.base.clone(), start: s.start.add(&a), len: left })));
        }
    }
    // text in another form
    if let Some(m) = name.strip_prefix("std::str::<impl str>::") {
        if ["to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace"].contains(&m) {
            let s = as_slice(en, st, &args[0])?;
            if m != "replace" {
                if let [Piece::Lit(t)] = &text_pieces(&s)[..] {
                    let t = match m {
                        "to_lowercase" => t.to_lowercase(),
                        "to_uppercase" => t.to_uppercase(),
                        "to_ascii_lowercase" => t.to_ascii_lowercase(),
                        _ => t.to_ascii_uppercase(),
                    };
                    return one(st2, Val::Str(Rc::new(vec![Piece::Lit(t)])));
                }
            }
            let mut s3 = st.clone();
            alloc_event(en, &mut s3, m, &s.len, None);
            let a = ArgV { val: Val::Slice(Rc::new(s)), ty: Ty::unsigned_ty(UintTy::U8), how: m.to_string(), spec: "".into() };
            return one(s3, Val::Str(Rc::new(vec![Piece::Arg(Rc::new(a))])));
        }
        if m == "bytes" {
            // Bytes(Copied(slice::Iter))
            let t = rt!();
            let inner = variant_fields(t, 0);
            let s = as_slice(en, st, &args[0])?;
            if inner.len() != 1 || variant_fields(inner[0], 0).len() != 1 {
                return unsup("bytes of a text");
            }
            return one(st2, Val::agg(t, vec![Val::agg(inner[0], vec![Val::Iter(Rc::new(IterV::Slice(s, false)))])]));
        }
        if m == "chars" {
            let t = rt!();
            let s = as_slice(en, st, &args[0])?;
            return one(st2, Val::agg(t, vec![Val::Iter(Rc::new(IterV::Slice(s, false)))]));
        }
    }
    // some text is ASCII and some is not
    if name == "std::str::<impl str>::is_ascii" || name == "std::slice::ascii::<impl [u8]>::is_ascii" {
        let s = as_slice(en, st, &args[0])?;
        if let [Piece::Lit(t)] = &text_pieces(&s)[..] {
            return one(st2, Val::bool(t.is_ascii()));
        }
        let f = Form::named(&format!("is_ascii({})", show_slice(&s)), 0, 1);
        return one(st2, Val::bool(truth(en, st, &f, VSet::one(1))?));
    }
    // the characters of a text: those of one octet, and others
    if name == "<std::str::Chars<'a> as std::iter::Iterator>::next" {
        let t = rt!();
        if let (Val::Ref(p), Ok(c)) = (&args[0], en.load(st, &args[0])) {
            if let Ok(Val::Iter(i)) = field_at(&c, 0) {
                if let IterV::Slice(s, _) = &*i {
                    if !ge0(en, st, &s.len.addk(-1))? {
                        return one(st2, opt_none(t));
                    }
                    let b = match en.slice_elem(st, s, &Form::k(0))? {
                        Val::Int(f) => f,
                        v => return unsup(format!("character {}", v.show_d(2))),
                    };
                    let mut s3 = st.clone();
                    let (ch, n) = if truth(en, st, &b, VSet::range(0, 0x7F))? {
                        (b, Form::k(1))
                    } else {
                        let nm = show_slice(s);
                        let (ch, n) = (Form::named(&format!("character({})", nm), 0x80, 0x10FFFF), Form::named(&format!("character length({})", nm), 2, 4));
                        if !s3.facts.assume(&s.len.sub(&n), &VSet::range(0, LEN_MAX)) {
                            return Err(Stop::Infeasible);
                        }
                        (ch, n)
                    };
                    let rest = SliceV { base: s.base.clone(), start: s.start.add(&n), len: s.len.sub(&n) };
                    en.write_pl(&mut s3, p, Val::agg(match &c {
                        Val::Agg(a) => a.ty,
                        _ => unreachable!(),
                    }, vec![Val::Iter(Rc::new(IterV::Slice(rest, false)))]))?;
                    return one(s3, opt_some(t, Val::Int(ch)));
                }
            }
        }
        return unsup("characters of a text");
    }
    // where a character is found
    if name == "std::slice::memchr::memchr" || name == "std::slice::memchr::memrchr" {
        let t = rt!();
        let s = as_slice(en, st, &args[1])?;
        let x = en.as_int(st, &args[0])?;
        if matches!(s.base, SBase::Bytes(_)) && s.len.constant().is_some() {
            return Ok(None);
        }
        return found_in(en, st, &s, &x, name.ends_with("::memchr"), &|i, s3| Ok((s3, opt_some(t, Val::Int(i)))), (st.clone(), opt_none(t)));
    }
    if name.starts_with("<std::str::pattern::CharSearcher<'a> as") && (name.ends_with("::next_match") || name.ends_with("::next_match_back")) {
        let t = rt!();
        if let (Val::Ref(p), Ok(c)) = (&args[0], en.load(st, &args[0])) {
            let (h, from, to, needle) = (field_at(&c, 0)?, field_at(&c, 1)?, field_at(&c, 2)?, field_at(&c, 3)?);
            let h = as_slice(en, st, &h)?;
            let (from, to, needle) = (en.as_int(st, &from)?, en.as_int(st, &to)?, en.as_int(st, &needle)?);
            let one_octet = needle.constant().map(|c| (0..0x80).contains(&c)).unwrap_or(false);
            if one_octet && !(matches!(h.base, SBase::Bytes(_)) && h.len.constant().is_some()) {
                let ahead = name.ends_with("::next_match");
                let part = SliceV { base: h.base.clone(), start: h.start.add(&from), len: to.sub(&from) };
                let pair = variant_fields(t, 1)[0];
                let f0 = from.clone();
                let base = c.clone();
                let mut gone = st.clone();
                // nothing is left to look at
                let edge = with_field(&base, if ahead { 1 } else { 2 }, Val::Int(if ahead { to.clone() } else { from.clone() }))?;
                en.write_pl(&mut gone, p, edge)?;
                let some = |i: Form, mut s3: State| -> R<(State, Val)> {
                    let i = i.add(&f0);
                    let next = if ahead { i.addk(1) } else { i.clone() };
                    let v = with_field(&base, if ahead { 1 } else { 2 }, Val::Int(next))?;
                    en.write_pl(&mut s3, p, v)?;
                    Ok((s3, opt_some(t, Val::agg(pair, vec![Val::Int(i.clone()), Val::Int(i.addk(1))]))))
                };
                return found_in(en, st, &part, &needle, ahead, &some, (gone, opt_none(t)));
            }
        }
        return Ok(None);
    }
    let sl = name.strip_prefix("std::slice::<impl [T]>::").or_else(|| name.strip_prefix("std::str::<impl str>::"));
    if let Some(m) = sl {
        match m {
            "len" => {
                let s = as_slice(en, st, &args[0])?;
                return one(st2, Val::Int(s.len));
            }
            "is_empty" => {
                let s = as_slice(en, st, &args[0])?;
                return one(st2, en.mk_bool(st, s.len, VSet::one(0)));
            }
            "as_bytes" | "as_ref" | "as_str" | "as_slice" => return one(st2, args[0].clone()),
            "first" | "first_mut" | "last" | "last_mut" => {
                let t = rt!();
                let mut s3 = st.clone();
                if let Val::Slice(s) = &args[0] {
                    if let SBase::Obj(p, _) = &s.base {
                        if let Ok(Val::Vec(v)) = en.read_pl(st, p) {
                            if m.starts_with("last") {
                                // keep the last element addressable
                                return match expose_tail(en, st, &v)? {
                                    None => one(st2, opt_none(t)),
                                    Some(nv) => {
                                        let i = nv.len().addk(-1);
                                        en.write_pl(&mut s3, p, Val::Vec(Rc::new(nv)))?;
                                        one(s3, opt_some(t, Val::Ref(p.push(PE::I(i)))))
                                    }
                                };
                            }
                        }
                    }
                }
                let s = as_slice(en, st, &args[0])?;
                if !ge0(en, st, &s.len.addk(-1))? {
                    return one(st2, opt_none(t));
                }
                let i = if m.starts_with("first") { Form::k(0) } else { s.len.addk(-1) };
                let r = elem_ref(en, st, &s, &i)?;
                return one(st2, opt_some(t, r));
            }
            "split_first" | "split_last" => {
                let t = rt!();
                let s = as_slice(en, st, &args[0])?;
                if !ge0(en, st, &s.len.addk(-1))? {
                    return one(st2, opt_none(t));
                }
                let tup = variant_fields(t, 1)[0];
                let n1 = s.len.addk(-1);
                let (e, rest) = if m == "split_first" {
                    (elem_ref(en, st, &s, &Form::k(0))?, sub(&s, &Form::k(1), &s.len))
                } else {
                    (elem_ref(en, st, &s, &n1)?, sub(&s, &Form::k(0), &n1))
                };
                return one(st2, opt_some(t, Val::agg(tup, vec![e, rest])));
            }
            "split_at" | "split_at_checked" | "split_at_unchecked" => {
                let t = rt!();
                let s = as_slice(en, st, &args[0])?;
                let k = en.as_int(st, &args[1])?;
                let ok = ge0(en, st, &s.len.sub(&k))?;
                if m == "split_at_checked" {
                    if !ok {
                        return one(st2, opt_none(t));
                    }
                    let tup = variant_fields(t, 1)[0];
                    return one(st2, opt_some(t, Val::agg(tup, vec![sub(&s, &Form::k(0), &k), sub(&s, &k, &s.len)])));
                }
                if !ok {
                    return Err(Stop::Panic("split_at out of bounds".into()));
                }
                return one(st2, Val::agg(t, vec![sub(&s, &Form::k(0), &k), sub(&s, &k, &s.len)]));
            }
            "get" | "get_unchecked" if !name.contains("str>") => {
                let t = rt!();
                let s = as_slice(en, st, &args[0])?;
                if m == "get_unchecked" {
                    return match get_index(en, st, &s, &args[1])? {
                        Some(v) => one(st2, v),
                        None => Err(Stop::Panic("get_unchecked out of bounds".into())),
                    };
                }
                return match get_index(en, st, &s, &args[1])? {
                    Some(v) => one(st2, opt_some(t, v)),
                    None => one(st2, opt_none(t)),
                };
            }
            "iter" | "iter_mut" => {
                let s = as_slice(en, st, &args[0])?;
                return one(st2, Val::Iter(Rc::new(IterV::Slice(s, false))));
            }
            "chunks" | "chunks_exact" => {
                let s = as_slice(en, st, &args[0])?;
                let n = en.as_int(st, &args[1])?;
                if !ge0(en, st, &n.addk(-1))? {
                    return Err(Stop::Panic("chunk size must be non-zero".into()));
                }
                return one(st2, Val::Iter(Rc::new(IterV::Chunks(s.clone(), n, if m == "chunks_exact" { Some(Rc::new(s)) } else { None }))));
            }
            "repeat" if name.ends_with("str>::repeat") => {
                let n = en.as_int(st, &args[1])?;
                let mut s3 = st.clone();
                let l = as_slice(en, st, &args[0])?;
                match l.len.constant() {
                    Some(k) => alloc_event(en, st, "repeat", &n.scale(k), None),
                    None => return unsup("text repeated"),
                }
                let spec = match &l {
                    x => match &x.base {
                        SBase::Text(p) => match &p[..] {
                            [Piece::Lit(b)] => b.clone(),
                            _ => return unsup("text repeated"),
                        },
                        SBase::Bytes(b) => match (x.start.constant(), x.len.constant()) {
                            (Some(a), Some(l)) => String::from_utf8_lossy(&b[a as usize..(a + l) as usize]).to_string(),
                            _ => return unsup("text repeated"),
                        },
                        _ => return unsup("text repeated"),
                    },
                };
                return one(
                    s3,
                    Val::Str(Rc::new(vec![Piece::Arg(Rc::new(ArgV { val: Val::Int(n), ty: Ty::unsigned_ty(UintTy::Usize), how: "Repeat".into(), spec }))])),
                );
            }
            "to_vec" | "into_vec" | "to_owned" => {
                let mut s3 = st.clone();
                let t = rt!();
                if is_string(t) {
                    let s = as_slice(en, st, &args[0])?;
                    alloc_event(en, st, "to_owned", &s.len, Some(&s));
                    return one(s3, Val::Str(Rc::new(text_pieces(&s))));
                }
                let s = as_slice(en, st, &args[0])?;
                if m != "into_vec" {
                    alloc_event(en, st, "to_vec", &s.len, Some(&s));
                }
                let e = generic_ty(t, 0).unwrap_or(Ty::unsigned_ty(UintTy::U8));
                let v = to_vec_val(en, st, &s, e)?;
                return one(s3, v);
            }
            "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" if !name.contains("str>") => {
                let (a, b) = (as_slice(en, st, &args[0])?, as_slice(en, st, &args[1])?);
                let rest = a.len.sub(&b.len);
                let front = m == "starts_with" || m == "strip_prefix";
                let fits = ge0(en, st, &rest)?;
                let found = fits && {
                    let start = if front { a.start.clone() } else { a.start.add(&rest) };
                    equal_slices(en, st, &SliceV { base: a.base.clone(), start, len: b.len.clone() }, &b)?
                };
                if m.ends_with("_with") {
                    return one(st2, Val::bool(found));
                }
                let t = rt!();
                if !found {
                    return one(st2, opt_none(t));
                }
                let start = if front { a.start.add(&b.len) } else { a.start.clone() };
                return one(st2, opt_some(t, Val::Slice(Rc::new(SliceV { base: a.base.clone(), start, len: rest }))));
            }
            "contains" if !name.contains("str>") => {
                let a = as_slice(en, st, &args[0])?;
                if let Some(n) = st.facts.const_of(&a.len) {
                    if n <= 300 {
                        let x = en.load(st, &args[1])?;
                        // set membership for integers
                        let mut set = Some(VSet::empty());
                        for i in 0..n {
                            let e = en.slice_elem(st, &a, &Form::k(i))?;
                            set = match (set, &e) {
                                (Some(s), Val::Int(f)) => f.constant().map(|c| s.union(&VSet::one(c))),
                                _ => None,
                            };
                        }
                        if let (Some(set), Val::Int(f)) = (set, &x) {
                            return one(st2, en.mk_bool(st, f.clone(), set));
                        }
                        for i in 0..n {
                            let e = en.slice_elem(st, &a, &Form::k(i))?;
                            if equal(en, st, &e, &x)? {
                                return one(st2, Val::bool(true));
                            }
                        }
                        return one(st2, Val::bool(false));
                    }
                }
                return unsup("contains");
            }
            "copy_from_slice" | "clone_from_slice" => {
                let (a, b) = (as_slice(en, st, &args[0])?, as_slice(en, st, &args[1])?);
                if !truth(en, st, &a.len.sub(&b.len), VSet::one(0))? {
                    return Err(Stop::Panic("copy_from_slice: lengths differ".into()));
                }
                let n = en.small_const(st, &b.len, 16)?;
                let mut s3 = st.clone();
                for i in 0..n {
                    let v = en.slice_elem(st, &b, &Form::k(i))?;
                    let p = en.slice_elem_pl(st, &a, &Form::k(i))?;
                    en.write_pl(&mut s3, &p, v)?;
                }
                return one(s3, Val::unit());
            }
            "first_chunk" | "split_first_chunk" | "windows" | "reverse" | "as_ptr" | "concat" | "join" | "rchunks" | "swap" | "fill" | "sort" => {
                return unsup(format!("slice method {}", m));
            }
            _ => {}
        }
    }
    // indexing
    if name.ends_with("::index") || name.ends_with("::index_mut") {
        if name.contains("Index<I> for [T]") || name.contains("Index<I> for [T; N]") || name.contains("Index<I> for Vec") || name.contains("Index<I> for std::vec::Vec") || name.starts_with("<std::vec::Vec<T, A> as std::ops::Index") || name.contains("IndexMut<I> for [T]") || name.contains("as std::ops::Index<I>>") || name.contains("as std::ops::IndexMut<I>>") || name.contains("as std::ops::index::Index") {
            let s = as_slice(en, st, &args[0])?;
            let at = match (&args[0], &s.base) {
                (Val::Ref(p), _) | (_, SBase::Obj(p, _)) => Some(p.clone()),
                _ => None,
            };
            if let (Some(p), Val::Int(i)) = (&at, &args[1]) {
                if let Ok(Val::Vec(v)) = en.read_pl(st, p) {
                    // the last element of a vector of structures is kept addressable
                    if v.base.is_some() && v.items.is_empty() && i.constant().is_none() && int_range(v.elem).is_none() && en.decide(st, &i.sub(&v.len()).addk(1), &VSet::one(0)) == Some(true) {
                        if let Some(nv) = expose_tail(en, st, &v)? {
                            let i = nv.len().addk(-1);
                            let mut s3 = st.clone();
                            en.write_pl(&mut s3, p, Val::Vec(Rc::new(nv)))?;
                            return one(s3, Val::Ref(p.push(PE::I(i))));
                        }
                    }
                }
            }
            return match get_index(en, st, &s, &args[1])? {
                Some(v) => {
                    // elements of a vector in memory stay addressable
                    one(st2, v)
                }
                None => Err(Stop::Panic("index out of bounds".into())),
            };
        }
        if name.contains("SliceIndex<[T]>") {
            let s = as_slice(en, st, &args[1])?;
            return match get_index(en, st, &s, &args[0])? {
                Some(v) => one(st2, v),
                None => Err(Stop::Panic("index out of bounds".into())),
            };
        }
    }
    if name.contains("SliceIndex<[T]>") && name.ends_with("::get") {
        let t = rt!();
        let s = as_slice(en, st, &args[1])?;
        return match get_index(en, st, &s, &args[0])? {
            Some(v) => one(st2, opt_some(t, v)),
            None => one(st2, opt_none(t)),
        };
    }
    // ---------------------------------------------------------------- iteration
    if name.ends_with("IntoIterator>::into_iter") || name.ends_with("as std::iter::IntoIterator>::into_iter") || name.contains("IntoIterator for &") && name.ends_with("::into_iter") {
        match &args[0] {
            Val::Slice(_) | Val::Ref(_) => {
                if let Ok(s) = as_slice(en, st, &args[0]) {
                    if !matches!(&s.base, SBase::Text(_)) {
                        return one(st2, Val::Iter(Rc::new(IterV::Slice(s, false))));
                    }
                }
            }
            Val::Vec(v) => {
                let p = Pl::new(Base::Const(Rc::new(args[0].clone())));
                let s = match (&v.base, v.items.is_empty()) {
                    (None, _) => SliceV { base: SBase::Vals(Rc::new(v.items.clone())), start: Form::k(0), len: v.len() },
                    _ => slice_of_place(&args[0], &p)?,
                };
                return one(st2, Val::Iter(Rc::new(IterV::Slice(s, true))));
            }
            Val::Agg(a) if array_len(a.ty).is_some() => {
                let s = SliceV { base: SBase::Vals(Rc::new(a.f.clone())), start: Form::k(0), len: Form::k(a.f.len() as i128) };
                return one(st2, Val::Iter(Rc::new(IterV::Slice(s, true))));
            }
            _ => {}
        }
    }
    let is_slice_iter = |t: Ty| -> bool {
        let n = adt_name(t);
        n == "std::slice::Iter" || n == "std::slice::IterMut" || n == "std::vec::IntoIter" || n == "std::array::IntoIter" || n == "std::slice::Chunks" || n == "std::slice::ChunksExact"
    };
    // bodies specialised for random access
    if name.contains("SpecTake") && (name.ends_with("::spec_fold") || name.ends_with("::spec_for_each")) {
        if let Some(t) = generic_self(inst, &args[0], en, st) {
            if let Some(r) = default_iter_method(en, st, if name.ends_with("fold") { "fold" } else { "for_each" }, inst, args, t)? {
                return Ok(Some(r));
            }
        }
    }
    if let Some((selft, m)) = iter_method(name) {
        let _ = selft;
        let target = args.first().cloned().unwrap_or(Val::Undef);
        let iv: Option<(Option<Pl>, IterV)> = match &target {
            Val::Ref(p) => match en.read_pl(st, p) {
                Ok(Val::Iter(i)) => Some((Some(p.clone()), (*i).clone())),
                _ => None,
            },
            Val::Iter(i) => Some((None, (**i).clone())),
            _ => None,
        };
        if let Some((pl, iv)) = iv {
            match m.as_str() {
                "next" | "next_back" => {
                    let t = rt!();
                    let (s, byval, chunk) = match iv {
                        IterV::Slice(s, b) => (s, b, None),
                        IterV::Chunks(s, n, whole) => (s, false, Some((n, whole))),
                    };
                    let p = match pl {
                        Some(p) => p,
                        None => return unsup("next of an iterator by value"),
                    };
                    if !ge0(en, st, &s.len.addk(-1))? {
                        return one(st2, opt_none(t));
                    }
                    let mut s3 = st.clone();
                    if let Some((n, whole)) = chunk {
                        if m == "next_back" {
                            return unsup("chunks from the back");
                        }
                        if whole.is_some() && !ge0(en, st, &s.len.sub(&n))? {
                            return one(st2, opt_none(t));
                        }
                        let k = if ge0(en, st, &s.len.sub(&n))? { n.clone() } else { s.len.clone() };
                        let item = sub(&s, &Form::k(0), &k);
                        let rest = SliceV { base: s.base.clone(), start: s.start.add(&k), len: s.len.sub(&k) };
                        en.write_pl(&mut s3, &p, Val::Iter(Rc::new(IterV::Chunks(rest, n, whole))))?;
                        return one(s3, opt_some(t, item));
                    }
                    let n1 = s.len.addk(-1);
                    let (item_i, rest) = if m == "next" {
                        (Form::k(0), SliceV { base: s.base.clone(), start: s.start.addk(1), len: n1 })
                    } else {
                        (n1.clone(), SliceV { base: s.base.clone(), start: s.start.clone(), len: n1 })
                    };
                    let item = if byval { en.slice_elem(st, &s, &item_i)? } else { elem_ref(en, st, &s, &item_i)? };
                    en.write_pl(&mut s3, &p, Val::Iter(Rc::new(IterV::Slice(rest, byval))))?;
                    return one(s3, opt_some(t, item));
                }
                "remainder" => {
                    if let IterV::Chunks(_, n, Some(whole)) = &iv {
                        let k = en.div_rem(st, &whole.len, n, true)?;
                        let front = whole.len.sub(&k);
                        let s = SliceV { base: whole.base.clone(), start: whole.start.add(&front), len: k };
                        return one(st2, Val::Slice(Rc::new(s)));
                    }
                }
                "size_hint" => {
                    let t = rt!();
                    let s = match &iv {
                        IterV::Slice(s, _) => s.len.clone(),
                        IterV::Chunks(..) => return unsup("size hint of chunks"),
                    };
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = &*kind(t) {
                        let o = ts[1];
                        return one(st2, Val::agg(t, vec![Val::Int(s.clone()), opt_some(o, Val::Int(s))]));
                    }
                    return unsup("size hint");
                }
                "len" | "count" => {
                    if let IterV::Slice(s, _) = &iv {
                        return one(st2, Val::Int(s.len.clone()));
                    }
                }
                "is_empty" => {
                    if let IterV::Slice(s, _) = &iv {
                        return one(st2, en.mk_bool(st, s.len.clone(), VSet::one(0)));
                    }
                }
                "as_slice" => {
                    if let IterV::Slice(s, _) = &iv {
                        return one(st2, Val::Slice(Rc::new(s.clone())));
                    }
                }
                "clone" => return one(st2, Val::Iter(Rc::new(iv))),
                "nth" => {
                    let t = rt!();
                    if let (IterV::Slice(s, byval), Some(p)) = (&iv, pl) {
                        let k = en.as_int(st, &args[1])?;
                        let mut s3 = st.clone();
                        if ge0(en, st, &s.len.sub(&k).addk(-1))? {
                            let item = if *byval { en.slice_elem(st, s, &k)? } else { elem_ref(en, st, s, &k)? };
                            let rest = SliceV { base: s.base.clone(), start: s.start.add(&k).addk(1), len: s.len.sub(&k).addk(-1) };
                            en.write_pl(&mut s3, &p, Val::Iter(Rc::new(IterV::Slice(rest, *byval))))?;
                            return one(s3, opt_some(t, item));
                        }
                        let rest = SliceV { base: s.base.clone(), start: s.start.add(&s.len), len: Form::k(0) };
                        en.write_pl(&mut s3, &p, Val::Iter(Rc::new(IterV::Slice(rest, *byval))))?;
                        return one(s3, opt_none(t));
                    }
                    return unsup("nth");
                }
                "last" => {
                    let t = rt!();
                    if let IterV::Slice(s, byval) = &iv {
                        if !ge0(en, st, &s.len.addk(-1))? {
                            return one(st2, opt_none(t));
                        }
                        let n1 = s.len.addk(-1);
                        let item = if *byval { en.slice_elem(st, s, &n1)? } else { elem_ref(en, st, s, &n1)? };
                        return one(st2, opt_some(t, item));
                    }
                }
                "__iterator_get_unchecked" => return unsup("random access iteration"),
                _ => {
                    let self_ty = generic_self(inst, &args[0], en, st);
                    if let Some(t) = self_ty {
                        if let Some(r) = default_iter_method(en, st, &m, inst, args, t)? {
                            return Ok(Some(r));
                        }
                    }
                }
            }
        }
        // adaptors with specialised bodies
        if matches!(m.as_str(), "fold" | "for_each" | "all" | "any" | "find" | "position" | "find_map" | "count") {
            let own = name.starts_with("<std::str::Bytes<");
            if let Some(t) = if own { generic_self(inst, &args[0], en, st) } else { inst_self(inst) } {
                if !is_slice_iter(t) {
                    if let Some(r) = default_iter_method(en, st, &m, inst, args, t)? {
                        return Ok(Some(r));
                    }
                }
            }
        }
        if m == "collect" || m == "sum" {
            if let Val::Opaque(k) = &args[0] {
                let t = rt!();
                return one(st2, sym(key(&format!("{}.collect", key_name(*k))), t));
            }
        }
        if m == "collect" {
            let t = rt!();
            if is_vec(t) {
                let g = generic_args(inst);
                return collect_vec(en, st, inst, args[0].clone(), g[0], VecV { elem: generic_ty(t, 0).unwrap(), base: None, items: vec![] });
            }
        }
    }
    if name.ends_with("::from_iter") && name.contains("FromIterator<T> for std::vec::Vec") || name.contains("Vec<T> as std::iter::FromIterator<T>>::from_iter") {
        let t = rt!();
        let g = generic_args(inst);
        // (T, I): I is an IntoIterator
        let it_ty = *g.last().unwrap();
        if method_on("std::iter::Iterator", "next", it_ty).is_some() {
            return collect_vec(en, st, inst, args[0].clone(), it_ty, VecV { elem: generic_ty(t, 0).unwrap(), base: None, items: vec![] });
        }
    }
    // ---------------------------------------------------------------- vectors
    if name == "<std::vec::Vec<T> as std::default::Default>::default" {
        let t = rt!();
        return one(st2, Val::Vec(Rc::new(VecV { elem: generic_ty(t, 0).unwrap(), base: None, items: vec![] })));
    }
    if let Some(m) = name.strip_prefix("std::vec::Vec::") {
        match m {
            "new" | "new_in" => {
                let t = rt!();
                return one(st2, Val::Vec(Rc::new(VecV { elem: generic_ty(t, 0).unwrap(), base: None, items: vec![] })));
            }
            "with_capacity" | "with_capacity_in" => {
                let t = rt!();
                let mut s3 = st.clone();
                let n = en.as_int(st, &args[0])?;
                alloc_event(en, st, "with_capacity", &n, None);
                return one(s3, Val::Vec(Rc::new(VecV { elem: generic_ty(t, 0).unwrap(), base: None, items: vec![] })));
            }
            "reserve" | "reserve_exact" | "try_reserve" | "try_reserve_exact" => {
                let mut s3 = st.clone();
                let n = en.as_int(st, &args[1])?;
                alloc_event(en, st, "reserve", &n, None);
                if m.starts_with("try") {
                    return unsup("try_reserve");
                }
                return one(s3, Val::unit());
            }
            "resize" => {
                let mut s3 = st.clone();
                let n = en.as_int(st, &args[1])?;
                alloc_event(en, st, "resize", &n, None);
                let v = vec_of(&en.load(st, &args[0])?)?;
                let k = key(&format!("resized.{}.{}", Val::Vec(v.clone()).show(), n.show()));
                en.store(&mut s3, &args[0], Val::Vec(Rc::new(VecV { elem: v.elem, base: Some((k, n)), items: vec![] })))?;
                return one(s3, Val::unit());
            }
            "push" => {
                let mut s3 = st.clone();
                let mut v = (*vec_of(&en.load(st, &args[0])?)?).clone();
                v.items.push(args[1].clone());
                octet_event(en, st, &args[1]);
                en.store(&mut s3, &args[0], Val::Vec(Rc::new(v)))?;
                return one(s3, Val::unit());
            }
            "pop" => {
                let t = rt!();
                let mut s3 = st.clone();
                let v = vec_of(&en.load(st, &args[0])?)?;
                return match expose_tail(en, st, &v)? {
                    None => one(st2, opt_none(t)),
                    Some(mut nv) => {
                        let x = nv.items.pop().unwrap();
                        en.store(&mut s3, &args[0], Val::Vec(Rc::new(nv)))?;
                        one(s3, opt_some(t, x))
                    }
                };
            }
            "truncate" => {
                let mut s3 = st.clone();
                let v = vec_of(&en.load(st, &args[0])?)?;
                let n = en.as_int(st, &args[1])?;
                if ge0(en, st, &n.sub(&v.len()))? {
                    return one(st2, Val::unit());
                }
                let mut nv = (*v).clone();
                match &v.base {
                    None => {
                        let k = en.small_const(st, &n, 64)?;
                        nv.items.truncate(k as usize);
                    }
                    Some((k, b)) => {
                        if ge0(en, st, &b.sub(&n))? {
                            nv.items.clear();
                            nv.base = Some((*k, n));
                        } else {
                            let d = en.small_const(st, &n.sub(b), 64)?;
                            nv.items.truncate(d as usize);
                        }
                    }
                }
                en.store(&mut s3, &args[0], Val::Vec(Rc::new(nv)))?;
                return one(s3, Val::unit());
            }
            "clear" => {
                let mut s3 = st.clone();
                let v = vec_of(&en.load(st, &args[0])?)?;
                en.store(&mut s3, &args[0], Val::Vec(Rc::new(VecV { elem: v.elem, base: None, items: vec![] })))?;
                return one(s3, Val::unit());
            }
            "len" => {
                let v = vec_of(&en.load(st, &args[0])?)?;
                return one(st2, Val::Int(v.len()));
            }
            "is_empty" => {
                let v = vec_of(&en.load(st, &args[0])?)?;
                return one(st2, en.mk_bool(st, v.len(), VSet::one(0)));
            }
            "as_slice" | "as_mut_slice" | "deref" => {
                let s = vec_view(en, st, &args[0], m == "as_mut_slice")?;
                return one(st2, Val::Slice(Rc::new(s)));
            }
            "extend_from_slice" => {
                let mut s3 = st.clone();
                let v = vec_of(&en.load(st, &args[0])?)?;
                let s = as_slice(en, st, &args[1])?;
                alloc_event(en, st, "extend_from_slice", &s.len, Some(&s));
                if let Some(n) = st.facts.const_of(&s.len) {
                    if n <= 64 {
                        let mut nv = (*v).clone();
                        for i in 0..n {
                            nv.items.push(en.slice_elem(st, &s, &Form::k(i))?);
                        }
                        en.store(&mut s3, &args[0], Val::Vec(Rc::new(nv)))?;
                        return one(s3, Val::unit());
                    }
                }
                if v.base.is_none() && v.items.is_empty() {
                    let nv = to_vec_val(en, st, &s, v.elem)?;
                    en.store(&mut s3, &args[0], nv)?;
                    return one(s3, Val::unit());
                }
                let k = key(&format!("cat({} ; {})", Val::Vec(v.clone()).show(), show_slice(&s)));
                let nv = VecV { elem: v.elem, base: Some((k, v.len().add(&s.len))), items: vec![] };
                en.store(&mut s3, &args[0], Val::Vec(Rc::new(nv)))?;
                return one(s3, Val::unit());
            }
            "insert" | "remove" | "swap_remove" => {
                let mut s3 = st.clone();
                let v = vec_of(&en.load(st, &args[0])?)?;
                let n = en.as_int(st, &args[1])?;
                let slack = if m == "insert" { 0 } else { -1 };
                if !ge0(en, st, &v.len().addk(slack).sub(&n))? {
                    return Err(Stop::Panic(format!("{} past the end", m)));
                }
                let mut nv = (*v).clone();
                let b = v.base.as_ref().map(|x| x.1.clone()).unwrap_or(Form::k(0));
                if v.base.is_some() && !ge0(en, st, &n.sub(&b))? {
                    return unsup(format!("vector method {}", m));
                }
                let i = en.small_const(st, &n.sub(&b), 64)? as usize;
                if m == "insert" {
                    nv.items.insert(i, args[2].clone());
                    en.store(&mut s3, &args[0], Val::Vec(Rc::new(nv)))?;
                    return one(s3, Val::unit());
                }
                let x = if m == "remove" { nv.items.remove(i) } else { nv.items.swap_remove(i) };
                en.store(&mut s3, &args[0], Val::Vec(Rc::new(nv)))?;
                return one(s3, x);
            }
            "into_boxed_slice" | "drain" | "remove" | "retain" | "append" | "split_off" | "swap_remove" | "dedup" => {
                return unsup(format!("vector method {}", m));
            }
            _ => {}
        }
    }
    if name.contains("Vec<T, A> as std::ops::Deref") && (name.ends_with("::deref") || name.ends_with("::deref_mut")) {
        let s = vec_view(en, st, &args[0], name.ends_with("_mut"))?;
        return one(st2, Val::Slice(Rc::new(s)));
    }
    if name.contains("Vec<T, A> as std::clone::Clone>::clone") || name.contains("Vec<T, A> as std::clone::Clone>::clone_from") {
        let v = en.load(st, &args[0])?;
        return one(st2, v);
    }
    if name.contains("std::vec::Vec<T, A> as std::convert::AsRef") || name.contains("std::vec::Vec<T, A> as std::borrow::Borrow") {
        let s = vec_view(en, st, &args[0], false)?;
        return one(st2, Val::Slice(Rc::new(s)));
    }
    if name.ends_with("box_assume_init_into_vec_unsafe") {
        let mut v = en.load(st, &args[0])?;
        let t = rt!();
        while let Val::Agg(a) = &v {
            if array_len(a.ty).is_some() {
                break;
            }
            match a.f.iter().find(|x| !matches!(x, Val::Undef)) {
                Some(x) => v = x.clone(),
                None => break,
            }
        }
        if let Val::Agg(a) = &v {
            return one(st2, Val::Vec(Rc::new(VecV { elem: generic_ty(t, 0).unwrap(), base: None, items: a.f.clone() })));
        }
        return unsup("vec! of unknown contents");
    }
    if name == "std::vec::from_elem" {
        let t = rt!();
        let mut s3 = st.clone();
        let n = en.as_int(st, &args[1])?;
        alloc_event(en, st, "vec![x; n]", &n, None);
        if let Some(c) = st.facts.const_of(&n) {
            if c <= 64 {
                return one(s3, Val::Vec(Rc::new(VecV { elem: generic_ty(t, 0).unwrap(), base: None, items: vec![args[0].clone(); c as usize] })));
            }
        }
        let k = key(&format!("filled.{}", n.show()));
        return one(s3, Val::Vec(Rc::new(VecV { elem: generic_ty(t, 0).unwrap(), base: Some((k, n)), items: vec![] })));
    }
    if name.contains("for std::vec::Vec") && name.ends_with("::from") || name.contains("std::vec::Vec<T> as std::convert::From<") {
        let t = rt!();
        let s = match &args[0] {
            Val::Agg(a) if array_len(a.ty).is_some() => {
                return one(st2, Val::Vec(Rc::new(VecV { elem: generic_ty(t, 0).unwrap(), base: None, items: a.f.clone() })))
            }
            v => as_slice(en, st, v)?,
        };
        alloc_event(en, st, "Vec::from", &s.len, Some(&s));
        let v = to_vec_val(en, st, &s, generic_ty(t, 0).unwrap())?;
        return one(st2, v);
    }
    if name.ends_with("::extend") && name.contains("Vec<T, A> as std::iter::Extend") {
        let g = generic_args(inst);
        let it_ty = *g.last().unwrap();
        let v = vec_of(&en.load(st, &args[0])?)?;
        if method_on("std::iter::Iterator", "next", it_ty).is_some() {
            if let Some(outs) = collect_vec(en, st, inst, args[1].clone(), it_ty, (*v).clone())? {
                let mut r = vec![];
                for (mut s, nv) in outs {
                    en.store(&mut s, &args[0], nv)?;
                    r.push((s, Val::unit()));
                }
                return Ok(Some(r));
            }
        }
        return unsup("extend");
    }
    // boxes
    if name == "std::boxed::Box::new" || name == "std::boxed::box_new" || name == "std::boxed::Box::new_uninit" {
        let t = rt!();
        let p = pointee(t).unwrap_or(t);
        let mut s3 = st.clone();
        let v = args.first().cloned().unwrap_or(Val::Undef);
        let pl = s3.new_obj(v, p);
        return one(s3, Val::Ref(pl));
    }
    if name.starts_with("<std::boxed::Box<T, A> as std::ops::Deref") || name.starts_with("<std::boxed::Box<T, A> as std::convert::AsRef") {
        let v = en.load(st, &args[0])?;
        return one(st2, v);
    }
    // ---------------------------------------------------------------- comparison
    if (name.ends_with("PartialEq>::eq") || name.ends_with("::eq") || name.ends_with("::ne")) && args.len() == 2 {
        let std_seq = name.contains("[A]") || name.contains("[T]") || name.contains("[U]") || name.contains(" str ") || name.contains("<str as") || name.contains("Vec<") || name.contains("String") || name.contains("for [") || name.contains("for str") || name.contains("[u8]");
        let neg = name.ends_with("::ne");
        if std_seq && !name.starts_with("<std::option") {
            let (a, b) = (en.load(st, &args[0]).unwrap_or(args[0].clone()), en.load(st, &args[1]).unwrap_or(args[1].clone()));
            let r = equal(en, st, &a, &b)?;
            return one(st2, Val::bool(r != neg));
        }
    }
    // ---------------------------------------------------------------- memory
    match name {
        "std::mem::replace" | "std::ptr::replace" => {
            let mut s3 = st.clone();
            let old = en.load(st, &args[0])?;
            en.store(&mut s3, &args[0], args[1].clone())?;
            return one(s3, old);
        }
        "std::mem::swap" | "std::ptr::swap" => {
            let mut s3 = st.clone();
            let (a, b) = (en.load(st, &args[0])?, en.load(st, &args[1])?);
            en.store(&mut s3, &args[0], b)?;
            en.store(&mut s3, &args[1], a)?;
            return one(s3, Val::unit());
        }
        "std::ptr::read" => {
            let v = en.load(st, &args[0])?;
            return one(st2, v);
        }
        "std::ptr::write" => {
            let mut s3 = st.clone();
            en.store(&mut s3, &args[0], args[1].clone())?;
            return one(s3, Val::unit());
        }
        "std::mem::drop" | "std::mem::forget" | "std::ptr::drop_in_place" => return one(st2, Val::unit()),
        "std::str::from_utf8" | "std::str::converts::from_utf8" | "std::str::<impl str>::from_utf8" => {
            let t = rt!();
            let s = as_slice(en, st, &args[0])?;
            if let (SBase::Bytes(b), Some(x), Some(n)) = (&s.base, s.start.constant(), s.len.constant()) {
                let ok = std::str::from_utf8(&b[x as usize..(x + n) as usize]).is_ok();
                if ok {
                    return one(st2, res_ok(t, args[0].clone()));
                }
            }
            let u = utf8_name(st, &s);
            let f = utf8_valid(&u);
            return if truth(en, st, &f, VSet::one(1))? {
                one(st2, res_ok(t, Val::Slice(Rc::new(s))))
            } else {
                let et = variant_fields(t, 1)[0];
                one(st2, res_err(t, Val::Sym(utf8_error(&u), et)))
            };
        }
        "std::str::from_utf8_unchecked" | "std::str::converts::from_utf8_unchecked" => return one(st2, args[0].clone()),
        "std::str::Utf8Error::valid_up_to" | "std::str::error::Utf8Error::valid_up_to" => {
            if let Ok(Val::Sym(k, _)) = en.load(st, &args[0]) {
                let mut s3 = st.clone();
                let f = Form::named(&format!("{}.valid_up_to", key_name(k)), 0, LEN_MAX);
                let _ = &mut s3;
                return one(s3, Val::Int(f));
            }
        }
        _ => {}
    }
    // strings
    if name.starts_with("std::string::String::") || name.starts_with("<std::string::String as") || name.contains("for std::string::String") || name.contains("<str as std::string::") || name.ends_with("ToString>::to_string") || name.contains("str as std::borrow::ToOwned") || name == "std::fmt::format" {
        let m = name.rsplit("::").next().unwrap();
        match m {
            "new" => return one(st2, Val::Str(Rc::new(vec![]))),
            "with_capacity" => {
                let n = en.as_int(st, &args[0])?;
                alloc_event(en, st, "with_capacity", &n, None);
                return one(st2, Val::Str(Rc::new(vec![])));
            }
            "reserve" | "reserve_exact" => {
                let n = en.as_int(st, &args[1])?;
                alloc_event(en, st, "reserve", &n, None);
                return one(st2, Val::unit());
            }
            "shrink_to_fit" => return one(st2, Val::unit()),
            "from" | "to_owned" | "from_str" | "to_string" | "spec_to_string" if args.len() == 1 => {
                if let Val::Int(f) = &args[0] {
                    let a = Rc::new(ArgV { val: Val::Int(f.clone()), ty: Ty::from_rigid_kind(RigidTy::Char), how: "Display".into(), spec: "".into() });
                    return one(st2, Val::Str(Rc::new(arg_pieces(&a, ""))));
                }
                let g = generic_args(inst);
                let (v, t) = match (m, g.first()) {
                    ("to_string" | "spec_to_string", Some(t)) => {
                        let (v, t) = strip(en, st, &args[0], Ty::new_ref(Region { kind: RegionKind::ReErased }, *t, rustc_public::mir::Mutability::Not));
                        (v, Some(t))
                    }
                    _ => (args[0].clone(), None),
                };
                let sv = match &v {
                    Val::Slice(s) => Some((**s).clone()),
                    Val::Str(p) => return one(st2, Val::Str(p.clone())),
                    _ => None,
                };
                if let Some(s) = sv {
                    alloc_event(en, st, m, &s.len, Some(&s));
                    return one(st2, Val::Str(Rc::new(text_pieces(&s))));
                }
                if let Some(t) = t {
                    let a = Rc::new(ArgV { val: v.clone(), ty: t, how: "Display".into(), spec: "".into() });
                    let mut s3 = st.clone();
                    let sp = s3.new_obj(Val::Str(Rc::new(vec![])), t);
                    let outs = write_pieces(en, &s3, &Val::Ref(sp.clone()), &arg_pieces(&a, ""), None)?;
                    let mut r = vec![];
                    for (s, _) in outs {
                        let v = en.read_pl(&s, &sp)?;
                        r.push((s, v));
                    }
                    return Ok(Some(r));
                }
            }
            "format" => {
                let p = fmt_pieces(en, st, &args[0])?;
                let mut s3 = st.clone();
                let sp = s3.new_obj(Val::Str(Rc::new(vec![])), Ty::unsigned_ty(UintTy::U8));
                let outs = write_pieces(en, &s3, &Val::Ref(sp.clone()), &p, None)?;
                let mut r = vec![];
                for (s, _) in outs {
                    let v = en.read_pl(&s, &sp)?;
                    r.push((s, v));
                }
                return Ok(Some(r));
            }
            "deref" | "as_str" | "borrow" | "as_ref" | "as_bytes" => {
                let v = en.load(st, &args[0])?;
                return match v {
                    Val::Str(p) => one(st2, Val::Slice(Rc::new(str_slice(&p)))),
                    Val::Sym(k, _) => one(st2, Val::Slice(Rc::new(sym_text(k)))),
                    v => unsup(format!("string expected, got {}", v.show_d(2))),
                };
            }
            "push_str" | "push" | "write_str" | "write_char" => {
                let more = match &args[1] {
                    Val::Slice(s) => {
                        alloc_event(en, st, m, &s.len, Some(s));
                        text_pieces(s)
                    }
                    Val::Int(_) => arg_pieces(&Rc::new(ArgV { val: args[1].clone(), ty: Ty::from_rigid_kind(RigidTy::Char), how: "Display".into(), spec: "".into() }), ""),
                    v => return unsup(format!("append {}", v.show_d(2))),
                };
                let mut s3 = st.clone();
                emit(en, &mut s3, &args[0], more, None)?;
                let t = rt!();
                return one(s3, if m.starts_with("write") { res_ok(t, Val::unit()) } else { Val::unit() });
            }
            "clone" => {
                let v = en.load(st, &args[0])?;
                return one(st2, v);
            }
            "len" => {
                if let Val::Str(p) = en.load(st, &args[0])? {
                    return one(st2, Val::Int(str_slice(&p).len));
                }
            }
            "is_empty" => {
                if let Val::Str(p) = en.load(st, &args[0])? {
                    if p.is_empty() {
                        return one(st2, Val::bool(true));
                    }
                    if p.iter().any(|x| matches!(x, Piece::Lit(t) if !t.is_empty())) {
                        return one(st2, Val::bool(false));
                    }
                    return one(st2, en.mk_bool(st, str_slice(&p).len, VSet::one(0)));
                }
            }
            _ => {}
        }
    }
    // the clock
    if name == "std::time::SystemTime::now" || name == "std::time::Instant::now" {
        let t = rt!();
        return one(st2, sym(key("clock"), t));
    }
    if name == "std::time::SystemTime::duration_since" || name == "std::time::SystemTime::elapsed" {
        let t = rt!();
        let before = Form::named("clock.before", 0, 1);
        if truth(en, st, &before, VSet::one(1))? {
            return one(st2, res_err(t, sym(key("clock.error"), variant_fields(t, 1)[0])));
        }
        return one(st2, res_ok(t, sym(key("clock.since"), variant_fields(t, 0)[0])));
    }
    // ---------------------------------------------------------------- integers from octets
    if let Some(m) = name.rsplit("::").next() {
        if (m == "from_be_bytes" || m == "from_le_bytes" || m == "from_ne_bytes") && args.len() == 1 {
            let t = rt!();
            let (bits, _) = match int_bits(t) {
                Some(b) => b,
                None => return Ok(None),
            };
            let n = (bits / 8) as usize;
            let mut f = Form::k(0);
            for i in 0..n {
                let e = en.project(st, args[0].clone(), &PE::I(Form::k(i as i128)))?;
                let e = en.as_int(st, &e)?;
                let sh = if m == "from_be_bytes" { n - 1 - i } else { i };
                f = f.comb(1, &e, 1i128 << (8 * sh.min(12)));
            }
            let f = en.wrap(st, f, t)?;
            return one(st2, Val::Int(f));
        }
        if m == "try_from" && name.contains("[T; N]") && args.len() == 1 {
            let t = rt!();
            let s = as_slice(en, st, &args[0])?;
            let ok_t = variant_fields(t, 0)[0];
            let (arr, by_ref) = match pointee(ok_t) {
                Some(p) => (p, true),
                None => (ok_t, false),
            };
            let n = array_len(arr).unwrap_or(0) as i128;
            if !truth(en, st, &s.len.addk(-n), VSet::one(0))? {
                let et = variant_fields(t, 1)[0];
                return one(st2, res_err(t, sym(key("TryFromSliceError"), et)));
            }
            let mut f = vec![];
            for i in 0..n {
                f.push(en.slice_elem(st, &s, &Form::k(i))?);
            }
            let a = Val::agg(arr, f);
            return one(st2, res_ok(t, if by_ref { Val::Ref(Pl::new(Base::Const(Rc::new(a)))) } else { a }));
        }
    }
    // ---------------------------------------------------------------- formatting
    if let Some(h) = name.strip_prefix("std::fmt::rt::Argument::new_") {
        let how = match h {
            "display" => "Display",
            "debug" => "Debug",
            "upper_hex" => "UpperHex",
            "lower_hex" => "LowerHex",
            o => o,
        }
        .to_string();
        let g = generic_args(inst);
        let t = match g.first() {
            Some(t) => *t,
            None => return unsup("format argument type"),
        };
        let p = en.load(st, &args[0])?;
        let (v, t) = strip(en, st, &p, t);
        let t = match (&v, pointee(t)) {
            (Val::Slice(_), Some(p)) if is_unsized_seq(p) => p,
            _ => t,
        };
        return one(st2, Val::FmtArg(Rc::new(ArgV { val: v, ty: t, how, spec: "".into() })));
    }
    if name.starts_with("std::fmt::Arguments::") || name.contains("std::fmt::Arguments") && name.contains("<impl std::fmt::Arguments") {
        let m = name.rsplit("::").next().unwrap();
        match m {
            "new" => {
                let t = en.load(st, &args[0])?;
                let bytes: Vec<u8> = match &t {
                    Val::Agg(a) => {
                        let mut b = vec![];
                        for x in &a.f {
                            match en.as_int(st, x)?.constant() {
                                Some(c) => b.push(c as u8),
                                None => return unsup("format template"),
                            }
                        }
                        b
                    }
                    Val::Slice(s) => match &s.base {
                        SBase::Bytes(b) => (**b).clone(),
                        _ => return unsup("format template"),
                    },
                    _ => return unsup("format template"),
                };
                let av = en.load(st, &args[1])?;
                let mut a = vec![];
                if let Val::Agg(x) = &av {
                    for y in &x.f {
                        match y {
                            Val::FmtArg(z) => a.push(z.clone()),
                            _ => return unsup("format argument"),
                        }
                    }
                } else {
                    return unsup("format arguments");
                }
                let p = decode_template(&bytes, &a)?;
                return one(st2, Val::Fmt(Rc::new(p)));
            }
            "from_str" | "from_str_nonconst" | "new_const" => {
                let s = as_slice(en, st, &args[0])?;
                return one(st2, Val::Fmt(Rc::new(text_pieces(&s))));
            }
            "as_str" => return unsup("Arguments::as_str"),
            _ => {}
        }
    }
    let is_fmt_sink = name.ends_with("::write_fmt") || name.ends_with("::write_str") || name.ends_with("::pad") || name.ends_with("::write_char");
    if is_fmt_sink && (name.contains("std::fmt::") || name.contains("Formatter")) {
        let t = rt!();
        let p: Vec<Piece> = if name.ends_with("write_fmt") {
            (*fmt_pieces(en, st, &args[1])?).clone()
        } else {
            match &args[1] {
                Val::Int(_) => arg_pieces(&Rc::new(ArgV { val: args[1].clone(), ty: Ty::from_rigid_kind(RigidTy::Char), how: "Display".into(), spec: "".into() }), ""),
                v => text_pieces(&as_slice(en, st, v)?),
            }
        };
        let outs = write_pieces(en, st, &args[0], &p, None)?;
        return Ok(Some(outs.into_iter().map(|(s, _)| (s, res_ok(t, Val::unit()))).collect()));
    }
    if name.contains("Formatter") && name.contains("debug_") {
        let t = rt!();
        let mut s3 = st.clone();
        if name.ends_with("_finish") {
            let mut p = vec![];
            for a in &args[1..] {
                let v = en.snapshot(st, a);
                p.push(Piece::Arg(Rc::new(ArgV { val: v, ty: t, how: "Debug".into(), spec: "".into() })));
            }
            emit(en, &mut s3, &args[0], p, None)?;
            return one(s3, res_ok(t, Val::unit()));
        }
        return unsup("debug builder");
    }
    if name.ends_with("::fmt") && args.len() == 2 && (name.contains("std::fmt::Display") || name.contains("std::fmt::Debug") || name.contains("std::fmt::UpperHex") || name.contains("std::fmt::LowerHex")) {
        let how = ["Display", "Debug", "UpperHex", "LowerHex"].iter().find(|h| name.contains(&format!("std::fmt::{}", h))).unwrap();
        let t = rt!();
        let g = generic_args(inst);
        let sty = if let Val::Ref(_) | Val::Slice(_) = &args[0] { en.info(inst).map(|i| i.body.arg_locals()[0].ty) } else { None };
        let _ = g;
        let (v, vt) = match sty {
            Some(s) => strip(en, st, &args[0], s),
            None => (args[0].clone(), t),
        };
        let a = Rc::new(ArgV { val: v, ty: vt, how: how.to_string(), spec: "".into() });
        let p = arg_pieces(&a, "");
        let outs = write_pieces(en, st, &args[1], &p, None)?;
        return Ok(Some(outs.into_iter().map(|(s, _)| (s, res_ok(t, Val::unit()))).collect()));
    }
    if name == "std::io::_print" || name == "std::io::_eprint" || name.ends_with("io::stdio::_print") || name.ends_with("io::stdio::_eprint") {
        let sink = if name.ends_with("_eprint") { "stderr" } else { "stdout" };
        let p = fmt_pieces(en, st, &args[0])?;
        let outs = write_pieces(en, st, &Val::unit(), &p, Some(sink))?;
        return Ok(Some(outs));
    }
    if name == "std::process::exit" {
        en.end(EndKind::Exit(args[0].clone()), st2);
        return Ok(Some(vec![]));
    }
    if name == "std::env::args" {
        return one(st2, Val::Opaque(key("env.args")));
    }
    // ---------------------------------------------------------------- outside world
    if en.foreign_events && is_foreign(name) {
        let t = rt!();
        let mut s3 = st.clone();
        let snap: Vec<Val> = args.iter().map(|a| en.snapshot(st, a)).collect();
        s3.emit(Event::Call(name.to_string(), Rc::new(snap)));
        let id = s3.trace.len();
        // buffers passed by mutable reference receive unknown contents
        if let Some(info) = en.info(inst) {
            let tys: Vec<Ty> = info.body.arg_locals().iter().map(|l| l.ty).collect();
            for (i, a) in args.iter().enumerate() {
                if i == 0 && name.contains("Read") {
                    continue;
                }
                if let (Some(p), Val::Ref(_)) = (tys.get(i).and_then(|t| pointee(*t)), a) {
                    if is_vec(p) || is_string(p) {
                        let nm = format!("io{}.{}", id, name.rsplit("::").next().unwrap());
                        en.store(&mut s3, a, sym(key(&nm), p))?;
                    }
                }
            }
        }
        let v = match zst(t) {
            Some(v) => v,
            None => sym(key(&format!("io{}.ret", id)), t),
        };
        return one(s3, v);
    }
    Ok(None)
}
fn vec_view(en: &En, st: &State, r: &Val, mutable: bool) -> R<SliceV> {
    match r {
        Val::Ref(p) => {
            let v = en.read_pl(st, p)?;
            if mutable {
                let v = vec_of(&v)?;
                return Ok(SliceV { base: SBase::Obj(p.clone(), v.elem), start: Form::k(0), len: v.len() });
            }
            match &v {
                Val::Vec(v) if v.items.is_empty() && v.base.is_none() => Ok(SliceV { base: SBase::Vals(Rc::new(vec![])), start: Form::k(0), len: Form::k(0) }),
                _ => slice_of_place(&v, p),
            }
        }
        v => as_slice(en, st, v),
    }
}
fn is_foreign(name: &str) -> bool {
    ["std::fs::", "std::io::", "std::time::", "std::env::", "std::path::", "<std::fs::", "<std::time::", "<std::io::"].iter().any(|p| name.starts_with(p))
}
/// (self type text, method) of an Iterator method
fn iter_method(name: &str) -> Option<(String, String)> {
    let m = name.rsplit("::").next()?.to_string();
    for t in ["std::iter::Iterator", "std::iter::DoubleEndedIterator", "std::iter::ExactSizeIterator", "std::clone::Clone"] {
        if let Some(i) = name.find(&format!(" as {}>::", t)) {
            return Some((name[..i].to_string(), m));
        }
    }
    for t in ["std::iter::Iterator::", "std::iter::DoubleEndedIterator::", "std::iter::ExactSizeIterator::"] {
        if name.starts_with(t) {
            return Some((String::new(), m));
        }
    }
    if name.starts_with("std::slice::Iter") || name.starts_with("std::vec::IntoIter") {
        return Some((String::new(), m));
    }
    None
}
fn inst_self(inst: Instance) -> Option<Ty> {
    // trait default method: the first generic argument is Self
    generic_args(inst).first().cloned()
}
/// iterator type for the receiver of an iterator method
fn generic_self(inst: Instance, a: &Val, en: &mut En, st: &State) -> Option<Ty> {
    let info = en.info(inst)?;
    let t = info.body.arg_locals().first()?.ty;
    let _ = (a, st);
    match pointee(t) {
        Some(p) if !matches!(adt_name(t).as_str(), "std::slice::Iter") => Some(p),
        _ => Some(t),
    }
}

// slices whose well-formedness as UTF-8 was asked for
thread_local! {
    static UTF8: std::cell::RefCell<Vec<(AtomId, SliceV)>> = std::cell::RefCell::new(vec![]);
}
/// the slice under the name it was first decoded with on the path
pub fn utf8_name(st: &State, s: &SliceV) -> SliceV {
    let known = UTF8.with(|u| u.borrow().clone());
    for (a, k) in known {
        if k.base == s.base && st.facts.atoms.contains_key(&a) && st.facts.eq0(&k.start.sub(&s.start)) && st.facts.eq0(&k.len.sub(&s.len)) {
            return k;
        }
    }
    if let Some(a) = utf8_valid(s).single() {
        UTF8.with(|u| {
            let mut u = u.borrow_mut();
            if !u.iter().any(|x| x.0 == a) {
                u.push((a, s.clone()));
            }
        });
    }
    s.clone()
}
/// are the octets well-formed UTF-8: a predicate on the slice, wherever it is looked at from
pub fn utf8_valid(s: &SliceV) -> Form {
    Form::named(&format!("utf8({})", show_slice(s)), 0, 1)
}
/// the error of decoding them
pub fn utf8_error(s: &SliceV) -> KeyId {
    key(&format!("utf8err({})", show_slice(s)))
}
