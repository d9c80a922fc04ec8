//! The element model: `parse_one_type` described by what it means instead of by its paths.
//!
//! An element is named by the region its octets lie in and its position there. Its validity, its
//! header and content lengths and its decoded content are fresh symbols of that name; the
//! identifier octet is the octet of the region. The checks of the DER layer establish that the
//! code of `parse_one_type` has this meaning.
use crate::form::*;
use crate::interp::*;
use crate::natives::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local! {
    pub static REGION_LEN: RefCell<HashMap<KeyId, Form>> = RefCell::new(HashMap::new());
    static POSITIONS: RefCell<HashMap<(KeyId, Form, Option<Form>), usize>> = RefCell::new(HashMap::new());
    static FNS: RefCell<HashMap<String, Option<Instance>>> = RefCell::new(HashMap::new());
    static TYPES: RefCell<HashMap<String, Ty>> = RefCell::new(HashMap::new());
}

/// (identifier octets, variant of ASNType)
pub fn id_type(b: i128) -> Option<&'static str> {
    Some(match b {
        0x01 => "Boolean",
        0x02 => "Integer",
        0x03 => "BitString",
        0x04 => "OctetString",
        0x05 => "Null",
        0x06 => "ObjectIdentifier",
        0x0C => "UTF8String",
        0x13 => "PrintableString",
        0x16 => "IA5String",
        0x17 | 0x18 => "UTCTime",
        0x30 => "Sequence",
        0x31 => "Set",
        0x80..=0x9E | 0xA0..=0xBE => "ExplicitTag",
        _ => return None,
    })
}
pub fn supported() -> VSet {
    thread_local!(static S: VSet = VSet::from_vals((0..256).filter(|b| id_type(*b).is_some()).collect()));
    S.with(|s| s.clone())
}

/// an instance of a function of the library, by the end of its path
pub fn find_fn(suffix: &str) -> Option<Instance> {
    if let Some(x) = FNS.with(|f| f.borrow().get(suffix).cloned()) {
        return x;
    }
    let mut r = find_fns(suffix).into_iter().next();
    // moved to another module: the shorter name, if it is the only one
    let mut short = suffix;
    while r.is_none() {
        short = match short.split_once("::") {
            Some((_, s)) => s,
            None => break,
        };
        let mut l = find_fns(short);
        if l.len() == 1 {
            r = l.pop();
        }
    }
    FNS.with(|f| f.borrow_mut().insert(suffix.to_string(), r));
    r
}
pub fn find_fns(suffix: &str) -> Vec<Instance> {
    let mut out: Vec<Instance> = vec![];
    let m = |n: &str| n == suffix || n.ends_with(&format!("::{}", suffix)) || n.starts_with('<') && n == suffix;
    for it in rustc_public::all_local_items() {
        if m(&norm_name(&it.name().to_string())) {
            if let Ok(i) = Instance::try_from(it) {
                out.push(i);
            }
        }
    }
    if out.is_empty() {
        for c in rustc_public::find_crates("rx509") {
            for d in c.fn_defs() {
                if m(&norm_name(&d.name().to_string())) {
                    if let Ok(i) = Instance::try_from(rustc_public::CrateItem(d.0)) {
                        out.push(i);
                    }
                }
            }
        }
    }
    out
}

/// position of an element in a region
#[derive(Clone, Debug, PartialEq)]
pub struct Pos {
    pub r: KeyId,
    pub o: Form,
    /// end of the enclosing content
    pub end: Form,
    pub key: String,
}
pub fn region_len(r: KeyId) -> Option<Form> {
    REGION_LEN.with(|m| m.borrow().get(&r).cloned())
}
pub fn set_region_len(r: KeyId, f: Form) {
    REGION_LEN.with(|m| m.borrow_mut().insert(r, f));
}
/// the element whose content is the region
pub fn enclosing(k: KeyId) -> Option<Pos> {
    let n = key_name(k);
    if !n.starts_with('e') || !n[1..].chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let id: usize = n[1..].parse().ok()?;
    POSITIONS.with(|p| {
        p.borrow().iter().find(|(_, v)| **v == id).map(|((r, o, e), _)| {
            let end = e.clone().or_else(|| region_len(*r)).unwrap_or(Form::k(0));
            Pos { r: *r, o: o.clone(), end, key: n.clone() }
        })
    })
}
/// what the names e0, e1, ... in the output stand for
pub fn legend() -> Vec<String> {
    let mut v: Vec<(usize, String)> = POSITIONS.with(|p| {
        p.borrow()
            .iter()
            .map(|((r, o, e), n)| {
                let e = e.as_ref().map(|e| format!(" (ends at {})", e.show())).unwrap_or_default();
                (*n, format!("e{}: element at offset {} of {}{}", n, o.show(), key_name(*r), e))
            })
            .collect()
    });
    v.sort();
    v.into_iter().map(|x| x.1).collect()
}
impl Pos {
    pub fn new(facts: &Facts, r: KeyId, o: &Form, end: &Form) -> Pos {
        let o = match facts.const_of(o) {
            Some(c) => Form::k(c),
            None => o.clone(),
        };
        let (whole, end) = match region_len(r) {
            Some(l) if l == *end || facts.eq0(&l.sub(end)) => (true, l),
            _ => (false, end.clone()),
        };
        let id = (r, o.clone(), if whole { None } else { Some(end.clone()) });
        let n = POSITIONS.with(|p| {
            let mut p = p.borrow_mut();
            let n = p.len();
            *p.entry(id).or_insert(n)
        });
        Pos { r, o, end, key: format!("e{}", n) }
    }
    pub fn rem(&self) -> Form {
        self.end.sub(&self.o)
    }
    pub fn valid(&self) -> Form {
        Form::named(&format!("v!{}", self.key), 0, 1)
    }
    pub fn id(&self) -> Form {
        Form::elem(self.r, &self.o, 0, 255)
    }
    /// what is known of the identifier octet under another name
    pub fn known_id(&self, facts: &Facts) -> Option<VSet> {
        let g = facts.alias(self.r, &self.o)?;
        Some(facts.vset(&Form::elem(self.r, &g, 0, 255)))
    }
    pub fn hdr(&self) -> Form {
        Form::named(&format!("h!{}", self.key), 2, 6)
    }
    pub fn len(&self) -> Form {
        Form::named(&format!("l!{}", self.key), 0, 0xFFFF_FFFF)
    }
    pub fn region(&self) -> KeyId {
        let k = key(&self.key);
        set_region_len(k, self.len());
        k
    }
    pub fn next(&self) -> Form {
        self.o.add(&self.hdr()).add(&self.len())
    }
    pub fn tlv(&self) -> KeyId {
        key(&format!("tlv!{}", self.key))
    }
    pub fn bits(&self) -> Form {
        Form::named(&format!("bits!{}", self.key), 0, 8 << 32)
    }
    pub fn content(&self) -> SliceV {
        SliceV { base: SBase::Sym(self.region(), Ty::unsigned_ty(UintTy::U8)), start: Form::k(0), len: self.len() }
    }
    pub fn tag(&self) -> Form {
        table(&self.id(), &|b| b & 0x1f)
    }
    pub fn oid(&self) -> (KeyId, Form) {
        oid_of(&self.key)
    }
    pub fn boolean(&self) -> Form {
        Form::named(&format!("b!{}", self.key), 0, 1)
    }
    pub fn time(&self) -> Form {
        Form::named(&format!("t!{}", self.key), 0, u64::MAX as i128)
    }
}
pub fn oid_of(k: &str) -> (KeyId, Form) {
    let k = format!("oid!{}", k);
    (key(&k), Form::named(&format!("{}.len", k), 2, 1 << 33))
}
/// a function of an octet
pub fn table(octet: &Form, f: &dyn Fn(i128) -> i128) -> Form {
    if let Some(c) = octet.constant() {
        return Form::k(f(c));
    }
    let a = octet.single().expect("octet");
    Form::table(a, (0..256).map(f).collect())
}
/// octets and unused bits of a bit string of n bits
pub fn bit_octets(n: &Form) -> Form {
    div_form(&n.addk(7), 8, &|f| f.inherent())
}
pub fn unused_bits(n: &Form) -> Form {
    bit_octets(n).scale(8).sub(n)
}

/// the decoded content of the element at `p` as a value of type `t`
pub fn build(p: &Pos, t: Ty) -> Val {
    if let Some(q) = pointee(t) {
        if is_unsized_seq(q) {
            return Val::Slice(Rc::new(p.content()));
        }
    }
    if is_bool(t) {
        return Val::Bool(p.boolean(), VSet::one(1));
    }
    if is_vec(t) {
        let (k, n) = p.oid();
        return Val::Vec(Rc::new(VecV { elem: generic_ty(t, 0).unwrap(), base: Some((k, n)), items: vec![] }));
    }
    if let Some((lo, hi)) = int_range(t) {
        if lo == 0 && hi == 255 {
            return Val::Int(p.tag());
        }
        return Val::Int(p.time());
    }
    let n = adt_name(t);
    let short = n.rsplit("::").next().unwrap_or("").to_string();
    match short.as_str() {
        "ASNInteger" => Val::agg(
            t,
            variant_fields(t, 0)
                .iter()
                .map(|_| {
                    let mut s = p.content();
                    s.len = Form::named(&format!("li!{}", p.key), 1, 0xFFFF_FFFF);
                    Val::Slice(Rc::new(s))
                })
                .collect(),
        ),
        "ASNBitString" => bit_string(t, p.region(), 1, &p.bits()),
        _ => Val::agg(t, variant_fields(t, 0).iter().map(|f| build(p, *f)).collect()),
    }
}
pub fn bit_string(t: Ty, region: KeyId, start: i128, bits: &Form) -> Val {
    let f = variant_fields(t, 0);
    Val::agg(
        t,
        f.iter()
            .map(|x| {
                if int_range(*x).is_some() {
                    Val::Int(unused_bits(bits))
                } else {
                    Val::slice(SBase::Sym(region, Ty::unsigned_ty(UintTy::U8)), Form::k(start), bit_octets(bits))
                }
            })
            .collect(),
    )
}

/// the element at `p` as an ASNType
pub fn element(p: &Pos, t: Ty) -> Val {
    let k = p.tlv();
    let done = DISCRS.with(|d| d.borrow().contains_key(&k));
    if !done {
        let tab = table(&p.id(), &|b| variant_index(t, id_type(b).unwrap_or("Null")).unwrap_or(0) as i128);
        DISCRS.with(|d| d.borrow_mut().insert(k, tab));
        let names: std::collections::BTreeSet<&str> = (0..256).filter_map(id_type).collect();
        for n in names {
            if let Some(v) = variant_index(t, n) {
                for (i, f) in variant_fields(t, v).iter().enumerate() {
                    let fk = key(&format!("{}.v{}.{}", key_name(k), v, i));
                    let b = build(p, *f);
                    DEFS.with(|d| d.borrow_mut().insert(fk, b));
                }
            }
        }
    }
    Val::Sym(k, t)
}
/// the identifier of the element at `p`
pub fn element_id(k: KeyId, t: Ty) -> Option<Val> {
    let n = key_name(k);
    let pos = n.strip_prefix("tlv!")?;
    let ik = key(&format!("tid!{}", pos));
    if !DISCRS.with(|d| d.borrow().contains_key(&ik)) {
        let src = DISCRS.with(|d| d.borrow().get(&k).cloned())?;
        // the id octet of the element determines both
        let (a, _) = src.t.first().cloned()?;
        let tab = table(&Form::atom(a), &|b| variant_index(t, id_type(b).unwrap_or("Null")).unwrap_or(0) as i128);
        DISCRS.with(|d| d.borrow_mut().insert(ik, tab));
    }
    Some(Val::Sym(ik, t))
}

fn hook_parse_one(en: &mut En, st: &State, inst: Instance, args: &[Val]) -> R<Option<Vec<(State, Val)>>> {
    let t = ret_ty(en, inst).ok_or(Stop::Unsup("return type".into()))?;
    let (at, et) = (generic_ty(t, 0).unwrap(), generic_ty(t, 1).unwrap());
    let rem = find_fn("reader::Reader::remainder").ok_or(Stop::Unsup("no Reader::remainder".into()))?;
    let take = find_fn("reader::Reader::take").ok_or(Stop::Unsup("no Reader::take".into()))?;
    let mut outs = en.call_inst(st, rem, vec![args[0].clone()])?;
    if outs.len() != 1 {
        return unsup("Reader::remainder has several outcomes");
    }
    let (st1, v) = outs.pop().unwrap();
    let s = as_slice(en, &st1, &v)?;
    let eos = || -> R<Val> {
        let v = variant_index(et, "EndOfStream").ok_or(Stop::Unsup("no EndOfStream error".into()))?;
        Ok(res_err(t, Val::en(et, v, vec![])))
    };
    if !truth(en, &st1, &s.len, VSet::range(1, INF))? {
        return Ok(Some(vec![(st1, eos()?)]));
    }
    let r = match &s.base {
        SBase::Sym(k, _) => *k,
        _ => return unsup("element in a constant"),
    };
    let p = Pos::new(&st1.facts, r, &s.start, &s.start.add(&s.len));
    let mut st2 = st1;
    if let Some(s) = p.known_id(&st2.facts) {
        if !st2.facts.assume(&p.id(), &s) {
            return Err(Stop::Infeasible);
        }
    }
    if truth(en, &st2, &p.valid(), VSet::one(1))? {
        if !st2.facts.assume(&p.id(), &supported()) || !st2.facts.assume(&p.rem().sub(&p.hdr()).sub(&p.len()), &VSet::range(0, INF)) {
            return Err(Stop::Infeasible);
        }
        let mut outs = en.call_inst(&st2, take, vec![args[0].clone(), Val::Int(p.hdr().add(&p.len()))])?;
        if outs.len() != 1 {
            return unsup("Reader::take has several outcomes");
        }
        let (st3, _) = outs.pop().unwrap();
        return Ok(Some(vec![(st3, res_ok(t, element(&p, at)))]));
    }
    // malformed: the cursor stops somewhere
    let adv = Form::named(&format!("adv!{}", p.key), 0, LEN_MAX);
    if !st2.facts.assume(&s.len.sub(&adv), &VSet::range(0, INF)) {
        return Err(Stop::Infeasible);
    }
    let mut outs = en.call_inst(&st2, take, vec![args[0].clone(), Val::Int(adv)])?;
    if outs.len() != 1 {
        return unsup("Reader::take has several outcomes");
    }
    let (st3, _) = outs.pop().unwrap();
    Ok(Some(vec![(st3, res_err(t, Val::Sym(key(&format!("err!{}", p.key)), et)))]))
}

fn hook_get_id(en: &mut En, st: &State, inst: Instance, args: &[Val]) -> R<Option<Vec<(State, Val)>>> {
    let t = ret_ty(en, inst).ok_or(Stop::Unsup("return type".into()))?;
    let v = en.load(st, &args[0])?;
    if let Val::Sym(k, _) = v {
        if let Some(v) = element_id(k, t) {
            return Ok(Some(vec![(st.clone(), v)]));
        }
    }
    Ok(None)
}

pub fn i32_of(s: &SliceV) -> Form {
    Form::named(&format!("i32!{}", show_slice(s)), -(1 << 31), (1 << 31) - 1)
}
fn hook_as_i32(en: &mut En, st: &State, inst: Instance, args: &[Val]) -> R<Option<Vec<(State, Val)>>> {
    let t = ret_ty(en, inst).ok_or(Stop::Unsup("return type".into()))?;
    let v = en.load(st, &args[0])?;
    let v = match v {
        Val::Sym(k, t) => match expand(k, t) {
            Some(v) => v,
            None => return Ok(None),
        },
        v => v,
    };
    let s = match &v {
        Val::Agg(a) => match a.f.first() {
            Some(Val::Slice(s)) if matches!(s.base, SBase::Sym(..)) => s.clone(),
            _ => return Ok(None),
        },
        _ => return Ok(None),
    };
    if truth(en, st, &s.len, VSet::range(1, 4))? {
        Ok(Some(vec![(st.clone(), opt_some(t, Val::Int(i32_of(&s))))]))
    } else {
        Ok(Some(vec![(st.clone(), opt_none(t))]))
    }
}
pub fn oid_valid(s: &SliceV) -> Form {
    Form::named(&format!("ov!{}", show_slice(s)), 0, 1)
}
fn hook_parse_oid(en: &mut En, st: &State, inst: Instance, args: &[Val]) -> R<Option<Vec<(State, Val)>>> {
    let t = ret_ty(en, inst).ok_or(Stop::Unsup("return type".into()))?;
    let (at, et) = (generic_ty(t, 0).unwrap(), generic_ty(t, 1).unwrap());
    let s = as_slice(en, st, &args[0])?;
    if !matches!(s.base, SBase::Sym(..)) {
        return Ok(None);
    }
    if truth(en, st, &oid_valid(&s), VSet::one(1))? {
        let v = variant_index(at, "ObjectIdentifier").ok_or(Stop::Unsup("no ObjectIdentifier".into()))?;
        let f = variant_fields(at, v).iter().map(|t| build_oid(&show_slice(&s), *t)).collect();
        Ok(Some(vec![(st.clone(), res_ok(t, Val::en(at, v, f)))]))
    } else {
        Ok(Some(vec![(st.clone(), res_err(t, Val::Sym(key(&format!("oerr!{}", show_slice(&s))), et)))]))
    }
}
pub fn build_oid(k: &str, t: Ty) -> Val {
    if is_vec(t) {
        let (k, n) = oid_of(k);
        return Val::Vec(Rc::new(VecV { elem: generic_ty(t, 0).unwrap(), base: Some((k, n)), items: vec![] }));
    }
    Val::agg(t, variant_fields(t, 0).iter().map(|f| build_oid(k, *f)).collect())
}

pub fn install(en: &mut En) {
    let h = |f: fn(&mut En, &State, Instance, &[Val]) -> R<Option<Vec<(State, Val)>>>| -> Hook { Rc::new(f) };
    for (f, h) in [
        ("der::parser::parse_one_type", h(hook_parse_one)),
        ("der::parser::parse_object_identifier", h(hook_parse_oid)),
        ("der::types::ASNType::get_id", h(hook_get_id)),
        ("der::types::ASNInteger::as_i32", h(hook_as_i32)),
    ] {
        if let Some(i) = find_fn(f) {
            en.hooks.insert(norm_name(&i.def.name().to_string()), h);
        }
    }
}
