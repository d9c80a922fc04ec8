//! One element: identifier, length, content and the typed values made of it.
use crate::form::*;
use crate::interp::*;
use crate::model::*;
use crate::natives::*;
use crate::report::Report;
use crate::spec::*;
use crate::val::*;
use crate::walk::*;
use crate::x509::{analyse, analyse_inst, Cmp, Root};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::rc::Rc;

const IDENT: Props = &["C08"];
const LENGTH: Props = &["C06"];
const EXTENT: Props = &["C07"];
const FLAG: Props = &["C09"];
const INT: Props = &["C10"];
const BITS: Props = &["C11"];
const OID: Props = &["C12"];
const TIME: Props = &["C13"];
const MOMENT: Props = &["C14"];
const TEXT: Props = &["C15"];

pub fn u8t() -> Ty {
    Ty::unsigned_ty(UintTy::U8)
}
fn named<T>(w: &W, n: &'static str, exp: Vec<Exp>) -> SR<T> {
    w.fail(PK::Named(n, exp))
}
fn octet_(st: &State, r: KeyId, o: &Form) -> Form {
    Form::elem(r, &st.facts.offset(r, o, true), 0, 255)
}
fn octet(w: &W, r: KeyId, o: &Form) -> Form {
    octet_(w.st, r, o)
}
fn int(f: &Form) -> Exp {
    Exp::Is(Val::Int(f.clone()))
}

/// an octet region handed to a function through a fresh reader
pub struct Reading {
    pub root: Root,
    pub input: SliceV,
    pub reader: Val,
}
pub fn reading(rep: &mut Report, path: &str, setup: &dyn Fn(&mut En)) -> Option<Reading> {
    let inst = match find_fn(path) {
        Some(i) => i,
        None => {
            rep.undecided("anchor", path, "function not found", vec![]);
            return None;
        }
    };
    let new = find_fn("reader::Reader::new");
    let new = match new {
        Some(n) => n,
        None => {
            rep.undecided("anchor", "Reader::new", "function not found", vec![]);
            return None;
        }
    };
    let k = key("in");
    let len = Form::named("in.len", 0, 1 << 48);
    set_region_len(k, len.clone());
    let input = SliceV { base: SBase::Sym(k, u8t()), start: Form::k(0), len };
    let mut en = En::new();
    setup(&mut en);
    let outs = en.run(State::default(), new, vec![Val::Slice(Rc::new(input.clone()))]);
    if outs.len() != 1 {
        rep.undecided("anchor", "Reader::new", "several outcomes", vec![]);
        return None;
    }
    let (mut st, v) = outs.into_iter().next().unwrap();
    let t = ret_ty(&mut en, new)?;
    let reader = Val::Ref(st.new_obj(v, t));
    let root = crate::x509::analyse_with(rep, en, inst, st, vec![reader.clone()])?;
    Some(Reading { root, input, reader })
}
/// what is left in the reader on a path
pub fn left(en: &mut En, st: &State, reader: &Val) -> R<SliceV> {
    let rem = find_fn("reader::Reader::remainder").ok_or(Stop::Unsup("no Reader::remainder".into()))?;
    let mut outs = en.call_inst(st, rem, vec![reader.clone()])?;
    if outs.len() != 1 {
        return unsup("Reader::remainder has several outcomes");
    }
    let (s, v) = outs.pop().unwrap();
    as_slice(en, &s, &v)
}

// ---------------------------------------------------------------- the specification
/// the length at offset o: (value, octets it takes)
fn length(w: &mut W, r: KeyId, o: &Form, end: &Form) -> SR<(Form, i128)> {
    w.enter(LENGTH, "length");
    let missing = |w: &W, o: &Form| -> R<bool> { Ok(!w.is(&end.sub(o), VSet::range(1, INF))?) };
    if missing(w, o)? {
        return named(w, "EndOfStream", vec![]);
    }
    let b = octet(w, r, o);
    if w.is(&b, VSet::range(0, 127))? {
        return Ok((b, 1));
    }
    if w.is(&b, VSet::one(0x80))? {
        return named(w, "UnsupportedIndefiniteLength", vec![]);
    }
    if w.is(&b, VSet::one(0xFF))? {
        return named(w, "ReservedLengthValue", vec![]);
    }
    for (n, min) in [(1i128, 1i128 << 7), (2, 1 << 8), (3, 1 << 16), (4, 1 << 24)] {
        if !w.is(&b, VSet::one(0x80 + n))? {
            continue;
        }
        let mut v = Form::k(0);
        for i in 0..n {
            let p = o.addk(1 + i);
            if missing(w, &p)? {
                return named(w, "EndOfStream", vec![]);
            }
            v = v.scale(256).add(&octet(w, r, &p));
        }
        if w.is(&v, VSet::range(0, min - 1))? {
            return named(w, "BadLengthEncoding", vec![Exp::Is(Val::int(n)), int(&v)]);
        }
        return Ok((v, n + 1));
    }
    let n = table(&b, &|b| b & 0x7f);
    named(w, "UnsupportedLengthByteCount", vec![int(&n)])
}
/// a subidentifier at the cursor
fn subidentifier(w: &mut W, c: &mut Cur) -> SR<Form> {
    let mut v = Form::k(0);
    for i in 0..4 {
        if w.at_end(c)? {
            return named(w, "EndOfStream", vec![]);
        }
        let b = octet(w, c.r, &c.o);
        if i == 0 && w.is(&b, VSet::one(0x80))? {
            return named(w, "BadOidLength", vec![]);
        }
        v = v.scale(128).add(&table(&b, &|b| b & 0x7f));
        c.o = c.o.addk(1);
        if w.is(&b, VSet::range(0, 127))? {
            return Ok(v);
        }
    }
    named(w, "BadOidLength", vec![])
}
fn is_arcs(t: Ty) -> bool {
    int_range(t) == Some((0, u32::MAX as i128))
}
fn arcs_of(v: &Val) -> Option<Vec<Val>> {
    match v {
        Val::Vec(x) if is_arcs(x.elem) => Some(vec![v.clone()]),
        _ => None,
    }
}
fn arc(w: &mut W, c: &mut Cur, acc: &mut Vec<Val>) -> SR<()> {
    let v = subidentifier(w, c)?;
    match acc.first_mut() {
        Some(Val::Vec(x)) => {
            Rc::make_mut(x).items.push(Val::Int(v));
            Ok(())
        }
        _ => Err(SE::S(Stop::Unsup("arcs".into()))),
    }
}
fn oid(w: &mut W, s: &SliceV, got: Option<&Val>, cmp: &mut Vec<Cmp>) -> SR<()> {
    w.enter(OID, "object identifier");
    let mut c = Cur::of(s)?;
    let first = subidentifier(w, &mut c)?;
    let (a, b) = if w.is(&first, VSet::range(0, 39))? {
        (0, first)
    } else if w.is(&first, VSet::range(40, 79))? {
        (1, first.addk(-40))
    } else {
        (2, first.addk(-80))
    };
    let t = Ty::unsigned_ty(UintTy::U32);
    let mut acc = vec![Val::Vec(Rc::new(VecV { elem: t, base: None, items: vec![Val::int(a), Val::Int(b)] }))];
    w.series(&mut c, &mut acc, &arcs_of, None, &mut arc)?;
    if let Some(g) = got {
        let g = peel(g)?;
        let ok = same(w.en, w.st, &g, &acc[0])?;
        cmp.push(Cmp { props: OID.to_vec(), label: "arcs".into(), ok, got: g.show_d(3) });
    }
    Ok(())
}
/// the value inside structs of one field
pub fn peel(v: &Val) -> R<Val> {
    match v {
        Val::Agg(a) if a.f.len() == 1 => peel(&a.f[0]),
        Val::Sym(k, t) if !is_enum(*t) => match expand(*k, *t) {
            Some(v) if !matches!(v, Val::Sym(..)) => peel(&v),
            _ => Ok(v.clone()),
        },
        v => Ok(v.clone()),
    }
}

/// two ASCII digits as a number; the caller has seen that they are digits
fn two(w: &W, r: KeyId, o: &Form) -> Form {
    octet(w, r, o).scale(10).add(&octet(w, r, &o.addk(1))).addk(-528)
}
fn time(w: &mut W, s: &SliceV, general: bool, got: Option<&Val>, cmp: &mut Vec<Cmp>) -> SR<()> {
    w.enter(TIME, "time");
    let c = Cur::of(s)?;
    let n = if general { 15 } else { 13 };
    let at = |i: i128| c.o.addk(i);
    let bad = |w: &W| -> SR<()> { named(w, "BadUTCTime", vec![]) };
    let digits = VSet::range(48, 57);
    let mut conds: Vec<(Form, VSet)> = vec![(s.len.clone(), VSet::one(n))];
    for i in 0..n - 1 {
        conds.push((octet(w, c.r, &at(i)), digits.clone()));
    }
    conds.push((octet(w, c.r, &at(n - 1)), VSet::one(b'Z' as i128)));
    let o = if general { 4 } else { 2 };
    let (month, day) = (two(w, c.r, &at(o)), two(w, c.r, &at(o + 2)));
    let (hour, minute, second) = (two(w, c.r, &at(o + 4)), two(w, c.r, &at(o + 6)), two(w, c.r, &at(o + 8)));
    conds.push((month.clone(), VSet::range(1, 12)));
    conds.push((day.clone(), VSet::range(1, 31)));
    conds.push((hour.clone(), VSet::range(0, 23)));
    conds.push((minute.clone(), VSet::range(0, 59)));
    conds.push((second.clone(), VSet::range(0, 59)));
    if general {
        let y = two(w, c.r, &at(0)).scale(100).add(&two(w, c.r, &at(2)));
        conds.push((y, VSet::range(1970, 9999)));
    }
    // a condition known to fail comes first
    for (i, (f, s)) in conds.iter().enumerate() {
        if (i == 0 || w.st.facts.entails(&conds[0].0, &conds[0].1)) && w.en.decide(w.st, f, s) == Some(false) {
            return bad(w);
        }
    }
    for (f, s) in &conds {
        if !w.is(f, s.clone())? {
            return bad(w);
        }
    }
    // the year, with the parts of it that matter for leap years
    let year = if general {
        two(w, c.r, &at(0)).scale(100).add(&two(w, c.r, &at(2)))
    } else {
        let lo = two(w, c.r, &at(0));
        if w.is(&lo, VSet::range(50, 99))? {
            lo.addk(1900)
        } else {
            lo.addk(2000)
        }
    };
    if !w.is(&year, VSet::range(1970, 9999))? {
        return bad(w);
    }
    let q = |w: &W, f: &Form, d: i128| div_form(f, d, &|x| w.st.facts.range(x));
    let rem = |w: &W, f: &Form, d: i128| f.sub(&q(w, f, d).scale(d));
    let mut m = 0;
    for i in 1..=12 {
        if w.is(&month, VSet::one(i))? {
            m = i;
            break;
        }
    }
    let days = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut leap = false;
    if m >= 2 {
        // whether the year is a leap year is asked only if it matters
        leap = w.is(&rem(w, &year, 4), VSet::one(0))?
            && (!w.is(&rem(w, &year, 100), VSet::one(0))? || w.is(&rem(w, &year, 400), VSet::one(0))?);
    }
    let dim = if m == 2 && leap { 29 } else { days[m as usize - 1] };
    if !w.is(&day, VSet::range(1, dim))? {
        return bad(w);
    }
    let got = match got {
        Some(g) => g,
        None => return Ok(()),
    };
    let before: i128 = days[..m as usize - 1].iter().sum::<i128>() + if m > 2 && leap { 1 } else { 0 };
    let d = year
        .addk(-1970)
        .scale(365)
        .add(&q(w, &year.addk(-1969), 4))
        .sub(&q(w, &year.addk(-1901), 100))
        .add(&q(w, &year.addk(-1601), 400))
        .add(&day)
        .addk(before - 1);
    let want = d.scale(24).add(&hour).scale(60).add(&minute).scale(60).add(&second);
    let g = peel(got)?;
    let ok = match &g {
        Val::Int(f) => zero_by_digits(w, &f.sub(&want))?,
        g => return Err(SE::S(Stop::Unsup(format!("time value {}", g.show_d(2))))),
    };
    cmp.push(Cmp { props: MOMENT.to_vec(), label: "seconds".into(), ok, got: g.show() });
    Ok(())
}
/// is the form zero: by its normal form, otherwise digit by digit
fn zero_by_digits(w: &W, d: &Form) -> R<bool> {
    if w.st.facts.eq0(d) {
        return Ok(true);
    }
    if let Some(s) = w.st.facts.simplify(d) {
        if let Some(b) = w.en.decide(w.st, &s, &VSet::one(0)) {
            return Ok(b);
        }
    }
    let mut atoms = vec![];
    d.deep_atoms(&mut atoms);
    let mut best: Option<(i128, AtomId, VSet)> = None;
    for a in atoms {
        if atom_def(a).is_some() {
            continue;
        }
        let s = w.st.facts.atom_set(a);
        if s.single().is_none() && s.size() <= 256 && best.as_ref().map(|b| s.size() < b.0).unwrap_or(true) {
            best = Some((s.size(), a, s));
        }
    }
    match best {
        Some((_, a, s)) => Err(Stop::Split(Form::atom(a), s.iter().map(VSet::one).collect())),
        None => zero(w.en, w.st, d),
    }
}

/// an element at the start of the input; `after` is what is left of it
fn element_spec(w: &mut W, input: &SliceV, got: Option<&Val>, after: Option<&SliceV>, cmp: &mut Vec<Cmp>) -> SR<()> {
    let c = Cur::of(input)?;
    w.enter(EXTENT, "element");
    if w.at_end(&c)? {
        return named(w, "EndOfStream", vec![]);
    }
    w.enter(IDENT, "identifier");
    let id = octet(w, c.r, &c.o);
    if !w.is(&id, supported())? {
        return named(w, "UnsupportedId", vec![Exp::Id(id)]);
    }
    let (len, n) = length(w, c.r, &c.o.addk(1), &c.end)?;
    w.enter(EXTENT, "content");
    let o = c.o.addk(1 + n);
    if !w.is(&c.end.sub(&o).sub(&len), VSet::range(0, INF))? {
        return named(w, "EndOfStream", vec![]);
    }
    let content = SliceV { base: input.base.clone(), start: o.clone(), len: len.clone() };
    let mut ty = "";
    for t in [
        "Boolean", "Integer", "BitString", "OctetString", "Null", "ObjectIdentifier", "UTF8String", "PrintableString", "IA5String", "UTCTime",
        "Sequence", "Set", "ExplicitTag",
    ] {
        if w.is(&id, ids_of(t))? {
            ty = t;
            break;
        }
    }
    w.enter(IDENT, "type");
    let mut parts: Vec<Val> = vec![];
    if let Some(g) = got {
        let (i, f) = w.en.enum_fields(w.st, g)?;
        let t = ty_of(g).ok_or(Stop::Unsup("element".into()))?;
        let name = variant_name(t, i);
        let ok = name == ty;
        let mut props = IDENT.to_vec();
        props.extend_from_slice(match ty {
            "UTF8String" | "PrintableString" | "IA5String" | "OctetString" => TEXT,
            "UTCTime" => TIME,
            _ => &[],
        });
        cmp.push(Cmp { props, label: format!("a {}", ty), ok, got: name });
        parts = f;
        if !ok {
            return Ok(());
        }
        // what comes after it
        if let Some(a) = after {
            let rest = SliceV { base: input.base.clone(), start: o.add(&len), len: c.end.sub(&o).sub(&len) };
            let ok = same_slice(w.en, w.st, a, &rest)?;
            cmp.push(Cmp { props: EXTENT.to_vec(), label: "what is left after the element".into(), ok, got: show_slice(a) });
        }
    }
    let got = parts.first().map(peel).transpose()?;
    typed(w, ty, &id, &content, got.as_ref(), got.is_some(), cmp)
}
fn cmp_slice(w: &W, cmp: &mut Vec<Cmp>, props: Props, label: &str, got: &Val, want: &SliceV) -> R<()> {
    let s = as_slice(w.en, w.st, got)?;
    let ok = same_slice(w.en, w.st, &s, want)?;
    let mut p = props.to_vec();
    p.push("C07");
    cmp.push(Cmp { props: p, label: label.into(), ok, got: show_slice(&s) });
    Ok(())
}
/// the content of an element of type `ty`
fn typed(w: &mut W, ty: &str, id: &Form, s: &SliceV, got: Option<&Val>, _some: bool, cmp: &mut Vec<Cmp>) -> SR<()> {
    let c = Cur::of(s)?;
    match ty {
        "Boolean" => {
            w.enter(FLAG, "boolean");
            if !w.is(&s.len, VSet::one(1))? {
                return named(w, "BadBooleanLength", vec![int(&s.len)]);
            }
            let b = octet(w, c.r, &c.o);
            let v = if w.is(&b, VSet::one(0xFF))? {
                true
            } else if w.is(&b, VSet::one(0))? {
                false
            } else {
                return named(w, "BadBooleanValue", vec![int(&b)]);
            };
            if let Some(g) = got {
                let ok = w.en.truth(w.st, g)? == v;
                cmp.push(Cmp { props: FLAG.to_vec(), label: "boolean".into(), ok, got: g.show() });
            }
        }
        "Null" => {
            w.enter(FLAG, "null");
            if !w.is(&s.len, VSet::one(0))? {
                return named(w, "NullWithNonEmptyContents", vec![int(&s.len)]);
            }
        }
        "Integer" => {
            w.enter(INT, "integer");
            if w.is(&s.len, VSet::one(0))? {
                return named(w, "ZeroLengthInteger", vec![]);
            }
            if let Some(g) = got {
                cmp_slice(w, cmp, INT, "octets of the integer", g, s)?;
            }
        }
        "BitString" => {
            w.enter(BITS, "bit string");
            if w.is(&s.len, VSet::one(0))? {
                return named(w, "EndOfStream", vec![]);
            }
            let u = octet(w, c.r, &c.o);
            if !w.is(&u, VSet::range(0, 7))? || w.is(&s.len, VSet::one(1))? && !w.is(&u, VSet::one(0))? {
                return named(w, "BitStringUnusedBitsTooLarge", vec![int(&u)]);
            }
            if let Some(g) = got {
                let x = field_by(g, &|x| matches!(x, Val::Int(_)))?;
                let ok = same(w.en, w.st, &x, &Val::Int(u))?;
                cmp.push(Cmp { props: BITS.to_vec(), label: "unused bits".into(), ok, got: x.show() });
                let x = field_by(g, &|x| matches!(x, Val::Slice(_)))?;
                let want = SliceV { base: s.base.clone(), start: s.start.addk(1), len: s.len.addk(-1) };
                cmp_slice(w, cmp, BITS, "octets of the bit string", &x, &want)?;
            }
        }
        "ObjectIdentifier" => oid(w, s, got, cmp)?,
        "UTF8String" | "PrintableString" | "IA5String" => {
            w.enter(TEXT, "text");
            let s8 = utf8_name(w.st, s);
            if !w.is(&utf8_valid(&s8), VSet::one(1))? {
                return named(w, "BadUTF8", vec![Exp::Is(Val::Sym(utf8_error(&s8), u8t()))]);
            }
            if let Some(g) = got {
                cmp_slice(w, cmp, TEXT, "text", g, s)?;
            }
        }
        "OctetString" | "Sequence" | "Set" => {
            w.enter(TEXT, "octets");
            if let Some(g) = got {
                cmp_slice(w, cmp, TEXT, "octets", g, s)?;
            }
        }
        "ExplicitTag" => {
            w.enter(TEXT, "content of a tag");
            if let Some(g) = got {
                let x = field_by(g, &|x| matches!(x, Val::Int(_)))?;
                let ok = same(w.en, w.st, &x, &Val::Int(table(id, &|b| b & 0x1f)))?;
                cmp.push(Cmp { props: IDENT.to_vec(), label: "tag number".into(), ok, got: x.show() });
                let x = field_by(g, &|x| matches!(x, Val::Slice(_)))?;
                cmp_slice(w, cmp, TEXT, "content of a tag", &x, s)?;
            }
        }
        "UTCTime" => {
            // the two kinds of time differ by their identifier octet
            let general = w.is(id, VSet::one(0x18))?;
            time(w, s, general, got, cmp)?
        }
        _ => return Err(SE::S(Stop::Infeasible)),
    }
    Ok(())
}

// ---------------------------------------------------------------- judging
fn error_props(n: &str) -> &'static [&'static str] {
    match n {
        "BadBooleanLength" | "BadBooleanValue" | "NullWithNonEmptyContents" => FLAG,
        "ZeroLengthInteger" => INT,
        "UnsupportedId" => IDENT,
        "UnsupportedIndefiniteLength" | "ReservedLengthValue" | "UnsupportedLengthByteCount" | "BadLengthEncoding" => LENGTH,
        "BadOidLength" => OID,
        "BadUTF8" => TEXT,
        "BadUTCTime" => TIME,
        "BitStringUnusedBitsTooLarge" => BITS,
        "EndOfStream" => EXTENT,
        _ => &[],
    }
}
type Spec<'a> = dyn FnMut(&mut W, Option<&Val>, &mut Vec<Cmp>) -> SR<()> + 'a;
fn judge(w: &mut W, res: &Val, spec: &mut Spec) -> R<Verdict> {
    let r = as_result(w.en, w.st, res)?;
    let mut cmp = vec![];
    let verdict = match spec(w, r.as_ref().ok(), &mut cmp) {
        Err(SE::S(s)) => return Err(s),
        Err(SE::P(p)) => Err(p),
        Ok(()) => Ok(()),
    };
    match (r, verdict) {
        (Ok(_), Err(p)) => match &p.kind {
            PK::Any => holds(),
            PK::Internal(m) => Ok(Verdict::Broken(p.props.iter().map(|s| s.to_string()).collect(), format!("{}: {}", p.place, m))),
            _ => Ok(Verdict::Broken(p.props.iter().map(|s| s.to_string()).collect(), format!("{}: accepted in spite of {}", p.place, describe(&p)))),
        },
        (Err(e), Err(p)) => check_error(w.en, w.st, &p, &e),
        (Err(e), Ok(())) => {
            let n = error_name(w.en, w.st, &e)?.0;
            let mut props: Vec<String> = error_props(&n).iter().map(|s| s.to_string()).collect();
            props.extend(w.sect.iter().map(|s| s.to_string()));
            Ok(Verdict::Broken(props, format!("a valid element is rejected with {}", unwrap_error(&e)?.show_d(3))))
        }
        (Ok(_), Ok(())) => {
            let mut props = vec![];
            let mut msg = String::new();
            for c in cmp {
                if !c.ok {
                    props.extend(c.props.iter().map(|s| s.to_string()));
                    msg += &format!("{}{} is {}", if msg.is_empty() { "" } else { "; " }, c.label, c.got);
                }
            }
            if msg.is_empty() {
                holds()
            } else {
                Ok(Verdict::Broken(props, msg))
            }
        }
    }
}
fn panics(rep: &mut Report, root: &Root, rule: &str) {
    for e in &root.en.ends {
        if let EndKind::Panic(m) = &e.kind {
            rep.violation(rule, &format!("{} at {}", e.func, e.span), &format!("panics: {}", m), detail(&e.state, ""));
        }
    }
}

/// parse_one_type: the meaning of one element
pub fn check_element(rep: &mut Report) {
    let mut rd = match reading(rep, "parser::parse_one_type", &|_| {}) {
        Some(r) => r,
        None => return,
    };
    let rule = "parse_one_type: every path accepts and delivers what the encoding rules say";
    let outs = std::mem::take(&mut rd.root.outs);
    let (input, reader) = (rd.input.clone(), rd.reader.clone());
    let root = &mut rd.root;
    rep.parallel(outs.len(), &mut |rep, i| {
        let (st, v) = &outs[i];
        let what = v.show_d(5);
        obligation(&mut root.en, rep, rule, &root.site, st, &what, &mut |en, s, _| {
            let after = left(en, s, &reader)?;
            let mut w = W::new(en, s, 0, 0);
            judge(&mut w, v, &mut |w, g, c| element_spec(w, &input, g, Some(&after), c))
        });
        rep.sample(format!("{} -> {} under {}", root.name, v.show_d(4), st.facts.show().iter().take(12).cloned().collect::<Vec<_>>().join("; ")));
    });
    panics(rep, root, rule);
    arc_loops(rep, root);
}
/// each iteration of a loop over arcs adds the next one
fn arc_loops(rep: &mut Report, root: &mut Root) {
    let rule = "object identifiers: each iteration adds exactly the next arc";
    for i in 0..root.en.recs.len() {
        let rec = root.en.recs[i].clone();
        let cursor = match cursor_of(&rec) {
            Some(x) => x,
            None => continue,
        };
        let path = match acc_path(&rec.head, &arcs_of) {
            Ok(Some(p)) => p,
            _ => continue,
        };
        let site = format!("loop in {} ({})", rec.func, rec.span);
        for (b, y) in rec.backs.iter().zip(rec.ys.iter()) {
            let y = cursor.after(y);
            obligation(&mut root.en, rep, rule, &site, b, "next iteration", &mut |en, s, _| {
                let mut acc = acc_at_with(&rec.head, &path, &arcs_of)?;
                let back = acc_at_with(s, &path, &arcs_of)?;
                let mut w = W::new(en, s, rec.tlen, 0);
                w.enter(OID, "object identifier");
                let mut c = cursor.cur();
                match w.series(&mut c, &mut acc, &arcs_of, Some(&y), &mut arc) {
                    Err(SE::S(s)) => Err(s),
                    Err(SE::P(p)) => match &p.kind {
                        PK::Internal(m) => broken(OID, m.clone()),
                        _ => broken(OID, format!("the loop goes on in spite of {}", describe(&p))),
                    },
                    Ok(()) => {
                        if !same(w.en, s, &acc[0], &back[0])? {
                            return broken(OID, format!("after an arc the list is {} instead of {}", back[0].show_d(3), acc[0].show_d(3)));
                        }
                        holds()
                    }
                }
            });
        }
    }
}
/// parse_length on its own
pub fn check_length(rep: &mut Report) {
    let mut rd = match reading(rep, "parser::parse_length", &|_| {}) {
        Some(r) => r,
        None => return,
    };
    let rule = "parse_length: accepts and delivers exactly the minimal definite lengths";
    let outs = std::mem::take(&mut rd.root.outs);
    let (input, reader) = (rd.input.clone(), rd.reader.clone());
    let root = &mut rd.root;
    for (st, v) in &outs {
        let what = v.show_d(5);
        obligation(&mut root.en, rep, rule, &root.site, st, &what, &mut |en, s, _| {
            let after = left(en, s, &reader)?;
            let mut w = W::new(en, s, 0, 0);
            judge(&mut w, v, &mut |w, g, cmp| {
                let c = Cur::of(&input)?;
                let (len, n) = length(w, c.r, &c.o, &c.end)?;
                if let Some(g) = g {
                    let ok = same(w.en, w.st, g, &Val::Int(len))?;
                    cmp.push(Cmp { props: LENGTH.to_vec(), label: "the length".into(), ok, got: g.show() });
                    let rest = SliceV { base: input.base.clone(), start: c.o.addk(n), len: c.end.sub(&c.o).addk(-n) };
                    let ok = same_slice(w.en, w.st, &after, &rest)?;
                    cmp.push(Cmp { props: LENGTH.to_vec(), label: "what is left after the length".into(), ok, got: show_slice(&after) });
                }
                Ok(())
            })
        });
        rep.sample(format!("{} -> {} under {}", root.name, v.show_d(4), st.facts.show().iter().take(12).cloned().collect::<Vec<_>>().join("; ")));
    }
    panics(rep, root, rule);
}
/// Identifier::from: class, form and number of every octet
pub fn check_identifier(rep: &mut Report) {
    let mut root = match analyse(rep, "types::Identifier::from", &|_| {}) {
        Some(r) => r,
        None => return,
    };
    let rule = "Identifier::from: class, form and tag number of every octet";
    let arg = match &root.args[0] {
        Val::Int(f) => f.clone(),
        _ => return rep.undecided(rule, &root.site, "argument is no octet", vec![]),
    };
    let outs = std::mem::take(&mut root.outs);
    for (st, v) in &outs {
        obligation(&mut root.en, rep, rule, &root.site, st, &v.show(), &mut |en, s, _| {
            if identifier_is(en, s, v, &arg)? {
                holds()
            } else {
                broken(IDENT, format!("identifier octet is split into {}", v.show()))
            }
        });
        rep.sample(format!("{} -> {} under {}", root.name, v.show_d(4), st.facts.show().join("; ")));
    }
    panics(rep, &root, rule);
}
/// ASNInteger::as_i32: the value of one to four octets
pub fn check_as_i32(rep: &mut Report) {
    let mut root = match analyse(rep, "types::ASNInteger::as_i32", &|_| {}) {
        Some(r) => r,
        None => return,
    };
    let rule = "ASNInteger::as_i32: two's complement value of one to four octets, otherwise none";
    let st0 = State::default();
    let s = match loaded(&root.en, &st0, &root.args[0]).and_then(|v| field_by(&v, &|x| matches!(x, Val::Slice(_)))).and_then(|v| as_slice(&root.en, &st0, &v)) {
        Ok(s) => s,
        Err(_) => return rep.undecided(rule, &root.site, "no octets in the integer", vec![]),
    };
    let outs = std::mem::take(&mut root.outs);
    for (st, v) in &outs {
        obligation(&mut root.en, rep, rule, &root.site, st, &v.show(), &mut |en, st, _| {
            let got = as_option(en, st, v)?;
            let c = Cur::of(&s)?;
            for n in 1..=4 {
                if truth(en, st, &s.len, VSet::one(n))? {
                    let mut x = Form::k(0);
                    for i in 0..n {
                        let o = octet_(st, c.r, &c.o.addk(i));
                        let o = if i == 0 { table(&o, &|b| if b < 128 { b } else { b - 256 }) } else { o };
                        x = x.scale(256).add(&o);
                    }
                    return match got {
                        None => broken(INT, format!("an integer of {} octets has no value", n)),
                        Some(g) if same(en, st, &g, &Val::Int(x.clone()))? => holds(),
                        Some(g) => broken(INT, format!("an integer of {} octets has the value {}", n, g.show())),
                    };
                }
            }
            match got {
                None => holds(),
                Some(g) => broken(INT, format!("an integer of no or more than four octets has the value {}", g.show())),
            }
        });
        rep.sample(format!("{} -> {} under {}", root.name, v.show_d(4), st.facts.show().join("; ")));
    }
    panics(rep, &root, rule);
}

// ---------------------------------------------------------------- bit strings
/// a bit string with `u` unused bits in the last of `n` octets
fn bit_string_of(rep: &mut Report, en: &mut En, st: &State, u: &Form, n: &Form) -> Option<(State, Val, SliceV)> {
    let new = match find_fn("types::ASNBitString::new") {
        Some(i) => i,
        None => {
            rep.undecided("anchor", "ASNBitString::new", "function not found", vec![]);
            return None;
        }
    };
    let s = SliceV { base: SBase::Sym(key("octets"), u8t()), start: Form::k(0), len: n.clone() };
    let mut args = vec![];
    for l in en.info(new)?.body.arg_locals() {
        args.push(if int_range(l.ty).is_some() { Val::Int(u.clone()) } else { Val::Slice(Rc::new(s.clone())) });
    }
    let outs = en.run(st.clone(), new, args);
    if outs.len() != 1 {
        rep.undecided("anchor", "ASNBitString::new", "several outcomes", vec![]);
        return None;
    }
    let (mut st, v) = outs.into_iter().next().unwrap();
    let t = ret_ty(en, new)?;
    let r = Val::Ref(st.new_obj(v, t));
    Some((st, r, s))
}
pub fn check_bit_string(rep: &mut Report) {
    let u = Form::named("unused", 0, 7);
    let n = Form::named("octets.len", 0, 1 << 48);
    // valid bit strings: no unused bits without octets
    let mut st = State::default();
    st.facts.assume(&n.scale(8).sub(&u), &VSet::range(0, INF));
    for (f, rule) in [
        ("types::ASNBitString::size", "ASNBitString::size: eight bits per octet but the unused ones"),
        ("types::ASNBitString::octets", "ASNBitString::octets: the octets exactly if no bit is unused"),
    ] {
        let mut en = En::new();
        let (st, r, s) = match bit_string_of(rep, &mut en, &st, &u, &n) {
            Some(x) => x,
            None => return,
        };
        let inst = match find_fn(f) {
            Some(i) => i,
            None => {
                rep.undecided("anchor", f, "function not found", vec![]);
                continue;
            }
        };
        let mut root = match crate::x509::analyse_with(rep, en, inst, st, vec![r]) {
            Some(r) => r,
            None => continue,
        };
        let outs = std::mem::take(&mut root.outs);
        for (st, v) in &outs {
            obligation(&mut root.en, rep, rule, &root.site, st, &v.show(), &mut |en, st, _| {
                if f.ends_with("size") {
                    return if same(en, st, v, &Val::Int(n.scale(8).sub(&u)))? { holds() } else { broken(BITS, format!("the size is {}", v.show())) };
                }
                let got = as_option(en, st, v)?;
                let full = truth(en, st, &u, VSet::one(0))?;
                match got {
                    None if full => broken(BITS, "no octets although no bit is unused"),
                    Some(_) if !full => broken(BITS, "octets although bits are unused"),
                    None => holds(),
                    Some(g) => {
                        let g = as_slice(en, st, &g)?;
                        if same_slice(en, st, &g, &s)? {
                            holds()
                        } else {
                            broken(BITS, format!("the octets are {}", show_slice(&g)))
                        }
                    }
                }
            });
            rep.sample(format!("{} -> {} under {}", root.name, v.show_d(4), st.facts.show().join("; ")));
        }
        panics(rep, &root, rule);
    }
    bit_iterator(rep);
}
/// call the iterator again and again on a bit string of a few octets, then from an arbitrary position
fn bit_iterator(rep: &mut Report) {
    let rule = "bit string iterator: every bit in order, most significant first, then the end";
    let iter = match find_fn("types::ASNBitString::iter") {
        Some(i) => i,
        None => return rep.undecided(rule, "ASNBitString::iter", "function not found", vec![]),
    };
    let mut en = En::new();
    let u = Form::named("unused", 0, 7);
    let mut next = None;
    let mut counter: Option<usize> = None;
    for n in 0..=3i128 {
        let mut st = State::default();
        if n == 0 {
            st.facts.assume(&u, &VSet::one(0));
        }
        let (st, r, s) = match bit_string_of(rep, &mut en, &st, &u, &Form::k(n)) {
            Some(x) => x,
            None => return,
        };
        let t = match ret_ty(&mut en, iter) {
            Some(t) => t,
            None => return rep.undecided(rule, "ASNBitString::iter", "no type", vec![]),
        };
        next = method_on("std::iter::Iterator", "next", t);
        let nx = match next {
            Some(i) => i,
            None => return rep.undecided(rule, "ASNBitString::iter", "no iterator", vec![]),
        };
        for (mut st, it) in en.run(st, iter, vec![r.clone()]) {
            if counter.is_none() {
                counter = struct_fields(&it).ok().and_then(|f| f.iter().position(|(_, v)| matches!(v, Val::Int(x) if x.constant() == Some(0))));
            }
            let pl = Val::Ref(st.new_obj(it, t));
            let mut states = vec![st];
            for i in 0..=8 * n {
                let mut after = vec![];
                for st in states {
                    for (st, v) in en.run(st, nx, vec![pl.clone()]) {
                        obligation(&mut en, rep, rule, &crate::x509::site_of(nx), &st, &v.show(), &mut |en, st, _| bit_is(en, st, &v, &s, &Form::k(n), &u, i));
                        // after the end only the end is left
                        after.push(st);
                    }
                }
                merge_plain(&mut after);
                states = after;
                rep.count("iterator calls", states.len() as u64);
            }
        }
    }
    for f in &en.fns {
        rep.functions.insert(f.clone());
    }
    for e in &en.ends {
        match &e.kind {
            EndKind::Panic(m) => rep.violation(rule, &format!("{} at {}", e.func, e.span), &format!("panics: {}", m), detail(&e.state, "")),
            EndKind::Unsup(m) => rep.undecided(rule, &format!("{} at {}", e.func, e.span), m, detail(&e.state, "")),
            _ => {}
        }
    }
    // any number of octets: the iterator counts the bits it has delivered
    if let (Some(nx), Some(i)) = (next, counter) {
        bit_counter(rep, iter, nx, i);
    } else {
        rep.undecided("bit string iterator: any position", "ASNBitString::iter", "the iterator has no counter", vec![]);
    }
}
fn merge_plain(v: &mut Vec<State>) {
    crate::loops::merge_plain(v)
}
/// the outcome of the call for bit i
fn bit_is(en: &En, st: &State, v: &Val, s: &SliceV, n: &Form, u: &Form, i: i128) -> R<Verdict> {
    let got = as_option(en, st, v)?;
    let inside = truth(en, st, &n.scale(8).sub(u).addk(-i), VSet::range(1, INF))?;
    match got {
        None if inside => broken(&["C11"], format!("bit {} is not delivered", i)),
        Some(_) if !inside => broken(&["C11"], format!("there is a bit {} beyond the end", i)),
        None => holds(),
        Some(g) => {
            let c = Cur::of(s)?;
            let b = table(&octet_(st, c.r, &c.o.addk(i / 8)), &|b| (b >> (7 - i % 8)) & 1);
            let want = truth(en, st, &b, VSet::one(1))?;
            if en.truth(st, &g)? == want {
                holds()
            } else {
                broken(&["C11"], format!("bit {} is delivered as {}", i, g.show()))
            }
        }
    }
}
fn bit_counter(rep: &mut Report, iter: Instance, next: Instance, field: usize) {
    let rule = "bit string iterator: from any position, the bit there, and on to the next";
    let u = Form::named("unused", 0, 7);
    let n = Form::named("octets.len", 1, 1 << 44);
    let mut en = En::new();
    let st = State::default();
    let (st, r, s) = match bit_string_of(rep, &mut en, &st, &u, &n) {
        Some(x) => x,
        None => return,
    };
    let t = ret_ty(&mut en, iter).unwrap();
    let site = crate::x509::site_of(next);
    for (st, it) in en.run(st, iter, vec![r]) {
        // position 8q + j
        for j in 0..8 {
            let q = Form::named("q", 0, 1 << 44);
            let p = q.scale(8).addk(j);
            let mut st = st.clone();
            let it = match &it {
                Val::Agg(a) => {
                    let mut f = a.f.clone();
                    f[field] = Val::Int(p.clone());
                    Val::agg(a.ty, f)
                }
                _ => return rep.undecided(rule, &site, "the iterator is no struct", vec![]),
            };
            if !st.facts.assume(&n.scale(8).sub(&u).sub(&p), &VSet::range(0, INF)) {
                continue;
            }
            let pl = Val::Ref(st.new_obj(it, t));
            for (st, v) in en.run(st, next, vec![pl.clone()]) {
                obligation(&mut en, rep, rule, &site, &st, &v.show(), &mut |en, st, _| {
                    let got = as_option(en, st, &v)?;
                    let inside = truth(en, st, &n.scale(8).sub(&u).sub(&p), VSet::range(1, INF))?;
                    let now = struct_fields(&en.load(st, &pl)?)?[field].1.clone();
                    let moved = |k: i128| -> R<bool> { same(en, st, &now, &Val::Int(p.addk(k))) };
                    match got {
                        None if inside => broken(&["C11"], "a bit is not delivered"),
                        Some(_) if !inside => broken(&["C11"], "there is a bit beyond the end"),
                        None => {
                            if moved(0)? {
                                holds()
                            } else {
                                unsup("the iterator moves at the end")
                            }
                        }
                        Some(g) => {
                            if !moved(1)? {
                                return unsup(format!("after a bit the counter is {}", now.show()));
                            }
                            let c = Cur::of(&s)?;
                            let b = table(&octet_(st, c.r, &c.o.add(&q)), &|b| (b >> (7 - j)) & 1);
                            let want = truth(en, st, &b, VSet::one(1))?;
                            if en.truth(st, &g)? == want {
                                holds()
                            } else {
                                broken(&["C11"], format!("bit {} of an octet is delivered as {}", j, g.show()))
                            }
                        }
                    }
                });
            }
        }
    }
    for e in &en.ends {
        match &e.kind {
            EndKind::Panic(m) => rep.violation(rule, &format!("{} at {}", e.func, e.span), &format!("panics: {}", m), detail(&e.state, "")),
            EndKind::Unsup(m) => rep.undecided(rule, &format!("{} at {}", e.func, e.span), m, detail(&e.state, "")),
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- typed access
/// get_id and get_value of every wrapper type, and the identifier of every element, agree
pub fn check_wrappers(rep: &mut Report) {
    let rule = "typed access: the conversion yields the value exactly for elements of the type's own identifier";
    let mut wrappers = 0;
    for inst in find_methods("ASNWrapperType", "get_value") {
        let mut root = match analyse_inst(rep, inst, &|_| {}) {
            Some(r) => r,
            None => continue,
        };
        let id_inst = match sibling(inst, "get_id") {
            Some(i) => i,
            None => {
                rep.undecided(rule, &root.site, "no get_id", vec![]);
                continue;
            }
        };
        wrappers += 1;
        let ids = root.en.run(State::default(), id_inst, vec![]);
        let id = match ids.first() {
            Some((_, v)) if ids.len() == 1 => match (root.en.variant(&State::default(), v), ty_of(v)) {
                (Ok(i), Some(t)) => variant_name(t, i),
                _ => String::new(),
            },
            _ => String::new(),
        };
        if id.is_empty() {
            rep.undecided(rule, &root.site, "the identifier is not constant", vec![]);
            continue;
        }
        // the wrapper and its identifier have the same name
        let own = wrapper_name(inst);
        let ok = own == id || own == "UtcTime" && id == "UTCTime";
        rep.check("typed access: each wrapper type has the identifier of its own name", ok, &root.site, &format!("{} has the identifier {}", own, id));
        let outs = std::mem::take(&mut root.outs);
        let arg = root.args[0].clone();
        for (st, v) in &outs {
            obligation(&mut root.en, rep, rule, &root.site, st, &v.show(), &mut |en, st, _| {
                let (i, f) = en.enum_fields(st, &arg)?;
                let name = variant_name(ty_of(&arg).ok_or(Stop::Unsup("element".into()))?, i);
                if name == "GeneralizedTime" {
                    // never made by the decoder
                    return holds();
                }
                match as_option(en, st, v)? {
                    None if name == id => broken(&["C16"], format!("no value from an element of type {}", name)),
                    Some(_) if name != id => broken(&["C16"], format!("a value of type {} from an element of type {}", id, name)),
                    None => holds(),
                    Some(g) => {
                        let own = match f.first() {
                            Some(x) => x.clone(),
                            None => return unsup("element without content"),
                        };
                        if same(en, st, &peel(&g)?, &peel(&own)?)? {
                            holds()
                        } else {
                            broken(&["C16"], format!("the value of an element of type {} is {}", name, g.show_d(3)))
                        }
                    }
                }
            });
        }
        panics(rep, &root, rule);
    }
    rep.count("wrapper types", wrappers);
    if wrappers < 12 {
        rep.undecided(rule, "ASNWrapperType", &format!("only {} implementations found", wrappers), vec![]);
    }
    let rule = "ASNType::get_id names the type of the element";
    let mut root = match analyse(rep, "types::ASNType::get_id", &|_| {}) {
        Some(r) => r,
        None => return,
    };
    let outs = std::mem::take(&mut root.outs);
    let arg = root.args[0].clone();
    for (st, v) in &outs {
        obligation(&mut root.en, rep, rule, &root.site, st, &v.show(), &mut |en, st, _| {
            let a = loaded(en, st, &arg)?;
            let n = |v: &Val| -> R<String> { Ok(variant_name(ty_of(v).ok_or(Stop::Unsup("enum".into()))?, en.variant(st, v)?)) };
            let (a, b) = (n(&a)?, n(v)?);
            if a == b || a == "GeneralizedTime" {
                holds()
            } else {
                broken(&["C16"], format!("an element of type {} is said to have type {}", a, b))
            }
        });
    }
    panics(rep, &root, rule);
}
/// the implementations of a method of a trait of the library
pub fn find_methods(tr: &str, m: &str) -> Vec<Instance> {
    use rustc_public::CrateDef;
    let mut out = vec![];
    for it in rustc_public::all_local_items() {
        let n = it.name().to_string();
        let n2 = norm_name(&n);
        if n2.starts_with('<') && n2.ends_with(&format!("::{}", m)) && (n2.contains(&format!("::{}>", tr)) || n2.contains(&format!("::{}<", tr))) {
            if let Ok(i) = Instance::try_from(it) {
                out.push(i);
            }
        }
    }
    out
}
fn impl_prefix(i: Instance) -> String {
    use rustc_public::CrateDef;
    let n = norm_name(&i.def.name().to_string());
    n.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default()
}
fn sibling(i: Instance, m: &str) -> Option<Instance> {
    use rustc_public::CrateDef;
    let want = format!("{}::{}", impl_prefix(i), m);
    for it in rustc_public::all_local_items() {
        if norm_name(&it.name().to_string()) == want {
            return Instance::try_from(it).ok();
        }
    }
    None
}
fn wrapper_name(i: Instance) -> String {
    let p = impl_prefix(i);
    let p = p.trim_start_matches('<');
    p.split(" as ").next().unwrap_or("").rsplit("::").next().unwrap_or("").split('<').next().unwrap_or("").to_string()
}
