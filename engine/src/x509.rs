//! Certificates, extensions and names: what the decoders accept and deliver.
use crate::form::*;
use crate::interp::*;
use crate::model::*;
use crate::natives::*;
use crate::report::Report;
use crate::spec::*;
use crate::val::*;
use crate::walk::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::rc::Rc;

const CERT: Props = &["C19"];
const TBS: Props = &["C20"];
const VER: Props = &["C21"];
const VALID: Props = &["C28", "C20"];
const ALG: Props = &["C29"];
const EXT: Props = &["C22"];

/// something to compare in a result that is accepted
pub struct Cmp {
    pub props: Vec<&'static str>,
    pub label: String,
    pub ok: bool,
    pub got: String,
}

pub struct Root {
    pub en: En,
    pub outs: Vec<(State, Val)>,
    pub args: Vec<Val>,
    pub inst: Instance,
    pub name: String,
    pub site: String,
    pub ret: Ty,
}

/// analyse a function on symbolic arguments
pub fn analyse(rep: &mut Report, path: &str, setup: &dyn Fn(&mut En)) -> Option<Root> {
    let inst = match find_fn(path) {
        Some(i) => i,
        None => {
            rep.undecided("anchor", path, "function not found", vec![]);
            return None;
        }
    };
    analyse_inst(rep, inst, setup)
}
pub fn sym_args(en: &mut En, inst: Instance) -> Option<Vec<Val>> {
    sym_args_as(en, inst, "a")
}
pub fn sym_args_as(en: &mut En, inst: Instance, name: &str) -> Option<Vec<Val>> {
    let info = en.info(inst)?;
    let mut args = vec![];
    for (j, l) in info.body.arg_locals().iter().enumerate() {
        let a = sym(key(&format!("{}{}", name, j)), l.ty);
        name_regions(en, &a, 3);
        args.push(a);
    }
    Some(args)
}
/// record the extent of the octet regions an argument refers to
fn name_regions(en: &En, v: &Val, depth: usize) {
    match v {
        Val::Slice(s) => {
            if let SBase::Sym(k, _) = &s.base {
                set_region_len(*k, s.len.clone());
            }
        }
        Val::Ref(_) if depth > 0 => {
            if let Ok(x) = en.load(&State::default(), v) {
                name_regions(en, &x, depth - 1)
            }
        }
        v if depth > 0 => {
            if let Ok(f) = struct_fields(v) {
                f.iter().for_each(|(_, x)| name_regions(en, x, depth - 1));
            }
        }
        _ => {}
    }
}
pub fn site_of(inst: Instance) -> String {
    use rustc_public::CrateDef;
    let n = norm_name(&inst.def.name().to_string());
    match inst.body() {
        Some(b) => format!("{} ({})", n, span_str(b.span)),
        None => n,
    }
}
pub fn analyse_inst(rep: &mut Report, inst: Instance, setup: &dyn Fn(&mut En)) -> Option<Root> {
    use rustc_public::CrateDef;
    let mut en = En::new();
    setup(&mut en);
    let name = norm_name(&inst.def.name().to_string());
    let args = match sym_args(&mut en, inst) {
        Some(a) => a,
        None => {
            rep.undecided("anchor", &name, "no body", vec![]);
            return None;
        }
    };
    analyse_with(rep, en, inst, State::default(), args)
}
/// analyse a function on given arguments
pub fn analyse_with(rep: &mut Report, mut en: En, inst: Instance, st: State, args: Vec<Val>) -> Option<Root> {
    use rustc_public::CrateDef;
    let name = norm_name(&inst.def.name().to_string());
    let site = site_of(inst);
    let ret = ret_ty(&mut en, inst)?;
    let t = std::time::Instant::now();
    let outs = en.run(st, inst, args.clone());
    rep.time.insert(name.clone(), t.elapsed().as_secs_f64());
    rep.roots.push(site.clone());
    rep.count("paths", outs.len() as u64);
    rep.count("loops", en.recs.len() as u64);
    rep.count("abstract steps", en.steps);
    for f in &en.fns {
        rep.functions.insert(f.clone());
    }
    // paths that the analysis could not follow
    for e in &en.ends {
        if let EndKind::Unsup(m) = &e.kind {
            rep.undecided("analysis", &format!("{} at {}", e.func, e.span), m, detail(&e.state, ""));
        }
    }
    for (s, _) in &outs {
        if let Some(t) = &s.taint {
            rep.undecided("analysis", &name, &format!("imprecise path: {}", t), vec![]);
        }
    }
    Some(Root { en, outs, args, inst, name, site, ret })
}

// ---------------------------------------------------------------- comparisons
pub struct Out<'c> {
    pub cmp: &'c mut Vec<Cmp>,
}
fn cmp_val(w: &W, cmp: &mut Vec<Cmp>, props: &[&'static str], label: &str, got: &Val, want: &Val) -> R<()> {
    let ok = same(w.en, w.st, got, want)?;
    cmp.push(Cmp { props: props.to_vec(), label: label.to_string(), ok, got: got.show_d(3) });
    Ok(())
}
/// the value is the decoded content of the element at p
fn cmp_build(w: &W, cmp: &mut Vec<Cmp>, props: &[&'static str], label: &str, got: &Val, p: &Pos) -> R<()> {
    let want = match got {
        Val::Slice(_) => Val::Slice(Rc::new(p.content())),
        Val::Int(_) => Val::Int(p.time()),
        Val::Bool(..) => Val::Bool(p.boolean(), VSet::one(1)),
        v => match ty_of(v) {
            Some(t) => build(p, t),
            None => return unsup(format!("value {}", v.show_d(2))),
        },
    };
    cmp_val(w, cmp, props, label, got, &want)
}
fn cmp_bool(cmp: &mut Vec<Cmp>, props: &[&'static str], label: &str, ok: bool, got: String) {
    cmp.push(Cmp { props: props.to_vec(), label: label.to_string(), ok, got });
}
fn variant_of(w: &W, v: &Val) -> R<String> {
    let i = w.en.variant(w.st, v)?;
    Ok(variant_name(ty_of(v).ok_or(Stop::Unsup("enum".into()))?, i))
}

struct Alg {
    oid: Pos,
    params: Option<Pos>,
}
fn alg(w: &mut W, c: &mut Cur, sect: Props, place: &str) -> SR<Alg> {
    w.enter(sect, place);
    let s = w.expect(c, "Sequence")?;
    w.enter(ALG, place);
    let mut d = Cur::inside(&s);
    let oid = w.expect(&mut d, "ObjectIdentifier")?;
    let params = if w.at_end(&d)? { None } else { Some(w.any(&mut d)?) };
    w.finish(&d)?;
    w.enter(sect, place);
    Ok(Alg { oid, params })
}
fn cmp_alg(w: &W, cmp: &mut Vec<Cmp>, props: &[&'static str], label: &str, got: &Val, a: &Alg) -> R<()> {
    let x = field(got, "algorithm")?;
    cmp_build(w, cmp, props, &format!("{}.algorithm", label), &x, &a.oid)?;
    let x = field(got, "parameters")?;
    match (as_option(w.en, w.st, &x)?, &a.params) {
        (None, None) => cmp_bool(cmp, props, &format!("{}.parameters", label), true, String::new()),
        (Some(v), Some(p)) => {
            let t = ty_of(&v).ok_or(Stop::Unsup("element type".into()))?;
            cmp_val(w, cmp, props, &format!("{}.parameters", label), &v, &element(p, t))?;
        }
        (g, _) => cmp_bool(cmp, props, &format!("{}.parameters", label), false, format!("{:?}", g.map(|v| v.show_d(3)))),
    }
    Ok(())
}
struct Spki {
    alg: Alg,
    key: Pos,
}

/// an implicitly tagged bit string
fn implicit_bits(w: &mut W, p: &Pos) -> SR<(Form, SliceV)> {
    let c = p.content();
    if w.is(&p.len(), VSet::one(0))? {
        return w.fail(PK::Named("EndOfStream", vec![]));
    }
    let u = Form::elem(p.region(), &Form::k(0), 0, 255);
    let too = |w: &W| w.fail(PK::Named("BitStringUnusedBitsTooLarge", vec![Exp::Is(Val::Int(u.clone()))]));
    if !w.is(&u, VSet::range(0, 7))? {
        return too(w);
    }
    if w.is(&p.len(), VSet::one(1))? && !w.is(&u, VSet::one(0))? {
        return too(w);
    }
    let mut s = c.clone();
    s.start = Form::k(1);
    s.len = c.len.addk(-1);
    Ok((u, s))
}
fn opt_bits(w: &mut W, c: &mut Cur, tag: i128, place: &str) -> SR<Option<(Form, SliceV)>> {
    w.enter(VER, place);
    match w.tagged(c, tag)? {
        None => Ok(None),
        Some(p) => Ok(Some(implicit_bits(w, &p)?)),
    }
}
fn cmp_bits(w: &W, cmp: &mut Vec<Cmp>, label: &str, got: &Val, want: &Option<(Form, SliceV)>) -> R<()> {
    match (as_option(w.en, w.st, got)?, want) {
        (None, None) => cmp_bool(cmp, VER, label, true, String::new()),
        (Some(v), Some((u, s))) => {
            let x = field_by(&v, &|x| matches!(x, Val::Int(_)))?;
            cmp_val(w, cmp, VER, label, &x, &Val::Int(u.clone()))?;
            let x = field_by(&v, &|x| matches!(x, Val::Slice(_)))?;
            cmp_val(w, cmp, VER, label, &x, &Val::Slice(Rc::new(s.clone())))?;
        }
        (g, _) => cmp_bool(cmp, VER, label, false, format!("{:?}", g.map(|v| v.show_d(3)))),
    }
    Ok(())
}

fn certificate(w: &mut W, input: &SliceV, got: Option<&Val>, cmp: &mut Vec<Cmp>) -> SR<()> {
    let mut c = Cur::of(input)?;
    w.enter(CERT, "certificate");
    let outer = w.expect(&mut c, "Sequence")?;
    let mut c2 = Cur::inside(&outer);
    let tbs = w.expect(&mut c2, "Sequence")?;
    let mut t = Cur::inside(&tbs);
    w.enter(VER, "version");
    let version = match w.tagged(&mut t, 0)? {
        None => "V1",
        Some(p) => {
            let mut d = Cur::inside(&p);
            let n = w.expect(&mut d, "Integer")?;
            w.finish(&d)?;
            let mut s = n.content();
            s.len = Form::named(&format!("li!{}", n.key), 1, 0xFFFF_FFFF);
            if !w.is(&s.len, VSet::range(1, 4))? {
                return w.fail(PK::Named("IntegerTooLarge", vec![Exp::Is(Val::Int(s.len.clone()))]));
            }
            let x = i32_of(&s);
            if w.is(&x, VSet::one(0))? {
                "V1"
            } else if w.is(&x, VSet::one(1))? {
                "V2"
            } else if w.is(&x, VSet::one(2))? {
                "V3"
            } else {
                return w.fail(PK::Named("BadEnumValue", vec![Exp::Is(Val::str_const("version")), Exp::Is(Val::Int(x))]));
            }
        }
    };
    w.enter(TBS, "serial number");
    let serial = w.expect(&mut t, "Integer")?;
    let sig = alg(w, &mut t, TBS, "signature")?;
    w.enter(TBS, "issuer");
    let issuer = w.expect(&mut t, "Sequence")?;
    w.enter(VALID, "validity");
    let validity = w.expect(&mut t, "Sequence")?;
    let mut d = Cur::inside(&validity);
    let nb = w.expect(&mut d, "UTCTime")?;
    let na = w.expect(&mut d, "UTCTime")?;
    w.finish(&d)?;
    w.enter(TBS, "subject");
    let subject = w.expect(&mut t, "Sequence")?;
    w.enter(TBS, "subject public key info");
    let ks = w.expect(&mut t, "Sequence")?;
    let mut d = Cur::inside(&ks);
    let spki = Spki { alg: alg(w, &mut d, ALG, "public key algorithm")?, key: {
        w.enter(ALG, "public key");
        w.expect(&mut d, "BitString")?
    } };
    w.finish(&d)?;
    let uid1 = opt_bits(w, &mut t, 1, "issuer unique identifier")?;
    let uid2 = opt_bits(w, &mut t, 2, "subject unique identifier")?;
    w.enter(VER, "extensions");
    let exts = w.tagged(&mut t, 3)?;
    w.finish(&t)?;
    let sigalg = alg(w, &mut c2, CERT, "signature algorithm")?;
    w.enter(CERT, "signature value");
    let sigval = w.expect(&mut c2, "BitString")?;
    w.finish(&c2)?;
    w.enter(CERT, "end of the certificate");
    w.finish(&c)?;

    let got = match got {
        Some(g) => g,
        None => return Ok(()),
    };
    let con = field(got, "tbs_certificate")?;
    cmp_build(w, cmp, &["C19"], "octets kept with the to-be-signed part", &field(&con, "bytes")?, &tbs)?;
    let tv = field(&con, "value")?;
    let v = variant_of(w, &field(&tv, "version")?)?;
    cmp_bool(cmp, VER, "version", v == version, v);
    cmp_build(w, cmp, TBS, "serial_number", &field(&tv, "serial_number")?, &serial)?;
    cmp_alg(w, cmp, &["C20", "C29"], "signature", &field(&tv, "signature")?, &sig)?;
    cmp_build(w, cmp, TBS, "issuer", &field(&field(&tv, "issuer")?, "inner")?, &issuer)?;
    let va = field(&tv, "validity")?;
    cmp_build(w, cmp, VALID, "validity.not_before", &field(&va, "not_before")?, &nb)?;
    cmp_build(w, cmp, VALID, "validity.not_after", &field(&va, "not_after")?, &na)?;
    cmp_build(w, cmp, TBS, "subject", &field(&field(&tv, "subject")?, "inner")?, &subject)?;
    let pk = field(&tv, "subject_public_key_info")?;
    cmp_alg(w, cmp, &["C20", "C29"], "subject_public_key_info.algorithm", &field(&pk, "algorithm")?, &spki.alg)?;
    cmp_build(w, cmp, &["C20", "C29"], "subject_public_key", &field(&pk, "subject_public_key")?, &spki.key)?;
    cmp_bits(w, cmp, "issuer_unique_id", &field(&tv, "issuer_unique_id")?, &uid1)?;
    cmp_bits(w, cmp, "subject_unique_id", &field(&tv, "subject_unique_id")?, &uid2)?;
    match (as_option(w.en, w.st, &field(&tv, "extensions")?)?, &exts) {
        (None, None) => cmp_bool(cmp, VER, "extensions", true, String::new()),
        (Some(v), Some(p)) => {
            let x = field_by(&v, &|x| matches!(x, Val::Slice(_)))?;
            cmp_build(w, cmp, VER, "extensions", &x, p)?;
        }
        (g, _) => cmp_bool(cmp, VER, "extensions", false, format!("{:?}", g.map(|v| v.show_d(3)))),
    }
    cmp_alg(w, cmp, &["C19", "C29"], "signature_algorithm", &field(got, "signature_algorithm")?, &sigalg)?;
    cmp_build(w, cmp, CERT, "signature_value", &field(got, "signature_value")?, &sigval)?;
    Ok(())
}

const KEY_USAGE: [&str; 9] = [
    "digital_signature",
    "content_commitment",
    "key_encipherment",
    "data_encipherment",
    "key_agreement",
    "key_cert_sign",
    "crl_sign",
    "encipher_only",
    "decipher_only",
];
const PURPOSES: [(i128, &str); 6] = [
    (1, "ServerAuth"),
    (2, "ClientAuth"),
    (3, "CodeSigning"),
    (4, "EmailProtection"),
    (8, "TimeStamping"),
    (9, "OCSPSigning"),
];

/// the alternative name an element stands for: variant and payload
fn general_name(w: &mut W, p: &Pos, item: Option<&Val>) -> SR<bool> {
    w.enter(&["C26"], "alternative name");
    if !w.is(&p.id(), ids_of("ExplicitTag"))? {
        return w.fail(PK::Wrong("ExplicitTag", p.clone()));
    }
    let tag = p.tag();
    let content = p.content();
    for (t, kind, variant) in [
        (1, "text", "Rfc822Name"),
        (2, "text", "DnsName"),
        (6, "text", "UniformResourceIdentifier"),
        (7, "octets", "IpAddress"),
        (8, "oid", "RegisteredId"),
    ] {
        if !w.is(&tag, VSet::one(t))? {
            continue;
        }
        match kind {
            "text" => {
                let s8 = utf8_name(w.st, &content);
                if !w.is(&utf8_valid(&s8), VSet::one(1))? {
                    return w.fail(PK::Named("BadUTF8", vec![Exp::Is(Val::Sym(utf8_error(&s8), Ty::new_tuple(&[])))]));
                }
            }
            "oid" => {
                if !w.is(&oid_valid(&content), VSet::one(1))? {
                    // the error of the object identifier itself
                    return w.fail(PK::Any);
                }
            }
            _ => {}
        }
        let item = match item {
            Some(i) => i,
            None => return Ok(true),
        };
        let (i, f) = w.en.enum_fields(w.st, item)?;
        let t = ty_of(item).ok_or(Stop::Unsup("name".into()))?;
        if variant_name(t, i) != variant || f.len() != 1 {
            return Ok(false);
        }
        return Ok(match kind {
            "oid" => {
                let want = build_oid(&show_slice(&content), ty_of(&f[0]).ok_or(Stop::Unsup("identifier".into()))?);
                same(w.en, w.st, &f[0], &want)?
            }
            _ => same(w.en, w.st, &f[0], &Val::Slice(Rc::new(content)))?,
        });
    }
    w.fail(PK::Named("UnexpectedTag", vec![Exp::Is(Val::Int(tag))]))
}
fn purpose(w: &mut W, p: &Pos, item: Option<&Val>) -> SR<bool> {
    w.enter(&["C25"], "key purpose");
    if !w.is(&p.id(), ids_of("ObjectIdentifier"))? {
        return w.fail(PK::Wrong("ObjectIdentifier", p.clone()));
    }
    for (n, name) in PURPOSES {
        if w.oid_is(p, &[1, 3, 6, 1, 5, 5, 7, 3, n])? {
            return Ok(match item {
                None => true,
                Some(v) => variant_of(w, v)? == name,
            });
        }
    }
    w.fail(PK::Named("UnexpectedOid", vec![Exp::Is(oid_value(w, p)?)]))
}
fn oid_value(w: &W, p: &Pos) -> R<Val> {
    // any object identifier is compared by its arcs
    let _ = w;
    let (k, n) = p.oid();
    Ok(Val::agg(
        Ty::new_tuple(&[]),
        vec![Val::Vec(Rc::new(VecV { elem: Ty::unsigned_ty(UintTy::U32), base: Some((k, n)), items: vec![] }))],
    ))
}

/// walk a list whose items are pushed onto a vector
fn list_vec(
    w: &mut W,
    c: &mut Cur,
    elem: &str,
    result: Option<&Val>,
    stop: Option<&Form>,
    start: Option<Vec<Val>>,
    item: &mut dyn FnMut(&mut W, &Pos, Option<&Val>) -> SR<bool>,
) -> SR<()> {
    let of = acc_vec(elem);
    let first = w.sect;
    let place = w.place.clone();
    // elements walked after the last loop; their items are matched with the end of the result
    let fresh = start.is_none();
    let mut acc = start.unwrap_or_default();
    let mut walked: Vec<Pos> = vec![];
    // before any loop the vector is empty
    let mut pre_checked = !fresh;
    loop {
        if let Some(i) = w.find_loop(c) {
            let rec = w.en.recs[i.0].clone();
            if let Some(path) = acc_path(&rec.head, &of)? {
                let pre = acc_at_with(&rec.pre, &path, &of)?;
                if !pre_checked {
                    pre_checked = true;
                    let (b, n) = vec_parts(&pre[0])?;
                    if b.is_some() || n.len() != walked.len() {
                        return w.fail(PK::Internal("the list of results is not empty before the first element".into()));
                    }
                    for (p, v) in walked.iter().zip(n.iter()) {
                        let p = p.clone();
                        if !item(w, &p, Some(v))? {
                            return w.fail(PK::Internal(format!("element {} is delivered as {}", p.key, v.show_d(3))));
                        }
                    }
                }
                acc = acc_at_with(&rec.head, &path, &of)?;
            } else {
                return Err(SE::S(Stop::Unsup("no result vector in the loop".into())));
            }
            walked.clear();
            c.o = i.1.off.clone();
            w.loops.retain(|x| *x != i.0);
        }
        if let Some(y) = stop {
            if !walked.is_empty() && w.st.facts.eq0(&c.o.sub(y)) {
                break;
            }
        }
        w.enter(first, &place);
        if w.at_end(c)? {
            if stop.is_some() {
                return w.fail(PK::Internal("an iteration does not advance by whole elements".into()));
            }
            break;
        }
        if walked.len() >= 3 {
            return Err(SE::S(Stop::Unsup("elements of a list beyond the loops of the code".into())));
        }
        let p = w.el(c)?;
        c.o = p.next();
        item(w, &p, None)?;
        walked.push(p);
    }
    w.enter(first, &place);
    let result = match result {
        Some(r) => r,
        None => return Ok(()),
    };
    let (base, items) = vec_parts(result)?;
    let (want, n0) = match acc.first() {
        Some(v) => {
            let (b, n) = vec_parts(v)?;
            if !n.is_empty() {
                return Err(SE::S(Stop::Unsup("result vector at a loop head".into())));
            }
            (b, 0)
        }
        None => (None, 0),
    };
    let _ = n0;
    let base_ok = match (&base, &want) {
        (None, None) => true,
        (Some((k, n)), Some((l, m))) => k == l && zero(w.en, w.st, &n.sub(m))?,
        (Some((_, n)), None) | (None, Some((_, n))) => zero(w.en, w.st, n)?,
    };
    if !base_ok || items.len() != walked.len() {
        return w.fail(PK::Internal(format!(
            "{} of the elements {} delivered: the result is {}",
            if items.len() < walked.len() { "not all" } else { "other than" },
            if walked.len() == 1 { "is" } else { "are" },
            result.show_d(4)
        )));
    }
    for (p, v) in walked.clone().iter().zip(items.iter()) {
        if !item(w, p, Some(v))? {
            w.enter(first, &place);
            return w.fail(PK::Internal(format!("element {} is delivered as {}", p.key, v.show_d(3))));
        }
    }
    w.enter(first, &place);
    Ok(())
}
fn vec_parts(v: &Val) -> R<(Option<(KeyId, Form)>, Vec<Val>)> {
    match v {
        Val::Vec(x) => Ok((x.base.clone(), x.items.clone())),
        Val::Sym(k, t) => match sym(*k, *t) {
            Val::Vec(x) => Ok((x.base.clone(), x.items.clone())),
            _ => unsup("vector expected"),
        },
        v => unsup(format!("vector expected, got {}", v.show_d(2))),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Ski,
    Ku,
    San,
    Bc,
    Eku,
    Role,
    Unknown,
}
const KINDS: [(Kind, &[i128], &str); 6] = [
    (Kind::Ski, &[2, 5, 29, 14], "SubjectKeyIdentifier"),
    (Kind::Ku, &[2, 5, 29, 15], "KeyUsage"),
    (Kind::San, &[2, 5, 29, 17], "SubjectAlternativeName"),
    (Kind::Bc, &[2, 5, 29, 19], "BasicConstraints"),
    (Kind::Eku, &[2, 5, 29, 37], "ExtendedKeyUsage"),
    (Kind::Role, &[1, 3, 6, 1, 4, 1, 50316, 802, 1], "ModbusRole"),
];

fn extension(w: &mut W, input: &SliceV, got: Option<&Val>, cmp: &mut Vec<Cmp>) -> SR<()> {
    let mut c = Cur::of(input)?;
    w.enter(EXT, "extension");
    let oid = w.expect(&mut c, "ObjectIdentifier")?;
    let crit = w.optional(&mut c, ids_of("Boolean"))?;
    let oct = w.expect(&mut c, "OctetString")?;
    let mut kind = (Kind::Unknown, "Unknown");
    for (k, arcs, name) in KINDS {
        if w.oid_is(&oid, arcs)? {
            kind = (k, name);
            break;
        }
    }
    // the payload of the result, if it is of the right kind
    let mut payload: Option<Val> = None;
    let mut variant_ok = true;
    if let Some(g) = got {
        let content = field(g, "content")?;
        let (i, f) = w.en.enum_fields(w.st, &content)?;
        variant_ok = variant_name(ty_of(&content).ok_or(Stop::Unsup("content".into()))?, i) == kind.1 && f.len() == 1;
        if variant_ok {
            payload = Some(f[0].clone());
        }
    }
    let mut d = Cur::inside(&oct);
    let all = w.sel == 0;
    match kind.0 {
        Kind::Unknown => {
            if let Some(v) = &payload {
                cmp_build(w, cmp, EXT, "content of an unknown extension", v, &oct)?;
            }
        }
        Kind::Ski => {
            w.enter(&["C30"], "subject key identifier");
            let p = w.expect(&mut d, "OctetString")?;
            w.finish(&d)?;
            if let Some(v) = &payload {
                cmp_build(w, cmp, &["C30"], "key identifier", &field(v, "key_identifier")?, &p)?;
            }
        }
        Kind::Role => {
            w.enter(&["C30"], "Modbus role");
            let p = w.expect(&mut d, "UTF8String")?;
            w.finish(&d)?;
            if let Some(v) = &payload {
                cmp_build(w, cmp, &["C30"], "role", &field(v, "role")?, &p)?;
            }
        }
        Kind::Ku => {
            w.enter(&["C23"], "key usage");
            let p = w.expect(&mut d, "BitString")?;
            w.finish(&d)?;
            if let Some(v) = &payload {
                w.more = KEY_USAGE.len();
                if !all {
                    let i = w.sel - 1;
                    let x = field(v, KEY_USAGE[i])?;
                    let set = if w.is(&p.bits(), VSet::range(i as i128 + 1, INF))? {
                        let e = Form::elem(p.region(), &Form::k(1 + i as i128 / 8), 0, 255);
                        w.is(&table(&e, &|b| (b >> (7 - i % 8)) & 1), VSet::one(1))?
                    } else {
                        false
                    };
                    let b = w.en.truth(w.st, &x)?;
                    if let (true, Val::Bool(f, _)) = (b != set, &x) {
                        if f.atoms().iter().any(|a| w.en.recs.iter().any(|r| r.leaves.iter().any(|l| l.atom == *a))) {
                            return unsup(format!("key usage {}: what any number of iterations leave in it", KEY_USAGE[i])).map_err(SE::from);
                        }
                    }
                    cmp_bool(
                        cmp,
                        &["C23"],
                        &format!("key usage {}", KEY_USAGE[i]),
                        b == set,
                        format!("{}, but bit {} of the bit string is {}", b, i, if set { "set" } else { "absent or clear" }),
                    );
                }
            }
        }
        Kind::Bc => {
            w.enter(&["C24"], "basic constraints");
            let s = w.expect(&mut d, "Sequence")?;
            w.finish(&d)?;
            let mut e = Cur::inside(&s);
            let ca = w.optional(&mut e, ids_of("Boolean"))?;
            let n = w.optional(&mut e, ids_of("Integer"))?;
            let n = match n {
                None => None,
                Some(n) => {
                    let mut s = n.content();
                    s.len = Form::named(&format!("li!{}", n.key), 1, 0xFFFF_FFFF);
                    if !w.is(&s.len, VSet::range(1, 4))? {
                        return w.fail(PK::Named("IntegerTooLarge", vec![Exp::Is(Val::Int(s.len.clone()))]));
                    }
                    Some(i32_of(&s))
                }
            };
            w.finish(&e)?;
            if let Some(v) = &payload {
                let want = match ca {
                    Some(p) => Val::Bool(p.boolean(), VSet::one(1)),
                    None => Val::bool(false),
                };
                cmp_val(w, cmp, &["C24"], "CA flag", &field(v, "ca")?, &want)?;
                let x = field(v, "path_length_constraint")?;
                match (as_option(w.en, w.st, &x)?, n) {
                    (None, None) => {}
                    (Some(a), Some(b)) => cmp_val(w, cmp, &["C24"], "path length", &a, &Val::Int(b))?,
                    (g, _) => cmp_bool(cmp, &["C24"], "path length", false, format!("{:?}", g.map(|x| x.show()))),
                }
            }
        }
        Kind::San | Kind::Eku => {
            let san = kind.0 == Kind::San;
            w.enter(if san { &["C26"] } else { &["C25"] }, if san { "subject alternative names" } else { "extended key usage" });
            let s = w.expect(&mut d, "Sequence")?;
            w.finish(&d)?;
            let mut e = Cur::inside(&s);
            let v = match &payload {
                Some(v) => Some(field(v, if san { "names" } else { "ext_key_usages" })?),
                None => None,
            };
            if san {
                list_vec(w, &mut e, "GeneralName", v.as_ref(), None, None, &mut general_name)?;
            } else {
                list_vec(w, &mut e, "ExtendedKeyUsagePurpose", v.as_ref(), None, None, &mut purpose)?;
            }
        }
    }
    w.enter(EXT, "end of the extension");
    w.finish(&c)?;
    if let Some(g) = got {
        if all {
            cmp_build(w, cmp, EXT, "extn_id", &field(g, "extn_id")?, &oid)?;
            let want = match crit {
                Some(p) => Val::Bool(p.boolean(), VSet::one(1)),
                None => Val::bool(false),
            };
            cmp_val(w, cmp, EXT, "critical", &field(g, "critical")?, &want)?;
            cmp_bool(cmp, EXT, "kind of extension", variant_ok, format!("not {}", kind.1));
        }
    }
    Ok(())
}

/// the value of Extension::parse on a content, as a symbol
fn ext_valid(s: &SliceV) -> Form {
    Form::named(&format!("xv!{}", show_slice(&canon(s))), 0, 1)
}
pub fn hook_extension(en: &mut En) {
    let h: Hook = Rc::new(|en, st, inst, args| {
        let t = ret_ty(en, inst).ok_or(Stop::Unsup("return type".into()))?;
        let (at, et) = (generic_ty(t, 0).unwrap(), generic_ty(t, 1).unwrap());
        let s = as_slice(en, st, &args[0])?;
        let n = show_slice(&canon(&s));
        Ok(Some(if truth(en, st, &ext_valid(&s), VSet::one(1))? {
            vec![(st.clone(), res_ok(t, Val::Sym(key(&format!("ext!{}", n)), at)))]
        } else {
            vec![(st.clone(), res_err(t, sym(key(&format!("xerr!{}", n)), et)))]
        }))
    });
    en.hooks.insert("rx509::x509::ext::Extension::parse".into(), h);
}
fn extension_item(w: &mut W, p: &Pos, item: Option<&Val>) -> SR<bool> {
    w.enter(EXT, "list of extensions");
    if !w.is(&p.id(), ids_of("Sequence"))? {
        return w.fail(PK::Wrong("Sequence", p.clone()));
    }
    let s = p.content();
    let n = show_slice(&canon(&s));
    if !w.is(&ext_valid(&s), VSet::one(1))? {
        return w.fail(PK::Malformed(Pos { key: format!("x{}", n), ..p.clone() }));
    }
    Ok(match item {
        None => true,
        Some(v) => matches!(v, Val::Sym(k, _) if key_name(*k) == format!("ext!{}", n)),
    })
}
fn extensions(w: &mut W, input: &SliceV, got: Option<&Val>, _cmp: &mut Vec<Cmp>) -> SR<()> {
    let mut c = Cur::of(input)?;
    w.enter(EXT, "list of extensions");
    let s = w.expect(&mut c, "Sequence")?;
    w.finish(&c)?;
    let mut e = Cur::inside(&s);
    list_vec(w, &mut e, "Extension", got, None, None, &mut extension_item)
}

const NAME: Props = &["C27"];
const COMPONENTS: [(i128, &str); 6] = [
    (3, "common_name"),
    (6, "country_name"),
    (7, "locality_name"),
    (8, "state_or_province_unit_name"),
    (10, "organization"),
    (11, "organizational_unit_name"),
];
fn attribute(w: &mut W, p: Pos, acc: &mut Vec<Val>) -> SR<()> {
    w.enter(NAME, "attribute of a name");
    if !w.is(&p.id(), ids_of("Sequence"))? {
        return w.fail(PK::Wrong("Sequence", p.clone()));
    }
    let mut c = Cur::inside(&p);
    let oid = w.expect(&mut c, "ObjectIdentifier")?;
    let val = w.any(&mut c)?;
    let names = NAMES.with(|n| n.borrow().clone());
    for (arc, name) in COMPONENTS {
        if !w.oid_is(&oid, &[2, 5, 4, arc])? {
            continue;
        }
        let text = VSet::from_vals(vec![0x0c, 0x13, 0x16]);
        if !w.is(&val.id(), text)? {
            return w.fail(PK::Named("UnexpectedType", vec![Exp::TypeName("PrintableString"), Exp::TypeOf(val)]));
        }
        let i = names.iter().position(|n| n == name).ok_or(Stop::Unsup(format!("no component {}", name)))?;
        let cur = acc.get(i).cloned().ok_or(Stop::Unsup("component".into()))?;
        if as_option(w.en, w.st, &cur)?.is_some() {
            return w.fail(PK::Named("UnexpectedOid", vec![Exp::Is(oid_value(w, &oid)?)]));
        }
        let t = ty_of(&cur).ok_or(Stop::Unsup("component".into()))?;
        acc[i] = opt_some(t, Val::Slice(Rc::new(val.content())));
        break;
    }
    w.finish(&c)?;
    Ok(())
}
thread_local! {
    static NAMES: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]);
}
fn name_set(w: &mut W, p: Pos, acc: &mut Vec<Val>) -> SR<()> {
    w.enter(NAME, "set of attributes");
    if !w.is(&p.id(), ids_of("Set"))? {
        return w.fail(PK::Wrong("Set", p.clone()));
    }
    let mut c = Cur::inside(&p);
    if w.at_end(&c)? {
        // an empty set is no relative distinguished name
        return w.fail(PK::Any);
    }
    w.list(&mut c, acc, &acc_struct(RDN), None, &mut attribute)
}
const RDN: &str = "RelativeDistinguishedName";
fn name(w: &mut W, input: &SliceV, got: Option<&Val>, cmp: &mut Vec<Cmp>, t: Ty) -> SR<()> {
    let mut c = Cur::of(input)?;
    w.enter(NAME, "name");
    let mut acc: Vec<Val> = variant_fields(t, 0).iter().map(|f| opt_none(*f)).collect();
    w.list(&mut c, &mut acc, &acc_struct(RDN), None, &mut name_set)?;
    if let Some(g) = got {
        for ((n, x), want) in struct_fields(g)?.iter().zip(acc.iter()) {
            cmp_val(w, cmp, NAME, n, x, want)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- drivers
type SpecFn<'a> = dyn FnMut(&mut W, Option<&Val>, &mut Vec<Cmp>) -> SR<()> + 'a;

/// judge one path: result of the code against the specification
fn judge(w: &mut W, res: &Val, spec: &mut SpecFn, open: &mut Option<Vec<String>>, depth: usize) -> R<Verdict> {
    let _ = depth;
    let r = as_result(w.en, w.st, res)?;
    let mut cmp = vec![];
    let verdict = match spec(w, r.as_ref().ok(), &mut cmp) {
        Err(SE::S(s)) => {
            if let Stop::Split(_, sets) = &s {
                if sets.len() > 1 && open.is_none() {
                    // rejected without a look at this: in this section, or at the end of the one before
                    let mut l: Vec<String> = w.sect.iter().map(|x| x.to_string()).collect();
                    for x in w.prev {
                        if !l.iter().any(|y| y == x) {
                            l.push(x.to_string());
                        }
                    }
                    *open = Some(l);
                }
            }
            return Err(s);
        }
        Err(SE::P(p)) => Err(p),
        Ok(()) => Ok(()),
    };
    match (r, verdict) {
        (Ok(_), Err(p)) => match &p.kind {
            PK::Any => holds(),
            PK::Internal(m) => Ok(Verdict::Broken(p.props.iter().map(|s| s.to_string()).collect(), format!("{}: {}", p.place, m))),
            _ => Ok(Verdict::Broken(accept_props(&p), format!("{}: accepted in spite of {}", p.place, describe(&p)))),
        },
        (Err(e), Err(p)) => check_error(w.en, w.st, &p, &e),
        (Err(e), Ok(())) => {
            let props = open.clone().unwrap_or_else(|| w.visited.iter().map(|s| s.to_string()).collect());
            Ok(Verdict::Broken(props, format!("a valid input is rejected with {}", unwrap_error(&e)?.show_d(3))))
        }
        (Ok(_), Ok(())) => {
            for c in cmp {
                if !c.ok {
                    return Ok(Verdict::Broken(c.props.iter().map(|s| s.to_string()).collect(), format!("{} is {}", c.label, c.got)));
                }
            }
            holds()
        }
    }
}
/// judge all paths of a root
pub fn judge_root(rep: &mut Report, root: &mut Root, rule: &str, spec: &mut SpecFn) {
    let outs = std::mem::take(&mut root.outs);
    rep.parallel(outs.len(), &mut |rep, i| {
        let (st, v) = &outs[i];
        let mut sel = 0;
        let mut more = 0;
        while sel <= more {
            let mut open = None;
            let what = v.show_d(5);
            let mut m = 0;
            obligation(&mut root.en, rep, rule, &root.site, st, &what, &mut |en, s, d| {
                let mut w = W::new(en, s, 0, sel);
                let r = judge(&mut w, v, spec, &mut open, d);
                m = m.max(w.more);
                r
            });
            if sel == 0 {
                more = m;
            }
            sel += 1;
        }
        rep.sample(format!("{} -> {} under {}", root.name, v.show_d(4), st.facts.show().iter().take(12).cloned().collect::<Vec<_>>().join("; ")));
    });
    root.outs = outs;
}
/// no path may go on after a malformed element without returning its error
pub fn swallowed(rep: &mut Report, root: &mut Root) {
    let rule = "a malformed element that was looked at ends the decoder with its error";
    let mut items: Vec<(State, Option<Val>, String)> = root.outs.iter().map(|(s, v)| (s.clone(), Some(v.clone()), root.site.clone())).collect();
    for r in &root.en.recs {
        for b in &r.backs {
            items.push((b.clone(), None, format!("loop in {} ({})", r.func, r.span)));
        }
    }
    rep.parallel(items.len(), &mut |rep, i| {
        let (st, v, site) = items[i].clone();
        let bad: Vec<String> = st
            .facts
            .atoms
            .iter()
            .filter(|(_, s)| **s == VSet::one(0))
            .filter_map(|(a, _)| match atom_kind(*a) {
                AtomKind::Named(n) => n.strip_prefix("v!").map(|s| s.to_string()),
                _ => None,
            })
            .collect();
        let what = v.as_ref().map(|v| v.show_d(5)).unwrap_or("next iteration".into());
        obligation(&mut root.en, rep, rule, &site, &st, &what, &mut |en, s, _| {
            if bad.is_empty() {
                return holds();
            }
            let v = match &v {
                Some(v) => v,
                None => return broken(&["C17"], "the loop goes on after a malformed element"),
            };
            match as_result(en, s, v)? {
                Ok(_) => broken(&["C17"], "the decoder succeeds after a malformed element"),
                Err(e) => {
                    for b in &bad {
                        if let Some(id) = enclosing(key(b)) {
                            if malformed_error(en, s, &e, &id)? {
                                return holds();
                            }
                        }
                    }
                    broken(&["C17"], format!("a malformed element is reported as {}", unwrap_error(&e)?.show_d(3)))
                }
            }
        });
    });
}

fn first_slice(root: &Root, st: &State) -> R<SliceV> {
    as_slice(&root.en, st, &root.args[0])
}
pub fn check_certificate(rep: &mut Report) {
    let mut root = match analyse(rep, "x509::Certificate::parse", &install) {
        Some(r) => r,
        None => return,
    };
    let input = match first_slice(&root, &State::default()) {
        Ok(s) => s,
        Err(_) => return rep.undecided("anchor", &root.site, "argument is no slice", vec![]),
    };
    judge_root(rep, &mut root, "Certificate::parse: every path accepts and delivers what the specification says", &mut |w, g, c| {
        certificate(w, &input, g, c)
    });
    if rep.prop == "C17" {
        swallowed(rep, &mut root);
    }
}
pub fn check_extension(rep: &mut Report) {
    let mut root = match analyse(rep, "x509::ext::Extension::parse", &install) {
        Some(r) => r,
        None => return,
    };
    let input = match first_slice(&root, &State::default()) {
        Ok(s) => s,
        Err(_) => return rep.undecided("anchor", &root.site, "argument is no slice", vec![]),
    };
    judge_root(rep, &mut root, "Extension::parse: every path accepts and delivers what the specification says", &mut |w, g, c| {
        extension(w, &input, g, c)
    });
    list_loops(rep, &mut root);
    if rep.prop == "C17" {
        swallowed(rep, &mut root);
    }
}
pub fn check_extensions(rep: &mut Report) {
    let mut root = match analyse(rep, "x509::ext::Extensions::parse", &|en| {
        install(en);
        hook_extension(en);
    }) {
        Some(r) => r,
        None => return,
    };
    let st = State::default();
    let input = loaded(&root.en, &st, &root.args[0]).and_then(|v| field_by(&v, &|x| matches!(x, Val::Slice(_)))).and_then(|v| as_slice(&root.en, &st, &v));
    let input = match input {
        Ok(s) => s,
        Err(_) => return rep.undecided("anchor", &root.site, "no content in the argument", vec![]),
    };
    if let SBase::Sym(k, _) = &input.base {
        set_region_len(*k, input.len.clone());
    }
    judge_root(rep, &mut root, "Extensions::parse: every path accepts and delivers what the specification says", &mut |w, g, c| {
        extensions(w, &input, g, c)
    });
    list_loops(rep, &mut root);
    if rep.prop == "C17" {
        swallowed(rep, &mut root);
    }
}
/// each iteration of a list loop delivers exactly its elements
fn list_loops(rep: &mut Report, root: &mut Root) {
    for i in 0..root.en.recs.len() {
        let rec = root.en.recs[i].clone();
        let cursor = match cursor_of(&rec) {
            Some(x) => x,
            None => continue,
        };
        let elems: [(&str, Props, fn(&mut W, &Pos, Option<&Val>) -> SR<bool>); 3] = [
            ("GeneralName", &["C26"], general_name),
            ("ExtendedKeyUsagePurpose", &["C25"], purpose),
            ("Extension", EXT, extension_item),
        ];
        for (elem, props, item) in elems {
            let of = acc_vec(elem);
            let path = match acc_path(&rec.head, &of) {
                Ok(Some(p)) => p,
                _ => continue,
            };
            let site = format!("loop in {} ({})", rec.func, rec.span);
            let rule = format!("list of {}: each iteration delivers exactly its elements", elem);
            for (b, y) in rec.backs.iter().zip(rec.ys.iter()) {
                let y = cursor.after(y);
                obligation(&mut root.en, rep, &rule, &site, b, "next iteration", &mut |en, s, _| {
                    let head = acc_at_with(&rec.head, &path, &of)?;
                    let back = acc_at_with(s, &path, &of)?;
                    let mut w = W::new(en, s, rec.tlen, 0);
                    w.enter(props, &format!("list of {}", elem));
                    let mut c = cursor.cur();
                    let mut item = item;
                    match list_vec(&mut w, &mut c, elem, Some(&back[0]), Some(&y), Some(head), &mut item) {
                        Ok(()) => holds(),
                        Err(SE::S(s)) => Err(s),
                        Err(SE::P(p)) => match &p.kind {
                            PK::Any => holds(),
                            PK::Internal(m) => Ok(Verdict::Broken(p.props.iter().map(|s| s.to_string()).collect(), format!("{}: {}", p.place, m))),
                            _ => Ok(Verdict::Broken(accept_props(&p), format!("{}: the loop goes on in spite of {}", p.place, describe(&p)))),
                        },
                    }
                });
            }
        }
    }
}
pub fn check_name(rep: &mut Report) {
    let mut root = match analyse(rep, "x509::Name::parse", &install) {
        Some(r) => r,
        None => return,
    };
    let st = State::default();
    let input = loaded(&root.en, &st, &root.args[0]).and_then(|v| field(&v, "inner")).and_then(|v| as_slice(&root.en, &st, &v));
    let input = match input {
        Ok(s) => s,
        Err(_) => return rep.undecided("anchor", &root.site, "no content in the argument", vec![]),
    };
    let reg = match &input.base {
        SBase::Sym(k, _) => *k,
        _ => return,
    };
    set_region_len(reg, input.len.clone());
    let t = generic_ty(root.ret, 0).unwrap();
    NAMES.with(|n| *n.borrow_mut() = field_names(t, 0));
    judge_root(rep, &mut root, "Name::parse: every path accepts and delivers what the specification says", &mut |w, g, c| {
        name(w, &input, g, c, t)
    });
    let of = acc_struct(RDN);
    for i in 0..root.en.recs.len() {
        let rec = root.en.recs[i].clone();
        let cursor = match cursor_of(&rec) {
            Some(x) => x,
            None => continue,
        };
        let site = format!("loop in {} ({})", rec.func, rec.span);
        let path = match acc_path(&rec.head, &of) {
            Ok(Some(p)) => p,
            _ => {
                rep.undecided("names", &site, "no result variable in the loop", vec![]);
                continue;
            }
        };
        let outer = cursor.r == reg;
        for (b, y) in rec.backs.iter().zip(rec.ys.iter()) {
            let y = cursor.after(y);
            obligation(&mut root.en, rep, "names: each iteration adds exactly its attributes", &site, b, "next iteration", &mut |en, s, _| {
                let mut acc = acc_at_with(&rec.head, &path, &of)?;
                let back = acc_at_with(s, &path, &of)?;
                let mut w = W::new(en, s, rec.tlen, 0);
                w.enter(NAME, "name");
                let mut c = cursor.cur();
                let r = if outer {
                    w.list(&mut c, &mut acc, &of, Some(&y), &mut name_set)
                } else {
                    w.list(&mut c, &mut acc, &of, Some(&y), &mut attribute)
                };
                match r {
                    Err(SE::S(s)) => Err(s),
                    Err(SE::P(p)) => match &p.kind {
                        PK::Any => holds(),
                        PK::Internal(m) => Ok(Verdict::Broken(p.props.iter().map(|s| s.to_string()).collect(), format!("{}: {}", p.place, m))),
                        _ => Ok(Verdict::Broken(accept_props(&p), format!("{}: the loop goes on in spite of {}", p.place, describe(&p)))),
                    },
                    Ok(()) => {
                        let names = NAMES.with(|n| n.borrow().clone());
                        for ((n, a), b) in names.iter().zip(acc.iter()).zip(back.iter()) {
                            if !same(w.en, s, a, b)? {
                                return broken(NAME, format!("after an attribute, {} is {} instead of {}", n, b.show_d(3), a.show_d(3)));
                            }
                        }
                        holds()
                    }
                }
            });
        }
    }
    if rep.prop == "C17" {
        swallowed(rep, &mut root);
    }
}
pub fn check_is_valid(rep: &mut Report) {
    let mut root = match analyse(rep, "x509::Validity::is_valid", &|_| {}) {
        Some(r) => r,
        None => return,
    };
    let st0 = State::default();
    let num = |v: Val| -> R<Form> {
        match field_by(&v, &|x| matches!(x, Val::Int(_)))? {
            Val::Int(f) => Ok(f),
            _ => unsup("moment"),
        }
    };
    let get = || -> R<(Form, Form, Form)> {
        let v = loaded(&root.en, &st0, &root.args[0])?;
        let now = loaded(&root.en, &st0, &root.args[1])?;
        Ok((num(field(&v, "not_before")?)?, num(field(&v, "not_after")?)?, num(now)?))
    };
    let (nb, na, now) = match get() {
        Ok(x) => x,
        Err(_) => return rep.undecided("anchor", &root.site, "arguments of another shape", vec![]),
    };
    let outs = std::mem::take(&mut root.outs);
    for (st, v) in &outs {
        obligation(&mut root.en, rep, "Validity::is_valid: true exactly from the start to the end", &root.site, st, &v.show(), &mut |en, s, _| {
            let want = truth(en, s, &now.sub(&nb), VSet::range(0, INF))? && truth(en, s, &na.sub(&now), VSet::range(0, INF))?;
            let got = en.truth(s, v)?;
            if got != want {
                return broken(&["C28"], format!("a moment {} the window is said to be {}", if want { "inside" } else { "outside" }, if got { "valid" } else { "invalid" }));
            }
            holds()
        });
        rep.sample(format!("{} -> {} under {}", root.name, v.show(), st.facts.show().join("; ")));
    }
    for e in &root.en.ends {
        if let EndKind::Panic(_) = e.kind {
            rep.violation("Validity::is_valid: true exactly from the start to the end", &root.site, "panics", detail(&e.state, ""));
        }
    }
}
