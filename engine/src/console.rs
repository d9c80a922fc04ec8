//! The concrete printers and the texts of single values.
use crate::form::*;
use crate::interp::*;
use crate::natives::*;
use crate::print::*;
use crate::report::Report;
use crate::spec::*;
use crate::stream::*;
use crate::val::*;
use crate::x509::{analyse_with, sym_args_as, Root};
use rustc_public::mir::mono::Instance;
use std::collections::BTreeMap;

fn wants(rep: &Report, p: &[&str]) -> bool {
    rep.prop == "ALL" || p.iter().any(|p| rep.prop == *p)
}
fn root(rep: &mut Report, inst: Instance, name: &str, st: State, setup: &dyn Fn(&mut En)) -> Option<Root> {
    let mut en = En::new();
    setup(&mut en);
    let args = sym_args_as(&mut en, inst, name)?;
    analyse_with(rep, en, inst, st, args)
}
/// the nesting level a printer keeps
fn level(v: &Val) -> R<Form> {
    match field_by(v, &|x| matches!(x, Val::Int(_)))? {
        Val::Int(f) => Ok(f),
        _ => unreachable!(),
    }
}
fn deepest() -> VSet {
    VSet::range(0, 1 << 40)
}

/// the printers of this crate: levels are counted, lines are indented by the level, text is passed on
pub fn check_printers(rep: &mut Report) {
    if !wants(rep, &["C33", "C34"]) {
        return;
    }
    let r33 = "printers count the nesting level: one more at each begin, one less at each end, unchanged otherwise";
    let r34 = "printers indent a line by its level when it is begun, and pass on the text as it is";
    let set: [(&str, &str, i128); 9] = [
        ("LinePrinter", "begin_type", 1),
        ("LinePrinter", "end_type", -1),
        ("LinePrinter", "begin_line", 0),
        ("LinePrinter", "print_fmt", 0),
        ("LinePrinter", "print_str", 0),
        ("LinePrinter", "println_fmt", 0),
        ("LinePrinter", "println_str", 0),
        ("ParseHandler", "begin_constructed", 1),
        ("ParseHandler", "end_constructed", -1),
    ];
    for (tr, m, step) in set {
        for (n, (inst, t)) in impls(tr, m).into_iter().enumerate() {
            let t = pointee(t).unwrap_or(t);
            if !adt_name(t).contains("Printer") {
                continue;
            }
            let mut en = En::new();
            crate::model::install(&mut en);
            let args = match sym_args_as(&mut en, inst, &format!("cp{}{}", m, n)) {
                Some(a) => a,
                None => continue,
            };
            // the level a printer starts from
            let start = match loaded(&en, &State::default(), &args[0]).and_then(|v| level(&v)) {
                Ok(f) => f,
                Err(_) => {
                    rep.undecided(r33, &crate::x509::site_of(inst), "printer without a level", vec![]);
                    continue;
                }
            };
            let mut st0 = State::default();
            if crate::observe::on() {
                // what is closed was opened before
                st0.facts.assume(&start, &deepest());
                st0.facts.assume(&start, &VSet::range(if step < 0 { 1 } else { 0 }, INF));
            }
            let mut r = match analyse_with(rep, en, inst, st0, args) {
                Some(r) => r,
                None => continue,
            };
            let (site, outs, args) = (r.site.clone(), std::mem::take(&mut r.outs), r.args.clone());
            let mut reached = false;
            for (st, _) in &outs {
                let mut st = st.clone();
                if !st.facts.assume(&start, &deepest()) {
                    continue;
                }
                reached = true;
                obligation(&mut r.en, rep, r33, &site, &st, "", &mut |en, st, _| {
                    let now = level(&loaded(en, st, &args[0])?)?;
                    let d = now.sub(&start).addk(-step);
                    if step < 0 && st.facts.entails(&start, &VSet::one(0)) {
                        return holds();
                    }
                    if zero(en, st, &d)? {
                        holds()
                    } else {
                        broken(&["C33"], format!("the level is {} after {}, instead of {}", now.show(), m, start.addk(step).show()))
                    }
                });
                obligation(&mut r.en, rep, r34, &site, &st, "", &mut |en, st, _| {
                    let t = toks(en, st, 0, Some("stdout"))?;
                    let text = |p: &[Piece], v: &Val| -> R<bool> {
                        let v = loaded(en, st, v)?;
                        match p {
                            [Piece::Arg(a)] if a.spec.is_empty() && (a.how == "Display" || a.how == "text") => same(en, st, &a.val, &v),
                            p if p.iter().any(|x| matches!(x, Piece::Arg(_))) && p.iter().any(|x| matches!(x, Piece::Lit(_))) => Ok(false),
                            [] => Ok(false),
                            p if p.iter().all(|x| matches!(x, Piece::Lit(_))) => Ok(false),
                            _ => unsup(format!("text printed as {}", show_pieces(p))),
                        }
                    };
                    let what = || t.iter().map(show_tok).collect::<Vec<_>>().join(" ");
                    if t.iter().any(|t| matches!(t, Tok::Loop(_) | Tok::Other(_))) {
                        return unsup(format!("{} writes {}", m, what()));
                    }
                    let ok = match m {
                        "begin_line" => match &t[..] {
                            [Tok::Start(Some(n))] => zero(en, st, &n.sub(&start))?,
                            [] => zero(en, st, &start)?,
                            [Tok::Text(p)] if p.iter().all(|x| matches!(x, Piece::Lit(l) if l.trim().is_empty())) => {
                                let n: usize = p.iter().map(|x| if let Piece::Lit(l) = x { l.len() } else { 0 }).sum();
                                zero(en, st, &start.scale(2).addk(-(n as i128)))?
                            }
                            [Tok::Text(p)] if p.iter().any(|x| matches!(x, Piece::Arg(_))) => return unsup(format!("indentation {}", show_pieces(p))),
                            _ => false,
                        },
                        "print_fmt" | "print_str" => match &t[..] {
                            [Tok::Text(p)] => text(p, &args[1])?,
                            _ => false,
                        },
                        "println_fmt" | "println_str" => match &t[..] {
                            [Tok::Text(p), Tok::End] => text(p, &args[1])?,
                            _ => false,
                        },
                        _ => t.is_empty(),
                    };
                    if ok {
                        holds()
                    } else {
                        broken(&["C34"], format!("{} writes {}", m, what()))
                    }
                });
            }
            let followed = !r.en.ends.iter().any(|e| matches!(e.kind, EndKind::Unsup(_)));
            if !reached && followed {
                rep.violation(if wants(rep, &["C33"]) { r33 } else { r34 }, &site, "the printer never returns", vec![]);
            }
            rep.count("printer methods", 1);
        }
    }
    // printers start at level 0
    for (n, inst) in constructors().into_iter().enumerate() {
        let mut r = match root(rep, inst, &format!("cn{}", n), State::default(), &|en| crate::model::install(en)) {
            Some(r) => r,
            None => continue,
        };
        let (site, outs) = (r.site.clone(), std::mem::take(&mut r.outs));
        for (st, v) in &outs {
            obligation(&mut r.en, rep, r33, &site, st, "", &mut |en, st, _| {
                let f = level(&loaded(en, st, v)?)?;
                if zero(en, st, &f)? {
                    holds()
                } else {
                    broken(&["C33"], format!("a new printer starts at level {}", f.show()))
                }
            });
        }
    }
}
/// functions that make a printer of this crate from nothing
fn constructors() -> Vec<Instance> {
    let mut out = vec![];
    for it in rustc_public::all_local_items() {
        if let Ok(i) = Instance::try_from(it) {
            if let Some(b) = i.body() {
                let n = adt_name(b.ret_local().ty);
                if b.arg_locals().is_empty() && (n.ends_with("ConsoleLinePrinter") || n.ends_with("ParsePrinter")) {
                    out.push(i);
                }
            }
        }
    }
    out
}
fn show_tok(t: &Tok) -> String {
    match t {
        Tok::Start(None) => "a line begin".into(),
        Tok::Start(Some(n)) => format!("{} steps of indentation", n.show()),
        Tok::Text(p) => show_pieces(p),
        Tok::End => "a line break".into(),
        Tok::Loop(_) => "a loop".into(),
        Tok::Other(m) => m.clone(),
    }
}

// ---------------------------------------------------------------- generic printing
/// variant of an enum value, by name, and its fields
fn variant_of(en: &En, st: &State, v: &Val) -> R<(String, Vec<Val>)> {
    let t = match v {
        Val::Enum(e) => e.ty,
        Val::Sym(_, t) => *t,
        v => return unsup(format!("no variant: {}", v.show_d(2))),
    };
    let (i, f) = en.enum_fields(st, v)?;
    Ok((variant_name(t, i), f))
}
pub fn check_generic_printer(rep: &mut Report) {
    let rule = "each reported element is one line, indented by its level, showing the element; whole octets of a bit string are dumped one level deeper";
    let mut found = false;
    for (inst, t) in impls("ParseHandler", "on_type") {
        let t = pointee(t).unwrap_or(t);
        if !adt_name(t).contains("Printer") {
            continue;
        }
        found = true;
        let mut r = match root(rep, inst, "gp", State::default(), &|en| crate::model::install(en)) {
            Some(r) => r,
            None => continue,
        };
        let start = match loaded(&r.en, &State::default(), &r.args[0]).and_then(|v| level(&v)) {
            Ok(f) => f,
            Err(_) => {
                rep.undecided(rule, &r.site, "printer without a level", vec![]);
                continue;
            }
        };
        let mut later = vec![];
        let (site, outs, args) = (r.site.clone(), std::mem::take(&mut r.outs), r.args.clone());
        for (st, _) in &outs {
            let mut st = st.clone();
            if !st.facts.assume(&start, &deepest()) {
                continue;
            }
            obligation(&mut r.en, rep, rule, &site, &st, "", &mut |en, st, _| {
                let now = level(&loaded(en, st, &args[0])?)?;
                if !zero(en, st, &now.sub(&start))? {
                    return broken(&["C33", "C40"], format!("the level is {} after an element, instead of {}", now.show(), start.show()));
                }
                let asn = loaded(en, st, &args[1])?;
                let t = toks(en, st, 0, Some("stdout"))?;
                let mut rest = &t[..];
                // the first line
                let n = match rest.first() {
                    Some(Tok::Start(Some(n))) => {
                        rest = &rest[1..];
                        n.clone()
                    }
                    _ => Form::k(0),
                };
                if !zero(en, st, &n.sub(&start))? {
                    return broken(&["C33", "C40"], format!("an element is indented by {} instead of {}", n.show(), start.show()));
                }
                match rest {
                    [Tok::Text(p), Tok::End, ..] => {
                        match &p[..] {
                            [Piece::Arg(a)] if a.how == "Display" && a.spec.is_empty() => {
                                if !same(en, st, &a.val, &asn)? {
                                    return broken(&["C40"], format!("{} is shown instead of the element", show_pieces(p)));
                                }
                            }
                            p if !p.iter().any(|x| matches!(x, Piece::Arg(_))) => return broken(&["C40"], format!("{} is shown for every element", show_pieces(p))),
                            p => return unsup(format!("element shown as {}", show_pieces(p))),
                        }
                        rest = &rest[2..];
                    }
                    _ => return broken(&["C40"], format!("no line shows the element: {}", t.iter().map(show_tok).collect::<Vec<_>>().join(" "))),
                }
                let (name, f) = variant_of(en, st, &asn)?;
                if name != "BitString" {
                    return if rest.is_empty() { holds() } else { unsup(format!("{} follows the line of a {}", rest.iter().map(show_tok).collect::<Vec<_>>().join(" "), name)) };
                }
                let mut b = loaded(en, st, f.first().unwrap_or(&Val::unit()))?;
                if let Ok(v) = field(&b, "value") {
                    b = loaded(en, st, &v)?;
                }
                let list = octets_of(&b)?;
                let unused = field_by(&b, &|x| matches!(x, Val::Int(_)))?;
                if !truth(en, st, &en.as_int(st, &unused)?, VSet::one(0))? {
                    return if rest.is_empty() { holds() } else { unsup("dump of an incomplete last octet") };
                }
                verdict(&["C36", "C40"], show_list(en, st, Kind::HexLines, &list, Some("stdout"), Some(start.addk(1)), rest, &mut later))
            });
        }
        iterations(&mut r.en, rep, &["C36", "C40"], later);
    }
    if !found {
        rep.undecided(rule, "ParseHandler", "no handler that prints is found", vec![]);
    }
    let rule = "the error that ends generic decoding is shown, on a line of its own";
    for (inst, t) in impls("ParseHandler", "on_error") {
        let t = pointee(t).unwrap_or(t);
        if !adt_name(t).contains("Printer") {
            continue;
        }
        let mut r = match root(rep, inst, "ge", State::default(), &|en| crate::model::install(en)) {
            Some(r) => r,
            None => continue,
        };
        let (site, outs, args) = (r.site.clone(), std::mem::take(&mut r.outs), r.args.clone());
        for (st, _) in &outs {
            obligation(&mut r.en, rep, rule, &site, st, "", &mut |en, st, _| {
                let e = loaded(en, st, &args[1])?;
                let t = toks(en, st, 0, Some("stdout"))?;
                let mut shown = false;
                for x in &t {
                    if let Tok::Text(p) = x {
                        for y in p {
                            if let Piece::Arg(a) = y {
                                shown = shown || same(en, st, &a.val, &e).unwrap_or(false);
                            }
                        }
                    }
                }
                if shown && matches!(t.last(), Some(Tok::End)) {
                    holds()
                } else if t.iter().any(|x| matches!(x, Tok::Loop(_) | Tok::Other(_))) {
                    unsup(t.iter().map(show_tok).collect::<Vec<_>>().join(" "))
                } else {
                    broken(&["C40"], format!("{} is shown for an error", t.iter().map(show_tok).collect::<Vec<_>>().join(" ")))
                }
            });
        }
    }
}

/// the text of every kind of element: its type's own name, and the value of simple types
pub fn check_asn_display(rep: &mut Report) {
    let rule = "every kind of element is shown by a name of its own, and simple values are shown themselves";
    texts(
        rep,
        rule,
        "C40",
        "ASNType",
        &|name, f, en, st| {
            let v = match f.first() {
                Some(v) => loaded(en, st, v)?,
                None => return Ok(vec![]),
            };
            let val = || -> R<Val> { loaded(en, st, &field(&v, "value")?) };
            Ok(match name {
                "Boolean" | "Integer" | "UTF8String" | "PrintableString" | "IA5String" | "ObjectIdentifier" | "UTCTime" | "GeneralizedTime" => vec![val()?],
                "ExplicitTag" => vec![field_by(&val()?, &|x| matches!(x, Val::Int(_)))?],
                _ => vec![],
            })
        },
        &[],
    );
}
/// (variant, word, the word comes before the value, field)
type Place = (&'static str, &'static str, bool, usize);
pub fn check_error_display(rep: &mut Report) {
    let rule = "every kind of error is shown by a text of its own that shows all the values it carries";
    texts(
        rep,
        rule,
        "C38",
        "ASNErrorVariant",
        &|_, f, _, _| Ok(f.to_vec()),
        &[
            ("UnexpectedType", "expected", true, 0),
            ("UnexpectedType", "type is", true, 1),
            ("BadLengthEncoding", "byte", false, 0),
            ("BadLengthEncoding", "value", true, 1),
            ("BadEnumValue", "enum", true, 0),
            ("BadEnumValue", "value", true, 1),
        ],
    );
    // the error as a whole is shown as its cause
    for (inst, t) in impls("Display", "fmt") {
        let t = pointee(t).unwrap_or(t);
        if !adt_name(t).ends_with("::ASNError") {
            continue;
        }
        let mut r = match root(rep, inst, "er", State::default(), &|en| setup(en)) {
            Some(r) => r,
            None => continue,
        };
        let (site, outs, args) = (r.site.clone(), std::mem::take(&mut r.outs), r.args.clone());
        for (st, _) in &outs {
            obligation(&mut r.en, rep, rule, &site, st, "", &mut |en, st, _| {
                let e = loaded(en, st, &args[0])?;
                let cause = unwrap_error(&e)?;
                let sink = sink_name(en, st, &args[1]);
                let t = toks(en, st, 0, Some(&sink))?;
                for x in &t {
                    if let Tok::Text(p) = x {
                        for y in p {
                            if let Piece::Arg(a) = y {
                                if same(en, st, &a.val, &cause)? {
                                    return holds();
                                }
                            }
                        }
                    }
                }
                if t.iter().all(|x| matches!(x, Tok::Text(_))) {
                    broken(&["C38"], "the cause of the error is not shown")
                } else {
                    unsup("text of the error")
                }
            });
        }
    }
}
fn texts(rep: &mut Report, rule: &str, prop: &'static str, ty: &str, values: &dyn Fn(&str, &[Val], &En, &State) -> R<Vec<Val>>, places: &[Place]) {
    let mut found = false;
    for (inst, t) in impls("Display", "fmt") {
        let t = pointee(t).unwrap_or(t);
        if adt_name(t).rsplit("::").next() != Some(ty) {
            continue;
        }
        found = true;
        let mut r = match root(rep, inst, &format!("tx{}", prop), State::default(), &|en| setup(en)) {
            Some(r) => r,
            None => continue,
        };
        // text without the values -> variants
        let mut skeletons: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let (site, outs, args) = (r.site.clone(), std::mem::take(&mut r.outs), r.args.clone());
        for (st, _) in &outs {
            obligation(&mut r.en, rep, rule, &site, st, "", &mut |en, st, _| {
                let v = loaded(en, st, &args[0])?;
                let (name, f) = variant_of(en, st, &v)?;
                let want = values(&name, &f, en, st)?;
                let sink = sink_name(en, st, &args[1]);
                let t = toks(en, st, 0, Some(&sink))?;
                let mut pieces = vec![];
                for x in &t {
                    match x {
                        Tok::Text(p) => push_pieces(&mut pieces, p.clone()),
                        Tok::End => push_pieces(&mut pieces, vec![Piece::Lit("\n".into())]),
                        x => return unsup(format!("text of {}: {}", name, show_tok(x))),
                    }
                }
                // which value each argument shows
                let mut which: Vec<Vec<usize>> = vec![];
                for p in &pieces {
                    which.push(vec![]);
                    if let Piece::Arg(a) = p {
                        for (i, w) in want.iter().enumerate() {
                            let w = loaded(en, st, w)?;
                            let got = loaded(en, st, &a.val)?;
                            if !cut(a, &got) && certainly(st, &got, &w) {
                                which.last_mut().unwrap().push(i);
                            }
                        }
                    }
                }
                for (i, w) in want.iter().enumerate() {
                    if !which.iter().any(|x| x.contains(&i)) {
                        // a text in place of a yes or no
                        let lit = pieces.iter().all(|p| matches!(p, Piece::Lit(_)));
                        if let (true, Val::Bool(..)) = (lit, loaded(en, st, w)?) {
                            let yes = en.truth(st, &loaded(en, st, w)?)?;
                            if show_pieces(&pieces).to_lowercase().contains(if yes { "true" } else { "false" }) {
                                continue;
                            }
                        }
                        let unknown = pieces.iter().zip(which.iter()).any(|(p, w)| matches!(p, Piece::Arg(_)) && w.is_empty());
                        if unknown && !pieces.iter().any(|p| matches!(p, Piece::Arg(a) if !simple(&a.val))) {
                            return broken(&[prop], format!("{} is shown as {}, without {}", name, show_pieces(&pieces), w.show_d(2)));
                        }
                        if unknown {
                            return unsup(format!("{} is shown as {}", name, show_pieces(&pieces)));
                        }
                        return broken(&[prop], format!("{} is shown as {}, without {}", name, show_pieces(&pieces), w.show_d(2)));
                    }
                }
                for (variant, word, before, i) in places {
                    if *variant != name {
                        continue;
                    }
                    for (j, p) in pieces.iter().enumerate() {
                        if let (Piece::Arg(_), Some(_)) = (p, which[j].first()) {
                            let near = if *before { j.checked_sub(1).and_then(|x| pieces.get(x)) } else { pieces.get(j + 1) };
                            if let Some(Piece::Lit(l)) = near {
                                if l.to_lowercase().contains(word) && !which[j].contains(i) {
                                    return broken(&[prop], format!("{} is shown as {}, with its values mixed up", name, show_pieces(&pieces)));
                                }
                            }
                        }
                    }
                }
                let s: String = pieces
                    .iter()
                    .map(|p| match p {
                        Piece::Lit(l) => l.to_lowercase(),
                        _ => "{}".into(),
                    })
                    .collect();
                if s.trim().is_empty() || s.trim() == "{}" {
                    return broken(&[prop], format!("{} is shown as {} only", name, show_pieces(&pieces)));
                }
                let l = skeletons.entry(s.trim().to_string()).or_default();
                if !l.contains(&name) {
                    l.push(name);
                }
                holds()
            });
        }
        let mut all: Vec<String> = vec![];
        for (s, v) in &skeletons {
            if v.len() > 1 {
                rep.violation(rule, &site, &format!("{} are shown by the same text {:?}", v.join(" and "), s), vec![]);
            } else {
                rep.ok(rule);
            }
            all.extend(v.iter().cloned());
        }
        // a kind that is shown by the name of another
        for (s, v) in &skeletons {
            let label: String = s.split(|c: char| !c.is_alphanumeric()).filter(|x| !x.is_empty()).collect::<Vec<_>>().join("");
            for o in &all {
                if !v.contains(o) && label == o.to_lowercase() {
                    rep.violation(rule, &site, &format!("{} is shown by the name of {}", v.join(" and "), o), vec![]);
                }
            }
        }
        rep.count("texts", skeletons.len() as u64);
    }
    if !found {
        rep.undecided(rule, ty, "no display of this type is found", vec![]);
    }
}
fn simple(v: &Val) -> bool {
    matches!(v, Val::Int(_) | Val::Bool(..) | Val::Slice(_) | Val::Sym(..))
}
/// equal on this path, whatever the values are
fn certainly(st: &State, a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Int(x), Val::Int(y)) => x == y || st.facts.eq0(&x.sub(y)),
        (Val::Sym(k, _), Val::Sym(l, _)) => k == l,
        (Val::Slice(x), Val::Slice(y)) => {
            let (x, y) = (canon(x), canon(y));
            x.base == y.base && st.facts.eq0(&x.start.sub(&y.start)) && st.facts.eq0(&x.len.sub(&y.len))
        }
        _ => a == b,
    }
}
