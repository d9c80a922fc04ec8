//! Comparison of analysed outcomes with a specification: questions about a path are answered from
//! its facts, and the path is split where the facts leave the answer open.
use crate::form::*;
use crate::interp::*;
use crate::model::Pos;
use crate::natives::*;
use crate::report::Report;
use crate::val::*;
use std::rc::Rc;

/// what one path came to
#[derive(Clone, Debug)]
pub enum Verdict {
    Holds,
    /// (properties, message)
    Broken(Vec<String>, String),
}
pub fn holds() -> R<Verdict> {
    Ok(Verdict::Holds)
}
pub fn broken(props: &[&str], msg: impl Into<String>) -> R<Verdict> {
    Ok(Verdict::Broken(props.iter().map(|s| s.to_string()).collect(), msg.into()))
}

pub struct Limits {
    pub leaves: usize,
    pub depth: usize,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { leaves: 6000, depth: 60 }
    }
}

/// run `f` on the state, splitting its facts until every question is decided
pub fn refine(en: &mut En, st: &State, lim: &Limits, f: &mut dyn FnMut(&mut En, &State, usize) -> R<Verdict>) -> Vec<(State, Result<Verdict, String>)> {
    let mut out = vec![];
    let mut stack = vec![(st.clone(), 0usize, Memo::default())];
    let mut n = 0;
    while let Some((s, d, memo)) = stack.pop() {
        n += 1;
        if n > lim.leaves {
            out.push((s, Err("too many cases".to_string())));
            return out;
        }
        *en.memo.borrow_mut() = Some(memo);
        let r = f(en, &s, d);
        let memo = en.memo.borrow_mut().take().unwrap_or_default();
        match r {
            Ok(v) => out.push((s, Ok(v))),
            Err(Stop::Infeasible) => {}
            Err(Stop::Unsup(m)) => out.push((s, Err(m))),
            Err(Stop::Panic(m)) => out.push((s, Err(format!("panic: {}", m)))),
            Err(Stop::Split(form, sets)) => {
                if d >= lim.depth {
                    out.push((s, Err(format!("too many splits, last on {}", form.show()))));
                    continue;
                }
                for x in sets {
                    let mut t = s.clone();
                    if t.facts.assume(&form, &x) {
                        stack.push((t, d + 1, memo.clone()));
                    }
                }
            }
        }
    }
    out
}

/// run a path obligation and record what comes of it for property `rep.prop`
pub fn obligation(
    en: &mut En,
    rep: &mut Report,
    rule: &str,
    site: &str,
    st: &State,
    what: &str,
    f: &mut dyn FnMut(&mut En, &State, usize) -> R<Verdict>,
) {
    if crate::observe::on() {
        // only what the analysis itself sees is of interest
        return;
    }
    let mut ok = true;
    for (s, v) in refine(en, st, &Limits::default(), f) {
        match v {
            Ok(Verdict::Holds) => {}
            Ok(Verdict::Broken(props, msg)) => {
                if rep.prop == "ALL" || props.iter().any(|p| *p == rep.prop) {
                    ok = false;
                    let tag = if rep.prop == "ALL" { format!("[{}] ", props.join(",")) } else { String::new() };
                    rep.violation(rule, site, &format!("{}{}", tag, msg), detail(&s, what));
                }
            }
            Err(m) => {
                ok = false;
                rep.undecided(rule, site, &m, detail(&s, what));
            }
        }
    }
    if ok {
        rep.ok(rule);
    }
}
pub fn detail(s: &State, what: &str) -> Vec<String> {
    let mut v = vec![];
    if !what.is_empty() {
        v.push(format!("outcome: {}", what));
    }
    let f = s.facts.show();
    let text = f.join(" ") + what;
    for x in f.iter().take(60) {
        v.push(format!("path: {}", x));
    }
    for l in crate::model::legend() {
        let n = l.split(':').next().unwrap_or("").to_string();
        if text.contains(&format!("!{} ", n)) || text.contains(&format!("{}[", n)) || text.contains(&format!("!{})", n)) {
            v.push(format!("name: {}", l));
        }
    }
    v
}

/// add a fact that holds by definition
pub fn axiom(en: &En, st: &State, f: &Form, s: &VSet) -> R<()> {
    if en.decide(st, f, s) == Some(true) {
        return Ok(());
    }
    Err(Stop::Split(f.clone(), vec![s.clone()]))
}

/// struct fields of a value, with their names and types
pub fn struct_fields(v: &Val) -> R<Vec<(String, Val)>> {
    let v = match v {
        Val::Sym(k, t) => match expand(*k, *t) {
            Some(v) => v,
            None => return unsup(format!("fields of {}", v.show_d(2))),
        },
        v => v.clone(),
    };
    match &v {
        Val::Agg(a) => Ok(field_names(a.ty, 0).into_iter().zip(a.f.iter().cloned()).collect()),
        Val::Enum(e) if num_variants(e.ty) == 1 => Ok(field_names(e.ty, 0).into_iter().zip(e.f.iter().cloned()).collect()),
        v => unsup(format!("fields of {}", v.show_d(2))),
    }
}
pub fn field(v: &Val, name: &str) -> R<Val> {
    for (n, x) in struct_fields(v)? {
        if n == name {
            return Ok(x);
        }
    }
    unsup(format!("no field {} in {}", name, v.show_d(2)))
}
/// the only field of a struct for which the predicate holds
pub fn field_by(v: &Val, p: &dyn Fn(&Val) -> bool) -> R<Val> {
    let mut r = vec![];
    for (_, x) in struct_fields(v)? {
        if p(&x) {
            r.push(x);
        }
    }
    if r.len() == 1 {
        Ok(r.pop().unwrap())
    } else {
        unsup(format!("no distinct field in {}", v.show_d(2)))
    }
}
pub fn loaded(en: &En, st: &State, v: &Val) -> R<Val> {
    match v {
        Val::Ref(_) => {
            let x = en.load(st, v)?;
            loaded(en, st, &x)
        }
        v => Ok(v.clone()),
    }
}
/// Some(x) / None of an Option
pub fn as_option(en: &En, st: &State, v: &Val) -> R<Option<Val>> {
    let (i, f) = en.enum_fields(st, v)?;
    Ok(if i == 0 { None } else { f.first().cloned() })
}
pub fn as_result(en: &En, st: &State, v: &Val) -> R<Result<Val, Val>> {
    let (i, f) = en.enum_fields(st, v)?;
    let x = f.first().cloned().unwrap_or(Val::unit());
    Ok(if i == 0 { Ok(x) } else { Err(x) })
}

/// the same octets named in the outermost region they lie in
pub fn canon(s: &SliceV) -> SliceV {
    let mut s = s.clone();
    for _ in 0..20 {
        let k = match &s.base {
            SBase::Sym(k, _) => *k,
            _ => return s,
        };
        match crate::model::enclosing(k) {
            Some(p) => {
                let t = match &s.base {
                    SBase::Sym(_, t) => *t,
                    _ => unreachable!(),
                };
                s = SliceV { base: SBase::Sym(p.r, t), start: s.start.add(&p.o).add(&p.hdr()), len: s.len.clone() };
            }
            None => return s,
        }
    }
    s
}

/// are these the same value, octet slices being compared by where they lie
pub fn same(en: &En, st: &State, a: &Val, b: &Val) -> R<bool> {
    if a == b && !matches!(a, Val::Undef | Val::Opaque(_)) {
        return Ok(true);
    }
    match (a, b) {
        (Val::Sym(k, _), Val::Sym(l, _)) if k == l => Ok(true),
        (Val::Ref(_), _) => {
            let x = en.load(st, a)?;
            same(en, st, &x, b)
        }
        (_, Val::Ref(_)) => {
            let x = en.load(st, b)?;
            same(en, st, a, &x)
        }
        (Val::Int(x), Val::Int(y)) => {
            let d = x.sub(y);
            if st.facts.eq0(&d) {
                return Ok(true);
            }
            zero(en, st, &d)
        }
        (Val::Bool(..), Val::Bool(..)) => {
            let x = en.truth(st, a)?;
            let y = en.truth(st, b)?;
            Ok(x == y)
        }
        (Val::Slice(x), Val::Slice(y)) => same_slice(en, st, x, y),
        (Val::Agg(x), Val::Agg(y)) if x.f.len() == y.f.len() => {
            for (p, q) in x.f.iter().zip(y.f.iter()) {
                if !same(en, st, p, q)? {
                    return Ok(false);
                }
            }
            Ok(true)
        }
        (Val::Vec(x), Val::Vec(y)) => {
            if x.items.len() != y.items.len() {
                return Ok(false);
            }
            match (&x.base, &y.base) {
                (None, None) => {}
                (Some((k, n)), Some((l, m))) if k == l && st.facts.eq0(&n.sub(m)) => {}
                _ => return Ok(false),
            }
            for (p, q) in x.items.iter().zip(y.items.iter()) {
                if !same(en, st, p, q)? {
                    return Ok(false);
                }
            }
            Ok(true)
        }
        _ => {
            let named = |v: &Val| matches!(v, Val::Sym(_, t) if !is_enum(*t));
            if named(a) || named(b) {
                let x = match a {
                    Val::Sym(k, t) => expand(*k, *t),
                    v => Some(v.clone()),
                };
                let y = match b {
                    Val::Sym(k, t) => expand(*k, *t),
                    v => Some(v.clone()),
                };
                if let (Some(x), Some(y)) = (x, y) {
                    if x != *a || y != *b {
                        return same(en, st, &x, &y);
                    }
                }
            }
            if matches!(a, Val::Sym(..) | Val::Enum(_)) && matches!(b, Val::Sym(..) | Val::Enum(_)) {
                let (i, f) = en.enum_fields(st, a)?;
                let (j, g) = en.enum_fields(st, b)?;
                if i != j {
                    return Ok(false);
                }
                for (p, q) in f.iter().zip(g.iter()) {
                    if !same(en, st, p, q)? {
                        return Ok(false);
                    }
                }
                return Ok(true);
            }
            unsup(format!("comparison of {} with {}", a.show_d(3), b.show_d(3)))
        }
    }
}
/// is the form zero on this path: decided from the facts, otherwise by splitting its smallest atom
pub fn zero(en: &En, st: &State, d: &Form) -> R<bool> {
    if let Some(b) = en.decide(st, d, &VSet::one(0)) {
        return Ok(b);
    }
    if st.facts.eq0(d) {
        return Ok(true);
    }
    if let Some(s) = st.facts.simplify(d) {
        if s != *d {
            if let Some(b) = en.decide(st, &s, &VSet::one(0)) {
                return Ok(b);
            }
        }
    }
    split_bool(d, &VSet::one(0))
}
pub fn same_slice(en: &En, st: &State, x: &SliceV, y: &SliceV) -> R<bool> {
    if x == y {
        return Ok(true);
    }
    if let (SBase::Bytes(_), _) | (_, SBase::Bytes(_)) | (SBase::Text(_), _) | (_, SBase::Text(_)) = (&x.base, &y.base) {
        return equal_slices(en, st, x, y);
    }
    if !zero(en, st, &x.len.sub(&y.len))? {
        return Ok(false);
    }
    if st.facts.const_of(&x.len) == Some(0) || st.facts.const_of(&y.len) == Some(0) {
        return Ok(true);
    }
    let (cx, cy) = (canon(x), canon(y));
    if cx.base == cy.base && st.facts.eq0(&cx.start.sub(&cy.start)) {
        return Ok(true);
    }
    // empty slices are equal wherever they lie
    if truth(en, st, &x.len, VSet::one(0))? {
        return Ok(true);
    }
    if cx.base == cy.base {
        return zero(en, st, &cx.start.sub(&cy.start));
    }
    Ok(false)
}

/// every value stored in the state
pub fn each_value(st: &State, f: &mut dyn FnMut(&Val)) {
    fn go(v: &Val, f: &mut dyn FnMut(&Val)) {
        f(v);
        match v {
            Val::Agg(a) => a.f.iter().for_each(|x| go(x, f)),
            Val::Enum(e) => e.f.iter().for_each(|x| go(x, f)),
            Val::Vec(v) => v.items.iter().for_each(|x| go(x, f)),
            Val::Dyn(v, _) => go(v, f),
            _ => {}
        }
    }
    for fr in st.frames.iter() {
        for v in fr.locals.iter() {
            go(v, f);
        }
    }
    for v in st.heap.values() {
        go(v, f);
    }
}

pub fn error_name(en: &En, st: &State, v: &Val) -> R<(String, Vec<Val>)> {
    let v = unwrap_error(v)?;
    let (i, f) = en.enum_fields(st, &v)?;
    let t = match &v {
        Val::Enum(e) => e.ty,
        Val::Sym(_, t) => *t,
        _ => return unsup("error value"),
    };
    Ok((variant_name(t, i), f))
}
/// the variant inside an ASNError
pub fn unwrap_error(v: &Val) -> R<Val> {
    match v {
        Val::Agg(a) if a.f.len() == 1 => Ok(a.f[0].clone()),
        Val::Sym(k, t) if !is_enum(*t) => match expand(*k, *t) {
            Some(Val::Agg(a)) if a.f.len() == 1 => Ok(a.f[0].clone()),
            _ => unsup("error value"),
        },
        v => Ok(v.clone()),
    }
}
/// is this the error of the malformed element at `p`
pub fn is_error_of(v: &Val, p: &Pos) -> bool {
    match unwrap_error(v) {
        Ok(Val::Sym(k, _)) => {
            let n = key_name(k);
            n == format!("err!{}", p.key)
                || matches!((n.strip_prefix("xerr!"), p.key.strip_prefix('x')), (Some(a), Some(b)) if a == b || a.strip_suffix(".0") == Some(b))
        }
        _ => false,
    }
}
pub fn rc<T>(x: T) -> Rc<T> {
    Rc::new(x)
}
