//! Generic decoding as a transducer (C32): what is reported to the handler, step by step, is compared with
//! the machine that keeps the contents still to be decoded on a stack. Each path through the loop must take
//! the machine from the stack at its head to the stack at its end with exactly the reports of the path.
use crate::form::*;
use crate::interp::*;
use crate::model::{element, Pos};
use crate::report::Report;
use crate::spec::*;
use crate::val::*;
use crate::walk::*;
use crate::x509::{analyse_with, sym_args_as};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;

const P: &[&str] = &["C32"];

/// contents still to be decoded, the innermost last: those of a vector known by name, and then some more
#[derive(Clone, Debug)]
struct Stack {
    base: Option<(KeyId, Form, Ty)>,
    items: Vec<SliceV>,
}
impl Stack {
    fn len(&self) -> Form {
        match &self.base {
            Some((_, n, _)) => n.addk(self.items.len() as i128),
            None => Form::k(self.items.len() as i128),
        }
    }
    /// move the last element of the named vector to the known ones
    fn split(&mut self) -> R<()> {
        let (k, n, t) = match &self.base {
            Some(x) => x.clone(),
            None => return unsup("empty stack"),
        };
        let n = n.addk(-1);
        let e = octets_in(&sym_elem(k, &n, t))?;
        self.base = Some((k, n, t));
        self.items.insert(0, e);
        Ok(())
    }
    fn top(&mut self) -> R<SliceV> {
        if self.items.is_empty() {
            self.split()?;
        }
        Ok(self.items.last().unwrap().clone())
    }
    fn show(&self) -> String {
        let b = self.base.as_ref().map(|(_, n, _)| format!("({} outer contents) ", n.show())).unwrap_or_default();
        format!("{}{}", b, self.items.iter().map(show_slice).collect::<Vec<_>>().join(" "))
    }
}
fn octets_in(v: &Val) -> R<SliceV> {
    fn find(v: &Val, d: u32, out: &mut Vec<SliceV>, rest: &mut bool) {
        match v {
            Val::Slice(s) => out.push((**s).clone()),
            v if d > 0 => match struct_fields(v) {
                Ok(f) => f.iter().for_each(|(_, x)| find(x, d - 1, out, rest)),
                Err(_) => *rest = true,
            },
            _ => *rest = true,
        }
    }
    let (mut out, mut rest) = (vec![], false);
    find(v, 4, &mut out, &mut rest);
    match (out.len(), rest) {
        (1, false) => Ok(out.pop().unwrap()),
        _ => unsup(format!("open content kept as {}", v.show_d(3))),
    }
}

/// where the stack is kept
#[derive(Clone, Debug)]
struct Place {
    vec: usize,
    /// a local that holds the innermost content
    extra: Option<usize>,
}
fn stack_of(st: &State, u: usize, p: &Place) -> R<Stack> {
    let l = match st.frames.get(u) {
        Some(f) => &f.locals,
        None => return unsup("frame"),
    };
    let v = match &l[p.vec] {
        Val::Vec(v) => v.clone(),
        v => return unsup(format!("stack {}", v.show_d(2))),
    };
    let mut s = Stack { base: v.base.as_ref().map(|(k, n)| (*k, n.clone(), v.elem)), items: vec![] };
    for x in v.items.iter() {
        s.items.push(octets_in(x)?);
    }
    if let Some(i) = p.extra {
        s.items.push(octets_in(&l[i])?);
    }
    Ok(s)
}
fn place_of(rec: &LoopRec, u: usize) -> R<Place> {
    let l = &rec.head.frames[u].locals;
    let own = |v: &Val| -> bool {
        match octets_in(v) {
            Ok(s) => rec.leaves.iter().any(|x| s.start.atoms().contains(&x.atom) || s.len.atoms().contains(&x.atom)) || matches!(&s.base, SBase::Sym(k, _) if key_name(*k).starts_with('L')),
            Err(_) => false,
        }
    };
    let vecs: Vec<usize> = (0..l.len())
        .filter(|i| match &l[*i] {
            Val::Vec(v) => match &v.base {
                Some((k, n)) => octets_in(&sym_elem(*k, &n.addk(-1), v.elem)).is_ok(),
                None => v.items.first().map(|x| octets_in(x).is_ok()).unwrap_or(false),
            },
            _ => false,
        })
        .collect();
    if vecs.len() != 1 {
        return unsup("no vector of open contents");
    }
    let extra: Vec<usize> = (0..l.len()).filter(|i| matches!(l[*i], Val::Agg(_) | Val::Slice(_)) && own(&l[*i])).collect();
    match extra.len() {
        0 => Ok(Place { vec: vecs[0], extra: None }),
        1 => Ok(Place { vec: vecs[0], extra: Some(extra[0]) }),
        _ => unsup("several open contents outside the vector"),
    }
}

#[derive(Clone, Debug)]
struct Report1 {
    name: String,
    arg: Option<Val>,
}
fn reports(st: &State, from: usize) -> R<Vec<Report1>> {
    let mut out = vec![];
    for e in st.trace.iter().skip(from) {
        match e {
            Event::Call(n, a) if n.contains("ParseHandler::") => {
                let m = n.rsplit("::").next().unwrap_or("").to_string();
                out.push(Report1 { name: m, arg: a.get(1).cloned() });
            }
            Event::Call(n, _) if n.starts_with("alloc:") => {}
            Event::Call(n, _) => return unsup(format!("call of {}", n)),
            Event::Loop(_) => return unsup("a loop inside the loop"),
            Event::Emit(..) => return unsup("output"),
        }
    }
    Ok(out)
}

enum Out {
    /// back at the head of the loop, with this stack
    Again(Stack),
    Ok,
    Err(Val),
}

fn mentions(v: &Val, name: &str, en: &En, st: &State) -> bool {
    match loaded(en, st, v) {
        Ok(Val::Sym(k, _)) if key_name(k) == name => true,
        Ok(v) => match struct_fields(&v) {
            Ok(f) => f.iter().any(|(_, x)| mentions(x, name, en, st)),
            Err(_) => false,
        },
        Err(_) => false,
    }
}
fn bad<T>(m: String) -> SR<T> {
    Err(SE::P(Prob { kind: PK::Internal(m), props: P, place: String::new() }))
}
fn same_stack(w: &W, a: &Stack, b: &Stack) -> R<bool> {
    let (mut a, mut b) = (a.clone(), b.clone());
    if !zero(w.en, w.st, &a.len().sub(&b.len()))? {
        return Ok(false);
    }
    match (&a.base, &b.base) {
        (Some(x), Some(y)) if x.0 == y.0 => {}
        (None, None) => {}
        _ => return unsup("stacks of different origin"),
    }
    while a.items.len() < b.items.len() {
        a.split()?;
    }
    while b.items.len() < a.items.len() {
        b.split()?;
    }
    for (x, y) in a.items.iter().zip(b.items.iter()) {
        // nothing is left of either
        if zero(w.en, w.st, &x.len)? && zero(w.en, w.st, &y.len)? {
            continue;
        }
        if !same_slice(w.en, w.st, x, y)? {
            return Ok(false);
        }
    }
    Ok(true)
}
/// run the machine over the reports of a path
fn run(w: &mut W, mut s: Stack, list: &[Report1], end: &Out) -> SR<()> {
    let mut i = 0;
    loop {
        // may the path stop here
        if i == list.len() {
            match end {
                Out::Again(t) => {
                    if same_stack(w, &s, t)? {
                        return Ok(());
                    }
                }
                Out::Ok => {
                    if zero(w.en, w.st, &s.len())? {
                        return Ok(());
                    }
                }
                Out::Err(_) => {}
            }
        }
        let due = |w: &mut W, want: &str| -> SR<Option<Val>> {
            match list.get(i) {
                Some(r) if r.name == want => Ok(r.arg.clone()),
                Some(r) => bad(format!("{} is reported where {} is due", r.name, want)),
                None => {
                    let _ = &w;
                    match end {
                        Out::Again(t) => bad(format!("{} is not reported: the next iteration goes on with {}", want, t.show())),
                        Out::Ok => bad(format!("{} is not reported, but decoding ends with success", want)),
                        Out::Err(v) => bad(format!("{} is not reported, but decoding ends with {}", want, v.show_d(4))),
                    }
                }
            }
        };
        if zero(w.en, w.st, &s.len())? {
            return match list.get(i) {
                Some(r) => bad(format!("{} is reported though everything is decoded", r.name)),
                None => match end {
                    Out::Err(v) => bad(format!("decoding fails with {} though everything is decoded", v.show_d(3))),
                    _ => bad("decoding goes on though everything is decoded".into()),
                },
            };
        }
        let t = s.top()?;
        let mut c = Cur::of(&t)?;
        if w.at_end(&c)? {
            // the innermost content ends
            s.items.pop();
            if !zero(w.en, w.st, &s.len())? {
                due(w, "end_constructed")?;
                i += 1;
            }
            continue;
        }
        let p: Pos = match w.el(&c) {
            Ok(p) => p,
            Err(SE::P(Prob { kind: PK::Malformed(p), .. })) => {
                let a = due(w, "on_error")?;
                let name = format!("err!{}", p.key);
                let a = match a {
                    Some(a) => a,
                    None => return Err(SE::S(Stop::Unsup("report without error".into()))),
                };
                if !mentions(&a, &name, w.en, w.st) {
                    return bad(format!("the error {} is reported for the malformed element {}", loaded(w.en, w.st, &a)?.show_d(4), p.key));
                }
                if let Some(r) = list.get(i + 1) {
                    return bad(format!("{} is reported after the error", r.name));
                }
                return match end {
                    Out::Err(v) if mentions(v, &name, w.en, w.st) => Ok(()),
                    Out::Err(v) => bad(format!("decoding ends with {} instead of the error that was reported", v.show_d(4))),
                    Out::Ok => bad("decoding ends with success after an error".into()),
                    Out::Again(_) => bad("decoding goes on after an error".into()),
                };
            }
            Err(e) => return Err(e),
        };
        let a = due(w, "on_type")?;
        i += 1;
        let a = match a {
            Some(a) => loaded(w.en, w.st, &a)?,
            None => return Err(SE::S(Stop::Unsup("report without element".into()))),
        };
        let ty = match ty_of(&a) {
            Some(t) => t,
            None => return Err(SE::S(Stop::Unsup(format!("reported element {}", a.show_d(2))))),
        };
        if !same(w.en, w.st, &a, &element(&p, ty))? {
            return bad(format!("{} is reported for the element {}", a.show_d(3), p.key));
        }
        c.o = p.next();
        let n = s.items.len() - 1;
        s.items[n] = SliceV { base: t.base.clone(), start: c.o.clone(), len: c.end.sub(&c.o) };
        let open = ids_of("Sequence").union(&ids_of("Set")).union(&ids_of("ExplicitTag"));
        if w.is(&p.id(), open)? {
            match list.get(i) {
                Some(r) if r.name == "begin_constructed" => i += 1,
                Some(r) => return bad(format!("{} is reported where the begin of the nested content of {} is due", r.name, p.key)),
                None => return bad(format!("the content of the constructed element {} is not entered", p.key)),
            }
            s.items.push(p.content());
        }
    }
}

const RULE: &str = "each path through the decoding loop reports exactly what the next elements call for";

/// Decided for every number of elements by the loop's invariant; what that leaves open, or judges from a
/// state of the loop that may not be reached, is judged on the paths of the first few elements.
pub fn check_events(rep: &mut Report) {
    let inst = match crate::model::find_fn("parse_all::parse_all") {
        Some(i) => i,
        None => {
            rep.undecided(RULE, "parse_all", "generic decoding is not found", vec![]);
            return;
        }
    };
    if crate::observe::on() && CUT.with(|c| c.get()) > 0 {
        return by_paths(rep, inst);
    }
    let mut one = Report::new(&rep.prop);
    let exact = by_invariant(&mut one, inst);
    if exact && !one.violations.is_empty() || one.violations.is_empty() && one.undecided.is_empty() {
        rep.absorb(one);
        return;
    }
    let mut two = Report::new(&rep.prop);
    by_paths(&mut two, inst);
    for v in std::mem::take(&mut two.violations) {
        rep.violation(&v.rule, &v.site, &v.msg, v.detail);
    }
    for v in std::mem::take(&mut one.violations) {
        one.undecided(&v.rule, &v.site, &format!("only for a state of the loop that is not known to be reached: {}", v.msg), v.detail);
    }
    rep.absorb(one);
}

fn start(rep: &mut Report, inst: Instance, name: &str, cut: (u32, usize)) -> Option<crate::x509::Root> {
    let mut en = En::new();
    crate::model::install(&mut en);
    en.cut = cut.0;
    if cut.0 > 0 {
        en.cut_trace = cut.1;
    }
    let args = sym_args_as(&mut en, inst, name)?;
    analyse_with(rep, en, inst, State::default(), args)
}
fn finish(en: &mut En, st: &State, sel: usize, from: usize, start: Stack, end: Out) -> R<Verdict> {
    let list = reports(st, from)?;
    // an element of a vector of known length has two names
    let named = match &start.base {
        Some((_, n, _)) => n.constant().is_none() && st.facts.vset(n).single().is_some(),
        None => false,
    };
    let mut w = W::new(en, st, from, sel);
    w.loops.clear();
    match run(&mut w, start, &list, &end) {
        Ok(()) => holds(),
        Err(SE::S(s)) => Err(s),
        Err(SE::P(p)) => match p.kind {
            PK::Internal(m) if named => unsup(format!("only with one open content: {}", m)),
            PK::Internal(m) => broken(P, m),
            k => unsup(format!("{:?}", k)),
        },
    }
}
fn result(en: &En, st: &State, v: &Val) -> R<Out> {
    let (i, f) = en.enum_fields(st, v)?;
    Ok(if i == 0 { Out::Ok } else { Out::Err(f.first().cloned().unwrap_or(Val::Undef)) })
}
fn input(en: &En, st: &State, arg: &Val) -> R<Stack> {
    Ok(Stack { base: None, items: vec![octets_in(&loaded(en, st, arg)?)?] })
}

fn by_paths(rep: &mut Report, inst: Instance) {
    let mut r = match start(rep, inst, "pp", (6, 9)) {
        Some(r) => r,
        None => return,
    };
    let (site, outs, arg) = (r.site.clone(), std::mem::take(&mut r.outs), r.args[0].clone());
    for (st, v) in &outs {
        obligation(&mut r.en, rep, RULE, &site, st, &v.show_d(4), &mut |en, st, sel| {
            let s = input(en, st, &arg)?;
            finish(en, st, sel, 0, s, result(en, st, v)?)
        });
    }
}

/// whether the state at the head of the loop is nothing but the stack
fn by_invariant(rep: &mut Report, inst: Instance) -> bool {
    let mut r = match start(rep, inst, "pa", (0, 0)) {
        Some(r) => r,
        None => return false,
    };
    let (site, outs, arg) = (r.site.clone(), std::mem::take(&mut r.outs), r.args[0].clone());
    // the loops in which the elements are decoded
    let first = |st: &State| -> Option<(usize, usize)> {
        st.trace.iter().enumerate().find_map(|(i, e)| match e {
            Event::Loop(j) => Some((*j, i + 1)),
            _ => None,
        })
    };
    let mut mains: Vec<usize> = outs.iter().filter_map(|x| first(&x.0).map(|y| y.0)).collect();
    mains.sort();
    mains.dedup();
    if mains.is_empty() {
        rep.undecided(RULE, &site, "no loop over the elements is found", vec![]);
        return false;
    }
    for (st, v) in outs.iter().filter(|x| first(&x.0).is_none()) {
        obligation(&mut r.en, rep, RULE, &site, st, &v.show_d(4), &mut |en, st, sel| {
            let s = input(en, st, &arg)?;
            finish(en, st, sel, 0, s, result(en, st, v)?)
        });
    }
    let mut exact = true;
    for j in mains {
        let rec = r.en.recs[j].clone();
        let u = rec.head.frames.len() - 1;
        let place = match place_of(&rec, u) {
            Ok(p) => p,
            Err(e) => {
                rep.undecided(RULE, &site, &format!("{:?}", e), vec![]);
                return false;
            }
        };
        let site2 = format!("loop in {} ({})", rec.func, rec.span);
        let en = &mut r.en;
        obligation(en, rep, "decoding starts with the whole input", &site2, &rec.pre.clone(), "", &mut |en, st, sel| {
            let s = input(en, st, &arg)?;
            finish(en, st, sel, 0, s, Out::Again(stack_of(st, u, &place)?))
        });
        for b in &rec.backs {
            obligation(en, rep, RULE, &site2, b, "next iteration", &mut |en, st, sel| finish(en, st, sel, rec.tlen, stack_of(&rec.head, u, &place)?, Out::Again(stack_of(st, u, &place)?)));
        }
        for (st, v, from) in outs.iter().filter_map(|x| first(&x.0).filter(|y| y.0 == j).map(|y| (&x.0, &x.1, y.1))) {
            obligation(en, rep, RULE, &site, st, &v.show_d(4), &mut |en, st, sel| {
                let end = result(en, st, v)?;
                finish(en, st, sel, from, stack_of(&rec.head, u, &place)?, end)
            });
        }
        rep.count("iterations", rec.backs.len() as u64);
        let known: Vec<AtomId> = match stack_of(&rec.head, u, &place) {
            Ok(s) => s.len().atoms().into_iter().chain(s.items.iter().flat_map(|x| x.start.atoms().into_iter().chain(x.len.atoms()))).collect(),
            Err(_) => return false,
        };
        let inner = |st: &State| st.trace.iter().filter(|e| matches!(e, Event::Loop(_))).count() > 1;
        let l = &rec.head.frames[u].locals;
        let other = (0..l.len()).any(|i| i != place.vec && Some(i) != place.extra && generalised(&l[i]));
        exact &= !other && rec.leaves.iter().all(|x| known.contains(&x.atom)) && !outs.iter().any(|x| inner(&x.0)) && !rec.backs.iter().any(inner);
    }
    exact
}
/// a value that stands for what it is in some iteration
fn generalised(v: &Val) -> bool {
    match v {
        Val::Sym(k, _) | Val::Opaque(k) => key_name(*k).starts_with('L'),
        v => match struct_fields(v) {
            Ok(f) => f.iter().any(|(_, x)| generalised(x)),
            Err(_) => false,
        },
    }
}
