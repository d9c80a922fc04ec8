//! Printing: what is sent to the line printer, in which order and nesting.
use crate::form::*;
use crate::interp::*;
use crate::model::*;
use crate::natives::*;
use crate::report::Report;
use crate::spec::*;
use crate::val::*;
use crate::walk::*;
use crate::x509::{analyse_with, sym_args_as, Root};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const LABELS: &[&str] = &["C35"];

/// the printable types of the library
const KINDS: [&str; 17] = [
    "Certificate",
    "octets",
    "ASNBitString",
    "AlgorithmIdentifier",
    "TBSCertificate",
    "Validity",
    "RelativeDistinguishedName",
    "Name",
    "SubjectPublicKeyInfo",
    "Extension",
    "SpecificExtension",
    "SubjectKeyIdentifier",
    "KeyUsage",
    "GeneralName",
    "SubjectAlternativeName",
    "BasicConstraints",
    "ExtendedKeyUsage",
];
const LAST: &str = "ModbusRole";

pub fn kind_of(t: Ty) -> Option<String> {
    let mut t = t;
    while let Some(p) = pointee(t) {
        t = p;
    }
    if elem_ty(t).map(|e| int_range(e) == Some((0, 255))) == Some(true) {
        return Some("octets".into());
    }
    let n = adt_name(t);
    let n = n.rsplit("::").next().unwrap_or("");
    if KINDS.contains(&n) || n == LAST {
        Some(n.to_string())
    } else {
        None
    }
}
/// the implementations of a trait's method, however the compiler names them
pub fn impls(tr: &str, m: &str) -> Vec<(Instance, Ty)> {
    use rustc_public::CrateDef;
    let mut out = vec![];
    for it in rustc_public::all_local_items() {
        let n = norm_name(&it.name().to_string());
        if !n.ends_with(&format!(">::{}", m)) || !(n.contains(&format!("::{}>", tr)) || n.contains(&format!("::{} for ", tr)) || n.contains(&format!(" {}>", tr))) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            if let Some(b) = i.body() {
                if let Some(l) = b.arg_locals().first() {
                    out.push((i, l.ty));
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- what is printed
#[derive(Clone, Debug)]
pub enum Op {
    BeginLine,
    Text(Vec<Piece>),
    EndLine,
    Begin,
    End,
    Sub(String, Val),
    Loop(usize),
    Other(String),
}

fn sub_hook(kind: String) -> Hook {
    Rc::new(move |en, st, _inst, args| {
        if en.stack.is_empty() || args.len() != 2 || !matches!(args[1], Val::SymDyn(..)) {
            return Ok(None);
        }
        let v = loaded(en, st, &args[0])?;
        let v = en.snapshot(st, &v);
        let mut s = st.clone();
        s.emit(Event::Call(format!("sub:{}", kind), Rc::new(vec![v, args[1].clone()])));
        Ok(Some(vec![(s, Val::unit())]))
    })
}
/// a parser whose result is named after the octets it is given
fn parse_hook(tag: &'static str) -> Hook {
    Rc::new(move |en, st, inst, args| {
        let t = ret_ty(en, inst).ok_or(Stop::Unsup("return type".into()))?;
        let (at, et) = (generic_ty(t, 0).unwrap(), generic_ty(t, 1).unwrap());
        let s = match as_slice(en, st, &args[0]) {
            Ok(s) => s,
            Err(_) => octets_of(&loaded(en, st, &args[0])?)?,
        };
        Ok(Some(if truth(en, st, &parses(tag, &s), VSet::one(1))? {
            vec![(st.clone(), res_ok(t, parsed(tag, &s, at)))]
        } else {
            vec![(st.clone(), res_err(t, parse_error(tag, &s, et)))]
        }))
    })
}
fn parses(tag: &str, s: &SliceV) -> Form {
    Form::named(&format!("ok({}.parse {})", tag, show_slice(s)), 0, 1)
}
fn parsed(tag: &str, s: &SliceV, t: Ty) -> Val {
    sym(key(&format!("{}.parse({})", tag, show_slice(s))), t)
}
fn parse_error(tag: &str, s: &SliceV, t: Ty) -> Val {
    sym(key(&format!("{}.parse({}).error", tag, show_slice(s))), t)
}
/// the only octet slice in a struct
pub fn octets_of(v: &Val) -> R<SliceV> {
    if let Val::Slice(s) = v {
        return Ok((**s).clone());
    }
    match field_by(v, &|x| matches!(x, Val::Slice(_)))? {
        Val::Slice(s) => Ok((*s).clone()),
        _ => unreachable!(),
    }
}
/// Display of a type of the library, as one piece of text
fn display_hook() -> Hook {
    Rc::new(move |en, st, inst, args| {
        if en.stack.is_empty() {
            return Ok(None);
        }
        let t = ret_ty(en, inst).ok_or(Stop::Unsup("return type".into()))?;
        let vt = match en.info(inst).and_then(|i| pointee(i.body.arg_locals()[0].ty)) {
            Some(t) => t,
            None => return Ok(None),
        };
        let v = loaded(en, st, &args[0])?;
        let mut s = st.clone();
        emit(en, &mut s, &args[1], vec![Piece::Arg(Rc::new(ArgV { val: v, ty: vt, how: "Display".into(), spec: "".into() }))], None)?;
        Ok(Some(vec![(s, res_ok(t, Val::unit()))]))
    })
}
pub fn setup(en: &mut En) {
    install(en);
    for (i, t) in impls("Printable", "print") {
        if let Some(k) = kind_of(t) {
            let n = en.name_of(i);
            en.hooks.insert((*n).clone(), sub_hook(k));
        }
    }
    for (i, _) in impls("Display", "fmt") {
        let n = en.name_of(i);
        en.hooks.insert((*n).clone(), display_hook());
    }
    en.hooks.insert("rx509::x509::Name::parse".into(), parse_hook("Name"));
    en.hooks.insert("rx509::x509::ext::Extensions::parse".into(), parse_hook("Extensions"));
}

/// text as shown: nested texts and constant strings are spelled out
pub fn flatten(en: &En, st: &State, p: &[Piece]) -> Vec<Piece> {
    let mut out = vec![];
    for x in p {
        match x {
            Piece::Lit(s) => push_pieces(&mut out, vec![Piece::Lit(s.clone())]),
            Piece::Arg(a) => {
                let v = loaded(en, st, &a.val).unwrap_or(a.val.clone());
                match &v {
                    Val::Str(q) | Val::Fmt(q) if a.spec.is_empty() && a.how == "Display" => {
                        let q = flatten(en, st, q);
                        push_pieces(&mut out, q)
                    }
                    Val::Slice(s) if a.spec.is_empty() && (a.how == "Display" || a.how == "text") => {
                        let q = text_pieces(s);
                        push_pieces(&mut out, q)
                    }
                    _ => push_pieces(&mut out, vec![Piece::Arg(Rc::new(ArgV { val: v, ty: a.ty, how: a.how.clone(), spec: a.spec.clone() }))]),
                }
            }
        }
    }
    out
}
fn text_arg(en: &En, st: &State, v: &Val) -> R<Vec<Piece>> {
    let v = loaded(en, st, v)?;
    Ok(match &v {
        Val::Fmt(p) | Val::Str(p) => flatten(en, st, p),
        Val::Slice(s) => flatten(en, st, &text_pieces(s)),
        v => return unsup(format!("text {}", v.show_d(3))),
    })
}
/// line breaks inside literal text end the line
pub fn push_text(out: &mut Vec<Op>, p: Vec<Piece>) {
    let mut cur: Vec<Piece> = vec![];
    for x in p {
        match x {
            Piece::Lit(s) => {
                let parts: Vec<&str> = s.split('\n').collect();
                for (i, part) in parts.iter().enumerate() {
                    if i > 0 {
                        if !cur.is_empty() {
                            out.push(Op::Text(std::mem::take(&mut cur)));
                        }
                        out.push(Op::EndLine);
                    }
                    if !part.is_empty() {
                        cur.push(Piece::Lit(part.to_string()));
                    }
                }
            }
            a => cur.push(a),
        }
    }
    if !cur.is_empty() {
        out.push(Op::Text(cur));
    }
}
pub fn ops(en: &En, st: &State, from: usize) -> R<Vec<Op>> {
    let mut out = vec![];
    for i in from..st.trace.len() {
        out.extend(event_ops(en, st, &st.trace[i])?);
    }
    Ok(out)
}
pub fn event_ops(en: &En, st: &State, e: &Event) -> R<Vec<Op>> {
    let mut out = vec![];
    match e {
        Event::Loop(i) => out.push(Op::Loop(*i)),
        Event::Call(n, a) => {
            if let Some(k) = n.strip_prefix("sub:") {
                out.push(Op::Sub(k.to_string(), a[0].clone()));
                return Ok(out);
            }
            if n.starts_with("alloc:") {
                return Ok(out);
            }
            match n.rsplit("::LinePrinter::").next().filter(|_| n.contains("::LinePrinter::")) {
                Some("begin_type") => out.push(Op::Begin),
                Some("end_type") => out.push(Op::End),
                Some("begin_line") => out.push(Op::BeginLine),
                Some("print_fmt") | Some("print_str") => push_text(&mut out, text_arg(en, st, &a[1])?),
                Some("println_fmt") | Some("println_str") => {
                    push_text(&mut out, text_arg(en, st, &a[1])?);
                    out.push(Op::EndLine);
                }
                _ => out.push(Op::Other(format!("calls {}", n))),
            }
        }
        Event::Emit(s, p) => out.push(Op::Other(format!("writes {} to {}", show_pieces(p), s))),
    }
    Ok(out)
}

// ---------------------------------------------------------------- nesting and lines
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct PState {
    depth: i64,
    open: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct PErr {
    prop: &'static str,
    site: String,
    msg: String,
}
struct Protocol<'a> {
    en: &'a En,
    /// line state in which other values are printed
    subs: BTreeSet<(String, bool)>,
    errs: Vec<PErr>,
    unclear: Vec<String>,
    depth: usize,
}
impl<'a> Protocol<'a> {
    fn step(&mut self, o: &Op, s: PState, site: &str, errs: &mut Vec<PErr>) -> Option<PState> {
        let mut err = |prop: &'static str, msg: String| errs.push(PErr { prop, site: site.to_string(), msg });
        let mut t = s;
        match o {
            Op::BeginLine => {
                if s.open {
                    err("C34", "a line is begun while the one before is unfinished".into());
                    return None;
                }
                t.open = true;
            }
            Op::Text(p) => {
                if !s.open {
                    err("C34", format!("text {} is printed in no line that was begun", show_pieces(p)));
                    return None;
                }
            }
            Op::EndLine => {
                if !s.open {
                    err("C34", "a line is ended that was not begun".into());
                    return None;
                }
                t.open = false;
            }
            Op::Begin => t.depth += 1,
            Op::End => {
                t.depth -= 1;
                if t.depth < 0 {
                    err("C33", "a nesting level is closed that was not opened".into());
                    return None;
                }
            }
            Op::Sub(k, _) => {
                self.subs.insert((k.clone(), s.open));
                t.open = false;
            }
            Op::Other(m) => {
                err("C34", format!("printing {} rather than printing to the line printer", m));
                return None;
            }
            Op::Loop(_) => unreachable!(),
        }
        Some(t)
    }
    /// the states after the operations, from any of the given ones
    fn run(&mut self, list: &[Op], from: &BTreeSet<PState>, site: &str) -> BTreeSet<PState> {
        let mut cur = from.clone();
        for o in list {
            let mut next = BTreeSet::new();
            let mut errs = vec![];
            if let Op::Loop(i) = o {
                for s in self.iterate(*i, &cur) {
                    next.insert(s);
                }
            } else {
                for s in &cur {
                    if let Some(t) = self.step(o, *s, site, &mut errs) {
                        next.insert(t);
                    }
                }
            }
            if !errs.is_empty() {
                if next.is_empty() {
                    self.errs.append(&mut errs);
                    return next;
                }
                self.unclear.push(format!("{} unless the line state depends on the data", errs[0].msg));
            }
            cur = next;
            if cur.is_empty() {
                return cur;
            }
        }
        cur
    }
    fn iterate(&mut self, i: usize, from: &BTreeSet<PState>) -> BTreeSet<PState> {
        let rec = self.en.recs[i].clone();
        let site = format!("loop in {} ({})", rec.func, rec.span);
        self.depth += 1;
        let mut states = from.clone();
        if self.depth > 8 {
            self.unclear.push("loops nested too deeply".into());
            return states;
        }
        // with the values that the loop is entered with, can the first iteration take this path
        let first = |b: &State| {
            let mut f = b.facts.clone();
            rec.leaves.iter().all(|l| f.assume(&Form::atom(l.atom).sub(&l.entry), &VSet::one(0)))
        };
        let bodies: Vec<(Vec<Op>, bool)> = rec
            .backs
            .iter()
            .filter_map(|b| match ops(self.en, b, rec.tlen) {
                Ok(o) => Some((o, first(b))),
                Err(_) => {
                    self.unclear.push(format!("{}: text that is not understood", site));
                    None
                }
            })
            .collect();
        for round in 0..3 {
            let mut new = BTreeSet::new();
            let mut dead: BTreeSet<PState> = BTreeSet::new();
            let mut errs: Vec<PErr> = vec![];
            let mut sure = false;
            for s in states.iter() {
                let mut live = false;
                for (b, first) in &bodies {
                    let mark = self.errs.len();
                    let one: BTreeSet<PState> = [*s].into_iter().collect();
                    let r = self.run(b, &one, &site);
                    if *first {
                        sure |= self.errs.len() > mark;
                    }
                    errs.extend(self.errs.drain(mark..));
                    if !r.is_empty() {
                        live = true;
                    }
                    for t in r {
                        if t.depth != s.depth {
                            self.errs.push(PErr {
                                prop: "C33",
                                site: site.clone(),
                                msg: format!("each iteration leaves {} nesting levels {}", (t.depth - s.depth).abs(), if t.depth > s.depth { "open" } else { "closed that it did not open" }),
                            });
                            continue;
                        }
                        new.insert(t);
                    }
                }
                if !live && !bodies.is_empty() {
                    dead.insert(*s);
                }
            }
            // an iteration from a state that is certainly reached fails
            let certain = round == 0 && from.len() == 1 && sure;
            if !errs.is_empty() {
                if certain || !dead.is_empty() {
                    for e in errs {
                        if !self.errs.contains(&e) {
                            self.errs.push(e);
                        }
                    }
                } else {
                    self.unclear.push(format!("{}: {} unless the line state depends on the data", site, errs[0].msg));
                }
            }
            let before = states.len();
            states.extend(new);
            if states.len() == before {
                break;
            }
        }
        self.depth -= 1;
        states
    }
}

struct PRoot {
    kind: Option<String>,
    root: Root,
}
/// the list a value of this kind consists of
fn list_of(en: &En, st: &State, kind: &str, v: &Val) -> R<Form> {
    let find = |v: &Val| -> R<Form> {
        match field_by(v, &|x| matches!(x, Val::Vec(_)))? {
            Val::Vec(x) => Ok(x.len()),
            _ => unsup("no list"),
        }
    };
    match kind {
        "SubjectAlternativeName" | "ExtendedKeyUsage" => find(&loaded(en, st, v)?),
        _ => unsup("no list"),
    }
}
/// printing one type, for lists of one length
fn bounded_root(inst: Instance, name: &str, kind: &str, n: i128) -> Option<Root> {
    let mut en = En::new();
    setup(&mut en);
    en.bounded = n + 2;
    let args = sym_args_as(&mut en, inst, name)?;
    let mut st = State::default();
    let l = list_of(&en, &st, kind, &args[0]).ok()?;
    if !st.facts.assume(&l, &VSet::one(n)) {
        return None;
    }
    analyse_with(&mut Report::new(""), en, inst, st, args)
}
fn roots(rep: &mut Report) -> Vec<PRoot> {
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    for (n, (i, t)) in impls("Printable", "print").into_iter().enumerate() {
        let mut en = En::new();
        setup(&mut en);
        let args = match sym_args_as(&mut en, i, &format!("p{}a", n)) {
            Some(a) => a,
            None => continue,
        };
        let kind = kind_of(t);
        if let Some(k) = &kind {
            seen.insert(k.clone());
        }
        if let Some(root) = analyse_with(rep, en, i, State::default(), args) {
            out.push(PRoot { kind, root });
        }
    }
    for k in KINDS.iter().chain([LAST].iter()) {
        if !seen.contains(*k) {
            rep.undecided("anchor", k, "no printing of this type is found", vec![]);
        }
    }
    out
}
fn wants_prop(rep: &Report, p: &str) -> bool {
    rep.prop == "ALL" || rep.prop == p
}
pub fn check_protocol(rep: &mut Report) {
    let list = roots(rep);
    let rule33 = "on every path of every printable value, nesting levels are closed as opened";
    let rule34 = "on every path of every printable value, lines are begun once, written in, and completed";
    // the line state in which each type is printed
    let mut ctx: BTreeMap<String, BTreeSet<bool>> = BTreeMap::new();
    let mut called: BTreeSet<String> = BTreeSet::new();
    let mut inlined: BTreeSet<String> = BTreeSet::new();
    let mut all_ops: Vec<Vec<Vec<Op>>> = vec![];
    for r in &list {
        let mut v = vec![];
        let mut states: Vec<(&State, usize)> = r.root.outs.iter().map(|(s, _)| (s, 0)).collect();
        for rec in &r.root.en.recs {
            states.extend(rec.backs.iter().map(|b| (b, rec.tlen)));
        }
        let n = r.root.outs.len();
        for (j, (s, from)) in states.into_iter().enumerate() {
            match ops(&r.root.en, s, from) {
                Ok(o) => {
                    for x in &o {
                        if let Op::Sub(k, _) = x {
                            called.insert(k.clone());
                        }
                    }
                    if j < n {
                        v.push(o);
                    }
                }
                Err(_) => rep.undecided(rule34, &r.root.site, "text that is not understood", vec![]),
            }
        }
        for f in &r.root.en.fns {
            if *f != r.root.name {
                inlined.insert(f.clone());
            }
        }
        all_ops.push(v);
    }
    for k in KINDS.iter().chain([LAST].iter()) {
        if !called.contains(*k) {
            ctx.entry(k.to_string()).or_default().insert(false);
        }
    }
    let mut errs: BTreeMap<PErr, usize> = BTreeMap::new();
    let mut unclear: BTreeSet<(String, String)> = BTreeSet::new();
    let mut done: BTreeSet<(usize, bool)> = BTreeSet::new();
    let mut obligations = 0u64;
    loop {
        let mut work = vec![];
        for (j, r) in list.iter().enumerate() {
            let c = match &r.kind {
                Some(k) => ctx.get(k).cloned().unwrap_or_default(),
                None if inlined.contains(&r.root.name) => BTreeSet::new(),
                None => [false].into_iter().collect(),
            };
            for o in c {
                if done.insert((j, o)) {
                    work.push((j, o));
                }
            }
        }
        if work.is_empty() {
            break;
        }
        for (j, open) in work {
            let r = &list[j];
            for o in &all_ops[j] {
                let mut p = Protocol { en: &r.root.en, subs: BTreeSet::new(), errs: vec![], unclear: vec![], depth: 0 };
                let from: BTreeSet<PState> = [PState { depth: 0, open }].into_iter().collect();
                let end = p.run(o, &from, &r.root.site);
                obligations += 1;
                if !end.is_empty() && end.iter().all(|s| s.depth != 0) {
                    p.errs.push(PErr { prop: "C33", site: r.root.site.clone(), msg: format!("{} nesting levels are left open", end.iter().next().unwrap().depth) });
                }
                if !end.is_empty() && end.iter().all(|s| s.open) {
                    p.errs.push(PErr { prop: "C34", site: r.root.site.clone(), msg: "the last line is not completed".into() });
                } else if end.iter().any(|s| s.open) {
                    p.unclear.push("the last line may be left incomplete".into());
                }
                for e in p.errs {
                    *errs.entry(e).or_default() += 1;
                }
                for u in p.unclear {
                    unclear.insert((r.root.site.clone(), u));
                }
                for (k, o) in p.subs {
                    ctx.entry(k).or_default().insert(o);
                }
            }
        }
    }
    for r in &list {
        if let Some(k) = &r.kind {
            if ctx.get(k).map(|c| c.is_empty()).unwrap_or(true) {
                rep.undecided(rule34, &r.root.site, "printed from nowhere", vec![]);
            }
        }
    }
    rep.count("printed paths", obligations);
    for prop in ["C33", "C34"] {
        if !wants_prop(rep, prop) {
            continue;
        }
        let rule = if prop == "C33" { rule33 } else { rule34 };
        let mut bad = 0;
        for (e, _) in errs.iter().filter(|(e, _)| e.prop == prop) {
            rep.violation(rule, &e.site, &e.msg, vec![]);
            bad += 1;
        }
        if prop == "C34" {
            for (s, u) in &unclear {
                rep.undecided(rule, s, u, vec![]);
            }
        }
        for _ in bad..obligations {
            rep.ok(rule);
        }
    }
}

// ---------------------------------------------------------------- labels and values
#[derive(Clone, Debug)]
enum Node {
    Line(Vec<Piece>, Vec<Node>),
    Sub(String, Val),
    Loop(usize),
}
fn nodes(list: &[Op]) -> R<Vec<Node>> {
    let mut stack: Vec<Vec<Node>> = vec![vec![]];
    let mut line: Option<Vec<Piece>> = None;
    for o in list {
        match o {
            Op::BeginLine => line = Some(vec![]),
            Op::Text(p) => line.get_or_insert(vec![]).extend(p.iter().cloned()),
            Op::EndLine => {
                let p = line.take().unwrap_or_default();
                stack.last_mut().unwrap().push(Node::Line(p, vec![]));
            }
            Op::Begin => stack.push(vec![]),
            Op::End => {
                let kids = stack.pop().unwrap();
                let parent = match stack.last_mut() {
                    Some(p) => p,
                    None => return unsup("unbalanced nesting"),
                };
                match parent.last_mut() {
                    Some(Node::Line(_, k)) => k.extend(kids),
                    _ => parent.extend(kids),
                }
            }
            Op::Sub(k, v) => {
                let sub = Node::Sub(k.clone(), v.clone());
                match line.take() {
                    Some(p) if !p.is_empty() => stack.last_mut().unwrap().push(Node::Line(p, vec![sub])),
                    _ => stack.last_mut().unwrap().push(sub),
                }
            }
            Op::Loop(i) => {
                if line.as_ref().map(|l| !l.is_empty()).unwrap_or(false) {
                    return unsup("a loop inside a line");
                }
                stack.last_mut().unwrap().push(Node::Loop(*i));
            }
            Op::Other(m) => return unsup(format!("printing {}", m)),
        }
    }
    if stack.len() != 1 {
        return unsup("unbalanced nesting");
    }
    if let Some(p) = line {
        if !p.is_empty() {
            stack[0].push(Node::Line(p, vec![]));
        }
    }
    Ok(stack.pop().unwrap())
}
fn show_node(n: &Node) -> String {
    match n {
        Node::Line(p, k) if k.is_empty() => format!("the line {}", show_pieces(p)),
        Node::Line(p, k) => format!("the line {} with {} below", show_pieces(p), k.iter().map(show_node).collect::<Vec<_>>().join(", ")),
        Node::Sub(k, v) => format!("{} {}", k, v.show_d(3)),
        Node::Loop(_) => "a list".into(),
    }
}

/// an elementwise specification
type Elem = Rc<dyn Fn(&Val) -> R<Vec<Want>>>;
#[derive(Clone)]
enum Want {
    /// "label: value"
    Line(&'static [&'static str], Val),
    /// a line of its own for the value
    Value(Val),
    /// a label alone, with what is below
    Under(&'static [&'static str], Vec<Want>),
    /// no line with this label
    Absent(&'static [&'static str]),
    Sub(&'static str, Val),
    Each(Val, Elem),
}
fn label_of(p: &[Piece]) -> (String, Vec<Piece>) {
    let (lit, mut rest) = match p.first() {
        Some(Piece::Lit(s)) => (s.clone(), p[1..].to_vec()),
        _ => (String::new(), p.to_vec()),
    };
    let norm = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ").trim_end_matches(':').trim().to_lowercase();
    if let Some((a, b)) = lit.split_once(": ") {
        if !b.trim().is_empty() {
            rest.insert(0, Piece::Lit(b.to_string()));
            return (norm(a), rest);
        }
    }
    if let Some(Piece::Lit(s)) = rest.last() {
        if s.trim().is_empty() {
            rest.pop();
        }
    }
    (norm(&lit), rest)
}
/// a text of which at most some number of characters are shown, or that is shown with other letters
pub fn cut(a: &ArgV, v: &Val) -> bool {
    let other = ["to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace"].contains(&a.how.as_str());
    matches!(v, Val::Slice(s) if !other || !matches!(s.base, SBase::Text(_))) && (other || a.spec.split('.').nth(1).map(|d| d.chars().all(|c| c.is_ascii_digit())).unwrap_or(false))
}
/// do the pieces of text show the value
fn shows(en: &En, st: &State, p: &[Piece], want: &Val) -> R<bool> {
    let want = loaded(en, st, want)?;
    match p {
        [Piece::Arg(a)] => {
            if cut(a, &loaded(en, st, &a.val)?) {
                return Ok(false);
            }
            if !a.spec.is_empty() || !["Display", "Debug", "text"].contains(&a.how.as_str()) {
                return unsup(format!("value shown as {}", show_pieces(p)));
            }
            same(en, st, &a.val, &want)
        }
        [Piece::Lit(s)] => {
            let s = s.trim();
            match &want {
                Val::Bool(..) => Ok((s == "true") == en.truth(st, &want)? && (s == "true" || s == "false")),
                Val::Int(f) => match s.parse::<i128>() {
                    Ok(n) => zero(en, st, &f.addk(-n)),
                    Err(_) => Ok(false),
                },
                Val::Sym(_, t) if is_enum(*t) => Ok(variant_name(*t, en.variant(st, &want)?) == s),
                Val::Enum(e) => Ok(variant_name(e.ty, e.v) == s),
                Val::Slice(w) => {
                    let b = s.as_bytes().to_vec();
                    let n = b.len() as i128;
                    same_slice(en, st, w, &SliceV { base: SBase::Bytes(Rc::new(b)), start: Form::k(0), len: Form::k(n) })
                }
                _ => Ok(false),
            }
        }
        [] => Ok(false),
        _ => unsup(format!("value shown as {}", show_pieces(p))),
    }
}

struct M<'a> {
    en: &'a En,
    st: &'a State,
    /// lists printed by loops: loop, list and what each element prints
    lists: Vec<(usize, Val, Elem)>,
}
enum ME {
    S(Stop),
    Bad(String),
}
impl From<Stop> for ME {
    fn from(s: Stop) -> ME {
        ME::S(s)
    }
}
type MR<T> = Result<T, ME>;
fn bad<T>(m: String) -> MR<T> {
    Err(ME::Bad(m))
}
impl<'a> M<'a> {
    fn all(&mut self, place: &str, wants: &[Want], list: &[Node]) -> MR<()> {
        let mut used = vec![false; list.len()];
        let mut missing: Vec<String> = vec![];
        let mut queue: std::collections::VecDeque<Want> = wants.iter().cloned().collect();
        let mut known: Vec<&'static str> = vec![];
        let labels: Vec<Option<(String, Vec<Piece>)>> = list
            .iter()
            .map(|n| match n {
                Node::Line(p, _) => Some(label_of(p)),
                _ => None,
            })
            .collect();
        let mut guard = 0;
        while let Some(w) = queue.pop_front() {
            guard += 1;
            if guard > 200 {
                return Err(ME::S(Stop::Unsup("specification does not end".into())));
            }
            let find = |names: &[&str], used: &[bool]| (0..list.len()).find(|j| !used[*j] && labels[*j].as_ref().map(|l| names.contains(&l.0.as_str())).unwrap_or(false));
            match w {
                Want::Line(names, v) => {
                    known.extend(names.iter());
                    match find(names, &used) {
                        None => missing.push(format!("{} is not shown", names[0])),
                        Some(j) => {
                            used[j] = true;
                            let rest = labels[j].as_ref().unwrap().1.clone();
                            if !shows(self.en, self.st, &rest, &v)? {
                                return bad(format!("{}: {} shows {} where its value is {}", place, names[0], show_pieces(&rest), v.show_d(3)));
                            }
                            if let Node::Line(_, k) = &list[j] {
                                if !k.is_empty() {
                                    return Err(ME::S(Stop::Unsup(format!("something below {}", names[0]))));
                                }
                            }
                        }
                    }
                }
                Want::Value(v) => {
                    let mut hit = false;
                    for j in 0..list.len() {
                        if let (false, Node::Line(p, _)) = (used[j], &list[j]) {
                            if !shows(self.en, self.st, p, &v)? {
                                return bad(format!("{}: {} is shown where the value is {}", place, show_pieces(p), v.show_d(3)));
                            }
                            used[j] = true;
                            hit = true;
                            break;
                        }
                    }
                    if !hit {
                        missing.push("the value is not shown".to_string());
                    }
                }
                Want::Under(names, below) => {
                    known.extend(names.iter());
                    match find(names, &used) {
                        None => missing.push(format!("{} is not shown", names[0])),
                        Some(j) => {
                            used[j] = true;
                            let rest = labels[j].as_ref().unwrap().1.clone();
                            if !rest.is_empty() {
                                return bad(format!("{}: {} shows {}", place, names[0], show_pieces(&rest)));
                            }
                            if let Node::Line(_, k) = &list[j] {
                                let k = k.clone();
                                self.all(&format!("{}, {}", place, names[0]), &below, &k)?;
                            }
                        }
                    }
                }
                Want::Absent(names) => {
                    known.extend(names.iter());
                    if let Some(j) = find(names, &used) {
                        return bad(format!("{}: {} is shown although it is absent: {}", place, names[0], show_node(&list[j])));
                    }
                }
                Want::Sub(kind, v) => match (0..list.len()).find(|j| !used[*j] && matches!(&list[*j], Node::Sub(k, _) if k == kind)) {
                    Some(j) => {
                        used[j] = true;
                        if let Node::Sub(_, g) = &list[j] {
                            if !same(self.en, self.st, g, &v)? {
                                return bad(format!("{}: shows the {} {} instead of {}", place, kind, g.show_d(3), v.show_d(3)));
                            }
                        }
                    }
                    None => match spec(self.en, self.st, kind, &v)? {
                        Some(ws) => ws.into_iter().rev().for_each(|x| queue.push_front(x)),
                        None => {
                            // octets in a loop of their own are judged where they are printed
                            return if list.is_empty() { bad(format!("{}: {} is not shown", place, v.show_d(3))) } else { Err(ME::S(Stop::Unsup(format!("no printing of {}", kind)))) };
                        }
                    },
                },
                Want::Each(v, elem) => {
                    let n = match &v {
                        Val::Vec(x) => x.len(),
                        v => return Err(ME::S(Stop::Unsup(format!("list {}", v.show_d(2))))),
                    };
                    match (0..list.len()).find(|j| !used[*j] && matches!(&list[*j], Node::Loop(_))) {
                        None if matches!(self.st.facts.vset(&n).single(), Some(n) if (1..=4).contains(&n)) => {
                            // a list of known length
                            let n = self.st.facts.vset(&n).single().unwrap_or(0);
                            let (k, et) = match &v {
                                Val::Vec(x) if x.items.is_empty() && x.base.is_some() => (x.base.clone().unwrap().0, x.elem),
                                _ => return Err(ME::S(Stop::Unsup("list of known elements".into()))),
                            };
                            for i in (0..n).rev() {
                                elem(&sym_elem(k, &Form::k(i), et))?.into_iter().rev().for_each(|x| queue.push_front(x));
                            }
                        }
                        Some(j) => {
                            used[j] = true;
                            if let Node::Loop(i) = &list[j] {
                                self.lists.push((*i, v.clone(), elem.clone()));
                            }
                        }
                        None => {
                            if !truth(self.en, self.st, &n, VSet::one(0))? {
                                missing.push(format!("the {} elements of the list are not shown", n.show()));
                            }
                        }
                    }
                }
            }
        }
        let left: Vec<usize> = (0..list.len()).filter(|j| !used[*j]).collect();
        for j in &left {
            match &labels[*j] {
                Some((l, _)) if known.contains(&l.as_str()) => return bad(format!("{}: {} is shown more than once", place, l)),
                _ => {}
            }
        }
        if let Some(m) = missing.first() {
            // a label that is not known may be another name of the missing one
            if left.iter().any(|j| matches!(&list[*j], Node::Line(..))) {
                return Err(ME::S(Stop::Unsup(format!("{}: {} under its usual label, but there is {}", place, m, show_node(&list[left[0]])))));
            }
            return bad(format!("{}: {}", place, m));
        }
        for j in &left {
            match &list[*j] {
                Node::Sub(..) => return bad(format!("{}: {} is shown in addition", place, show_node(&list[*j]))),
                Node::Loop(_) => return Err(ME::S(Stop::Unsup(format!("{}: a list in addition", place)))),
                // a line with a label of its own is no concern of the others
                Node::Line(..) => {}
            }
        }
        Ok(())
    }
}

/// what printing a value of this kind shows
fn spec(en: &En, st: &State, kind: &str, v: &Val) -> R<Option<Vec<Want>>> {
    use Want::*;
    let f = |n: &str| -> R<Val> { field(v, n).and_then(|x| loaded(en, st, &x)) };
    let opt = |n: &str| -> R<Option<Val>> { as_option(en, st, &field(v, n)?) };
    Ok(Some(match kind {
        "octets" => return Ok(None),
        "Certificate" => vec![
            Under(&["tbs certificate"], vec![Sub("TBSCertificate", field(&f("tbs_certificate")?, "value")?)]),
            Under(&["signature algorithm"], vec![Sub("AlgorithmIdentifier", f("signature_algorithm")?)]),
            Under(&["signature value"], vec![Sub("ASNBitString", f("signature_value")?)]),
        ],
        "TBSCertificate" => {
            let mut w = vec![
                Line(&["version"], f("version")?),
                Line(&["serial number"], f("serial_number")?),
                Under(&["signature"], vec![Sub("AlgorithmIdentifier", f("signature")?)]),
                Under(&["validity"], vec![Sub("Validity", f("validity")?)]),
                Under(&["subject public key info"], vec![Sub("SubjectPublicKeyInfo", f("subject_public_key_info")?)]),
            ];
            for (n, label, raw) in [("issuer", &["issuer"], &["issuer (raw)"]), ("subject", &["subject"], &["subject (raw)"])] {
                let name = f(n)?;
                let s = octets_of(&name)?;
                if truth(en, st, &parses("Name", &s), VSet::one(1))? {
                    let t = match rdn_ty() {
                        Some(t) => t,
                        None => return unsup("type of names"),
                    };
                    w.push(Under(label, vec![Sub("RelativeDistinguishedName", parsed("Name", &s, t))]));
                    w.push(Absent(raw));
                } else {
                    w.push(Under(raw, vec![Sub("Name", name)]));
                    w.push(Absent(label));
                }
            }
            for (n, label) in [("issuer_unique_id", &["issuer unique id"]), ("subject_unique_id", &["subject unique id"])] {
                match opt(n)? {
                    Some(x) => w.push(Under(label, vec![Sub("ASNBitString", x)])),
                    None => w.push(Absent(label)),
                }
            }
            let (some, err): (&'static [&'static str], &'static [&'static str]) = (&["extensions"], &["**error** parsing extensions"]);
            match opt("extensions")? {
                None => w.extend([Absent(some), Absent(err)]),
                Some(x) => {
                    let s = octets_of(&x)?;
                    let (vt, et) = match ext_tys() {
                        Some(t) => t,
                        None => return unsup("type of extensions"),
                    };
                    if truth(en, st, &parses("Extensions", &s), VSet::one(1))? {
                        let l = parsed("Extensions", &s, vt);
                        let n = match &l {
                            Val::Vec(x) => x.len(),
                            _ => return unsup("extensions are no list"),
                        };
                        if !truth(en, st, &n, VSet::one(0))? {
                            w.push(Under(some, vec![Each(l, Rc::new(|e| Ok(vec![Sub("Extension", e.clone())])))]));
                        }
                        w.push(Absent(err));
                    } else {
                        w.push(Line(err, parse_error("Extensions", &s, et)));
                        w.push(Absent(some));
                    }
                }
            }
            w
        }
        "Validity" => vec![Line(&["not before"], field(&f("not_before")?, "value")?), Line(&["not after"], field(&f("not_after")?, "value")?)],
        "AlgorithmIdentifier" => vec![Line(&["algorithm"], f("algorithm")?)],
        "RelativeDistinguishedName" => {
            let mut w = vec![];
            let parts: [(&str, &'static [&'static str]); 6] = [
                ("country_name", &["c"]),
                ("state_or_province_unit_name", &["st"]),
                ("locality_name", &["l"]),
                ("organization", &["o"]),
                ("organizational_unit_name", &["ou"]),
                ("common_name", &["cn"]),
            ];
            for (n, l) in parts {
                match opt(n)? {
                    Some(x) => w.push(Line(l, x)),
                    None => w.push(Absent(l)),
                }
            }
            w
        }
        "Name" => vec![Sub("octets", f("inner")?)],
        "SubjectPublicKeyInfo" => vec![
            Under(&["algorithm"], vec![Sub("AlgorithmIdentifier", f("algorithm")?)]),
            Under(&["subject public key"], vec![Sub("ASNBitString", f("subject_public_key")?)]),
        ],
        "ASNBitString" => {
            let s = octets_of(v)?;
            let u = field_by(v, &|x| matches!(x, Val::Int(_)))?;
            // only whole octets can be shown
            if truth(en, st, &en.as_int(st, &u)?, VSet::one(0))? {
                vec![Sub("octets", Val::Slice(Rc::new(s)))]
            } else {
                vec![]
            }
        }
        "Extension" => {
            let c = f("content")?;
            let (i, _) = en.enum_fields(st, &c)?;
            let t = ty_of(&c).ok_or(Stop::Unsup("content of an extension".into()))?;
            let label: &'static [&'static str] = match variant_name(t, i).as_str() {
                "SubjectKeyIdentifier" => &["subject key identifier"],
                "KeyUsage" => &["key usage"],
                "SubjectAlternativeName" => &["subject alternative name"],
                "BasicConstraints" => &["basic constraints"],
                "ExtendedKeyUsage" => &["extended key usage"],
                "ModbusRole" => &["modbus role"],
                "Unknown" => &["unknown"],
                n => return unsup(format!("extension content {}", n)),
            };
            let all: [&'static [&'static str]; 7] = [
                &["subject key identifier"],
                &["key usage"],
                &["subject alternative name"],
                &["basic constraints"],
                &["extended key usage"],
                &["modbus role"],
                &["unknown"],
            ];
            let mut w: Vec<Want> = all.iter().filter(|x| x[0] != label[0]).map(|x| Absent(*x)).collect();
            w.push(Under(label, vec![Line(&["extension id"], f("extn_id")?), Line(&["critical"], f("critical")?), Sub("SpecificExtension", c)]));
            w
        }
        "SpecificExtension" => {
            let (i, x) = en.enum_fields(st, v)?;
            let t = ty_of(v).ok_or(Stop::Unsup("content of an extension".into()))?;
            let x = match x.first() {
                Some(x) => loaded(en, st, x)?,
                None => return unsup("extension without content"),
            };
            match variant_name(t, i).as_str() {
                "Unknown" => vec![Under(&["raw content"], vec![Sub("octets", x)])],
                n => match KINDS.iter().chain([LAST].iter()).find(|k| **k == n) {
                    Some(k) => vec![Sub(k, x)],
                    None => return unsup(format!("extension content {}", n)),
                },
            }
        }
        "SubjectKeyIdentifier" => vec![Under(&["key identifier"], vec![Sub("octets", f("key_identifier")?)])],
        "KeyUsage" => {
            let flags: [(&str, &'static [&'static str]); 9] = [
                ("digital_signature", &["digital signature"]),
                ("content_commitment", &["content commitment"]),
                ("key_encipherment", &["key encipherment"]),
                ("data_encipherment", &["data encipherment"]),
                ("key_agreement", &["key agreement"]),
                ("key_cert_sign", &["key cert sign"]),
                ("crl_sign", &["crl sign"]),
                ("encipher_only", &["encipher only"]),
                ("decipher_only", &["decipher only"]),
            ];
            let mut w = vec![];
            for (n, l) in flags {
                let x = f(n)?;
                w.push(if en.truth(st, &x)? { Under(l, vec![]) } else { Absent(l) });
            }
            vec![Under(&["usages"], w)]
        }
        "GeneralName" => {
            let (i, x) = en.enum_fields(st, v)?;
            let t = ty_of(v).ok_or(Stop::Unsup("name".into()))?;
            let x = match x.first() {
                Some(x) => Some(loaded(en, st, x)?),
                None => None,
            };
            // and under no other name
            let others = |w: Want| -> Vec<Want> {
                let l = match &w {
                    Line(l, _) | Under(l, _) => l[0],
                    _ => "",
                };
                let all: [&'static [&'static str]; 5] = [&["rfc822 name"], &["dns name"], &["uniform resource identifier"], &["ip address"], &["registered id"]];
                all.iter().filter(|x| x[0] != l).map(|x| Absent(*x)).chain([w.clone()]).collect()
            };
            match (variant_name(t, i).as_str(), x) {
                ("Rfc822Name", Some(x)) => others(Line(&["rfc822 name"], x)),
                ("DnsName", Some(x)) => others(Line(&["dns name"], x)),
                ("UniformResourceIdentifier", Some(x)) => others(Line(&["uniform resource identifier"], x)),
                ("IpAddress", Some(x)) => others(Under(&["ip address"], vec![Sub("octets", x)])),
                ("RegisteredId", Some(x)) => others(Line(&["registered id"], x)),
                // never decoded
                _ => vec![],
            }
        }
        "SubjectAlternativeName" => vec![Under(&["names"], vec![Each(f("names")?, Rc::new(|e| Ok(vec![Sub("GeneralName", e.clone())])))])],
        "BasicConstraints" => {
            let l: &'static [&'static str] = &["path length contraint", "path length constraint"];
            let mut w = vec![Line(&["ca"], f("ca")?)];
            w.push(match opt("path_length_constraint")? {
                Some(x) => Line(l, x),
                None => Absent(l),
            });
            w
        }
        "ExtendedKeyUsage" => vec![Under(&["usages"], vec![Each(f("ext_key_usages")?, Rc::new(|e| Ok(vec![Value(e.clone())])))])],
        "ModbusRole" => vec![Line(&["role"], f("role")?)],
        k => return unsup(format!("no specification of {}", k)),
    }))
}
fn ok_ty(path: &str) -> Option<(Ty, Ty)> {
    let i = find_fn(path)?;
    let t = i.fn_abi().ok().map(|a| a.ret.ty)?;
    Some((generic_ty(t, 0)?, generic_ty(t, 1)?))
}
fn rdn_ty() -> Option<Ty> {
    ok_ty("x509::Name::parse").map(|t| t.0)
}
fn ext_tys() -> Option<(Ty, Ty)> {
    ok_ty("ext::Extensions::parse")
}

pub fn check_labels(rep: &mut Report) {
    if !wants_prop(rep, "C35") {
        return;
    }
    for mut r in roots(rep) {
        let kind = match &r.kind {
            Some(k) if k != "octets" => k.clone(),
            _ => continue,
        };
        let hazy = rep.undecided.len();
        labels_of(rep, &mut r.root, &kind);
        rep.count("printable types", 1);
        if rep.undecided.len() > hazy && list_of(&r.root.en, &State::default(), &kind, &r.root.args[0]).is_ok() {
            for n in 0..=3 {
                if let Some(mut b) = bounded_root(r.root.inst, &format!("pb{}x", n), &kind, n) {
                    let mut sub = Report::new(&rep.prop);
                    labels_of(&mut sub, &mut b, &kind);
                    rep.count("functions analysed again for sequences of one length", 1);
                    for v in sub.violations {
                        rep.violation(&v.rule, &v.site, &format!("{} (list of {})", v.msg, n), v.detail);
                    }
                }
            }
        }
    }
}
fn labels_of(rep: &mut Report, root: &mut Root, kind: &str) {
    let rule = "on every path, each field is shown under its own label with its own value, and nothing that is absent";
    let erule = "lists: each iteration shows exactly the next element, until the end";
    {
        let outs = std::mem::take(&mut root.outs);
        let mut lists: Vec<(usize, Val, Elem)> = vec![];
        for (st, _) in &outs {
            let arg = root.args[0].clone();
            obligation(&mut root.en, rep, rule, &root.site, st, "", &mut |en, st, _| {
                let v = loaded(en, st, &arg)?;
                let ns = nodes(&ops(en, st, 0)?)?;
                let want = match spec(en, st, kind, &v)? {
                    Some(w) => w,
                    None => return holds(),
                };
                let mut m = M { en, st, lists: vec![] };
                let res = m.all(kind, &want, &ns);
                for l in std::mem::take(&mut m.lists) {
                    if !lists.iter().any(|x| x.0 == l.0 && x.1 == l.1) {
                        lists.push(l);
                    }
                }
                match res {
                    Ok(()) => holds(),
                    Err(ME::Bad(m)) => broken(LABELS, m),
                    Err(ME::S(s)) => Err(s),
                }
            });
        }
        for (i, list, elem) in lists {
            let rec = root.en.recs[i].clone();
            let site = format!("loop in {} ({})", rec.func, rec.span);
            let (reg, n, et) = match &list {
                Val::Vec(x) if x.items.is_empty() && x.base.is_some() => {
                    let (k, n) = x.base.clone().unwrap();
                    (k, n, x.elem)
                }
                v => {
                    rep.undecided(erule, &site, &format!("list {}", v.show_d(2)), vec![]);
                    continue;
                }
            };
            // the position: starts at 0 and moves on by one
            let pos: Vec<&crate::loops::Leaf> = rec
                .leaves
                .iter()
                .filter(|l| rec.pre.facts.eq0(&l.entry))
                .filter(|l| {
                    rec.backs.iter().zip(rec.ys.iter()).all(|(b, y)| match y.get(&l.atom) {
                        Some(f) => b.facts.eq0(&f.sub(&Form::atom(l.atom)).addk(-1)),
                        None => false,
                    })
                })
                .collect();
            let pos = match pos.first() {
                Some(l) => Form::atom(l.atom),
                None => {
                    rep.undecided(erule, &site, "no position that starts at the first element and moves on by one", vec![]);
                    continue;
                }
            };
            for b in &rec.backs {
                obligation(&mut root.en, rep, erule, &site, b, "next iteration", &mut |en, st, _| {
                    let e = sym_elem(region(reg), &pos, et);
                    let ns = nodes(&ops(en, st, rec.tlen)?)?;
                    let mut m = M { en, st, lists: vec![] };
                    let res = m.all("element", &elem(&e)?, &ns);
                    if !m.lists.is_empty() {
                        return unsup("a list in a list");
                    }
                    match res {
                        Ok(()) => holds(),
                        Err(ME::Bad(m)) => broken(LABELS, m),
                        Err(ME::S(s)) => Err(s),
                    }
                });
            }
            for x in &rec.exits {
                obligation(&mut root.en, rep, erule, &site, x, "end of the list", &mut |en, st, _| {
                    if !zero(en, st, &pos.sub(&n))? {
                        return broken(LABELS, "the list is not shown to its end");
                    }
                    if ops(en, st, rec.tlen)?.is_empty() {
                        holds()
                    } else {
                        unsup("something is shown when the loop is left")
                    }
                });
            }
        }
    }
}
fn region(k: KeyId) -> KeyId {
    k
}
