//! Sequences printed element by element: hex dumps (C36) and dotted identifiers (C31), and what the
//! printers of the library and the tool write to the console (C33, C34).
use crate::form::*;
use crate::interp::*;
use crate::print::*;
use crate::report::Report;
use crate::spec::*;
use crate::val::*;
use crate::x509::{analyse_with, sym_args_as, Root};
use rustc_public::mir::mono::Instance;
use std::rc::Rc;

/// what is written, as far as lines and indentation are concerned
#[derive(Clone, Debug)]
pub enum Tok {
    /// the start of a line is announced, or this many indentation steps are written
    Start(Option<Form>),
    Text(Vec<Piece>),
    End,
    Loop(usize),
    Other(String),
}

/// the tokens of a path from event `from`; text written to `sink` counts as printed
pub fn toks(en: &En, st: &State, from: usize, sink: Option<&str>) -> R<Vec<Tok>> {
    let mut out: Vec<Tok> = vec![];
    let mut text: Vec<Op> = vec![];
    let flush = |text: &mut Vec<Op>, out: &mut Vec<Tok>| {
        for o in text.drain(..) {
            match (o, out.last_mut()) {
                (Op::Text(p), Some(Tok::Text(q))) => push_text_pieces(q, p),
                (Op::Text(p), _) => out.push(Tok::Text(p)),
                (_, _) => out.push(Tok::End),
            }
        }
    };
    for i in from..st.trace.len() {
        let e = &st.trace[i];
        match e {
            Event::Emit(s, p) if Some(s.as_str()) == sink => {
                let mut p = flatten(en, st, p);
                // repeated spaces
                if let (Some(Piece::Arg(a)), true) = (p.first(), matches!(out.last(), None | Some(Tok::End))) {
                    if a.how == "Repeat" && a.spec.len() % 2 == 0 && a.spec.chars().all(|c| c == ' ') {
                        if let Val::Int(n) = &a.val {
                            out.push(Tok::Start(Some(n.scale(a.spec.len() as i128 / 2))));
                            p.remove(0);
                        }
                    }
                }
                push_text(&mut text, p);
                flush(&mut text, &mut out);
            }
            Event::Loop(j) => match sink.and_then(|s| indent_loop(en, st, *j, s)) {
                Some(n) => match out.last_mut() {
                    _ => out.push(Tok::Start(Some(n))),
                },
                None => {
                    // loops that print nothing are of no concern
                    let rec = &en.recs[*j];
                    let silent = rec.backs.iter().all(|b| b.trace.iter().skip(rec.tlen).all(|e| matches!(e, Event::Call(n, _) if n.starts_with("alloc:"))));
                    if !silent {
                        out.push(Tok::Loop(*j))
                    }
                }
            },
            Event::Call(n, _) if n.starts_with("alloc:") => {}
            _ => {
                for o in event_ops(en, st, e)? {
                    match o {
                        Op::BeginLine => out.push(Tok::Start(None)),
                        Op::Text(_) | Op::EndLine => {
                            text.push(o);
                            flush(&mut text, &mut out)
                        }
                        o => out.push(Tok::Other(format!("{:?}", o))),
                    }
                }
            }
        }
    }
    // indentation written as text at the start of a line
    Ok(out)
}
fn push_text_pieces(q: &mut Vec<Piece>, p: Vec<Piece>) {
    crate::natives::push_pieces(q, p)
}
/// a loop that writes nothing but two spaces per iteration: how often, in the state after it
fn indent_loop(en: &En, st: &State, j: usize, sink: &str) -> Option<Form> {
    let rec = &en.recs[j];
    if rec.backs.is_empty() {
        return None;
    }
    let mut per: Option<i128> = None;
    for b in &rec.backs {
        let mut n = 0;
        for e in b.trace.iter().skip(rec.tlen) {
            match e {
                Event::Emit(s, p) if s == sink => {
                    for x in p.iter() {
                        match x {
                            Piece::Lit(l) if l.chars().all(|c| c == ' ') => n += l.len() as i128,
                            _ => return None,
                        }
                    }
                }
                Event::Call(n, _) if n.starts_with("alloc:") => {}
                _ => return None,
            }
        }
        if n == 0 || per.map(|p| p != n).unwrap_or(false) {
            return None;
        }
        per = Some(n);
    }
    let per = per?;
    for l in &rec.leaves {
        for step in [1, -1] {
            let all = rec.backs.iter().zip(rec.ys.iter()).all(|(b, y)| match y.get(&l.atom) {
                Some(f) => b.facts.eq0(&f.sub(&Form::atom(l.atom)).addk(-step)),
                None => false,
            });
            if all {
                let n = Form::atom(l.atom).sub(&l.entry).scale(step);
                let n = st.facts.simplify(&n).unwrap_or(n);
                return match per {
                    2 => Some(n),
                    1 => None,
                    _ => Some(n.scale(per / 2)),
                };
            }
        }
    }
    None
}

// ---------------------------------------------------------------- element streams
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// two upper-case digits, sixteen to a line
    HexLines,
    /// two upper-case digits, on one line
    Hex,
    /// decimal numbers
    Dotted,
}
impl Kind {
    fn sep(self) -> char {
        match self {
            Kind::Dotted => '.',
            _ => ':',
        }
    }
    fn lines(self) -> bool {
        self == Kind::HexLines
    }
}
/// is the last element of the line followed by a separator
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Sep {
    No,
    Yes,
    /// yes, unless there is no element
    IfAny,
    /// yes, unless there is no element, or the last one has been shown
    Between,
}
#[derive(Clone, Debug)]
struct SState {
    /// elements shown so far
    p: Form,
    /// element the line starts with
    ls: Form,
    open: bool,
    sep: Sep,
}
/// a loop of the stream: at its head `atom + d` elements have been shown
#[derive(Clone, Debug)]
pub struct LoopOb {
    rec: usize,
    atom: AtomId,
    d: Form,
    open: bool,
    sep: Sep,
    /// element the unfinished line starts with
    ls: Form,
    /// one element in each iteration: the line is unfinished unless a multiple of sixteen, or all, have been
    /// shown (with a separator after the last or not)
    flat: Option<Sep>,
}
pub enum SErr {
    Bad(String),
    S(Stop),
}
impl From<Stop> for SErr {
    fn from(s: Stop) -> Self {
        SErr::S(s)
    }
}
type SR<T> = Result<T, SErr>;
fn bad<T>(m: impl Into<String>) -> SR<T> {
    Err(SErr::Bad(m.into()))
}
fn hazy<T>(m: impl Into<String>) -> SR<T> {
    Err(SErr::S(Stop::Unsup(m.into())))
}
pub struct Stream<'a> {
    pub en: &'a En,
    pub st: &'a State,
    pub kind: Kind,
    /// the elements that are to be shown
    pub list: SliceV,
    pub loops: Vec<LoopOb>,
    pub sink: Option<String>,
    /// indentation of each line, if it is written rather than announced
    pub indent: Option<Form>,
}
impl<'a> Stream<'a> {
    /// the same number, written so that it is known whether it is zero, if two equations of the path show that
    fn reduced(&self, f: &Form) -> Form {
        let zero = VSet::one(0);
        let known = |x: &Form| self.st.facts.eq0(x) || self.en.decide(self.st, x, &zero).is_some();
        if known(f) {
            return f.clone();
        }
        let eqs: Vec<Form> = self.st.facts.forms.iter().filter(|(_, s)| s.single() == Some(0)).map(|(e, _)| e.clone()).collect();
        if eqs.len() > 24 {
            return f.clone();
        }
        let add = |x: &Form| -> Vec<Form> { eqs.iter().flat_map(|e| [x.add(e), x.sub(e)]).filter(|y| y.atoms().len() <= f.atoms().len() + 1).collect() };
        let one = add(f);
        for x in &one {
            if known(x) {
                return x.clone();
            }
        }
        for x in &one {
            if let Some(y) = add(x).into_iter().find(|y| known(y)) {
                return y;
            }
        }
        f.clone()
    }
    /// is this number zero on this path
    fn certain(&self, f: &Form) -> SR<bool> {
        let f = &self.reduced(f);
        if self.st.facts.eq0(f) {
            return Ok(true);
        }
        match self.en.decide(self.st, f, &VSet::one(0)) {
            Some(b) => Ok(b),
            None => hazy(format!("whether {} is 0", f.show())),
        }
    }
    fn ask(&self, f: &Form) -> SR<bool> {
        Ok(zero(self.en, self.st, &self.reduced(f))?)
    }
    fn element(&self, a: &ArgV, s: &mut SState) -> SR<()> {
        let what = match self.kind {
            Kind::Dotted => ("Display", ""),
            _ => ("UpperHex", "#69000020w2"),
        };
        // which element is it
        let v = match loaded(self.en, self.st, &a.val)? {
            Val::Int(f) => f,
            v => return hazy(format!("{} is shown", v.show_d(2))),
        };
        let (k, off) = match v.single().map(atom_kind) {
            Some(AtomKind::Elem(k, off)) => (k, off),
            _ => match v.constant() {
                Some(_) => return hazy(format!("{} is shown", v.show())),
                None => return hazy(format!("{} is shown", v.show())),
            },
        };
        let t = match &self.list.base {
            SBase::Sym(_, t) => *t,
            _ => return hazy("list that is not named"),
        };
        let got = canon(&SliceV { base: SBase::Sym(k, t), start: off, len: Form::k(1) });
        let want = canon(&self.list);
        if got.base != want.base {
            return hazy(format!("{} is shown", v.show()));
        }
        let d = got.start.sub(&want.start.add(&s.p));
        if !self.certain(&d)? {
            return bad(format!("element {} is shown where element {} is due", got.start.sub(&want.start).show(), s.p.show()));
        }
        if a.how != what.0 || a.spec != what.1 {
            let known = ["LowerHex", "UpperHex", "Display", "Debug", "Octal", "Binary"];
            if known.contains(&a.how.as_str()) && (a.how != what.0 || a.spec.is_empty() || what.1.is_empty()) {
                return bad(format!("element {} is shown as {}", s.p.show(), show_pieces(&[Piece::Arg(Rc::new(a.clone()))])));
            }
            return hazy(format!("element shown as {}", show_pieces(&[Piece::Arg(Rc::new(a.clone()))])));
        }
        if s.sep == Sep::No && !self.ask(&s.p.sub(&s.ls))? {
            return bad(format!("element {} is not separated from the one before", s.p.show()));
        }
        s.p = s.p.addk(1);
        s.sep = Sep::No;
        Ok(())
    }
    fn text(&mut self, p: &[Piece], s: &mut SState) -> SR<()> {
        for x in p {
            match x {
                Piece::Lit(l) => {
                    for c in l.chars() {
                        if c != self.kind.sep() {
                            return bad(format!("{:?} is shown among the elements", l));
                        }
                        if s.sep != Sep::No || self.ask(&s.p.sub(&s.ls))? {
                            return bad("a separator is shown where no element is before it");
                        }
                        s.sep = Sep::Yes;
                    }
                }
                Piece::Arg(a) => self.element(a, s)?,
            }
        }
        Ok(())
    }
    fn dangling(&self, s: &SState) -> SR<bool> {
        Ok(match s.sep {
            Sep::No => false,
            Sep::Yes => true,
            Sep::IfAny => !self.ask(&s.p.sub(&s.ls))?,
            Sep::Between => !self.ask(&s.p.sub(&s.ls))? && !self.ask(&s.p.sub(&self.list.len))?,
        })
    }
    fn run(&mut self, list: &[Tok], mut s: SState) -> SR<SState> {
        for t in list {
            match t {
                Tok::Start(n) => {
                    if s.open {
                        return bad("a line is begun inside another");
                    }
                    if let (Some(n), Some(want)) = (n, &self.indent) {
                        let d = n.sub(want);
                        if !self.certain(&d)? {
                            return bad(format!("a line is indented by {} instead of {}", n.show(), want.show()));
                        }
                    }
                    s.open = true;
                    s.ls = s.p.clone();
                }
                Tok::Text(p) => {
                    if !s.open {
                        s.open = true;
                        s.ls = s.p.clone();
                    }
                    self.text(p, &mut s)?;
                }
                Tok::End => {
                    if !self.kind.lines() {
                        return bad("the line is ended");
                    }
                    if self.dangling(&s)? {
                        return bad("a line ends with a separator");
                    }
                    if !s.open || self.ask(&s.p.sub(&s.ls))? {
                        return bad("a line shows nothing");
                    }
                    let n = s.p.sub(&s.ls);
                    if !self.ask(&n.addk(-16))? {
                        if !self.ask(&s.p.sub(&self.list.len))? {
                            return bad(format!("a line shows {} octets though more follow", n.show()));
                        }
                        if self.en.decide(self.st, &n, &VSet::range(0, 16)) == Some(false) {
                            return bad(format!("a line shows {} octets", n.show()));
                        }
                    }
                    s.open = false;
                }
                Tok::Loop(i) => s = self.iterate(*i, s)?,
                Tok::Other(m) => return bad(format!("{} among the elements", m)),
            }
        }
        Ok(s)
    }
    fn iterate(&mut self, i: usize, s: SState) -> SR<SState> {
        let rec = self.en.recs[i].clone();
        let mut counts = vec![];
        let mut sep = s.sep;
        let (mut with, mut without) = (false, false);
        for b in &rec.backs {
            let t = toks(self.en, b, rec.tlen, self.sink.as_deref())?;
            let mut n = 0;
            for t in &t {
                match t {
                    Tok::Text(p) => n += p.iter().filter(|x| matches!(x, Piece::Arg(_))).count() as i128,
                    Tok::Loop(_) => return hazy(format!("loop in a loop at {}", rec.span)),
                    _ => {}
                }
            }
            if let Some(Tok::Text(p)) = t.last() {
                match p.last() {
                    Some(Piece::Lit(l)) if l.ends_with(self.kind.sep()) => with = true,
                    _ => without = true,
                }
                match p.last() {
                    Some(Piece::Lit(l)) if l.ends_with(self.kind.sep()) && (s.sep != Sep::No || self.st.facts.eq0(&s.p.sub(&s.ls))) => sep = Sep::IfAny,
                    _ => {}
                }
            }
            counts.push(n);
        }
        if with && without && !self.kind.lines() && s.sep == Sep::No && self.st.facts.eq0(&s.p.sub(&s.ls)) {
            sep = Sep::Between;
        }
        let steps = |l: &&crate::loops::Leaf| {
            rec.backs.iter().zip(rec.ys.iter()).zip(counts.iter()).all(|((b, y), n)| match y.get(&l.atom) {
                Some(f) => b.facts.eq0(&f.sub(&Form::atom(l.atom)).addk(-*n)),
                None => false,
            })
        };
        // rather the one whose remainder is looked at
        let looked = |a: AtomId| {
            rec.backs.iter().any(|b| b.facts.forms.keys().flat_map(|f| f.atoms()).chain(b.facts.atoms.keys().copied()).any(|x| atom_def(x).is_some_and(|(f, d)| d == 16 && f.atoms().contains(&a))))
        };
        let l = rec.leaves.iter().filter(steps).find(|l| looked(l.atom)).or_else(|| rec.leaves.iter().find(|l| steps(l)));
        let l = match l {
            Some(l) => l,
            None => {
                // does the position move on by as much as is shown?
                return hazy(format!("no position that moves on with the elements shown in the loop at {}", rec.span));
            }
        };
        let d = s.p.sub(&l.entry);
        let p = Form::atom(l.atom).add(&d);
        if self.kind.lines() && !s.open && self.st.facts.eq0(&s.p) && counts.iter().all(|n| *n == 1) {
            let sep = if with { Sep::Yes } else { Sep::No };
            self.loops.push(LoopOb { rec: i, atom: l.atom, d, open: false, sep: Sep::No, ls: s.ls, flat: Some(sep) });
            let r = self.in_line(&p)?;
            return self.flat(&p, &r, sep);
        }
        let head = SState { p, ls: s.ls.clone(), open: s.open, sep };
        self.loops.push(LoopOb { rec: i, atom: l.atom, d, open: s.open, sep, ls: s.ls, flat: None });
        Ok(head)
    }
    /// elements of the line that the p-th belongs to, before it
    fn in_line(&self, p: &Form) -> SR<Form> {
        Ok(self.en.div_rem(self.st, p, &Form::k(16), true)?)
    }
    /// the state where p elements have been shown, r of them since the line was begun
    fn flat(&self, p: &Form, r: &Form, sep: Sep) -> SR<SState> {
        let done = self.ask(r)? || self.ask(&r.addk(-16))? || self.ask(&p.sub(&self.list.len))?;
        Ok(if done {
            SState { p: p.clone(), ls: p.clone(), open: false, sep: Sep::No }
        } else {
            SState { p: p.clone(), ls: p.sub(r), open: true, sep }
        })
    }
    /// the whole list, on this path
    pub fn whole(&mut self, t: &[Tok]) -> SR<()> {
        let z = Form::k(0);
        let s = self.run(t, SState { p: z.clone(), ls: z, open: !self.kind.lines(), sep: Sep::No })?;
        if self.dangling(&s)? {
            return bad("a separator is left at the end");
        }
        if self.kind.lines() && s.open {
            return bad("the last line is not completed");
        }
        let d = self.list.len.sub(&s.p);
        if !self.ask(&d)? {
            return bad(format!("{} elements are shown though there are {}", s.p.show(), self.list.len.show()));
        }
        Ok(())
    }
    /// one iteration of a loop
    pub fn iteration(&mut self, o: &LoopOb, y: &Form, t: &[Tok]) -> SR<()> {
        let p = Form::atom(o.atom).add(&o.d);
        if let Some(sep) = o.flat {
            let r = self.in_line(&p)?;
            let head = self.flat(&p, &r, sep)?;
            let s = self.run(t, head)?;
            let want = self.flat(&p.addk(1), &r.addk(1), sep)?;
            if !self.certain(&s.p.sub(&want.p))? || !self.certain(&s.p.sub(&y.add(&o.d)))? {
                return hazy("position that does not move on with the elements shown");
            }
            if s.open != want.open || s.open && (s.sep != want.sep || !self.certain(&s.ls.sub(&want.ls))?) {
                return hazy("iterations that leave the line in another state than they found it");
            }
            return Ok(());
        }
        let s = self.run(t, SState { p, ls: o.ls.clone(), open: o.open, sep: o.sep })?;
        let fits = match o.sep {
            Sep::IfAny => s.sep != Sep::No || self.ask(&s.p.sub(&s.ls))?,
            Sep::Between => match s.sep {
                Sep::No => self.ask(&s.p.sub(&s.ls))? || self.ask(&s.p.sub(&self.list.len))?,
                Sep::Yes => !self.ask(&s.p.sub(&self.list.len))?,
                _ => false,
            },
            x => s.sep == x,
        };
        if s.open != o.open || !fits {
            return hazy("iterations that leave the line in another state than they found it");
        }
        if !self.certain(&s.p.sub(&y.add(&o.d)))? {
            return hazy("position that does not move on with the elements shown");
        }
        Ok(())
    }
}
pub fn verdict(props: &[&str], r: SR<()>) -> R<Verdict> {
    match r {
        Ok(()) => holds(),
        Err(SErr::Bad(m)) => broken(props, m),
        Err(SErr::S(s)) => Err(s),
    }
}
/// a part of a path that shows a list; the loops it consists of are checked afterwards
pub struct Shown {
    pub kind: Kind,
    pub list: SliceV,
    pub sink: Option<String>,
    pub indent: Option<Form>,
    pub ob: LoopOb,
}
pub fn show_list(en: &En, st: &State, kind: Kind, list: &SliceV, sink: Option<&str>, indent: Option<Form>, t: &[Tok], later: &mut Vec<Shown>) -> SR<()> {
    let mut s = Stream { en, st, kind, list: list.clone(), loops: vec![], sink: sink.map(|s| s.to_string()), indent: indent.clone() };
    let r = s.whole(t);
    for ob in s.loops {
        if !later.iter().any(|x| x.ob.rec == ob.rec && x.ob.d == ob.d && x.list == *list) {
            later.push(Shown { kind, list: list.clone(), sink: sink.map(|s| s.to_string()), indent: indent.clone(), ob });
        }
    }
    r
}
pub fn iterations(en: &mut En, rep: &mut Report, props: &[&str], later: Vec<Shown>) {
    let rule = "in each iteration of a loop that shows a list, exactly the next elements are shown";
    for l in later {
        let rec = en.recs[l.ob.rec].clone();
        let site = format!("loop in {} ({})", rec.func, rec.span);
        for (b, y) in rec.backs.iter().zip(rec.ys.iter()) {
            let y = match y.get(&l.ob.atom) {
                Some(y) => y.clone(),
                None => continue,
            };
            obligation(en, rep, rule, &site, b, "next iteration", &mut |en, st, _| {
                let t = toks(en, st, rec.tlen, l.sink.as_deref())?;
                let mut s = Stream { en, st, kind: l.kind, list: l.list.clone(), loops: vec![], sink: l.sink.clone(), indent: l.indent.clone() };
                verdict(props, s.iteration(&l.ob, &y, &t))
            });
        }
    }
}

// ---------------------------------------------------------------- hex dumps
fn root(rep: &mut Report, inst: Instance, name: &str, len: Option<i128>, list: &dyn Fn(&En, &State, &Val) -> R<SliceV>) -> Option<Root> {
    let mut en = En::new();
    crate::model::install(&mut en);
    let name = match len {
        Some(n) => format!("{}{}", name, n),
        None => name.to_string(),
    };
    let args = sym_args_as(&mut en, inst, &name)?;
    let mut st = State::default();
    if let Some(n) = len {
        en.bounded = n + 2;
        let l = list(&en, &st, &args[0]).ok()?;
        if !st.facts.assume(&l.len, &VSet::one(n)) {
            return None;
        }
    }
    analyse_with(rep, en, inst, st, args)
}
/// What cannot be decided for sequences of any length is decided for some lengths, with all loops unrolled:
/// that does not show the property, but it shows some ways to break it.
pub fn for_lengths(rep: &mut Report, lens: &[i128], f: &dyn Fn(&mut Report, Option<i128>)) {
    let n = rep.undecided.len();
    f(rep, None);
    if rep.undecided.len() == n {
        return;
    }
    for len in lens {
        let mut r = Report::new(&rep.prop);
        f(&mut r, Some(*len));
        rep.count("functions analysed again for sequences of one length", 1);
        for v in r.violations {
            rep.violation(&v.rule, &v.site, &format!("{} (sequence of {})", v.msg, len), v.detail);
        }
    }
}
pub fn check_hex(rep: &mut Report) {
    let rule = OCTETS;
    let mut found = false;
    for (inst, t) in impls("Printable", "print") {
        if kind_of(t).as_deref() != Some("octets") {
            continue;
        }
        found = true;
        for_lengths(rep, &[0, 1, 2, 15, 16, 17, 33, 40], &|rep, len| octet_lines(rep, inst, len));
    }
    if !found {
        rep.undecided(rule, "Printable for &[u8]", "no printing of octets is found", vec![]);
    }
    let rule = INTEGERS;
    let mut found = false;
    for (inst, t) in impls("Display", "fmt") {
        let t = pointee(t).unwrap_or(t);
        if !adt_name(t).ends_with("ASNInteger") {
            continue;
        }
        found = true;
        for_lengths(rep, &[0, 1, 2, 3, 4, 5, 6, 7, 20], &|rep, len| integer(rep, inst, len));
    }
    if !found {
        rep.undecided(rule, "Display for ASNInteger", "no display of integers is found", vec![]);
    }
}
const OCTETS: &str = "on every path, the octets are shown once each, in order, in lines of sixteen";
const INTEGERS: &str = "on every path, an integer is shown as its 32-bit value or as all of its octets on one line";
fn octet_lines(rep: &mut Report, inst: Instance, len: Option<i128>) {
    let rule = OCTETS;
    let whole = |en: &En, st: &State, a: &Val| crate::natives::as_slice(en, st, &loaded(en, st, a)?);
    {
        let mut r = match root(rep, inst, "hx", len, &whole) {
            Some(r) => r,
            None => return,
        };
        let mut later = vec![];
        let (site, outs, arg) = (r.site.clone(), std::mem::take(&mut r.outs), r.args[0].clone());
        for (st, _) in &outs {
            obligation(&mut r.en, rep, rule, &site, st, "", &mut |en, st, _| {
                let list = whole(en, st, &arg)?;
                let t = toks(en, st, 0, None)?;
                verdict(&["C36"], show_list(en, st, Kind::HexLines, &list, None, None, &t, &mut later))
            });
        }
        iterations(&mut r.en, rep, &["C36"], later);
    }
}
fn integer(rep: &mut Report, inst: Instance, len: Option<i128>) {
    let rule = INTEGERS;
    {
        let mut r = match root(rep, inst, "ix", len, &|en, st, a| octets_of(&loaded(en, st, a)?)) {
            Some(r) => r,
            None => return,
        };
        let mut later = vec![];
        let (site, outs, args) = (r.site.clone(), std::mem::take(&mut r.outs), r.args.clone());
        for (st, _) in &outs {
            obligation(&mut r.en, rep, rule, &site, st, "", &mut |en, st, _| {
                let v = loaded(en, st, &args[0])?;
                let list = octets_of(&v)?;
                let sink = crate::natives::sink_name(en, st, &args[1]);
                let t = toks(en, st, 0, Some(&sink))?;
                if crate::natives::truth(en, st, &list.len, VSet::range(1, 4))? {
                    let f = crate::model::i32_of(&list);
                    return match &t[..] {
                        [Tok::Text(p)] => match &p[..] {
                            [Piece::Arg(a)] if a.how == "Display" && a.spec.is_empty() => match &a.val {
                                Val::Int(x) if *x == f => holds(),
                                Val::Int(x) if x.atoms().iter().any(|y| f.atoms().contains(y)) => {
                                    if zero(en, st, &x.sub(&f))? {
                                        holds()
                                    } else {
                                        broken(&["C36"], format!("{} is shown for the value {}", x.show(), f.show()))
                                    }
                                }
                                v => unsup(format!("{} is shown", v.show_d(3))),
                            },
                            p if p.iter().any(|x| matches!(x, Piece::Arg(a) if a.how == "UpperHex" || a.how == "LowerHex")) => broken(&["C36"], format!("an integer of {} octets is shown as {}", list.len.show(), show_pieces(p))),
                            p if !p.iter().any(|x| matches!(x, Piece::Arg(_))) => broken(&["C36"], format!("{} is shown for every value", show_pieces(p))),
                            p => unsup(format!("{} is shown", show_pieces(p))),
                        },
                        [] => broken(&["C36"], "nothing is shown"),
                        _ => unsup("value shown in parts"),
                    };
                }
                if crate::natives::truth(en, st, &list.len, VSet::one(0))? && !t.iter().any(|t| matches!(t, Tok::Loop(_)) || matches!(t, Tok::Text(p) if p.iter().any(|x| matches!(x, Piece::Arg(_))))) {
                    return holds();
                }
                verdict(&["C36"], show_list(en, st, Kind::Hex, &list, Some(&sink), None, &t, &mut later))
            });
        }
        iterations(&mut r.en, rep, &["C36"], later);
    }
}

// ---------------------------------------------------------------- object identifiers
const NAMES: [(&[i128], &str); 10] = [
    (&[2, 5, 4, 3], "Common Name"),
    (&[2, 5, 4, 6], "Country Name"),
    (&[2, 5, 4, 7], "Locality Name"),
    (&[2, 5, 4, 8], "State or Province Name"),
    (&[2, 5, 4, 10], "Organization Name"),
    (&[2, 5, 4, 11], "Organizational Unit Name"),
    (&[1, 2, 840, 113549, 1, 9, 1], "Email Address"),
    (&[1, 2, 840, 113549, 1, 1, 1], "RSA Encryption"),
    (&[1, 2, 840, 113549, 1, 1, 5], "SHA1 with RSA Signature"),
    (&[1, 3, 101, 112], "Ed25519 Signature"),
];
const ARCS: &str = "on every path, exactly the listed identifiers are shown by their name, all others by all their arcs";
pub fn check_oid_display(rep: &mut Report) {
    let rule = ARCS;
    let mut found = false;
    for (inst, t) in impls("Display", "fmt") {
        let t = pointee(t).unwrap_or(t);
        if !adt_name(t).ends_with("ASNObjectIdentifier") {
            continue;
        }
        found = true;
        for_lengths(rep, &[0, 1, 2, 3, 4, 7, 8, 12, 40], &|rep, len| identifier(rep, inst, len));
    }
    if !found {
        rep.undecided(rule, "Display for ASNObjectIdentifier", "no display of object identifiers is found", vec![]);
    }
}
fn arcs_of(en: &En, st: &State, v: &Val) -> R<SliceV> {
    let arcs = field_by(&loaded(en, st, v)?, &|x| matches!(x, Val::Vec(_) | Val::Slice(_)))?;
    match &arcs {
        Val::Vec(x) if x.items.is_empty() && x.base.is_some() => {
            let (k, n) = x.base.clone().unwrap();
            Ok(SliceV { base: SBase::Sym(k, x.elem), start: Form::k(0), len: n })
        }
        Val::Slice(s) => Ok((**s).clone()),
        v => unsup(format!("arcs {}", v.show_d(2))),
    }
}
fn identifier(rep: &mut Report, inst: Instance, len: Option<i128>) {
    let rule = ARCS;
    {
        let mut r = match root(rep, inst, "ox", len, &arcs_of) {
            Some(r) => r,
            None => return,
        };
        let mut later = vec![];
        let (site, outs, args) = (r.site.clone(), std::mem::take(&mut r.outs), r.args.clone());
        for (st, _) in &outs {
            obligation(&mut r.en, rep, rule, &site, st, "", &mut |en, st, _| {
                let list = arcs_of(en, st, &args[0])?;
                let (k, et) = match &list.base {
                    SBase::Sym(k, t) => (*k, *t),
                    _ => return unsup("arcs that are not named"),
                };
                let mut name: Option<&str> = None;
                'names: for (want, n) in NAMES.iter() {
                    if !crate::natives::truth(en, st, &list.len, VSet::one(want.len() as i128))? {
                        continue;
                    }
                    for (i, w) in want.iter().enumerate() {
                        let f = match sym_elem(k, &list.start.addk(i as i128), et) {
                            Val::Int(f) => f,
                            _ => return unsup("arcs that are no numbers"),
                        };
                        if !crate::natives::truth(en, st, &f, VSet::one(*w))? {
                            continue 'names;
                        }
                    }
                    name = Some(n);
                    break;
                }
                let sink = crate::natives::sink_name(en, st, &args[1]);
                let t = toks(en, st, 0, Some(&sink))?;
                let lits = t.iter().all(|t| matches!(t, Tok::Text(p) if p.iter().all(|x| matches!(x, Piece::Lit(_)))));
                let text: String = t
                    .iter()
                    .map(|t| match t {
                        Tok::Text(p) => show_pieces(p).trim_matches('"').to_string(),
                        _ => String::new(),
                    })
                    .collect();
                match name {
                    Some(n) => {
                        if lits && text == n {
                            holds()
                        } else if lits || t.iter().any(|t| matches!(t, Tok::Loop(_))) || t.iter().any(|t| matches!(t, Tok::Text(p) if p.iter().any(|x| matches!(x, Piece::Arg(a) if matches!(a.val, Val::Int(_)))))) {
                            broken(&["C31"], format!("{:?} is shown instead of {:?}", text, n))
                        } else {
                            unsup(format!("{:?} is shown", text))
                        }
                    }
                    None => {
                        if lits && !text.is_empty() {
                            return broken(&["C31"], format!("{:?} is shown for an identifier that has no name", text));
                        }
                        verdict(&["C31"], show_list(en, st, Kind::Dotted, &list, Some(&sink), None, &t, &mut later))
                    }
                }
            });
        }
        iterations(&mut r.en, rep, &["C31"], later);
    }
}
