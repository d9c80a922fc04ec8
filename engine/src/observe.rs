//! What every analysis sees on its way: panics, loops and the functions it went through.
use crate::form::*;
use crate::graph::{Graph, How};
use crate::interp::*;
use crate::model::*;
use crate::natives::*;
use crate::report::Report;
use crate::spec::*;
use crate::val::*;
use crate::walk::*;
use crate::x509::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct PanicSeen {
    pub func: String,
    pub span: String,
    pub msg: String,
    pub root: String,
    /// reached without any approximation on the way
    pub exact: bool,
    pub detail: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct LoopSeen {
    pub func: String,
    pub span: String,
    pub root: String,
    pub measure: Option<String>,
    /// while decoding: every iteration that makes a list longer takes octets or elements
    pub growth: Option<bool>,
}
#[derive(Default)]
pub struct Seen {
    pub panics: Vec<PanicSeen>,
    pub loops: Vec<LoopSeen>,
    pub fns: BTreeSet<String>,
    /// function, what could not be followed
    pub lost: BTreeMap<(String, String), String>,
    pub roots: Vec<String>,
    pub paths: u64,
    pub asserts: u64,
    /// repeated states: function, place, root, path
    pub stuck: Vec<(String, String, String, Vec<String>)>,
    /// delivered bit strings that are none
    pub odd: Vec<(String, State, Val)>,
    pub bits: u64,
    /// what is run now decodes
    pub decoding: bool,
    /// allocations: sized by what is present, by something else, or not known
    pub allocs: Vec<AllocSeen>,
    /// vectors that are delivered
    pub vectors: Vec<AllocSeen>,
}
#[derive(Clone, Debug)]
pub struct AllocSeen {
    pub site: String,
    pub root: String,
    pub what: String,
    pub verdict: Result<Option<String>, String>,
    pub exact: bool,
    pub detail: Vec<String>,
}
thread_local! {
    pub static SEEN: std::cell::RefCell<Option<Seen>> = const { std::cell::RefCell::new(None) };
}
pub fn start() {
    SEEN.with(|s| *s.borrow_mut() = Some(Seen::default()));
}
pub fn stop() -> Seen {
    SEEN.with(|s| s.borrow_mut().take()).unwrap_or_default()
}
pub fn on() -> bool {
    SEEN.with(|s| s.borrow().is_some())
}
pub fn exact(st: &State) -> bool {
    st.taint.is_none() && !st.trace.iter().any(|e| matches!(e, Event::Loop(_)))
}
/// what brings this state about in the last iteration depends on nothing but counters, which take every value
fn counted(en: &En, st: &State) -> bool {
    if st.taint.is_some() {
        return false;
    }
    let recs: Vec<&LoopRec> = st.trace.iter().filter_map(|e| if let Event::Loop(r) = e { en.recs.get(*r) } else { None }).collect();
    let last = match recs.last() {
        Some(r) => r,
        None => return true,
    };
    let mut counts = false;
    // what follows from the atoms alone says nothing new
    let alone = Facts { atoms: st.facts.atoms.clone(), ..Facts::default() };
    let new: Vec<AtomId> = st
        .facts
        .forms
        .iter()
        .filter(|(f, s)| last.head.facts.forms.get(*f) != Some(*s) && !alone.entails(f, s))
        .flat_map(|(f, _)| f.atoms())
        .chain(st.facts.atoms.iter().filter(|(a, s)| last.head.facts.atoms.get(*a) != Some(*s)).map(|(a, _)| *a))
        .collect();
    for a in new {
        for r in &recs {
            if r.leaves.iter().any(|l| l.atom == a) {
                let mut ds = r.ys.iter().map(|y| y.get(&a).and_then(|t| t.sub(&Form::atom(a)).constant()));
                let d = ds.next().flatten();
                if d.is_none() || !ds.all(|x| x == d) {
                    return false;
                }
                counts |= d != Some(0);
            }
        }
    }
    counts
}
/// called when a run from the outside has ended: what was new in it
pub fn note(en: &mut En, root: &str, pre: &State, args: &[Val], ends: usize, recs: usize, outs: &[(State, Val)]) {
    if !on() {
        return;
    }
    let mut s = stop();
    if std::env::var("RASN_SEEN").is_ok() {
        eprintln!("{} outs {} ends {} recs {} steps {}", root, outs.len(), en.ends.len() - ends, en.recs.len() - recs, en.steps);
    }
    let present = present(en, pre, args);
    if s.decoding {
        for (st, v) in outs {
            decoded(en, &mut s, root, st, v);
        }
        for a in std::mem::take(&mut en.allocs) {
            let verdict = sized(en, &a.state, &a.size, &present, 0, 4096);
            let copied = if a.what.starts_with("octets") {
                Some(format!("contents are copied: {}", a.what))
            } else {
                a.from.as_ref().and_then(|f| contents(&a.state, f))
            };
            s.allocs.push(AllocSeen {
                site: format!("{} at {}", a.func, a.span),
                root: root.to_string(),
                what: a.what.clone(),
                verdict: match copied {
                    Some(c) => Ok(Some(c)),
                    None => verdict.map(|o| o.map(|m| format!("{} for {}", m, a.size.show()))),
                },
                exact: exact(&a.state) || a.what.starts_with("octets") && a.state.taint.is_none(),
                detail: a.state.facts.show(),
            });
        }
    }
    {
        let s = &mut s;
        s.asserts += std::mem::take(&mut en.asserts);
        s.roots.push(root.to_string());
        s.paths += outs.len() as u64 + (en.ends.len() - ends) as u64;
        s.fns.extend(en.fns.iter().cloned());
        for e in &en.ends[ends..] {
            match &e.kind {
                EndKind::Panic(m) => {
                    let mut detail: Vec<String> = e.chain.iter().map(|c| format!("in {}", c)).collect();
                    detail.extend(e.state.facts.show().into_iter().map(|x| format!("when {}", x)));
                    s.panics.push(PanicSeen {
                        func: e.func.clone(),
                        span: e.span.clone(),
                        msg: m.clone(),
                        root: root.to_string(),
                        exact: exact(&e.state) || counted(en, &e.state),
                        detail,
                    });
                }
                EndKind::Unsup(m) => {
                    s.lost.insert((format!("{} at {}", e.func, e.span), m.clone()), root.to_string());
                }
                EndKind::Exit(_) => {}
            }
        }
        for (st, _) in outs {
            if let Some(t) = &st.taint {
                s.lost.insert((root.to_string(), format!("imprecise path: {}", t)), root.to_string());
            }
        }
        for r in &en.recs[recs..] {
            s.loops.push(LoopSeen { func: r.func.clone(), span: r.span.clone(), root: root.to_string(), measure: r.measure.clone(), growth: if s.decoding { growth(r) } else { None } });
        }
        for (f, sp, st) in en.stuck.drain(..) {
            s.stuck.push((f, sp, root.to_string(), st.facts.show()));
        }
    }
    SEEN.with(|x| *x.borrow_mut() = Some(s));
}
/// every iteration that makes a list longer advances in a slice; None if no list grows
fn growth(r: &LoopRec) -> Option<bool> {
    let mut out = None;
    for (b, y) in r.backs.iter().zip(r.ys.iter()) {
        if !crate::loops::list_growth(&r.head, b) {
            continue;
        }
        let moved = r.leaves.iter().any(|l| {
            let to = match y.get(&l.atom) {
                Some(t) => t,
                None => return false,
            };
            let d = b.facts.range(&to.sub(&Form::atom(l.atom)));
            l.name.ends_with(".start") && d.0 >= 1 || l.name.ends_with(".len") && d.1 <= -1
        });
        // or the elements and the octets they hold are no more than before
        let vecs: Vec<Option<Form>> = crate::loops::find_vecs(&r.head)
            .into_iter()
            .filter_map(|(f, l)| match (&r.head.frames[f].locals[l], &b.frames[f].locals[l]) {
                (Val::Vec(x), Val::Vec(y)) if x.len() != y.len() => Some(crate::loops::vec_weight_delta(x, y)),
                _ => None,
            })
            .collect();
        let kept = !vecs.is_empty() && vecs.iter().all(|d| matches!(d, Some(d) if b.facts.range(d).1 <= 0));
        out = Some(out.unwrap_or(true) && (moved || kept));
    }
    out
}
/// the numbers of octets a function was handed
fn present(en: &En, st: &State, args: &[Val]) -> Vec<Form> {
    let mut out = vec![];
    for a in args {
        walk(en, st, a, 4, &mut |v| {
            if let Val::Slice(s) = v {
                if matches!(s.base, SBase::Sym(..)) && !out.contains(&s.len) {
                    out.push(s.len.clone());
                }
            }
        });
    }
    out
}
fn walk(en: &En, st: &State, v: &Val, depth: usize, f: &mut dyn FnMut(&Val)) {
    f(v);
    if depth == 0 {
        return;
    }
    match v {
        Val::Ref(_) => {
            if let Ok(x) = en.load(st, v) {
                walk(en, st, &x, depth - 1, f)
            }
        }
        Val::Enum(e) => e.f.iter().for_each(|x| walk(en, st, x, depth - 1, f)),
        Val::Vec(x) => x.items.iter().for_each(|x| walk(en, st, x, depth - 1, f)),
        v => {
            if let Ok(x) = struct_fields(v) {
                x.iter().for_each(|(_, x)| walk(en, st, x, depth - 1, f));
            }
        }
    }
}
/// octets of the input, or text from it, that would be copied
fn contents(st: &State, s: &SliceV) -> Option<String> {
    let octets = match &s.base {
        SBase::Sym(_, t) => int_range(*t) == Some((0, 255)),
        SBase::Text(p) => p.iter().any(|x| matches!(x, Piece::Arg(_))),
        _ => false,
    };
    if octets && st.facts.vset(&s.len).single() != Some(0) {
        Some(format!("contents are copied: {}", show_slice(s)))
    } else {
        None
    }
}
/// n is at most so much, or as many as there are octets: None if it is, what it is otherwise
fn sized(en: &mut En, st: &State, n: &Form, present: &[Form], slack: i128, least: i128) -> Result<Option<String>, String> {
    let mut msg = None;
    for (_, v) in refine(en, st, &Limits { leaves: 200, depth: 12 }, &mut |en, st, _| {
        if truth(en, st, n, VSet::range(-INF, least))? {
            return holds();
        }
        if present.is_empty() {
            return broken(&[], "more than a constant");
        }
        for p in present {
            if truth(en, st, &n.sub(p), VSet::range(-INF, slack))? {
                return holds();
            }
        }
        broken(&[], format!("more than the {} octets that are there", present.iter().map(|p| p.show()).collect::<Vec<_>>().join(" or ")))
    }) {
        match v {
            Ok(Verdict::Holds) => {}
            Ok(Verdict::Broken(_, m)) => msg = Some(m),
            Err(m) => return Err(m),
        }
    }
    Ok(msg)
}
/// what a decoder delivers: valid bit strings, lists that grew with the input
fn decoded(en: &mut En, s: &mut Seen, root: &str, st: &State, v: &Val) {
    let mut bits = vec![];
    let mut vecs = vec![];
    walk(en, st, v, 8, &mut |v| match v {
        Val::Agg(a) if adt_name(a.ty).ends_with("ASNBitString") => bits.push(v.clone()),
        Val::Vec(x) => vecs.push(int_range(x.elem) == Some((0, 255))),
        Val::Str(p) if p.iter().any(|x| matches!(x, Piece::Arg(_))) => vecs.push(true),
        _ => {}
    });
    for b in bits {
        s.bits += 1;
        let mut odd = vec![];
        for (t, r) in refine(en, st, &Limits { leaves: 500, depth: 12 }, &mut |en, st, _| {
            let n = match field_by(&b, &|x| matches!(x, Val::Int(_)))? {
                Val::Int(f) => f,
                _ => return unsup("number"),
            };
            let o = match field_by(&b, &|x| matches!(x, Val::Slice(_)))? {
                Val::Slice(f) => f.len.clone(),
                _ => return unsup("octets"),
            };
            if truth(en, st, &n, VSet::range(0, 7))? && truth(en, st, &o.scale(8).sub(&n), VSet::range(0, INF))? {
                holds()
            } else {
                broken(&[], "")
            }
        }) {
            match r {
                Ok(Verdict::Holds) => {}
                Ok(_) => odd.push(t),
                Err(m) => {
                    s.lost.insert((root.to_string(), format!("a bit string: {}", m)), root.to_string());
                }
            }
        }
        for t in odd {
            s.odd.push((root.to_string(), t, b.clone()));
        }
    }
    for octets in vecs {
        let verdict = if octets { Some("contents are copied".to_string()) } else { None };
        s.vectors.push(AllocSeen { site: root.to_string(), root: root.to_string(), what: "list".into(), verdict: Ok(verdict), exact: exact(st), detail: st.facts.show() });
    }
}

fn pos(d: impl rustc_public::CrateDef) -> String {
    let sp = d.span();
    let l = sp.get_lines();
    let f = sp.get_filename();
    format!("{}:{}:{}", f.rsplit('/').next().unwrap_or(""), l.start_line, l.start_col)
}
fn short(s: &str) -> &str {
    s.rsplit('/').next().unwrap_or(s)
}
fn is_public(src: &crate::source::Source, d: impl rustc_public::CrateDef) -> bool {
    let p = pos(d);
    src.public.iter().any(|x| short(x) == p)
}
fn is_derived(src: &crate::source::Source, d: impl rustc_public::CrateDef) -> bool {
    let p = pos(d);
    src.derived.iter().any(|x| short(x) == p)
}

// ---------------------------------------------------------------- the checks
/// run `f` and see; what is left open is looked at again for a few iterations of every loop
fn see(rep: &mut Report, f: &dyn Fn(&mut Report)) -> Seen {
    let mut own = Report::new("ALL");
    start();
    f(&mut own);
    let mut s = stop();
    rep.roots.extend(own.roots);
    rep.functions.extend(own.functions);
    rep.counts.extend(own.counts);
    for u in own.undecided {
        if u.rule == "anchor" {
            rep.undecided(&u.rule, &u.site, &u.msg, u.detail);
        }
    }
    for u in own.violations {
        // what is not found cannot be looked at
        if u.rule == "anchor" {
            rep.undecided(&u.rule, &u.site, &u.msg, u.detail);
        }
    }
    let open = !s.lost.is_empty() || s.panics.iter().any(|p| !p.exact) || s.loops.iter().any(|l| l.measure.is_none());
    if open {
        CUT.with(|c| c.set(3));
        let mut own = Report::new("ALL");
        start();
        f(&mut own);
        let two = stop();
        CUT.with(|c| c.set(0));
        s.panics.extend(two.panics.into_iter().filter(|p| p.exact));
        s.stuck.extend(two.stuck);
        s.odd.extend(two.odd.into_iter().filter(|o| exact(&o.1)));
        s.allocs.extend(two.allocs.into_iter().filter(|a| a.exact));
        rep.count("functions analysed again for a few iterations", own.roots.len() as u64);
    }
    s
}
fn decoding(on: bool) {
    SEEN.with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            s.decoding = on;
        }
    })
}
fn decoders(rep: &mut Report) {
    use crate::der::*;
    decoding(true);
    check_length(rep);
    check_element(rep);
    check_identifier(rep);
    check_as_i32(rep);
    check_certificate(rep);
    check_extension(rep);
    check_extensions(rep);
    check_name(rep);
    crate::events::check_events(rep);
    decoding(false);
    // further ways in that the crate offers
    check_wrappers(rep);
}
fn library(rep: &mut Report) {
    use crate::console::*;
    use crate::der::*;
    use crate::print::*;
    use crate::stream::*;
    decoders(rep);
    check_bit_string(rep);
    check_is_valid(rep);
    check_protocol(rep);
    check_hex(rep);
    check_oid_display(rep);
    check_printers(rep);
    check_asn_display(rep);
    check_error_display(rep);
    odd_bits(rep);
    others(rep);
}
fn tool(rep: &mut Report) {
    crate::console::check_printers(rep);
    crate::console::check_generic_printer(rep);
}
/// what can be asked of a bit string that was delivered although it is none
fn odd_bits(rep: &mut Report) {
    let odd = SEEN.with(|s| s.borrow_mut().as_mut().map(|s| std::mem::take(&mut s.odd)).unwrap_or_default());
    let mut asked = 0;
    for (root, st, b) in odd {
        asked += 1;
        if asked > 40 {
            break;
        }
        let t = match ty_of(&b) {
            Some(t) => t,
            None => continue,
        };
        for i in on_type(t) {
            let mut en = En::new();
            let mut st = st.clone();
            st.frames = vec![];
            let r = Val::Ref(st.new_obj(b.clone(), t));
            let mut args = match sym_args_as(&mut en, i, "o") {
                Some(a) => a,
                None => continue,
            };
            args[0] = r;
            let outs = en.run(st, i, args);
            rep.roots.push(format!("{} on what {} delivers", site_of(i), root));
            let rt = match ret_ty(&mut en, i) {
                Some(t) => t,
                None => continue,
            };
            if let Some(nx) = method_on("std::iter::Iterator", "next", rt) {
                for (mut st, it) in outs {
                    let pl = Val::Ref(st.new_obj(it, rt));
                    en.run(st, nx, vec![pl]);
                }
            }
        }
    }
}
/// the functions of this crate that take a value of the type, or a reference to one, first
fn on_type(t: Ty) -> Vec<Instance> {
    let name = adt_name(t);
    let src = crate::source::get();
    let mut out = vec![];
    for it in rustc_public::all_local_items() {
        if is_derived(&src, it) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            if let Some(b) = i.body() {
                if let Some(l) = b.arg_locals().first() {
                    if pointee(l.ty).map(adt_name) == Some(name.clone()) {
                        out.push(i);
                    }
                }
            }
        }
    }
    out
}
/// a bit string among the arguments is a decoded one
fn assume_decoded(en: &En, st: &mut State, args: &[Val]) {
    let mut bits = vec![];
    for a in args {
        walk(en, st, a, 6, &mut |v| {
            if ty_of(v).is_some_and(|t| adt_name(t).ends_with("ASNBitString")) {
                bits.push(v.clone());
            }
        });
    }
    for b in bits {
        if let (Ok(Val::Int(u)), Ok(Val::Slice(s))) = (field_by(&b, &|x| matches!(x, Val::Int(_))), field_by(&b, &|x| matches!(x, Val::Slice(_)))) {
            st.facts.assume(&u, &VSet::range(0, 7));
            st.facts.assume(&s.len.scale(8).sub(&u), &VSet::range(0, INF));
        }
    }
}
/// the functions offered to the outside that none of the analyses started from
fn others(rep: &mut Report) {
    let src = crate::source::get();
    let roots: BTreeSet<String> = SEEN.with(|s| s.borrow().as_ref().map(|s| s.roots.iter().cloned().collect()).unwrap_or_default());
    let mut n = 0;
    for it in rustc_public::all_local_items() {
        let name = norm_name(&it.name().to_string());
        if roots.contains(&name) || !is_public(&src, it) || is_derived(&src, it) || constant(&name) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let mut en = En::new();
            crate::model::install(&mut en);
            en.max_steps = 3_000_000;
            n += 1;
            let args = match sym_args_as(&mut en, i, &format!("x{}a", n)) {
                Some(a) => a,
                None => continue,
            };
            let mut st = State::default();
            assume_decoded(&en, &mut st, &args);
            analyse_with(rep, en, i, st, args);
        }
    }
}
/// evaluated when the crate is compiled, or no code at all
fn constant(name: &str) -> bool {
    let last = name.rsplit("::").next().unwrap_or("");
    let upper = last.chars().any(|c| c.is_ascii_uppercase()) && last.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_');
    upper || last.chars().next().is_some_and(|c| c.is_ascii_uppercase())
}
/// every function that can be reached from the outside was gone through
fn covered(rep: &mut Report, rule: &str, s: &Seen, from: &dyn Fn(&str, bool) -> bool) {
    let g = Graph::build();
    let src = crate::source::get();
    let mut work: Vec<usize> = vec![];
    let mut derived = 0;
    for (k, n) in g.nodes.iter().enumerate() {
        if n.local && from(&n.name, is_public(&src, n.key.inst.def)) {
            work.push(k);
        }
    }
    let mut reach: BTreeSet<usize> = work.iter().cloned().collect();
    while let Some(k) = work.pop() {
        if is_derived(&src, g.nodes[k].key.inst.def) {
            continue;
        }
        for e in &g.nodes[k].edges {
            if reach.insert(e.to) {
                work.push(e.to);
            }
        }
    }
    let mut names: BTreeSet<String> = BTreeSet::new();
    for k in reach {
        let n = &g.nodes[k];
        if !n.local || !n.has_body {
            continue;
        }
        let name = norm_name(&n.key.inst.def.name().to_string());
        if constant(&name) || !names.insert(name.clone()) {
            continue;
        }
        if is_derived(&src, n.key.inst.def) {
            derived += 1;
            continue;
        }
        if s.fns.contains(&name) {
            rep.ok(rule);
        } else {
            rep.undecided(rule, &format!("{} ({})", name, n.span), "no analysis went through this function", vec![]);
        }
    }
    for it in rustc_public::all_local_items() {
        let x = &norm_name(&it.name().to_string());
        if g.generic.contains(x) && from(x, is_public(&src, it)) && !is_derived(&src, it) && !x.ends_with('}') && !s.fns.contains(x) && !constant(x) {
            rep.undecided(rule, x, "generic function that no analysis went through", vec![]);
        }
    }
    rep.count("derived functions, not analysed", derived);
}
fn lost(rep: &mut Report, s: &Seen) {
    for ((site, m), root) in &s.lost {
        rep.undecided("analysis", site, m, vec![format!("from {}", root)]);
    }
    rep.count("roots", s.roots.len() as u64);
    rep.count("paths", s.paths);
}
fn run_all(rep: &mut Report, lib: bool) -> Seen {
    see(rep, if lib { &library } else { &tool })
}
fn cover_all(rep: &mut Report, rule: &str, s: &Seen, lib: bool) {
    if lib {
        covered(rep, rule, s, &|_, public| public);
    } else {
        covered(rep, rule, s, &|n, _| n.contains("ParsePrinter"));
    }
}

/// C01
pub fn check_panics(rep: &mut Report, lib: bool) {
    let rule = "no path of any function ends in a panic: no overflow, index, unwrap or unreachable branch";
    let s = run_all(rep, lib);
    let mut sites: BTreeMap<(String, String, String), Vec<&PanicSeen>> = BTreeMap::new();
    for p in &s.panics {
        sites.entry((p.func.clone(), p.span.clone(), p.msg.clone())).or_default().push(p);
    }
    for ((f, sp, m), l) in &sites {
        let site = format!("{} at {}", f, sp);
        match l.iter().find(|p| p.exact) {
            Some(p) => {
                let mut d = vec![format!("from {}", p.root)];
                d.extend(p.detail.iter().cloned());
                rep.violation(rule, &site, &format!("panics: {}", m), d);
            }
            None => rep.undecided(rule, &site, &format!("may panic: {}", m), l[0].detail.clone()),
        }
    }
    let bad: BTreeSet<&String> = s.panics.iter().map(|p| &p.root).collect();
    for r in &s.roots {
        if !bad.contains(r) {
            rep.ok(rule);
        }
    }
    // closing a level that is not open would underflow: what is printed nests in balance
    let mut nest = Report::new("C33");
    if lib {
        crate::print::check_protocol(&mut nest);
        crate::console::check_printers(&mut nest);
    } else {
        crate::console::check_generic_printer(&mut nest);
    }
    let below = "levels that printing closes are open";
    for v in nest.violations.into_iter().filter(|v| v.msg.contains("was not opened") || v.msg.contains("after begin_")) {
        rep.violation(below, &v.site, &v.msg, v.detail);
    }
    if !rep.violations.iter().any(|v| v.rule == below) {
        rep.ok(below);
    }
    rep.count("checked operations passed", s.asserts);
    rep.count("bit strings delivered", s.bits);
    lost(rep, &s);
    cover_all(rep, "every function reachable from the outside was analysed", &s, lib);
}

/// C02
pub fn check_termination(rep: &mut Report, lib: bool) {
    let rule = "every loop has a measure that every iteration lowers";
    let mut s = run_all(rep, lib);
    if lib {
        let mut it = see(rep, &|r| iterators(r, true));
        if it.loops.iter().any(|l| l.measure.is_none()) {
            let more = see(rep, &made);
            it.stuck.extend(more.stuck);
            // an element may fail without taking anything
            CUT.with(|c| c.set(2));
            start();
            iterators(rep, false);
            it.stuck.extend(stop().stuck);
            CUT.with(|c| c.set(0));
        }
        for l in it.loops {
            s.loops.push(l);
        }
        s.stuck.extend(it.stuck);
        s.lost.extend(it.lost);
        progress(rep);
    }
    let mut seen: BTreeSet<(String, String)> = BTreeSet::new();
    for (f, sp, root, facts) in &s.stuck {
        if seen.insert((f.clone(), sp.clone())) {
            let mut d = vec![format!("from {}", root)];
            d.extend(facts.iter().map(|x| format!("when {}", x)));
            rep.violation(rule, &format!("{} at {}", f, sp), "the loop is never left: it comes to a state that repeats, or that no iteration can leave", d);
        }
    }
    let mut sites: BTreeMap<(String, String), Vec<&LoopSeen>> = BTreeMap::new();
    for l in &s.loops {
        sites.entry((l.func.clone(), l.span.clone())).or_default().push(l);
    }
    for ((f, sp), l) in &sites {
        for x in l {
            match &x.measure {
                Some(m) => {
                    rep.ok(rule);
                    rep.sample(format!("{} at {}: {}", f, sp, m));
                }
                None if seen.contains(&(f.clone(), sp.clone())) => {}
                None => rep.undecided(rule, &format!("{} at {}", f, sp), "no measure found that every iteration lowers", vec![format!("from {}", x.root)]),
            }
        }
    }
    rep.count("loop contexts", s.loops.len() as u64);
    rep.count("loops", sites.len() as u64);
    lost(rep, &s);
    cover_all(rep, "every function reachable from the outside was analysed", &s, lib);
}
/// going through an iterator comes to an end
fn iterators(rep: &mut Report, model: bool) {
    for (i, t) in crate::print::impls("Iterator", "next") {
        let p = match pointee(t) {
            Some(p) => p,
            None => continue,
        };
        let mut en = En::new();
        if model {
            crate::model::install(&mut en);
        }
        let name = norm_name(&i.def.name().to_string());
        let v = sym(key("it"), p);
        let mut st = State::default();
        assume_decoded(&en, &mut st, &[v.clone()]);
        name_slices(&en, &st, &v);
        rep.roots.push(site_of(i));
        en.exhaust(st, i, v, &name);
        note(&mut en, &name, &State::default(), &[], 0, 0, &[]);
    }
}
/// the iterators that functions of the crate return
fn made(rep: &mut Report) {
    for (next, t) in crate::print::impls("Iterator", "next") {
        let p = match pointee(t) {
            Some(p) => p,
            None => continue,
        };
        for it in rustc_public::all_local_items() {
            if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
                continue;
            }
            let i = match Instance::try_from(it) {
                Ok(i) => i,
                Err(_) => continue,
            };
            let mut en = En::new();
            crate::model::install(&mut en);
            match ret_ty(&mut en, i) {
                Some(r) if adt_name(r) == adt_name(p) && !adt_name(p).is_empty() => {}
                _ => continue,
            }
            let args = match sym_args_as(&mut en, i, "o") {
                Some(a) => a,
                None => continue,
            };
            let mut st = State::default();
            assume_decoded(&en, &mut st, &args);
            let name = site_of(i);
            rep.roots.push(format!("{}, and what it returns", name));
            let outs = en.run_inner(st, i, args);
            for (st, v) in outs {
                en.exhaust(st, next, v, &name);
            }
            note(&mut en, &name, &State::default(), &[], 0, 0, &[]);
        }
    }
}
fn name_slices(en: &En, st: &State, v: &Val) {
    walk(en, st, v, 4, &mut |v| {
        if let Val::Slice(s) = v {
            if let SBase::Sym(k, _) = &s.base {
                set_region_len(*k, s.len.clone());
            }
        }
    });
}
/// decoding an element takes octets from the input
fn progress(rep: &mut Report) {
    let rule = "an element that is delivered has taken octets from the input";
    let mut own = Report::new("ALL");
    let mut rd = match crate::der::reading(&mut own, "parser::parse_one_type", &|_| {}) {
        Some(r) => r,
        None => return rep.undecided(rule, "parse_one_type", "function not found", vec![]),
    };
    let outs = std::mem::take(&mut rd.root.outs);
    let (input, reader, site) = (rd.input.clone(), rd.reader.clone(), rd.root.site.clone());
    for (st, v) in &outs {
        obligation(&mut rd.root.en, rep, rule, &site, st, &v.show_d(3), &mut |en, s, _| {
            let i = en.variant(s, v)?;
            if variant_name(ty_of(v).ok_or(Stop::Unsup("result".into()))?, i) != "Ok" {
                return holds();
            }
            let after = crate::der::left(en, s, &reader)?;
            if truth(en, s, &input.len.sub(&after.len), VSet::range(1, INF))? {
                holds()
            } else {
                broken(&["C02"], "an element is delivered that took nothing")
            }
        });
    }
}

/// C04
pub fn check_allocation(rep: &mut Report) {
    let r1 = "memory is asked for by what is there, never by what the input states";
    let r2 = "contents are not copied";
    let r3 = "every iteration that makes a list longer takes something from the input";
    let s = see(rep, &decoders);
    for l in &s.loops {
        match l.growth {
            Some(true) => rep.ok(r3),
            Some(false) => rep.undecided(r3, &format!("{} at {}", l.func, l.span), "a list grows in a loop that takes nothing from the input", vec![format!("from {}", l.root)]),
            None => {}
        }
    }
    for (l, rule) in [(&s.allocs, r1), (&s.vectors, r2)] {
        for a in l {
            let r = match &a.verdict {
                Ok(Some(m)) if m.starts_with("contents") => r2,
                _ => rule,
            };
            match &a.verdict {
                Ok(None) => rep.ok(rule),
                Ok(Some(m)) if a.exact && (rule == r1 || r == r2) => {
                    let m = if a.what == "list" { m.clone() } else { format!("{}: {}", a.what, m) };
                    rep.violation(r, &a.site, &m, a.detail.clone())
                }
                Ok(Some(m)) => rep.undecided(r, &a.site, m, a.detail.clone()),
                Err(m) => rep.undecided(r, &a.site, m, a.detail.clone()),
            }
        }
    }
    lost(rep, &s);
    alloc_sites(rep, &s);
}
/// the calls of allocating functions in the functions that decode
fn alloc_sites(rep: &mut Report, s: &Seen) {
    let rule = "every call that may allocate is one the analysis has seen through";
    let g = Graph::build();
    let src = crate::source::get();
    // what may allocate
    let mut alloc: Vec<bool> = g.nodes.iter().map(|n| {
        let x = &n.name;
        x.contains("alloc::alloc") || x.contains("exchange_malloc") || x.contains("__rust_alloc") || x.contains("__rust_realloc") || x.contains("box_new") || x.contains("Global")
    }).collect();
    loop {
        let mut more = false;
        for (k, n) in g.nodes.iter().enumerate() {
            if !alloc[k] && !n.local && n.edges.iter().any(|e| e.how != How::Drop && alloc[e.to]) {
                alloc[k] = true;
                more = true;
            }
        }
        if !more {
            break;
        }
    }
    for n in &g.nodes {
        if !n.local || is_derived(&src, n.key.inst.def) || !s.fns.contains(&norm_name(&n.key.inst.def.name().to_string())) {
            continue;
        }
        for e in &n.edges {
            let to = &g.nodes[e.to];
            if to.local || !alloc[e.to] || e.how == How::Drop {
                continue;
            }
            let known = ["std::vec::Vec::", "std::boxed::Box::", "std::vec::from_elem", "std::slice::", "::to_vec", "::to_owned", "::collect", "::from_iter", "std::string::String::", "::to_string", "::extend", "::into_vec"].iter().any(|k| to.name.contains(k));
            if known {
                rep.ok(rule);
                rep.sample(format!("{} calls {} at {}", n.name, to.name, e.site));
            } else {
                rep.undecided(rule, &format!("{} at {}", n.name, e.site), &format!("{} may allocate", to.name), vec![]);
            }
        }
    }
}
