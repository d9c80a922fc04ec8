//! Effects and recursion, decided on the call graph.
use crate::graph::*;
use crate::report::Report;
use crate::val::{kind, norm_name};
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Effect {
    Clock,
    Env,
    Files,
    Net,
    Process,
    Random,
    Thread,
    Input,
    Output,
    Address,
    /// depends on the order of a hash table
    Order,
    State,
    /// not known to the analysis
    Unknown,
}
impl Effect {
    fn what(self) -> &'static str {
        match self {
            Effect::Clock => "reads the clock",
            Effect::Env => "reads the environment",
            Effect::Files => "uses the file system",
            Effect::Net => "uses the network",
            Effect::Process => "acts on a process",
            Effect::Random => "draws a random number",
            Effect::Thread => "starts or uses a thread",
            Effect::Input => "reads the standard input",
            Effect::Output => "writes output",
            Effect::Address => "depends on the address of a value",
            Effect::Order => "depends on the order of a hash table",
            Effect::State => "changes global state",
            Effect::Unknown => "calls a function of std the analysis does not know",
        }
    }
    fn certain(self) -> bool {
        !matches!(self, Effect::Unknown | Effect::Address | Effect::Random)
    }
}
/// what a function of std does; None: nothing but compute
fn std_effect(n: &str, i: Instance) -> Option<Effect> {
    let has = |s: &str| n.contains(s);
    if has("std::io::_print") || has("std::io::_eprint") || has("io::stdio") || has("io::stdout") || has("io::stderr") || has("Stdout") || has("Stderr") || has("std::io::_dbg") {
        return Some(Effect::Output);
    }
    if has("io::stdin") || has("Stdin") {
        return Some(Effect::Input);
    }
    if has("SystemTime::now") || has("Instant::now") || has("::elapsed") {
        return Some(Effect::Clock);
    }
    if has("std::time::") {
        return None;
    }
    if has("std::env::") || has("std::backtrace") || has("std::os::") || has("std::sys::") {
        return Some(Effect::Env);
    }
    if has("std::fs::") || has("std::path::Path::") && ["exists", "is_file", "is_dir", "metadata", "canonicalize", "read_dir", "read_link", "symlink"].iter().any(|m| has(m)) {
        return Some(Effect::Files);
    }
    if has("std::net::") {
        return Some(Effect::Net);
    }
    if has("std::process::") {
        return Some(Effect::Process);
    }
    if has("std::thread::") || has("std::sync::mpsc") || has("std::sync::mpmc") {
        return Some(if has("LocalKey") || has("local::") { Effect::State } else { Effect::Thread });
    }
    if has("std::random") || has("RandomState") {
        return Some(Effect::Random);
    }
    if has("hash_map") || has("hash_set") || has("HashMap") || has("HashSet") || has("collections::hash") {
        let last = n.rsplit("::").next().unwrap_or("");
        let walks = ["iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain", "next", "union", "difference", "intersection", "symmetric_difference", "fmt", "extract_if"];
        return if walks.contains(&last) { Some(Effect::Order) } else { None };
    }
    if has("OnceLock") {
        let last = n.rsplit("::").next().unwrap_or("");
        return match last {
            "set" | "try_insert" | "take" => Some(Effect::State),
            "get_or_init" | "get_or_try_init" => {
                // a constant that is computed once, unless it is computed from something
                let f = i.args().0.iter().filter_map(|a| a.ty().cloned()).any(|t| captures(t));
                if f {
                    Some(Effect::State)
                } else {
                    None
                }
            }
            _ => None,
        };
    }
    for p in ["std::collections", "std::hash", "std::sync", "std::io::", "std::path", "std::ffi", "std::error", "std::panic", "std::rt", "std::panicking", "std::f64", "std::f32", "std::num", "std::ascii", "std::keyword", "std::alloc"] {
        if has(p) {
            return None;
        }
    }
    Some(Effect::Unknown)
}
fn captures(t: Ty) -> bool {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Closure(_, ga)) => match ga.0.last().and_then(|a| a.ty().cloned()) {
            Some(t) => !matches!(&*kind(t), TyKind::RigidTy(RigidTy::Tuple(v)) if v.is_empty()),
            None => true,
        },
        _ => false,
    }
}
/// what a function of core or alloc does, when this program calls it directly
fn core_effect(n: &str) -> Option<Effect> {
    let last = n.rsplit("::").next().unwrap_or("");
    let ptr = n.contains("ptr::");
    if n.contains("Argument::new_pointer") || ptr && ["addr", "expose_provenance", "addr_eq", "eq", "fn_addr_eq", "hash", "align_offset", "is_aligned", "offset_from", "byte_offset_from"].contains(&last) {
        return Some(Effect::Address);
    }
    if n.contains("std::arch::") || n.contains("core::arch::") {
        return Some(Effect::Unknown);
    }
    None
}

/// a local function, what it does itself and which local functions it can bring to run
#[derive(Default)]
struct Fun {
    effects: BTreeMap<(Effect, String), String>,
    next: BTreeMap<usize, String>,
}
fn local_graph(g: &Graph) -> BTreeMap<usize, Fun> {
    let mut out = BTreeMap::new();
    for (l, n) in g.nodes.iter().enumerate() {
        if !n.local {
            continue;
        }
        let mut f = Fun::default();
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        // through the functions of core and alloc it calls
        let mut work: Vec<(usize, String)> = vec![(l, String::new())];
        while let Some((m, first)) = work.pop() {
            for e in &g.nodes[m].edges {
                if e.how == How::Any {
                    continue;
                }
                let site = if first.is_empty() { e.site.clone() } else { first.clone() };
                let to = &g.nodes[e.to];
                if to.local {
                    f.next.entry(e.to).or_insert(site);
                    continue;
                }
                if m == l {
                    if let Some(x) = core_effect(&to.name) {
                        f.effects.entry((x, to.name.clone())).or_insert(site.clone());
                    }
                }
                if to.krate == "std" && g.nodes[m].krate != "std" {
                    if let Some(x) = std_effect(&to.name, to.key.inst) {
                        f.effects.entry((x, to.name.clone())).or_insert(site.clone());
                        continue;
                    }
                }
                if seen.insert(e.to) {
                    work.push((e.to, site));
                }
            }
        }
        for x in &g.nodes[l].facts {
            match x {
                Fact::Asm(s) => {
                    f.effects.insert((Effect::Unknown, "inline assembly".into()), s.clone());
                }
                Fact::PtrToInt(s) => {
                    f.effects.insert((Effect::Address, "cast of a pointer to a number".into()), s.clone());
                }
                _ => {}
            }
        }
        out.insert(l, f);
    }
    out
}

pub fn check_effects(rep: &mut Report) {
    let g = Graph::build();
    let src = crate::source::get();
    let funs = local_graph(&g);
    rep.count("functions of the call graph", g.nodes.len() as u64);
    rep.count("calls", g.nodes.iter().map(|n| n.edges.len() as u64).sum());
    for n in &g.nodes {
        if n.local {
            rep.functions.insert(n.name.clone());
        }
    }
    let mut callers: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (l, f) in &funs {
        for m in f.next.keys() {
            if m != l {
                callers.entry(*m).or_default().insert(*l);
            }
        }
    }
    // those that may, and what only they can bring to run
    let allowed = |e: Effect| -> (BTreeSet<usize>, BTreeSet<usize>) {
        let own: BTreeSet<usize> = funs
            .keys()
            .filter(|l| {
                let n = &g.nodes[**l].name;
                match e {
                    Effect::Clock => n.ends_with("UtcTime::now") || n.contains("UtcTime::now::"),
                    Effect::Output => n.contains("ConsoleLinePrinter"),
                    _ => false,
                }
            })
            .cloned()
            .collect();
        // the greatest set of helpers whose callers all are in it
        let mut all = own.clone();
        let mut cand: BTreeSet<usize> = funs.keys().cloned().filter(|l| callers.get(l).map_or(false, |c| !c.is_empty())).collect();
        if !own.is_empty() {
            loop {
                let n = cand.len();
                cand = cand.iter().cloned().filter(|l| callers[l].iter().all(|c| own.contains(c) || cand.contains(c))).collect();
                if cand.len() == n {
                    break;
                }
            }
            // and that are reached from those that may
            let mut work: Vec<usize> = own.iter().cloned().collect();
            while let Some(l) = work.pop() {
                for m in funs[&l].next.keys() {
                    if cand.contains(m) && all.insert(*m) {
                        work.push(*m);
                    }
                }
            }
        }
        (own, all)
    };
    let (clock_own, clock) = allowed(Effect::Clock);
    let (out_own, out) = allowed(Effect::Output);
    let rule = "no function of the library has an effect, but UtcTime::now the clock and the console printer output";
    for (l, f) in &funs {
        let n = &g.nodes[*l];
        let mut bad = false;
        for ((e, what), site) in &f.effects {
            let ok = match e {
                Effect::Clock => clock.contains(l),
                Effect::Output => out.contains(l),
                _ => false,
            };
            if ok {
                continue;
            }
            bad = true;
            let detail = vec![format!("{} calls {} at {}", n.name, what, site)].into_iter().chain(chain(&g, &callers, *l)).collect();
            let at = format!("{} ({})", n.name, site);
            if e.certain() {
                rep.violation(rule, &at, &format!("{} {}: {}", last(&n.name), e.what(), what), detail);
            } else {
                rep.undecided(rule, &at, &format!("{} {}: {}", last(&n.name), e.what(), what), detail);
            }
        }
        if !bad {
            rep.ok(rule);
        }
    }
    // nothing that decodes or prints brings those to run
    let rule = "no function that decodes, reads or prints a value reaches the clock or the console";
    for (own, all, what) in [(&clock_own, &clock, "the clock"), (&out_own, &out, "the console")] {
        for (l, f) in &funs {
            if all.contains(l) {
                continue;
            }
            let hit = f.next.iter().find(|(m, _)| own.contains(m));
            match hit {
                None => rep.ok(rule),
                Some((m, site)) => {
                    // who brings it to run
                    let mut seen: BTreeSet<usize> = [*l].into_iter().collect();
                    let mut work = vec![*l];
                    while let Some(x) = work.pop() {
                        for c in callers.get(&x).into_iter().flatten() {
                            if seen.insert(*c) {
                                work.push(*c);
                            }
                        }
                    }
                    let decodes = seen.iter().map(|x| &g.nodes[*x].name).find(|n| n.starts_with('<') || n.contains("parse") || n.contains("Parser"));
                    let at = format!("{} ({})", g.nodes[*l].name, site);
                    let detail: Vec<String> = chain(&g, &callers, *l);
                    match decodes {
                        Some(d) => rep.violation(rule, &at, &format!("{} brings {} to run, which reaches {}", d, g.nodes[*m].name, what), detail),
                        None => rep.undecided(rule, &at, &format!("{} brings {} to run, which reaches {}", g.nodes[*l].name, g.nodes[*m].name, what), detail),
                    }
                }
            }
        }
    }
    // functions nobody in the crate makes an instance of
    let rule2 = "no generic function of the library has an effect";
    for it in rustc_public::all_local_items() {
        if Instance::try_from(it).is_ok() {
            continue;
        }
        let name = norm_name(&it.name().to_string());
        if g.nodes.iter().any(|n| n.local && n.name == name) {
            continue;
        }
        rep.functions.insert(name.clone());
        let mut bad = false;
        if let Some(b) = it.body() {
            for bb in &b.blocks {
                if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
                    if let Ok(t) = func.ty(b.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = &*kind(t) {
                            let n = norm_name(&d.name().to_string());
                            if d.krate().name.to_string() == "std" {
                                if let Ok(i) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| std_name_effect(&n))) {
                                    if let Some(e) = i {
                                        bad = true;
                                        let at = format!("{} ({})", name, site(&bb.terminator.source_info.span));
                                        let m = format!("{} {}: {}", last(&name), e.what(), n);
                                        if e.certain() {
                                            rep.violation(rule2, &at, &m, vec![]);
                                        } else {
                                            rep.undecided(rule2, &at, &m, vec![]);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        if !bad {
            rep.ok(rule2);
        }
    }
    let rule = "the library has no unsafe code";
    if src.unsafe_sites.is_empty() {
        for _ in 0..src.bodies {
            rep.ok(rule);
        }
    }
    for (s, what) in &src.unsafe_sites {
        rep.violation(rule, s, what, vec![]);
    }
    let rule = "no static of the library can change";
    rep.count("statics", src.statics.len() as u64);
    for s in &src.statics {
        let at = format!("{} ({})", s.name, s.span);
        if s.mutable {
            rep.violation(rule, &at, &format!("{} is a mutable static", last(&s.name)), vec![]);
        } else if s.freeze {
            rep.ok(rule);
        } else if s.thread_local {
            rep.violation(rule, &at, &format!("{} keeps state for each thread: {}", last(&s.name), s.ty), vec![]);
        } else if s.ty.contains("LazyLock<") || s.ty.contains("OnceLock<") {
            let inner = &s.ty[s.ty.find('<').unwrap_or(0)..];
            if ["Mutex", "RwLock", "Atomic", "Cell", "Once"].iter().any(|x| inner.contains(x)) {
                rep.violation(rule, &at, &format!("{} can be changed: {}", last(&s.name), s.ty), vec![]);
            } else {
                rep.ok(rule);
            }
        } else {
            rep.violation(rule, &at, &format!("{} can be changed: {}", last(&s.name), s.ty), vec![]);
        }
    }
    if src.statics.is_empty() {
        rep.ok(rule);
    }
    let rule = "the library uses no crate but those of the toolchain";
    if src.foreign_crates.is_empty() {
        rep.ok(rule);
    }
    for c in &src.foreign_crates {
        rep.violation(rule, "rx509", &format!("crate {}", c), vec![]);
    }
}
fn std_name_effect(n: &str) -> Option<Effect> {
    // without its type arguments nothing is known of a closure
    if n.contains("OnceLock") {
        return Some(Effect::Unknown);
    }
    // the instance is only looked at for OnceLock
    let any = rustc_public::all_local_items().into_iter().find_map(|i| Instance::try_from(i).ok())?;
    std_effect(n, any)
}
fn last(n: &str) -> String {
    let p: Vec<&str> = n.rsplitn(3, "::").collect();
    p.into_iter().take(2).rev().collect::<Vec<_>>().join("::")
}
/// how a function of the outside comes to it
fn chain(g: &Graph, callers: &BTreeMap<usize, BTreeSet<usize>>, l: usize) -> Vec<String> {
    let mut out = vec![];
    let mut x = l;
    let mut seen = BTreeSet::new();
    while seen.insert(x) && out.len() < 12 {
        match callers.get(&x).and_then(|c| c.iter().find(|c| !seen.contains(c))) {
            Some(c) => {
                out.push(format!("called by {} ({})", g.nodes[*c].name, g.nodes[*c].span));
                x = *c;
            }
            None => break,
        }
    }
    out
}

pub fn check_recursion(rep: &mut Report) {
    let g = Graph::build();
    let rule = "no function can come to be called by itself";
    rep.count("functions of the call graph", g.nodes.len() as u64);
    rep.count("calls", g.nodes.iter().map(|n| n.edges.len() as u64).sum());
    let sccs = g.sccs();
    let mut bad: BTreeSet<usize> = BTreeSet::new();
    for s in &sccs {
        if !s.iter().any(|n| g.nodes[*n].ours()) {
            rep.count("cycles within std", 1);
            continue;
        }
        let set: BTreeSet<usize> = s.iter().cloned().collect();
        bad.extend(s.iter().cloned());
        let cyc = cycle(&g, &set);
        let head = cyc.iter().map(|(n, _)| *n).find(|n| is_rasn(&g.nodes[*n].krate)).unwrap_or(cyc[0].0);
        let detail: Vec<String> = cyc.iter().map(|(n, e)| format!("{} -> {} ({}, {:?})", g.nodes[*n].show(), g.nodes[e.to].show(), e.site, e.how)).collect();
        let names: Vec<String> = cyc.iter().filter(|(n, _)| g.nodes[*n].ours()).map(|(n, _)| last(&g.nodes[*n].name)).collect();
        let at = format!("{} ({})", g.nodes[head].name, g.nodes[head].span);
        let msg = format!("the depth of calls has no bound: {} calls itself", names.join(" -> "));
        let loose = cyc.iter().any(|(_, e)| e.how == How::Any);
        let limited = s.iter().any(|n| limited(g.nodes[*n].key.inst));
        if limited {
            rep.undecided(rule, &at, &format!("{}; a counter is compared on the way", msg), detail);
        } else if loose {
            rep.undecided(rule, &at, &format!("{}; by way of an object of unknown type", msg), detail);
        } else {
            rep.violation(rule, &at, &msg, detail);
        }
    }
    for (i, n) in g.nodes.iter().enumerate() {
        if n.ours() && !bad.contains(&i) {
            rep.ok(rule);
            if is_rasn(&n.krate) {
                rep.functions.insert(n.name.clone());
            }
        }
    }
}
/// a shortest cycle among the nodes, with as few calls of unknown objects as possible
fn cycle(g: &Graph, set: &BTreeSet<usize>) -> Vec<(usize, Edge)> {
    let mut best: Option<Vec<(usize, Edge)>> = None;
    for any in [false, true] {
        for r in set.iter().filter(|n| g.nodes[**n].ours()) {
            let mut prev: BTreeMap<usize, (usize, Edge)> = BTreeMap::new();
            let mut q = std::collections::VecDeque::from([*r]);
            let mut done = None;
            'bfs: while let Some(x) = q.pop_front() {
                for e in &g.nodes[x].edges {
                    if !set.contains(&e.to) || e.how == How::Create || e.how == How::Any && !any {
                        continue;
                    }
                    if e.to == *r {
                        done = Some((x, e.clone()));
                        break 'bfs;
                    }
                    if !prev.contains_key(&e.to) {
                        prev.insert(e.to, (x, e.clone()));
                        q.push_back(e.to);
                    }
                }
            }
            if let Some((mut x, e)) = done {
                let mut c = vec![(x, e)];
                while x != *r {
                    let (p, e) = prev[&x].clone();
                    c.push((p, e));
                    x = p;
                }
                c.reverse();
                if best.as_ref().map_or(true, |b| c.len() < b.len()) {
                    best = Some(c);
                }
            }
        }
        if best.is_some() {
            break;
        }
    }
    best.unwrap_or_default()
}
/// a parameter, or a field of one, is counted up or down and compared
fn limited(i: Instance) -> bool {
    let b = match i.body() {
        Some(b) => b,
        None => return false,
    };
    let args = b.arg_locals().len();
    // copies of parameters
    let mut of: BTreeMap<usize, String> = BTreeMap::new();
    for a in 1..=args {
        of.insert(a, format!("{}", a));
    }
    let name = |p: &Place, of: &BTreeMap<usize, String>| -> Option<String> { of.get(&p.local).map(|s| format!("{}{:?}", s, p.projection.iter().filter(|e| !matches!(e, ProjectionElem::Deref)).collect::<Vec<_>>())) };
    for _ in 0..3 {
        for bb in &b.blocks {
            for s in &bb.statements {
                if let StatementKind::Assign(p, Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..)) = &s.kind {
                    if p.projection.is_empty() && p.local > args {
                        if let Some(n) = name(q, &of) {
                            of.insert(p.local, n.trim_end_matches("[]").to_string());
                        }
                    }
                }
            }
        }
    }
    let op = |o: &Operand, of: &BTreeMap<usize, String>| -> Option<String> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => name(p, of),
            _ => None,
        }
    };
    let (mut counted, mut compared) = (BTreeSet::new(), BTreeSet::new());
    for bb in &b.blocks {
        for s in &bb.statements {
            if let StatementKind::Assign(_, Rvalue::BinaryOp(o, x, y) | Rvalue::CheckedBinaryOp(o, x, y)) = &s.kind {
                let ns: Vec<String> = [op(x, &of), op(y, &of)].into_iter().flatten().collect();
                match o {
                    BinOp::Add | BinOp::Sub | BinOp::AddUnchecked | BinOp::SubUnchecked => counted.extend(ns),
                    BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Eq | BinOp::Ne => compared.extend(ns),
                    _ => {}
                }
            }
        }
        match &bb.terminator.kind {
            TerminatorKind::SwitchInt { discr, .. } => compared.extend(op(discr, &of)),
            TerminatorKind::Call { func, args, .. } => {
                // checked_sub and the like do both
                if let Ok(t) = func.ty(b.locals()) {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = &*kind(t) {
                        let n = d.name().to_string();
                        if n.ends_with("checked_sub") || n.ends_with("checked_add") {
                            for a in args {
                                if let Some(n) = op(a, &of) {
                                    counted.insert(n.clone());
                                    compared.insert(n);
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    counted.intersection(&compared).next().is_some()
}

pub fn dump() {
    let t = std::time::Instant::now();
    let g = Graph::build();
    println!("{} nodes {} edges {:?}", g.nodes.len(), g.nodes.iter().map(|n| n.edges.len()).sum::<usize>(), t.elapsed());
    for n in &g.nodes {
        if n.krate == "std" && std::env::var("RASN_STD").is_ok() {
            println!("std {} {}", n.name, n.has_body);
        }
    }
    for (i, n) in g.nodes.iter().enumerate() {
        if n.local && std::env::var("RASN_LOCAL").is_ok() {
            println!("{} {} {}", i, n.name, n.key.ctx.len());
            for e in &n.edges {
                println!("     {:?} {} {} {}", e.how, e.to, g.nodes[e.to].name, e.site);
            }
        }
    }
    for s in g.sccs() {
        println!("SCC {:?}", s.iter().map(|n| g.nodes[*n].show()).collect::<Vec<_>>());
    }
    println!("{:?}", crate::source::get());
}
