//! Development aid: analyse one function on symbolic arguments and print the outcomes.
use crate::form::*;
use crate::interp::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::CrateDef;

pub fn run(roots: &str) {
    for root in roots.split(',') {
        let mut found = false;
        for it in rustc_public::all_local_items() {
            let n = norm_name(&it.name().to_string());
            if root == "*" || n == root || n.contains(&root) && root.len() > 12 || n.ends_with(&format!("::{}", root)) {
                found = true;
                let i = match Instance::try_from(it) {
                    Ok(i) => i,
                    Err(_) => {
                        println!("generic {}", n);
                        continue;
                    }
                };
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&n, i))).is_err() { println!("ENGINE PANIC {}", n); }
            }
        }
        if !found {
            println!("no function {}", root);
        }
    }
}
pub fn one(n: &str, i: Instance) {
    let mut en = En::new();
    if std::env::var("RASN_MODEL").is_ok() {
        crate::model::install(&mut en);
    }
    let info = match en.info(i) {
        Some(x) => x,
        None => return println!("no body"),
    };
    let mut args = vec![];
    for (j, l) in info.body.arg_locals().iter().enumerate() {
        let a = sym(key(&format!("a{}", j)), l.ty);
        if let Val::Slice(s) = &a {
            if let SBase::Sym(k, _) = &s.base {
                crate::model::set_region_len(*k, s.len.clone());
            }
        }
        args.push(a);
    }
    let t = std::time::Instant::now();
    println!("==== {} ({})", n, args.iter().map(|a| a.show()).collect::<Vec<_>>().join(", "));
    let outs = en.run(State::default(), i, args);
    println!("-- {} returns, {} ends, {} steps, {} loops, {:?}", outs.len(), en.ends.len(), en.steps, en.recs.len(), t.elapsed());
    if std::env::var("RASN_BRIEF").is_ok() {
        let mut m: std::collections::BTreeMap<String, usize> = Default::default();
        for e in &en.ends {
            *m.entry(format!("END {:?} at {} {} {}", e.kind, e.func, e.span, e.chain.iter().skip(1).cloned().collect::<Vec<_>>().join(" > "))).or_default() += 1;
        }
        for (k, n) in m {
            println!("{} x{}", k, n);
        }
        for r in en.recs.iter().filter(|r| r.measure.is_none()) {
            println!("LOOP without measure {} {}", r.func, r.span);
        }
        return;
    }
    let max = std::env::var("RASN_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(40);
    for (s, v) in outs.iter().take(max) {
        println!("RET {}", v.show());
        for f in s.facts.show() {
            println!("      {}", f);
        }
        for (k, v) in s.heap.iter() {
            println!("      heap {} = {}", key_name(*k), v.show());
        }
        for e in s.trace.iter() {
            println!("      ev {}", show_event(e));
        }
    }
    for e in en.ends.iter().take(max) {
        println!("END {:?} at {} {}", e.kind, e.func, e.span);
        for c in &e.chain {
            println!("      in {}", c);
        }
        for f in e.state.facts.show() {
            println!("      {}", f);
        }
    }
    for (j, r) in en.recs.iter().enumerate() {
        println!("LOOP {} {} {} backs {} exits {} measure {:?}", j, r.func, r.span, r.backs.len(), r.exits.len(), r.measure);
        for (f, s) in &r.inv {
            println!("      inv {} in {}", f.show(), s.show());
        }
        for (b, y) in r.backs.iter().zip(r.ys.iter()) {
            println!("   BACK");
            for f in b.facts.show() {
                println!("      {}", f);
            }
            for (a, f) in y {
                println!("      {} := {}", atom_name(*a), f.show());
            }
            for e in b.trace.iter().skip(r.tlen) {
                println!("      ev {}", show_event(e));
            }
        }
    }
}
pub fn show_event(e: &Event) -> String {
    match e {
        Event::Emit(s, p) => format!("emit {} {}", s, show_pieces(p)),
        Event::Call(n, a) => format!("call {} ({})", n, a.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
        Event::Loop(i) => format!("loop {}", i),
    }
}
