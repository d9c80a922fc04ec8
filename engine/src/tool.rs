//! The command line tool (C37): what main does with its arguments, the file and the decoders, on every path
//! and for every failure of the file system. Files, arguments and the decoders are stood for by what they
//! are asked for and symbolic answers.
use crate::form::*;
use crate::interp::*;
use crate::natives::as_slice;
use crate::report::Report;
use crate::spec::*;
use crate::val::*;
use crate::walk::ty_of;
use crate::x509::{analyse_with, sym_args_as};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::rc::Rc;

const P: &[&str] = &["C37"];
const RULE: &str = "on every path, the tool decodes the whole named file with the chosen decoder, or nothing and fails";

fn ret_of(en: &mut En, inst: Instance) -> R<Ty> {
    match en.info(inst) {
        Some(i) => Ok(i.body.ret_local().ty),
        None => match inst.ty().kind().fn_sig() {
            Some(s) => Ok(s.skip_binder().output()),
            None => unsup("type of a result"),
        },
    }
}
fn call(en: &En, st: &State, what: &str, args: &[Val]) -> State {
    let mut s = st.clone();
    let a: Vec<Val> = args.iter().map(|a| en.snapshot(st, a)).collect();
    s.emit(Event::Call(format!("tool:{}", what), Rc::new(a)));
    s
}
fn count(st: &State, what: &str) -> usize {
    st.trace.iter().filter(|e| matches!(e, Event::Call(n, _) if n.strip_prefix("tool:") == Some(what))).count()
}
/// the answer Ok or Err, both with the given name
fn answer(st: State, t: Ty, name: &str) -> Vec<(State, Val)> {
    vec![(st, sym(key(name), t))]
}
fn file_region() -> (KeyId, Form) {
    (key("file"), Form::atom(atom(AtomKind::Named("file.len".into()), 0, LEN_MAX)))
}
fn text(en: &En, st: &State, v: &Val) -> R<SliceV> {
    let v = loaded(en, st, v)?;
    as_slice(en, st, &v)
}
/// argument number i of the command line
fn argument(en: &En, st: &State, i: i128) -> R<SliceV> {
    let t = STRING.with(|s| *s.borrow());
    match t {
        Some(t) => {
            let v = sym_elem(key("argv"), &Form::k(i), t);
            as_slice(en, st, &Val::Ref(Pl::new(Base::Const(Rc::new(v)))))
        }
        None => unsup("the arguments are never taken"),
    }
}
thread_local! {
    static STRING: std::cell::RefCell<Option<Ty>> = const { std::cell::RefCell::new(None) };
}
fn argc() -> Form {
    Form::atom(atom(AtomKind::Named("argc".into()), 0, 1 << 32))
}

fn install(en: &mut En) {
    en.foreign_events = true;
    let mut hook = |n: &str, f: Hook| {
        en.hooks.insert(n.to_string(), f);
    };
    hook(
        "std::env::args",
        Rc::new(|en, st, inst, _| {
            let t = ret_of(en, inst)?;
            let next = crate::natives::method_on("std::iter::Iterator", "next", t);
            let item = match next.and_then(|i| ret_of(en, i).ok()).and_then(|t| generic_ty(t, 0)) {
                Some(t) => t,
                None => return unsup("the type of an argument"),
            };
            STRING.with(|s| *s.borrow_mut() = Some(item));
            let s = SliceV { base: SBase::Sym(key("argv"), item), start: Form::k(0), len: argc() };
            Ok(Some(vec![(st.clone(), Val::Iter(Rc::new(IterV::Slice(s, true))))]))
        }),
    );
    hook(
        "std::fs::File::open",
        Rc::new(|en, st, inst, a| {
            let t = ret_of(en, inst)?;
            let path = Val::Slice(Rc::new(text(en, st, &a[0])?));
            let s = call(en, st, "open", &[path]);
            let n = format!("opened{}", count(&s, "open"));
            Ok(Some(answer(s, t, &n)))
        }),
    );
    let whole = |st: &State, t: Ty, e: Ty, v: &mut dyn FnMut(Val, bool) -> (State, Val)| -> Vec<(State, Val)> {
        let _ = (st, t);
        let (k, n) = file_region();
        let good = v(Val::Vec(Rc::new(VecV { elem: e, base: Some((k, n)), items: vec![] })), true);
        let part = Form::atom(atom(AtomKind::Named("part.len".into()), 0, LEN_MAX));
        let bad = v(Val::Vec(Rc::new(VecV { elem: e, base: Some((key("part"), part)), items: vec![] })), false);
        vec![good, bad]
    };
    hook(
        "std::fs::read",
        Rc::new(move |en, st, inst, a| {
            let t = ret_of(en, inst)?;
            let path = Val::Slice(Rc::new(text(en, st, &a[0])?));
            let s = call(en, st, "open", &[path]);
            let s = call(en, &s, "read", &[]);
            let vt = variant_fields(t, 0)[0];
            let e = generic_ty(vt, 0).unwrap_or_else(|| Ty::unsigned_ty(UintTy::U8));
            Ok(Some(whole(st, t, e, &mut |v, ok| match ok {
                true => (call(en, &s, "whole", &[]), Val::en(t, 0, vec![v])),
                false => (call(en, &s, "failed", &[]), Val::en(t, 1, vec![sym(key("read!err"), variant_fields(t, 1)[0])])),
            })))
        }),
    );
    let read: Hook = Rc::new(move |en, st, inst, a| {
        let t = ret_of(en, inst)?;
        let v = match en.load(st, &a[1])? {
            Val::Vec(v) if v.base.is_none() && v.items.is_empty() => v,
            v => return unsup(format!("reading into {}", v.show_d(2))),
        };
        let s = call(en, st, "read", &[]);
        let some = count(&s, "take") > 0;
        let mut out = vec![];
        for (s2, c) in whole(st, t, v.elem, &mut |v, ok| (call(en, &s, if ok { "whole" } else { "failed" }, &[]), v)) {
            let mut s2 = s2;
            let good = count(&s2, "whole") > count(&s, "whole");
            let n = match &c {
                Val::Vec(v) => v.len(),
                _ => Form::k(0),
            };
            // a limited reader may stop early
            let c = match &c {
                Val::Vec(v) if some => Val::Vec(Rc::new(VecV { elem: v.elem, base: Some((key("part"), v.len())), items: vec![] })),
                _ => c,
            };
            en.store(&mut s2, &a[1], c)?;
            let r = if good { Val::en(t, 0, vec![Val::Int(n)]) } else { Val::en(t, 1, vec![sym(key("read!err"), variant_fields(t, 1)[0])]) };
            out.push((s2, r));
        }
        Ok(Some(out))
    });
    hook("std::io::Read::take", Rc::new(|en, st, inst, _| Ok(Some(answer(call(en, st, "take", &[]), ret_of(en, inst)?, "taken")))));
    hook("<std::io::Take<T> as std::io::Read>::read_to_end", read.clone());
    hook("std::io::Read::read_to_end", read.clone());
    hook("<std::fs::File as std::io::Read>::read_to_end", read.clone());
    hook("<&std::fs::File as std::io::Read>::read_to_end", read.clone());
    for n in ["parse_all::parse_all", "parse_all", "der::parse_all"] {
        hook(
            &format!("rx509::der::{}", n),
            Rc::new(|en, st, inst, a| {
                let t = ret_of(en, inst)?;
                let b = Val::Slice(Rc::new(text(en, st, &a[0])?));
                let h = match &a[1] {
                    Val::Dyn(p, _) => loaded(en, st, p)?,
                    v => loaded(en, st, v)?,
                };
                let s = call(en, st, "der", &[b, h]);
                Ok(Some(answer(s, t, "der!result")))
            }),
        );
    }
    let cert: Hook = Rc::new(|en, st, inst, a| {
        let t = ret_of(en, inst)?;
        let b = Val::Slice(Rc::new(text(en, st, &a[0])?));
        let s = call(en, st, "certs", &[b]);
        Ok(Some(answer(s, t, "cert!result")))
    });
    hook("rx509::x509::Certificate::<'a>::parse", cert.clone());
    hook("rx509::x509::Certificate::parse", cert.clone());
    let print: Hook = Rc::new(|en, st, _, a| {
        let c = loaded(en, st, &a[0])?;
        let p = match &a[1] {
            Val::Dyn(p, _) => loaded(en, st, p)?,
            v => loaded(en, st, v)?,
        };
        let s = call(en, st, "print", &[c, p]);
        Ok(Some(vec![(s, Val::unit())]))
    });
    hook("<rx509::x509::Certificate<'a> as rx509::x509::printer::Printable>::print", print.clone());
    hook("<rx509::x509::Certificate as rx509::x509::printer::Printable>::print", print.clone());
}

/// the text is exactly this constant
fn is_text(en: &En, st: &State, s: &SliceV, want: &str) -> R<bool> {
    if !zero(en, st, &s.len.addk(-(want.len() as i128)))? {
        return Ok(false);
    }
    for (i, b) in want.bytes().enumerate() {
        match en.slice_elem(st, s, &Form::k(i as i128))? {
            Val::Int(f) => {
                if !zero(en, st, &f.addk(-(b as i128)))? {
                    return Ok(false);
                }
            }
            v => return unsup(format!("character {}", v.show_d(1))),
        }
    }
    Ok(true)
}
fn named(v: &Val, prefix: &str, en: &En, st: &State) -> bool {
    match loaded(en, st, v) {
        Ok(Val::Sym(k, _)) if key_name(k).starts_with(prefix) => true,
        Ok(v) => match struct_fields(&v) {
            Ok(f) => f.iter().any(|(_, x)| named(x, prefix, en, st)),
            Err(_) => false,
        },
        Err(_) => false,
    }
}
/// how a path ends
enum Fate {
    Fails(String),
    Succeeds,
}
fn tool(en: &En, st: &State, fate: &Fate) -> R<Verdict> {
    let calls: Vec<(&str, &Vec<Val>)> = st
        .trace
        .iter()
        .filter_map(|e| match e {
            Event::Call(n, a) => n.strip_prefix("tool:").map(|n| (n, &**a)),
            _ => None,
        })
        .collect();
    for e in st.trace.iter() {
        match e {
            Event::Call(n, _) if !n.starts_with("tool:") && !n.starts_with("alloc:") => return unsup(format!("call of {}", n)),
            Event::Loop(_) => return unsup("a loop"),
            _ => {}
        }
    }
    let of = |n: &str| calls.iter().filter(|c| c.0 == n).cloned().collect::<Vec<_>>();
    let decodings: Vec<&str> = calls.iter().map(|c| c.0).filter(|n| *n == "der" || *n == "certs").collect();
    let nothing = |why: &str| -> R<Verdict> {
        if let Some(d) = decodings.first() {
            return broken(P, format!("something is decoded ({}) {}", d, why));
        }
        match fate {
            Fate::Fails(_) => holds(),
            Fate::Succeeds => broken(P, format!("the tool ends with success {}", why)),
        }
    };
    if !zero(en, st, &argc().addk(-3))? {
        return nothing("though there are not two arguments");
    }
    let flag = argument(en, st, 1)?;
    let which = if is_text(en, st, &flag, "--der")? {
        "der"
    } else if is_text(en, st, &flag, "--certs")? {
        "certs"
    } else {
        return nothing("though the flag is unknown");
    };
    let open = of("open");
    let path = match open.len() {
        0 => return broken(P, format!("no file is opened for --{}", which)),
        1 => as_slice(en, st, &open[0].1[0])?,
        _ => return unsup("several files are opened"),
    };
    if !same_slice(en, st, &path, &argument(en, st, 2)?)? {
        return broken(P, format!("{} is opened instead of the named file", show_slice(&path)));
    }
    if of("read").is_empty() || !of("failed").is_empty() {
        // the file was not opened, or not read
        return nothing("though the file cannot be read");
    }
    let d = of(which);
    if decodings != [which] {
        return broken(P, format!("for --{} the decoders run are {:?}", which, decodings));
    }
    let b = as_slice(en, st, &d[0].1[0])?;
    let (k, n) = file_region();
    let exact = matches!(&b.base, SBase::Sym(x, _) if *x == k) && zero(en, st, &b.start)? && zero(en, st, &b.len.sub(&n))?;
    if !exact {
        return match &b.base {
            SBase::Sym(x, _) if *x != k && key_name(*x) != "part" => unsup(format!("{} is decoded", show_slice(&b))),
            _ => broken(P, format!("{} is decoded instead of the whole file", show_slice(&b))),
        };
    }
    let fresh = |v: &Val, name: &str| -> R<Option<String>> {
        let v = match v {
            Val::Dyn(p, _) => loaded(en, st, p)?,
            v => loaded(en, st, v)?,
        };
        let t = ty_of(&v).map(adt_name).unwrap_or_default();
        if !t.ends_with(name) {
            return Ok(Some(format!("{} is used instead of {}", t, name)));
        }
        for (i, f) in struct_fields(&v)? {
            match f {
                Val::Int(f) if zero(en, st, &f)? => {}
                f => return Ok(Some(format!("the printer starts with {} {}", i, f.show_d(2)))),
            }
        }
        Ok(None)
    };
    let result = if which == "der" { "der!result" } else { "cert!result" };
    let k = key(result);
    let failed = {
        let t = st.trace.len();
        let _ = t;
        let d = Form::atom(atom(AtomKind::Discr(k), 0, 1));
        !zero(en, st, &d)?
    };
    if which == "der" {
        if let Some(m) = fresh(&d[0].1[1], "ParsePrinter")? {
            return broken(P, m);
        }
    }
    let prints = of("print");
    if failed {
        if !prints.is_empty() {
            return broken(P, "something is printed though decoding fails");
        }
        let shown = st.trace.iter().any(|e| match e {
            Event::Emit(sink, p) if sink == "stderr" => p.iter().any(|p| matches!(p, Piece::Arg(a) if named(&a.val, result, en, st))),
            _ => false,
        });
        // main reports the error it returns
        let returned = matches!(fate, Fate::Fails(m) if m == "returned");
        return if shown {
            holds()
        } else if returned {
            unsup("the error is returned")
        } else {
            broken(P, "the decoding error is not shown on standard error")
        };
    }
    if let Fate::Fails(m) = fate {
        return broken(P, format!("the tool fails ({}) though decoding succeeds", m));
    }
    if which == "certs" {
        if prints.len() != 1 {
            return broken(P, format!("the certificate is printed {} times", prints.len()));
        }
        if !named(&prints[0].1[0], "cert!result", en, st) {
            return unsup("what is printed is not the decoded certificate");
        }
        if let Some(m) = fresh(&prints[0].1[1], "ConsoleLinePrinter")? {
            return broken(P, m);
        }
    } else if !prints.is_empty() {
        return broken(P, "a certificate is printed for --der");
    }
    holds()
}

pub fn check_tool(rep: &mut Report) {
    let inst = match crate::model::find_fn("main") {
        Some(i) => i,
        None => {
            rep.undecided(RULE, "main", "the main function is not found", vec![]);
            return;
        }
    };
    let mut en = En::new();
    install(&mut en);
    let args = match sym_args_as(&mut en, inst, "m") {
        Some(a) => a,
        None => return,
    };
    let mut r = match analyse_with(rep, en, inst, State::default(), args) {
        Some(r) => r,
        None => return,
    };
    let (site, outs) = (r.site.clone(), std::mem::take(&mut r.outs));
    for (st, v) in &outs {
        obligation(&mut r.en, rep, RULE, &site, st, &v.show_d(3), &mut |en, st, _| {
            let v = loaded(en, st, v)?;
            let fate = match ty_of(&v).map(adt_name) {
                Some(n) if n.ends_with("Result") => {
                    let (i, _) = en.enum_fields(st, &v)?;
                    if i == 0 {
                        Fate::Succeeds
                    } else {
                        Fate::Fails("returned".into())
                    }
                }
                Some(n) if n.ends_with("ExitCode") => return unsup("exit code"),
                _ => Fate::Succeeds,
            };
            tool(en, st, &fate)
        });
    }
    let ends: Vec<End> = r.en.ends.iter().filter(|e| !matches!(e.kind, EndKind::Unsup(_))).cloned().collect();
    for e in &ends {
        let place = format!("{} at {}", e.func, e.span);
        obligation(&mut r.en, rep, RULE, &place, &e.state, "", &mut |en, st, _| {
            let fate = match &e.kind {
                EndKind::Exit(c) => {
                    let c = en.as_int(st, c)?;
                    match c.constant() {
                        Some(c) if c.rem_euclid(256) == 0 => Fate::Succeeds,
                        Some(c) => Fate::Fails(format!("exit code {}", c)),
                        None if st.facts.vset(&c).inter(&VSet::range(-255, 255)) != st.facts.vset(&c) => return unsup("exit code"),
                        None if zero(en, st, &c)? => Fate::Succeeds,
                        None => Fate::Fails(format!("exit code {}", c.show())),
                    }
                }
                EndKind::Panic(m) => Fate::Fails(format!("panic: {}", m)),
                EndKind::Unsup(m) => return unsup(m.clone()),
            };
            tool(en, st, &fate)
        });
    }
    rep.count("ways to end", (outs.len() + ends.len()) as u64);
}
