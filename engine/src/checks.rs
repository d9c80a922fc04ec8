//! The registry of checks: which analyses decide which property.
use crate::interp::CUT;
use crate::report::Report;
use crate::der::*;
use crate::console::*;
use crate::print::*;
use crate::stream::*;
use crate::x509::*;

pub fn run(id: &str) {
    let krate = std::env::var("RASN_CRATE").unwrap_or_default();
    let mut rep = Report::new(id);
    let t = std::time::Instant::now();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if krate == "rx509" {
            lib(id, &mut rep);
        } else {
            bin(id, &mut rep);
        }
    }));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        rep.undecided("analysis", "engine", &format!("the engine failed: {}", m), vec![]);
    }
    rep.time.insert("total".into(), t.elapsed().as_secs_f64());
    if let Ok(p) = std::env::var("RASN_OUT") {
        std::fs::write(format!("{}/{}.{}.json", p, id, krate), rep.json()).expect("report written");
    }
}

fn lib(id: &str, rep: &mut Report) {
    match id {
        // every analysis once, for development
        "ALL" => {
            paths(rep, check_length);
            paths(rep, check_element);
            check_identifier(rep);
            paths(rep, check_as_i32);
            paths(rep, check_bit_string);
            check_wrappers(rep);
            paths(rep, check_certificate);
            paths(rep, check_extension);
            paths(rep, check_extensions);
            paths(rep, check_name);
            check_is_valid(rep);
            check_protocol(rep);
            check_labels(rep);
            check_hex(rep);
            check_oid_display(rep);
            check_printers(rep);
            check_asn_display(rep);
            check_error_display(rep);
            crate::events::check_events(rep);
        }
        "C33" | "C34" => {
            check_protocol(rep);
            check_printers(rep);
        }
        "C38" => {
            check_error_display(rep);
            paths(rep, check_length);
            check_identifier(rep);
            paths(rep, check_element);
            paths(rep, check_bit_string);
            paths(rep, check_certificate);
            paths(rep, check_extension);
            paths(rep, check_extensions);
            paths(rep, check_name);
        }
        "C40" => check_asn_display(rep),
        "C01" => crate::observe::check_panics(rep, true),
        "C02" => crate::observe::check_termination(rep, true),
        "C04" => crate::observe::check_allocation(rep),
        "C03" => crate::effects::check_recursion(rep),
        "C05" => crate::effects::check_effects(rep),
        "C37" => {}
        "C35" => check_labels(rep),
        "C31" => check_oid_display(rep),
        "C32" => crate::events::check_events(rep),
        "C36" => check_hex(rep),
        "C06" => {
            paths(rep, check_length);
            paths(rep, check_element);
        }
        "C07" | "C09" | "C12" | "C13" | "C14" | "C15" => paths(rep, check_element),
        "C08" => {
            check_identifier(rep);
            paths(rep, check_element);
        }
        "C10" => {
            paths(rep, check_as_i32);
            paths(rep, check_element);
        }
        "C11" => {
            paths(rep, check_bit_string);
            paths(rep, check_element);
        }
        "C16" | "C17" | "C18" => {
            if id == "C16" {
                check_wrappers(rep);
            }
            paths(rep, check_certificate);
            paths(rep, check_extension);
            paths(rep, check_extensions);
            paths(rep, check_name);
        }
        "C28" => {
            paths(rep, check_certificate);
            check_is_valid(rep);
        }
        "C19" | "C20" | "C21" | "C29" => paths(rep, check_certificate),
        "C22" => {
            paths(rep, check_extension);
            paths(rep, check_extensions);
        }
        "C23" | "C24" | "C25" | "C26" | "C30" => paths(rep, check_extension),
        "C27" => paths(rep, check_name),
        _ => rep.undecided("registry", "checks.rs", &format!("no analysis for {}", id), vec![]),
    }
}
/// what is left open for any number of iterations is looked at on the paths of the first few: that shows
/// nothing more to hold, but it shows some ways to break a property
fn paths(rep: &mut Report, f: fn(&mut Report)) {
    let n = rep.undecided.len();
    f(rep);
    if rep.undecided.len() == n {
        return;
    }
    let mut two = Report::new(&rep.prop);
    CUT.with(|c| c.set(3));
    f(&mut two);
    CUT.with(|c| c.set(0));
    rep.count("functions analysed again for a few iterations", two.roots.len() as u64);
    for v in two.violations {
        rep.violation(&v.rule, &v.site, &v.msg, v.detail);
    }
}
fn bin(id: &str, rep: &mut Report) {
    match id {
        "ALL" => {
            check_printers(rep);
            check_generic_printer(rep);
            crate::tool::check_tool(rep);
        }
        "C33" => {
            check_printers(rep);
            check_generic_printer(rep);
        }
        "C34" => check_printers(rep),
        "C01" => crate::observe::check_panics(rep, false),
        "C02" => crate::observe::check_termination(rep, false),
        "C03" => crate::effects::check_recursion(rep),
        "C36" | "C40" => check_generic_printer(rep),
        "C37" => crate::tool::check_tool(rep),
        _ => {}
    }
}
