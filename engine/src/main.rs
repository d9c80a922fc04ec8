#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

mod checks;
mod debug;
mod events;
mod tool;
mod der;
mod effects;
mod form;
mod graph;
mod interp;
mod loops;
mod model;
mod natives;
mod observe;
mod print;
mod stream;
mod console;
mod report;
mod source;
mod spec;
mod val;
mod walk;
mod x509;

use rustc_public::{run, run_with_tcx};
use rustc_middle::ty::TyCtxt;
use std::ops::ControlFlow;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let crate_name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let crates = std::env::var("RASN_CRATES").or(std::env::var("RASN_CRATE")).unwrap_or_default();
    if crates.split(',').any(|c| c == crate_name) {
        std::env::set_var("RASN_CRATE", &crate_name);
        let _ = run_with_tcx!(&args, analyse);
    } else {
        let _ = run!(&args, || -> ControlFlow<(), ()> { ControlFlow::Continue(()) });
    }
}

fn analyse(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    source::gather(tcx);
    if let Ok(r) = std::env::var("RASN_ROOT") {
        if r == "GRAPH" { effects::dump(); } else { debug::run(&r); }
    }
    if let Ok(c) = std::env::var("RASN_CHECK") {
        checks::run(&c);
    }
    ControlFlow::Continue(())
}
