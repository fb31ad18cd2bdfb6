//! rustc driver that dumps type-checked, resolved MIR as JSON facts.
//!
//! Used as RUSTC_WRAPPER: argv = [driver, rustc, args...].  Crates that are not
//! listed in MIRFACTS_MONO / MIRFACTS_CRATES are compiled unchanged.
#![feature(rustc_private)]
#![feature(exitcode_exit_method)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    mono: Vec<String>,
    poly: Vec<String>,
    text: Vec<String>,
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if self.text.contains(&name) {
            dump::text(tcx, &format!("{}/{}.json", self.out, name));
        } else if self.mono.contains(&name) {
            dump::dump(tcx, true, &format!("{}/{}.json", self.out, name));
        } else if self.poly.contains(&name) {
            dump::dump(tcx, false, &format!("{}/{}.json", self.out, name));
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper protocol: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let list = |k: &str| -> Vec<String> {
        std::env::var(k)
            .unwrap_or_default()
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|s| s.to_string())
            .collect()
    };
    let mut cb = Cb {
        mono: list("MIRFACTS_MONO"),
        poly: list("MIRFACTS_CRATES"),
        text: list("MIRFACTS_TEXT"),
        out: std::env::var("MIRFACTS_OUT").unwrap_or_else(|_| "/tmp".into()),
    };
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    });
    code.exit_process()
}
