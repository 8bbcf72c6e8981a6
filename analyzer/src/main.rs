//! Facts extractor: a rustc driver that compiles one crate exactly as the build does and, after
//! analysis, writes the type-checked program (items, types, MIR with resolved callees) as JSON
//! lines for the rules in /verif/rules.
#![feature(rustc_private)]
#![allow(clippy::too_many_arguments)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Extract {
    out: String,
}

impl Callbacks for Extract {
    fn config(&mut self, config: &mut interface::Config) {
        // Keep the MIR close to the source: no inlining, no jump threading.
        config.opts.unstable_opts.mir_opt_level = Some(0);
        // No inserted runtime checks of raw pointers: they are not part of the program's meaning.
        for pass in ["CheckAlignment", "CheckNull", "CheckEnums", "ElaborateBoxDerefs"] {
            config
                .opts
                .unstable_opts
                .mir_enable_passes
                .push((pass.to_string(), false));
        }
    }

    fn after_analysis<'tcx>(
        &mut self,
        _compiler: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    // As RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...].
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let target = std::env::var("FACTS_CRATE").unwrap_or_default();
    let out = std::env::var("FACTS_OUT").unwrap_or_default();
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned();
    let is_target = !target.is_empty() && krate.as_deref() == Some(target.as_str());
    rustc_driver::catch_with_exit_code(move || {
        if is_target && !out.is_empty() {
            rustc_driver::compiler_entrypoint(&args, &mut Extract { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
