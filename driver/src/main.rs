//! Dumps the resolved MIR and item tables of the crate being compiled as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
mod dump;

use rustc_driver::Compilation;
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, _c: &mut interface::Config) {}
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("MIRDUMP_OUT") {
            dump::dump(tcx, &out);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the path of the real rustc first
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "binate".into());
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    if name.as_deref() == Some(want.as_str()) && !args.iter().any(|a| a == "--test") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Awarnings".into());
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
    } else {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
    }
}
