//! disfacts: a rustc driver that, instead of generating code, writes the type-checked,
//! monomorphised MIR of the crate under analysis (and the facts about its types that the
//! rules need) as JSON.  It is injected by cargo as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_data_structures;

mod facts;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("DISFACTS_OUT") {
            facts::dump(tcx, &out);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    args.remove(0);
    let want = std::env::var("DISFACTS_CRATE").unwrap_or_else(|_| "open_dis_rust".into());
    let mut is_target = false;
    let mut is_test = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" && args.get(i + 1).map(|s| s == &want).unwrap_or(false) { is_target = true; }
        if a == "--test" { is_test = true; }
    }
    if is_target && !is_test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Coverflow-checks=on".into());
        args.push("--cap-lints=allow".into());
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    } else {
        struct Plain;
        impl Callbacks for Plain {}
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));
    }
}
