//! mmfacts: a rustc wrapper that, after type checking a workspace crate, writes
//! the crate's MIR (with everything it calls in the workspace, monomorphised
//! where the call site allows) as one JSON fact file. Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
    big: bool,
}

impl Callbacks for Cb {
    /// The second pass reads the crate as a big-endian target would see it: the
    /// `target_endian` cfg is flipped before any module is parsed or expanded.
    fn after_crate_root_parsing(
        &mut self,
        compiler: &interface::Compiler,
        _krate: &mut rustc_ast::Crate,
    ) -> Compilation {
        if self.big {
            let key = rustc_span::Symbol::intern("target_endian");
            let little = (key, Some(rustc_span::Symbol::intern("little")));
            let big = (key, Some(rustc_span::Symbol::intern("big")));
            // The session is not shared yet; the callback API only hands out `&`.
            #[allow(invalid_reference_casting)]
            unsafe {
                let sess = &compiler.sess as *const rustc_session::Session as *mut rustc_session::Session;
                (*sess).config.shift_remove(&little);
                (*sess).config.insert(big);
            }
        }
        Compilation::Continue
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            dump::dump(tcx, out, self.big);
        }
        Compilation::Continue
    }
}

fn main() {
    // As RUSTC_WORKSPACE_WRAPPER: argv = [mmfacts, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let dir = std::env::var("MMFACTS_OUT").unwrap_or_default();
    let big = std::env::var("MMFACTS_ENDIAN").as_deref() == Ok("big");
    let mut name = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned();
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    let kind = if args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin") { "bin" } else { "lib" };
    let out = match (&name, dir.is_empty()) {
        (Some(n), false) if n != "___" && n != "build_script_build" && !is_test => {
            Some(format!("{}/{}.{}.json", dir, n, kind))
        }
        _ => None,
    };
    let mut cb = Cb { out, big };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
