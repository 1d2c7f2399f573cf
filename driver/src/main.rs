#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_index;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
mod dump;
mod facts;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;
use rustc_span::source_map::{FileLoader, RealFileLoader};
use std::path::{Path, PathBuf};
use std::sync::Arc;

struct Loader { spec: Option<String> }
impl FileLoader for Loader {
    fn file_exists(&self, p: &Path) -> bool { RealFileLoader.file_exists(p) }
    fn read_file(&self, p: &Path) -> std::io::Result<String> {
        let mut s = RealFileLoader.read_file(p)?;
        if let Some(spec) = &self.spec {
            if p.ends_with("src/lib.rs") && !p.to_string_lossy().contains(".cargo") {
                s.push_str(&format!("\n#[allow(warnings)] #[path = \"{spec}\"] pub mod verif_spec;\n"));
            }
        }
        Ok(s)
    }
    fn read_binary_file(&self, p: &Path) -> std::io::Result<Arc<[u8]>> { RealFileLoader.read_binary_file(p) }
    fn current_directory(&self) -> std::io::Result<PathBuf> { RealFileLoader.current_directory() }
}

struct Cb { out: String, spec: Option<String> }
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.file_loader = Some(Box::new(Loader { spec: self.spec.clone() }));
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].contains("rustc") { args.remove(0); }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let out = std::env::var("VERIF_OUT").ok();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1].contains("lib"));
    rustc_driver::catch_with_exit_code(|| match (name.as_str(), out) {
        ("rustica", Some(out)) if is_lib => {
            let mut cb = Cb { out, spec: std::env::var("VERIF_SPEC").ok() };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        }
        _ => { rustc_driver::compiler_entrypoint(&args, &mut Plain); }
    })
}
