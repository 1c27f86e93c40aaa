//! mirsrv: a rustc driver that serves monomorphised MIR of the crate graph over a Unix socket.
//!
//! Used as RUSTC_WRAPPER it records the command line of the harness crate (MIRSRV_RECORD) and otherwise
//! behaves as plain rustc.  `mirsrv --serve SOCK ARGSFILE` replays that command line up to the end of
//! analysis and then answers one JSON request per connection.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

mod json;
mod serve;

use std::io::Write;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "--serve" {
        let sock = args[2].clone();
        let text = std::fs::read_to_string(&args[3]).expect("args file");
        let mut rargs: Vec<String> = Vec::new();
        for line in text.split('\x01') {
            if let Some(kv) = line.strip_prefix("ENV ") {
                if let Some((k, v)) = kv.split_once('=') {
                    unsafe { std::env::set_var(k, v) };
                }
            } else if let Some(d) = line.strip_prefix("CWD ") {
                std::env::set_current_dir(d).expect("cwd");
            } else if let Some(a) = line.strip_prefix("ARG ") {
                rargs.push(a.to_string());
            }
        }
        let r: Result<(), rustc_public::CompilerError<()>> = run_with_tcx!(&rargs, |tcx| {
            serve::serve(tcx, &sock);
            std::ops::ControlFlow::<(), ()>::Break(())
        });
        match r {
            Err(rustc_public::CompilerError::Interrupted(_)) => std::process::exit(0),
            e => {
                eprintln!("mirsrv: compilation ended with {:?}", e);
                std::process::exit(3);
            }
        }
    }
    // wrapper mode: mirsrv rustc args...
    let rest: Vec<String> = args[1..].to_vec();
    if let Ok(rec) = std::env::var("MIRSRV_RECORD") {
        if let Ok(krate) = std::env::var("MIRSRV_CRATE") {
            let mut is = false;
            for w in rest.windows(2) {
                if w[0] == "--crate-name" && w[1] == krate {
                    is = true;
                }
            }
            if is {
                let mut f = std::fs::File::create(&rec).expect("record");
                let mut s = String::new();
                for (k, v) in std::env::vars() {
                    if k.starts_with("CARGO") || k == "OUT_DIR" {
                        s.push_str(&format!("ENV {}={}\x01", k, v));
                    }
                }
                s.push_str(&format!("CWD {}\x01", std::env::current_dir().unwrap().display()));
                for a in &rest {
                    s.push_str(&format!("ARG {}\x01", a));
                }
                f.write_all(s.as_bytes()).unwrap();
            }
        }
    }
    let st = std::process::Command::new(&rest[0]).args(&rest[1..]).status().expect("rustc");
    std::process::exit(st.code().unwrap_or(1));
}
