//! The program's own main function (a copy of /repo/src/main.rs without inner attributes, written by run.py).
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/main.rs"));
pub fn go() -> bool { std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS }
