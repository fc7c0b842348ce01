//! The listed findings, each demonstrated in a process of its own on an ordinary stack.
use crate::props::deep::{Boxes, Lists};
use nanoserde::*;
use std::process::ExitCode;

const LEVELS: usize = 1_000_000;

/// Ends with status 0 when the input is answered as it should be; a defect ends the process.
pub fn run(name: &str) -> ExitCode {
    let name = name.to_string();
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || match name.as_str() {
        // well-formed and cut short: any answer but the end of the process will do
        "deep-bin" => {
            let _ = Boxes::deserialize_bin(&[1].repeat(LEVELS));
            true
        }
        "deep-json" => {
            let _ = Lists::deserialize_json(&"[".repeat(LEVELS));
            true
        }
        "deep-ron" => {
            let _ = Lists::deserialize_ron(&"[".repeat(LEVELS));
            true
        }
        _ => false,
    });
    ExitCode::from(!matches!(t.unwrap().join(), Ok(true)) as u8)
}
