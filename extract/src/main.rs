mod desugar;
mod emit;
mod load;
mod outline;
mod sidecar;
mod util;

use std::collections::BTreeSet;

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut repo, mut spec, mut out, mut meta) = (String::from("/repo"), String::new(), String::new(), String::new());
    let mut external: BTreeSet<String> = BTreeSet::new();
    let mut roots: Vec<String> = vec![];
    let mut mode = String::from("A");
    let mut only: Vec<String> = vec![];
    let mut plain = String::new();
    let mut known_only = false; // functions without a contract are not verified
    let mut trust = false;
    let mut vacuity = false; // add an assertion that must fail to every verified function
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("argument value");
        match a.as_str() {
            "--repo" => repo = v(),
            "--spec" => spec = v(),
            "--out" => out = v(),
            "--meta" => meta = v(),
            "--plain" => plain = v(),
            "--mode" => mode = v(),
            "--trust-proofs" => trust = true, // another run verifies the proof functions
            "--known-only" => known_only = true,
            "--vacuity" => vacuity = true,
            "--external" => { for f in v().split(';') { if !f.is_empty() { external.insert(f.to_string()); } } }
            "--external-file" => { for f in std::fs::read_to_string(v()).unwrap().lines() { external.insert(f.to_string()); } }
            "--roots" => roots = v().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--only" => only = v().split(';').map(|s| s.to_string()).collect(),
            x => { eprintln!("unknown argument {x}"); std::process::exit(2); }
        }
    }
    let text = match load::load_crate(&repo) { Ok(t) => t, Err(e) => { eprintln!("LOAD {e}"); std::process::exit(3); } };
    let text = match desugar::desugar(text, mode == "B") { Ok(t) => t, Err(e) => { eprintln!("DESUGAR {e}"); std::process::exit(3); } };
    let mut side = match sidecar::load(&spec, &mode) { Ok(s) => s, Err(e) => { eprintln!("SIDECAR {e}"); std::process::exit(2); } };
    let text = match outline::outline(text, &mut side) { Ok(t) => t, Err(e) => { eprintln!("DESUGAR {e}"); std::process::exit(3); } };
    if !plain.is_empty() { std::fs::write(&plain, &text).unwrap(); }
    if trust {
        for (p, b) in side.blocks.iter_mut() {
            if !(p.starts_with("mod ") || p.contains('<')) { continue; }
            *b = b.lines().map(|l| if l.starts_with("proof fn ") || l.starts_with("pub proof fn ") { format!("#[verifier::external_body] {l}") } else { l.to_string() }).collect::<Vec<_>>().join("\n");
            b.push('\n');
        }
    }
    for (m, b) in &side.mods {
        let b = if trust { b.lines().map(|l| if l.starts_with("pub proof fn ") { format!("#[verifier::external_body] {l}") } else { l.to_string() }).collect::<Vec<_>>().join("\n") } else { b.clone() };
        side.prelude.push_str(&format!("pub mod {m} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::spec::*;\n{b}\n}}\n"));
    }
    match emit::emit(&text, &side, &external, &roots, &only, known_only, vacuity) {
        Ok(e) => {
            std::fs::write(&out, e.text).unwrap();
            if !meta.is_empty() { std::fs::write(&meta, e.meta).unwrap(); }
        }
        Err(e) => { eprintln!("EMIT {e}"); std::process::exit(3); }
    }
}
