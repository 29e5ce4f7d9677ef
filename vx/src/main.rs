//! vx: re-emits the non-test code of a crate as Verus code with contracts spliced in.
mod chains;
mod contracts;
mod emit;
mod inline;
mod load;
mod rewrite;
mod wipe;

use std::path::PathBuf;

fn main() {
    let mut args = std::env::args().skip(1);
    let mut src = PathBuf::from("/repo/src");
    let mut cdir = PathBuf::from("/verif/contracts");
    let mut slice = String::from("*");
    let mut out = PathBuf::from("out.rs");
    let mut map = PathBuf::from("out.json");
    let mut external: Vec<String> = vec![];
    let mut nocontract: Vec<String> = vec![];
    let mut drop: Vec<String> = vec![];
    let mut vacuity = false;
    let mut expanded: Option<PathBuf> = None;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("missing value");
        match a.as_str() {
            "--src" => src = v().into(),
            "--contracts" => cdir = v().into(),
            "--slice" => slice = v(),
            "--out" => out = v().into(),
            "--map" => map = v().into(),
            "--external" => external.push(v()),
            "--nocontract" => nocontract.push(v()),
            "--drop" => drop.push(v()),
            "--expanded" => expanded = Some(v().into()),
            "--vacuity" => vacuity = true,
            _ => panic!("unknown argument {a}"),
        }
    }
    if let Some(x) = expanded {
        let pre = std::fs::read_to_string(cdir.join("wipe_prelude.rs")).unwrap();
        match wipe::run(&std::fs::read_to_string(x).unwrap(), &pre, nocontract, external) {
            Ok((t, m)) => {
                std::fs::write(&out, t).unwrap();
                std::fs::write(&map, serde_json::to_string_pretty(&m).unwrap()).unwrap();
            }
            Err(e) => {
                eprintln!("vx: {e}");
                std::process::exit(3);
            }
        }
        return;
    }
    let krate = match load::load(&src) {
        Ok(k) => k,
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    };
    let cts = contracts::load(&cdir, &slice, &drop);
    let mut em = emit::Emitter::new(krate, cts, slice, external, nocontract, vacuity, &cdir);
    em.run();
    std::fs::write(&out, &em.text()).unwrap();
    std::fs::write(&map, serde_json::to_string_pretty(&em.map()).unwrap()).unwrap();
}
