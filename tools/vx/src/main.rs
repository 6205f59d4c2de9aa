// vx: mechanical extractor. Reads a spec template (Verus text with //@ directives), pulls the named
// functions and types out of the current source tree, desugars them into the subset Verus accepts,
// attaches the contracts of the template, and writes one Verus file plus a map of what was extracted.
mod desugar;
mod print;
mod stage;
mod template;

use std::fs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx REPO SPECDIR SPECFILE OUT.rs [MAP.json]");
        std::process::exit(2);
    }
    let out = &args[4];
    let vac = args.get(6).map(|a| a == "vacuity").unwrap_or(false);
    match template::process(&args[1], &args[2], &args[3], vac) {
        Ok(res) => {
            fs::write(out, &res.text).unwrap();
            if let Some(m) = args.get(5) {
                fs::write(m, res.map_json()).unwrap();
            }
        }
        Err(e) => {
            println!("LOST-ANCHOR {}", e);
            std::process::exit(3);
        }
    }
}
