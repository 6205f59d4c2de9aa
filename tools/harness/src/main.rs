// Executable oracles of the contracts. Used to turn a failed proof obligation into a concrete failing
// input on the real code, and as the bounded stand-in for code outside the verifier's reach.
mod gen;
mod gram;
mod lex;
mod lr;
mod misc;
mod util;
use util::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let millis: u64 = a[3].parse().unwrap();
    let work = a.get(4).cloned().unwrap_or("/tmp".into());
    let f: fn(&mut Ctx) = match prop.as_str() {
        "C01" => lex::c01,
        "C02" => lex::c02,
        "C03" => lex::c03,
        "C04" => lex::c04,
        "C05" => lex::c05,
        "C06" => gram::c06,
        "C07" => lr::c07,
        "C08" => gram::c08,
        "C09" => lr::c09,
        "C10" => lr::c10,
        "C11" => lr::c11,
        "C12" => lr::c12,
        "C13" => misc::c13,
        "C14" => misc::c14,
        "C15" => gen::c15,
        "C16" => gen::c16,
        "C22" => gen::c22,
        _ => panic!("unknown property"),
    };
    // big stack: the code under test recurses over its inputs
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            util::watchdog();
            let mut cx = Ctx::new(seed, millis, &work);
            f(&mut cx);
            cx.report();
            cx.fail.is_some()
        })
        .unwrap();
    match h.join() {
        Ok(false) => {}
        Ok(true) => std::process::exit(1),
        Err(_) => {
            println!("HARNESS-ERROR");
            std::process::exit(2)
        }
    }
}
