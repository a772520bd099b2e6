//! Looks for an input of the real crate on which a property fails.
//!
//! harness check ID --seed N --seconds S --out FILE [--thorough]
//! harness assume --seed N --seconds S --out FILE
mod assume;
mod consts;
mod gen;
mod oracle;
mod props;
mod real;
mod targ;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static OUT: std::sync::OnceLock<String> = std::sync::OnceLock::new();

fn write_out(id: &str, res: &props::Res, wall: f64) {
    let samples: Vec<String> = res.samples.iter().map(|s| js(s)).collect();
    let fails: Vec<String> = res
        .fails
        .iter()
        .map(|x| format!("{{\"property\": {}, \"kind\": {}, \"input\": {}, \"expected\": {}, \"got\": {}}}", js(id), js(&x.kind), js(&x.input), js(&x.expected), js(&x.got)))
        .collect();
    let text = format!(
        "{{\"property\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"exhaustive\": {}, \"rule\": {}, \"samples\": [{}], \"wall_s\": {:.2}, \"fails\": [{}]}}\n",
        js(id),
        res.evaluations,
        res.nontrivial,
        res.exhaustive,
        js(&res.rule),
        samples.join(", "),
        wall,
        fails.join(",\n ")
    );
    std::fs::write(OUT.get().map_or("/dev/stdout", |s| s), text).unwrap();
}

/// An input on which the crate does not return.
pub fn hang(id: &str, text: &str, secs: u64) -> ! {
    let f = props::Fail { kind: "text".into(), input: text.into(), expected: "the call returns".into(), got: format!("it runs for more than {secs} s") };
    write_out(id, &props::Res { evaluations: 1, fails: vec![f], ..props::Res::default() }, secs as f64);
    std::process::exit(1);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = arg(&args, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let thorough = args.iter().any(|a| a == "--thorough");
    if let Some(o) = arg(&args, "--out") {
        let _ = OUT.set(o);
    }
    if let Some(o) = arg(&args, "--trace") {
        let _ = props::TRACE.set(o);
    }
    match args.get(1).map(String::as_str) {
        Some("check") => {
            let id = args[2].clone();
            let t0 = std::time::Instant::now();
            let Some(res) = props::run(&id, seed, secs, thorough) else {
                eprintln!("unknown property {id}");
                return 2;
            };
            write_out(&id, &res, t0.elapsed().as_secs_f64());
            i32::from(!res.fails.is_empty())
        }
        Some("assume") => {
            let t = assume::run(seed, secs);
            let n: Vec<String> = t.n.iter().map(|(k, n)| format!("{}: {n}", js(k))).collect();
            let f: Vec<String> = t.fails.iter().map(|x| js(x)).collect();
            let text = format!("{{\"contracts\": {{{}}}, \"fails\": [{}]}}\n", n.join(", "), f.join(", "));
            std::fs::write(OUT.get().map_or("/dev/stdout", |s| s), text).unwrap();
            i32::from(!t.fails.is_empty())
        }
        Some("one") => {
            // harness one ID KIND < INPUT: exit 1 if the property fails on this input
            let mut input = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut input).unwrap();
            match props::one(&args[2], &args[3], &input, seed, secs, thorough) {
                Some(f) => {
                    println!("property {} fails\n  input:    {:?}\n  expected: {}\n  got:      {}", args[2], f.input, f.expected, f.got);
                    1
                }
                None => {
                    println!("property {} holds on this input", args[2]);
                    0
                }
            }
        }
        _ => {
            eprintln!("usage: harness check ID --seed N --seconds S --out FILE [--thorough] [--trace FILE] | harness one ID KIND < INPUT");
            2
        }
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(3 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(2));
}
