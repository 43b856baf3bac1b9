//! Deterministic simulation of tmf: see /verif/DESIGN.md.
mod engine;
mod files;
mod fmt;
mod io;
mod load;
mod model;
mod obj;
mod ops;
mod props;
use engine::*;
use simcore::shm;
use std::fmt::Write as _;

pub const BUILD: u64 = if cfg!(feature = "full") { 1 } else { 0 };
pub const BUILD_NAME: &str = if cfg!(feature = "full") { "full" } else { "default" };
fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned()
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).map(|v| v.parse().expect("number")).unwrap_or(d)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn prop(id: &str) -> Prop {
    match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => *p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        }
    }
}
fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    shm::init();
    match cmd.as_str() {
        "check" => check(),
        "replay" => replay(),
        "run" => {
            // One run, readable.
            let p = prop(&arg("--prop").expect("--prop"));
            let rs = run_seed(&p, num("--seed", 1), BUILD, num("--index", 0));
            let o = execute(&p, &Input::Seed(rs), rs, true);
            println!("{}", shm::text());
            println!("status {} class '{}' {} hash {:016x} steps {}", o.status, o.class, o.msg, o.hash, shm::get().steps);
            std::process::exit(if o.bad() { 1 } else { 0 });
        }
        "list" => {
            for p in props::ALL {
                println!("{} quick {}", p.id, p.quick);
            }
        }
        _ => {
            eprintln!("usage: sim check|replay|run|list ...");
            std::process::exit(2);
        }
    }
}
fn check() {
    let p = prop(&arg("--prop").expect("--prop"));
    let seed = num("--seed", 1);
    let jobs = num("--jobs", 8) as usize;
    let quick = p.quick * num("--scale", 100) / 100;
    let n = num("--runs", quick);
    let secs = num("--secs", 60) as f64;
    let first = num("--first", 0);
    let out = arg("--out").expect("--out");
    let r = sweep(&p, seed, BUILD, first, n, jobs, secs);
    // The same seeds again, on another number of processes, must do exactly the same.
    let m = num("--recheck", 24).min(r.runs);
    let mut same = true;
    if m > 0 && r.violation.is_none() && r.harness.is_none() {
        let a = sweep(&p, seed, BUILD, first, m, 3, secs);
        let b = sweep(&p, seed, BUILD, first, m, 8, secs);
        same = a.fingerprint == b.fingerprint && a.runs == m && b.runs == m;
    }
    let mut samples = Vec::new();
    for i in 0..3.min(r.runs) {
        let rs = run_seed(&p, seed, BUILD, first + i);
        execute(&p, &Input::Seed(rs), rs, true);
        let t = shm::text();
        let cut: String = t.lines().take(14).map(|l| l.chars().take(220).collect::<String>()).collect::<Vec<_>>().join("; ");
        samples.push(format!("{} run {} (seed {rs:016x}): {}", BUILD_NAME, first + i, cut));
    }
    let mut j = String::from("{");
    let _ = write!(
        j,
        "\"build\":{},\"property\":{},\"runs\":{},\"planned\":{n},\"wall\":{:.3},\"steps\":{},\"distinct_traces\":{},\"distinct_plans\":{},\"distinct_nontrivial\":{},\"fingerprint\":\"{:016x}\",\"rechecked\":{m},\"deterministic\":{same},\"unreproduced\":{},\"rule\":{},",
        js(BUILD_NAME), js(p.id), r.runs, r.wall, r.steps, r.distinct_traces, r.distinct_plans, r.distinct_nontrivial, r.fingerprint, r.unreproduced, js(p.rule)
    );
    j.push_str("\"counts\":{");
    let mut sep = "";
    for (k, name) in NAMES.iter().enumerate() {
        if r.counts[k] > 0 {
            let _ = write!(j, "{sep}{}:{}", js(name), r.counts[k]);
            sep = ",";
        }
    }
    j.push_str("},\"samples\":[");
    for (k, s) in samples.iter().enumerate() {
        let _ = write!(j, "{}{}", if k > 0 { "," } else { "" }, js(s));
    }
    j.push(']');
    let mut code = 0;
    if let Some((i, o)) = &r.harness {
        let _ = write!(j, ",\"harness_error\":{}", js(&format!("run {i}: {}", o.msg)));
        code = 2;
    }
    if let Some((i, o)) = &r.violation {
        code = 1;
        let rs = run_seed(&p, seed, BUILD, *i);
        let dir = arg("--replays").unwrap_or_else(|| "out/replays".into());
        std::fs::create_dir_all(&dir).expect("replay directory");
        let path = format!("{dir}/{}-{}-{}-{}.replay", p.id, BUILD_NAME, seed, i);
        let min = minimise(&p, rs, num("--minimise", 25) as f64);
        let (class, msg) = match &min {
            Some(m) => {
                write_replay(&path, &p, seed, *i, rs, m);
                (m.outcome.class.clone(), m.outcome.msg.clone())
            }
            None => (o.class.clone(), format!("{} (not reproduced)", o.msg)),
        };
        let _ = write!(
            j,
            ",\"violation\":{{\"index\":{i},\"class\":{},\"msg\":{},\"replay\":{},\"count\":{},\"reproduced\":{}}}",
            js(&class), js(&msg), js(&path), r.violations, min.is_some()
        );
    }
    j.push('}');
    std::fs::write(out, j).expect("write result");
    std::process::exit(code);
}
fn write_replay(path: &str, p: &Prop, seed: u64, index: u64, rs: u64, m: &Minimal) {
    let mut t = String::new();
    let _ = writeln!(t, "property {}", p.id);
    let _ = writeln!(t, "build {BUILD_NAME}");
    let _ = writeln!(t, "seed {seed}");
    let _ = writeln!(t, "index {index}");
    let _ = writeln!(t, "run_seed {rs}");
    let _ = writeln!(t, "class {}", m.outcome.class);
    let _ = writeln!(t, "hash {:016x}", m.outcome.hash);
    let _ = writeln!(t, "tape {}", m.tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "));
    if let Some(s) = &m.switches {
        let _ = writeln!(t, "switches {}", s.iter().map(|[a, b]| format!("{a}:{b}")).collect::<Vec<_>>().join(" "));
    }
    let _ = writeln!(t, "# {}", m.outcome.msg.replace('\n', "\n# "));
    let _ = writeln!(t, "# minimised with {} trial runs", m.tried);
    for l in m.text.lines() {
        let _ = writeln!(t, "# | {l}");
    }
    std::fs::write(path, t).expect("write replay file");
}
fn replay() {
    let path = std::env::args().nth(2).expect("replay file");
    let text = std::fs::read_to_string(&path).expect("read replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).map(|s| s.to_string());
    let p = prop(&get("property").expect("property"));
    let rs: u64 = get("run_seed").expect("run_seed").parse().unwrap();
    let tape: Vec<u64> = get("tape").unwrap_or_default().split_whitespace().map(|v| v.parse().unwrap()).collect();
    let sw: Option<Vec<[u64; 2]>> = text.lines().find(|l| l.starts_with("switches")).map(|l| {
        l["switches".len()..]
            .split_whitespace()
            .map(|v| {
                let (a, b) = v.split_once(':').unwrap();
                [a.parse().unwrap(), b.parse().unwrap()]
            })
            .collect()
    });
    if get("build").as_deref() != Some(BUILD_NAME) {
        eprintln!("this file is for the {} build", get("build").unwrap_or_default());
        std::process::exit(2);
    }
    let mut hashes = Vec::new();
    let mut last = Outcome::default();
    for k in 0..2 {
        last = execute(&p, &Input::Tape { tape: &tape, switches: sw.as_deref() }, rs, true);
        hashes.push((last.class.clone(), last.hash));
        if k == 0 {
            println!("{}", shm::text());
        }
    }
    println!("class '{}' {} hash {:016x}", last.class, last.msg, last.hash);
    let same = hashes[0] == hashes[1];
    let as_filed = get("class").as_deref() == Some(&last.class) && get("hash") == Some(format!("{:016x}", last.hash));
    println!("replayed twice: {}; as filed: {}", if same { "identical" } else { "DIFFERENT" }, if as_filed { "yes" } else { "no" });
    if last.status == shm::ST_HARNESS || !same {
        std::process::exit(2);
    }
    if last.bad() {
        println!("VIOLATION property={} replay={}", p.id, path);
        std::process::exit(1);
    }
}
