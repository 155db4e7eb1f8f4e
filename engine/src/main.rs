mod exec;
mod expr;
mod ir;
mod selftest;
mod val;
mod z3;

use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entry = String::new();
    let mut case = 0u64;
    let mut tl = 60.0f64;
    let mut seed = 1u64;
    let mut samples = 8usize;
    let mut max_steps = 20_000_000u64;
    let mut maxv = 12usize;
    let mut trace = false;
    let mut merge = true;
    let mut prof = false;
    let mut qms = 60_000u32;
    let mut dump = None;
    let mut out = None;
    let mut i = 1;
    while i < args.len() {
        let nx = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--entry" => entry = nx(),
            "--case" => case = nx().parse().unwrap(),
            "--time" => tl = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--max-violations" => maxv = nx().parse().unwrap(),
            "--query-ms" => qms = nx().parse().unwrap(),
            "--selftest" => std::process::exit(selftest::run(nx().parse().unwrap(), seed)),
            "--dump" => dump = Some(nx()),
            "--out" => out = Some(nx()),
            "--fork-profile" => {
                prof = true;
                i += 1;
                continue;
            }
            "--no-merge" => {
                merge = false;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            f => {
                file = f.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read module");
    let m = match ir::Module::parse(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse error: {e}");
            std::process::exit(2);
        }
    };
    let tparse = t0.elapsed();
    let mut z = z3::Z3::new(qms);
    z.dump_dir = dump;
    let lim = exec::Limits { max_steps, deadline: Instant::now() + Duration::from_secs_f64(tl), max_violations: maxv };
    let mut x = exec::Exec::new(m, z, lim);
    x.nsamples = samples;
    x.sample_rng = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    x.trace = trace;
    x.merge = merge;
    x.fork_prof = prof;
    x.run(&entry, case);
    let wall = t0.elapsed();
    if prof {
        let mut v: Vec<_> = x.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (w, n) in v.iter().take(15) {
            eprintln!("{n:8} {w}");
        }
    }

    // functions of the repository that were executed (through debug info)
    let mut fns: BTreeMap<String, BTreeSet<(String, u32)>> = BTreeMap::new();
    let mut files: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let ids: Vec<u32> = x.dbg_seen.iter().copied().collect();
    for id in ids {
        for (f, l, n) in x.dbg_loc(id) {
            if f.contains("/repo/") {
                fns.entry(n).or_default().insert((f.clone(), l));
                files.entry(f).or_default().insert(l);
            }
        }
    }
    let mut o = String::from("{");
    o += &format!("\"entry\":{},\"case\":{},", js(&entry), case);
    o += &format!("\"complete\":{},", x.incomplete.is_none());
    o += &format!("\"incomplete\":{},", x.incomplete.as_ref().map(|s| js(s)).unwrap_or("null".into()));
    o += &format!(
        "\"paths\":{},\"pruned\":{},\"forks\":{},\"steps\":{},\"checks_concrete\":{},\"checks_symbolic\":{},\"symbolic_branches\":{},\"merges\":{},\"assumes\":{},",
        x.stats.paths, x.stats.infeasible, x.stats.forks, x.stats.steps, x.stats.checks_const, x.stats.checks_sym, x.stats.branches_sym, x.stats.merges, x.stats.assumes
    );
    o += &format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"solver_s\":{:.4},\"slowest_query_s\":{:.4},\"parse_s\":{:.3},\"wall_s\":{:.3},",
        x.z.queries,
        x.z.sat,
        x.z.unsat,
        x.z.unknown,
        x.z.fallback,
        x.z.time.as_secs_f64(),
        x.z.slowest.as_secs_f64(),
        tparse.as_secs_f64(),
        wall.as_secs_f64()
    );
    o += "\"suspects\":[";
    o += &x.suspects.iter().map(|(w, i)| format!("{{\"why\":{},\"inputs\":\"{}\"}}", js(w), hex(i))).collect::<Vec<_>>().join(",");
    o += "],";
    o += "\"violations\":[";
    o += &x
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"inputs\":\"{}\",\"trace\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                hex(&v.inputs),
                v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(",")
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    o += "],\"covers\":{";
    o += &x.covers.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(",");
    o += "},\"checks\":{";
    o += &x.checks.iter().map(|(k, n)| format!("{}:[{},{}]", js(k), n.0, n.1)).collect::<Vec<_>>().join(",");
    o += "},\"samples\":[";
    o += &x
        .samples
        .iter()
        .map(|s| format!("{{\"inputs\":\"{}\",\"obs\":[{}]}}", hex(&s.inputs), s.obs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")))
        .collect::<Vec<_>>()
        .join(",");
    o += "],\"functions\":[";
    o += &fns.keys().map(|k| js(k)).collect::<Vec<_>>().join(",");
    o += "],\"lines\":{";
    o += &files
        .iter()
        .map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
        .collect::<Vec<_>>()
        .join(",");
    o += "}}";
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => println!("{o}"),
    }
}
