//! sxe: symbolic executor for LLVM IR of compiled Rust code.
//!
//! sxe FILE.ll HARNESS [--secs N] [--steps N] [--paths N] [--viol N] [--timeout MS]
//!     [--shard I/N] [--sample K] [--out FILE]
#![allow(dead_code)]
mod exec;
mod expr;
mod ir;
mod z3;

use exec::{End, Exec, Limits, PathOut};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn kind(e: &End) -> &'static str {
    match e {
        End::Ok => "ok",
        End::Infeasible => "infeasible",
        End::Fail(_) => "fail",
        End::Panic(_) => "panic",
        End::Abort(_) => "abort",
        End::Hang => "hang",
        End::Oob(_) => "oob",
        End::Recursion => "recursion",
        End::Unsupported(_) => "unsupported",
    }
}

fn detail(e: &End) -> String {
    match e {
        End::Fail(k) => k.to_string(),
        End::Panic(s) | End::Abort(s) | End::Oob(s) | End::Unsupported(s) => s.clone(),
        _ => String::new(),
    }
}

fn path_json(p: &PathOut) -> String {
    let mut s = format!("{{\"end\":{},\"detail\":{},\"steps\":{},\"inputs\":[", js(kind(&p.end)), js(&detail(&p.end)), p.steps);
    for (i, (k, v)) in p.inputs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "[{k},{v}]");
    }
    s.push_str("],\"notes\":[");
    for (i, (k, v)) in p.notes.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "[{k},{v}]");
    }
    s.push_str("]}");
    s
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.iter().any(|a| a == "--version") {
        println!("z3 {}", z3::Z3::version());
        return;
    }
    let mut pos = Vec::new();
    let mut lim = Limits { max_steps: 3_000_000, max_paths: 10_000_000, max_secs: 600.0, max_viol: 8, mem_mb: 3500 };
    let mut timeout = 20_000u32;
    let mut shard = (0usize, 1usize);
    let mut sample = 6usize;
    let mut outf: Option<String> = None;
    let mut i = 0;
    while i < args.len() {
        let nx = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--secs" => lim.max_secs = nx().parse().unwrap(),
            "--steps" => lim.max_steps = nx().parse().unwrap(),
            "--paths" => lim.max_paths = nx().parse().unwrap(),
            "--viol" => lim.max_viol = nx().parse().unwrap(),
            "--mem" => lim.mem_mb = nx().parse().unwrap(),
            "--timeout" => timeout = nx().parse().unwrap(),
            "--sample" => sample = nx().parse().unwrap(),
            "--out" => outf = Some(nx()),
            "--shard" => {
                let s = nx();
                let (a, b) = s.split_once('/').unwrap();
                shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            _ => {
                pos.push(args[i].clone());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let h = pos[1].clone();
    let text = std::fs::read_to_string(&pos[0]).expect("read IR");
    // the interpreter itself recurses little, but expression evaluation may recurse
    let r = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || run(text, h, lim, timeout, shard, sample, outf))
        .unwrap()
        .join();
    if r.is_err() {
        std::process::exit(3);
    }
}

fn run(text: String, h: String, lim: Limits, timeout: u32, shard: (usize, usize), sample: usize, outf: Option<String>) {
    let t0 = Instant::now();
    let m = ir::Module::parse(text);
    let max_paths = lim.max_paths;
    let max_viol = lim.max_viol;
    let mut ex = Exec::new(m, lim, timeout);
    if let Err(e) = ex.start(&h) {
        eprintln!("{e}");
        std::process::exit(3);
    }
    let parse_secs = t0.elapsed().as_secs_f64();
    let mut ends: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut viol: Vec<PathOut> = Vec::new();
    let mut viol_seen: BTreeMap<String, u32> = BTreeMap::new();
    let mut unsupp: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<PathOut> = Vec::new();
    let mut n = 0u64;
    let mut handle = |p: PathOut| -> bool {
        n += 1;
        *ends.entry(kind(&p.end)).or_insert(0) += 1;
        match &p.end {
            End::Ok => {
                // reservoir-like deterministic sample: keep first, then powers-spread
                if samples.len() < sample {
                    samples.push(p);
                } else if sample > 0 {
                    let x = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20;
                    let k = (x % n) as usize;
                    if k < sample {
                        samples[k] = p;
                    }
                }
            }
            End::Infeasible => {}
            End::Unsupported(s) => {
                let c = unsupp.entry(s.clone()).or_insert(0);
                *c += 1;
                if *c == 1 && viol.len() < 200 {
                    viol.push(p);
                }
            }
            e => {
                let k = format!("{}:{}", kind(e), detail(e));
                let c = viol_seen.entry(k).or_insert(0);
                *c += 1;
                if (*c as usize) <= max_viol {
                    viol.push(p);
                }
            }
        }
        n < max_paths
    };
    let mut complete = true;
    if shard.1 > 1 {
        complete &= ex.shard(shard.0, shard.1, shard.1 * 160, &mut |_, p| {
            handle(p);
        }, t0);
    }
    if complete {
        complete = ex.explore(&mut |_, p| handle(p), t0);
    }
    let secs = t0.elapsed().as_secs_f64();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"harness\":{},\"shard\":\"{}/{}\",\"complete\":{},\"pending\":{},\"solver_unknown\":{},\"secs\":{:.3},\"parse_secs\":{:.3},\"paths\":{},",
        js(&h),
        shard.0,
        shard.1,
        complete && !ex.unknown,
        ex.pending(),
        ex.unknown,
        secs,
        parse_secs,
        n
    );
    let _ = write!(
        o,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_secs\":{:.3},\"slowest_query\":{:.4},\"forks\":{},\"decisions\":{},\"steps\":{},\"max_depth\":{},\"max_path_steps\":{},\"max_bytes\":{},\"reach\":{},",
        ex.z.queries, ex.z.sat, ex.z.unsat, ex.z.unknown, ex.cache_hits, ex.z.time, ex.z.slowest, ex.forks, ex.decisions, ex.total_steps, ex.max_depth, ex.max_path_steps, ex.max_nvars, ex.reach
    );
    o.push_str("\"ends\":{");
    o.push_str(&ends.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
    o.push_str("},\"unsupported\":{");
    o.push_str(&unsupp.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
    o.push_str("},\"violations\":[");
    o.push_str(&viol.iter().map(path_json).collect::<Vec<_>>().join(","));
    o.push_str("],\"violation_counts\":{");
    o.push_str(&viol_seen.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    o.push_str(&samples.iter().map(path_json).collect::<Vec<_>>().join(","));
    o.push_str("],\"functions\":[");
    o.push_str(&ex.names().keys().map(|k| js(k)).collect::<Vec<_>>().join(","));
    o.push_str("]}");
    if ex.profile {
        for (n, s) in ex.site_names().iter().take(25) {
            eprintln!("{n:8} {s}");
        }
    }
    match outf {
        Some(f) => std::fs::write(f, o).unwrap(),
        None => println!("{o}"),
    }
}
