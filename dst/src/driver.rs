//! The driver: distributes units over worker processes, merges what they
//! report, minimises and records violations, and writes the evidence.
use crate::checks;
use crate::judge::*;
use crate::minimise::minimise;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

fn now() -> f64 {
    seam::sys::real_now()
}
fn bin(instr: bool) -> PathBuf {
    let me = std::env::current_exe().unwrap();
    let t = me.ancestors().nth(3).unwrap();
    t.join(if instr { "instr" } else { "plain" }).join("release/dst")
}
fn is_instr() -> bool {
    unsafe { seam::cov::NEDGES > 0 }
}
pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    crate::exec::init();
    std::panic::set_hook(Box::new(|i| {
        if unsafe { !seam::sys::SIM } || std::env::var("DST_DEBUG").is_ok() {
            eprintln!("harness: {i}");
        }
    }));
    let s = |k: usize| a.get(k).map(|x| x.as_str()).unwrap_or("");
    match s(1) {
        "check" => check(s(2), s(3), s(4).parse().unwrap_or(1), Path::new(s(5))),
        "worker" => worker(s(2), s(3), s(4).parse().unwrap(), s(5).parse().unwrap(), s(6).parse().unwrap(), s(7).parse().unwrap(), s(8).parse().unwrap(), Path::new(s(9))),
        "min" => min(Path::new(s(2)), s(3).parse().unwrap()),
        "replay" => replay(Path::new(s(2))),
        "one" => one(s(2), s(3), s(4).parse().unwrap(), s(5).parse().unwrap_or(1)),
        _ => {
            eprintln!("usage: dst check ID quick|thorough SEED VERIFDIR | replay FILE | one ID PART UNIT SEED");
            2
        }
    }
}
fn file(c: &Case, class: &str, digest: u64, extra: &str) -> String {
    format!("{extra}build {}\nclass {class}\ndigest {digest:#x}\n{}", if is_instr() { "instr" } else { "plain" }, to_text(c))
}
fn field<'a>(t: &'a str, k: &str) -> &'a str {
    t.lines().find_map(|l| l.strip_prefix(k).and_then(|x| x.strip_prefix(' '))).unwrap_or("")
}

fn worker(id: &str, part: &str, w: u64, n: u64, seed: u64, units: u64, until: f64, dir: &Path) -> i32 {
    let mut ctx = Ctx::new();
    let tag = format!("{part}-{w}");
    let mut out = String::new();
    let mut done = 0;
    let mut samples = 0;
    let mut i = w;
    while i < units {
        if now() > until {
            out += &format!("truncated {i}\n");
            break;
        }
        let cases = checks::unit(&mut ctx, id, part, i, seed);
        for c in cases {
            ctx.digest = 0;
            ctx.st.add("evaluations", 1);
            let v = ctx.judge(&c);
            if samples < 2 && w == 0 {
                samples += 1;
                fs::write(dir.join(format!("sample-{part}-{samples}")), to_text(&c)).unwrap();
            }
            match v {
                Ok(None) => {}
                Ok(Some(v)) => {
                    out += &format!("viol {i}\t{}\t{}\n", v.class, v.detail.replace('\n', " "));
                    fs::write(dir.join(format!("viol-{part}-{i}")), file(&c, &v.class, ctx.digest, "")).unwrap();
                }
                Err(e) => out += &format!("err unit {i}: {e}: {}\n", to_text(&c).replace('\n', " | ")),
            }
        }
        done += 1;
        if out.contains("viol") || out.contains("err ") {
            break;
        }
        i += n;
    }
    out += &format!("done {done}\n");
    for (k, v) in &ctx.st.n {
        out += &format!("stat {v} {k}\n");
    }
    let mut sig: Vec<u8> = vec![];
    ctx.st.sigs.iter().for_each(|s| sig.extend(s.to_le_bytes()));
    fs::write(dir.join(format!("sig-{tag}")), sig).unwrap();
    if is_instr() {
        unsafe {
            let e = std::slice::from_raw_parts(seam::cov::EDGES, 1 << 17);
            fs::write(dir.join(format!("edges-{tag}")), e).unwrap();
            out += &format!("edges {}\n", seam::cov::NEDGES);
        }
    }
    fs::write(dir.join(format!("out-{tag}")), out).unwrap();
    0
}
fn min(f: &Path, seconds: f64) -> i32 {
    let t = fs::read_to_string(f).unwrap();
    let class = field(&t, "class").to_string();
    let c = parse(&t);
    let m = minimise(c, &class, seconds);
    let mut ctx = Ctx::new();
    match ctx.judge(&m.case) {
        Ok(Some(v)) if v.class == class => {
            let extra = format!("detail {}\nreductions {}\n", v.detail.replace('\n', " "), m.tries);
            fs::write(f.with_extension("min"), file(&m.case, &class, ctx.digest, &extra)).unwrap();
            0
        }
        x => {
            eprintln!("not reproduced: {x:?}");
            3
        }
    }
}
fn replay(f: &Path) -> i32 {
    let Ok(t) = fs::read_to_string(f) else {
        eprintln!("cannot read {f:?}");
        return 2;
    };
    let instr = field(&t, "build") == "instr";
    if instr != is_instr() {
        return Command::new(bin(instr)).arg("replay").arg(f).status().map_or(2, |s| s.code().unwrap_or(2));
    }
    let c = parse(&t);
    let mut ctx = Ctx::new();
    match ctx.judge(&c) {
        Ok(Some(v)) => {
            let same = v.class == field(&t, "class") && format!("{:#x}", ctx.digest) == field(&t, "digest");
            println!("VIOLATION property={} replay={}", c.check, f.display());
            println!("{}: {}", v.class, v.detail);
            println!("{}", if same { "the execution is the recorded one" } else { "the execution differs from the recorded one" });
            1
        }
        Ok(None) => {
            println!("no violation");
            0
        }
        Err(e) => {
            println!("error: {e}");
            2
        }
    }
}
fn one(id: &str, part: &str, i: u64, seed: u64) -> i32 {
    let p = checks::parts(id);
    let Some(p) = p.iter().find(|p| p.name == part) else { return 2 };
    if p.instr != is_instr() {
        return Command::new(bin(p.instr)).args(std::env::args().skip(1)).status().map_or(2, |s| s.code().unwrap_or(2));
    }
    let mut ctx = Ctx::new();
    let t0 = now();
    for c in checks::unit(&mut ctx, id, part, i, seed) {
        print!("{}", to_text(&c));
        ctx.digest = 0;
        let v = ctx.judge(&c);
        println!("{v:?} digest {:#x} {:?}", ctx.digest, ctx.st.n);
    }
    println!("{:.3} s", now() - t0);
    0
}

#[derive(Default)]
struct Total {
    n: BTreeMap<String, u64>,
    parts: Vec<(String, u64, u64, f64, usize)>,
    sigs: HashSet<u64>,
    edges: Vec<u8>,
    nedges: u64,
    samples: Vec<String>,
    viols: Vec<(String, u64, String, String)>,
    errs: Vec<String>,
}
fn check(id: &str, tier: &str, seed: u64, verif: &Path) -> i32 {
    let t0 = now();
    let thorough = tier == "thorough";
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get()) as u64;
    let ps = checks::parts(id);
    if ps.is_empty() {
        eprintln!("unknown check {id}");
        return 2;
    }
    let dir = verif.join(format!("dst/target/run-{id}-{}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    // a generous limit: the work is bounded by the number of units
    let limit = if thorough { 3000.0 } else { 420.0 };
    let limit = std::env::var("DST_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(limit);
    let scale: f64 = std::env::var("DST_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let mut tot = Total { edges: vec![0; 1 << 17], ..Default::default() };
    for (k, p) in ps.iter().enumerate() {
        let units = ((if thorough { p.thorough } else { p.quick }) as f64 * scale).ceil() as u64;
        let until = t0 + limit * (k + 1) as f64 / ps.len() as f64;
        let p0 = now();
        let mut kids: Vec<(u64, Child)> = vec![];
        for w in 0..cores {
            let c = Command::new(bin(p.instr))
                .args(["worker", id, p.name, &w.to_string(), &cores.to_string(), &seed.to_string(), &units.to_string(), &until.to_string()])
                .arg(&dir)
                .stdin(Stdio::null())
                .spawn();
            match c {
                Ok(c) => kids.push((w, c)),
                Err(e) => tot.errs.push(format!("cannot start a worker: {e}")),
            }
        }
        let mut found: Option<f64> = None;
        while !kids.is_empty() {
            std::thread::sleep(std::time::Duration::from_millis(20));
            kids.retain_mut(|(w, c)| match c.try_wait() {
                Ok(None) => true,
                Ok(Some(s)) if s.success() => false,
                x => {
                    tot.errs.push(format!("worker {w} of part {}: {x:?}", p.name));
                    false
                }
            });
            if found.is_none() && fs::read_dir(&dir).unwrap().any(|f| f.unwrap().file_name().to_string_lossy().starts_with("viol-")) {
                found = Some(now());
            }
            // one violation is enough: the others get a little time to finish
            if found.is_some_and(|t| now() > t + 3.0) {
                for (_, c) in &mut kids {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                kids.clear();
            }
        }
        let (mut done, mut runs) = (0, 0);
        let mut sigs = HashSet::new();
        for w in 0..cores {
            let tag = format!("{}-{w}", p.name);
            let Ok(t) = fs::read_to_string(dir.join(format!("out-{tag}"))) else { continue };
            for l in t.lines() {
                let (a, b) = l.split_once(' ').unwrap_or((l, ""));
                match a {
                    "stat" => {
                        let (v, k) = b.split_once(' ').unwrap();
                        let v: u64 = v.parse().unwrap();
                        if k == "runs" {
                            runs += v;
                        }
                        *tot.n.entry(k.into()).or_default() += v;
                    }
                    "done" => done += b.parse::<u64>().unwrap(),
                    "edges" => tot.nedges = b.parse().unwrap(),
                    "err" => tot.errs.push(format!("{}: {b}", p.name)),
                    _ => {}
                }
            }
            for c in fs::read(dir.join(format!("sig-{tag}"))).unwrap_or_default().chunks_exact(8) {
                sigs.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
            if let Ok(e) = fs::read(dir.join(format!("edges-{tag}"))) {
                tot.edges.iter_mut().zip(e).for_each(|(a, b)| *a |= b);
            }
        }
        for k in 1..3 {
            if let Ok(s) = fs::read_to_string(dir.join(format!("sample-{}-{k}", p.name))) {
                tot.samples.push(s);
            }
        }
        for f in fs::read_dir(&dir).unwrap() {
            let f = f.unwrap();
            let n = f.file_name().to_string_lossy().to_string();
            if let Some(u) = n.strip_prefix(&format!("viol-{}-", p.name)) {
                if let (Ok(u), Ok(t)) = (u.parse(), fs::read_to_string(f.path())) {
                    if !field(&t, "class").is_empty() {
                        tot.viols.push((p.name.into(), u, field(&t, "class").into(), f.path().to_string_lossy().into()));
                    }
                }
            }
        }
        tot.parts.push((p.name.into(), done, runs, now() - p0, sigs.len()));
        tot.sigs.extend(sigs);
        if !tot.viols.is_empty() || !tot.errs.is_empty() {
            break;
        }
    }
    let code = report(id, &mut tot, verif);
    evidence(id, tier, seed, verif, &tot, t0, code);
    let _ = fs::remove_dir_all(&dir);
    code
}
fn report(id: &str, tot: &mut Total, verif: &Path) -> i32 {
    let known = fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let known: Vec<&str> = known.lines().filter(|l| l.starts_with(&format!("finding: property={id} "))).collect();
    let mut code = 0;
    tot.viols.sort_by_key(|v| v.1);
    let mut reported = 0;
    for (part, unit, class, path) in tot.viols.clone() {
        if reported > 0 {
            break;
        }
        let instr = checks::parts(id).iter().any(|p| p.name == part && p.instr);
        let st = Command::new(bin(instr)).args(["min", &path, "40"]).status();
        let min = Path::new(&path).with_extension("min");
        let src = if min.exists() { min } else { PathBuf::from(&path) };
        if !src.exists() || st.is_err() {
            tot.errs.push(format!("minimising {path}"));
            continue;
        }
        if src == Path::new(&path) {
            tot.errs.push(format!("unit {unit} of {part}: {class}: the violation did not reproduce"));
            continue;
        }
        let t = fs::read_to_string(&src).unwrap();
        let detail = field(&t, "detail").to_string();
        if let Some(k) = known.iter().find(|l| l.split('\t').skip(1).all(|m| detail.contains(m) || class == m)) {
            println!("KNOWN-FINDING: property={id} {}", k.split_once('\t').map_or("", |x| x.1));
            continue;
        }
        let rd = verif.join("evidence/replays");
        fs::create_dir_all(&rd).unwrap();
        let f = rd.join(format!("{id}-{part}-{unit}.txt"));
        fs::write(&f, &t).unwrap();
        println!("VIOLATION property={id} replay={}", f.display());
        println!("{class}: {detail}");
        reported += 1;
        code = 1;
    }
    if code == 0 && !tot.errs.is_empty() {
        for e in tot.errs.iter().take(5) {
            eprintln!("error: {e}");
        }
        return 2;
    }
    code
}
fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            '\t' => r += "\\t",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r + "\""
}
fn evidence(id: &str, tier: &str, seed: u64, verif: &Path, t: &Total, t0: f64, code: i32) {
    let wall = now() - t0;
    let g = |k: &str| t.n.get(k).copied().unwrap_or(0);
    let per_hour = |x: u64| (x as f64 / wall * 3600.0) as u64;
    let mut c = String::new();
    let distinct = t.sigs.len() as u64;
    c += &format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, ", g("evaluations"), distinct.min(g("evaluations")));
    c += "\"rule\": \"Unit i of each part is generated from (VERIF_SEED, check, part, i): operations with arguments, per-caller generator streams with faults, schedule, stalls, environment. Counted as distinct and non-trivial: executions with a different signature, the signature being, for several callers, the sequence of switches with the code edge at which each happened, and for one caller the draws, fired faults and results; for statistical runs the vector of test probabilities.\", ";
    c += &format!("\"samples\": [{}], ", t.samples.iter().take(6).map(|s| js(&s.chars().take(4000).collect::<String>())).collect::<Vec<_>>().join(", "));
    c += &format!("\"simulated_runs\": {}, \"reference_runs\": {}, \"simulated_runs_per_hour\": {}, \"seeds\": {}, \"seeds_per_hour\": {}, ", g("runs"), g("reference_runs"), per_hour(g("runs") + g("reference_runs")), g("evaluations"), per_hour(g("evaluations")));
    c += &format!("\"simulated_time_ns\": {}, \"simulated_steps\": {}, ", g("simulated_ns"), g("steps"));
    let f: Vec<String> = t.n.iter().filter_map(|(k, v)| k.strip_prefix("fault:").map(|k| format!("{}: {v}", js(k)))).collect();
    c += &format!("\"faults_injected\": {{{}}}, ", f.join(", "));
    let o: Vec<String> = t.n.iter().filter(|(k, _)| !k.starts_with("fault:")).map(|(k, v)| format!("{}: {v}", js(k))).collect();
    c += &format!("\"counts\": {{{}}}, ", o.join(", "));
    let p: Vec<String> = t.parts.iter().map(|p| format!("{{\"part\": {}, \"units\": {}, \"runs\": {}, \"seconds\": {:.2}, \"distinct_executions\": {}}}", js(&p.0), p.1, p.2, p.3, p.4)).collect();
    c += &format!("\"parts\": [{}], \"distinct_executions\": {}, ", p.join(", "), distinct);
    if t.nedges > 0 {
        c += &format!("\"code_edges_reached\": {}, \"code_edges\": {}, ", t.edges.iter().filter(|e| **e != 0).count(), t.nedges);
    }
    c += "\"real_components\": [\"the polymers crate, built from /repo's working tree\", \"rand_distr, rand_core and the standard library\"], \"stub_components\": [\"rand's thread-local generator: per-caller streams with injectable faults\", \"thread scheduling, futexes, sleeping, clocks and entropy of the operating system: simulated\", \"the allocator: garbage contents and injectable failures around the system's\"]";
    let v = (code == 1) as u64;
    let s = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{{c}}}, \"assumptions\": [\"sequentially consistent interleavings at the granularity of compiler-instrumented edges, loads and stores\", \"argument domains and sizes as described in DESIGN.md\"], \"wall_s\": {wall:.2}, \"violations\": {v}}}\n", js(id), js(if tier == "thorough" { "thorough" } else { "quick" }));
    fs::create_dir_all(verif.join("evidence")).unwrap();
    fs::write(verif.join(format!("evidence/{id}.json")), s).unwrap();
}
