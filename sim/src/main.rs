//! cpsim: deterministic simulation of the CodeParser library, its native API and
//! its command-line tool.
//!   cpsim check ID            search (VERIF_SEED, VERIF_TIER); evidence, replay, exit 0/1
//!   cpsim replay FILE         judge one scenario again; exit 1 if it still fails
//!   cpsim probe ID N [FIRST]  run seeds and print what fails (for development)
mod checks; mod cli; mod exec; mod gen; mod native; mod scn; mod seam; mod shrink; mod value; mod wstp;
#[global_allocator]
static A: seam::Alloc = seam::Alloc;
extern crate codeparser_wll;
use checks::{Ctx, Viol};
use scn::Scn;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

const VERIF: &str = "/verif";
fn main() {
    fixed_layout();
    // deep expressions are walked recursively
    std::thread::Builder::new().stack_size(4 << 30).spawn(command).expect("thread").join().unwrap_or_else(|_| std::process::exit(3))
}
fn command() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&a[2])),
        Some("worker") => worker(&a[2..]),
        Some("replay") => std::process::exit(replay(&a[2])),
        Some("same") => same(&a[2..]),
        Some("probe") => probe(&a[2..]),
        _ => { eprintln!("usage: cpsim check ID | replay FILE | probe ID N [FIRST]"); std::process::exit(2) }
    }
}
/// Run without address-space randomisation, so that a replay is exact to the address.
fn fixed_layout() {
    extern "C" { fn personality(p: u64) -> i32; }
    use std::os::unix::process::CommandExt;
    if std::env::var("CPSIM_LAYOUT").is_ok() { return }
    unsafe {
        let p = personality(0xffff_ffff);
        if p >= 0 && p & 0x0040000 == 0 && personality(p as u64 | 0x0040000) >= 0 {
            let _ = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env("CPSIM_LAYOUT", "fixed").exec();
        }
    }
}
fn env_u(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d) }
fn scenario_seed(base: u64, i: u64) -> u64 { let mut x = base.wrapping_mul(0x9e3779b97f4a7c15) ^ i; seam::splitmix(&mut x) >> 16 }
/// Scenarios in the quick tier, sized for about half a minute on eight cores.
fn quick_count(id: &str) -> u64 {
    match id { "C01" => 16_000, "C02" => 12_000, "C03" => 4_000, "C04" => 12_000, "C05" => 48_000, "C06" => 32_000, "C07" => 48_000, "C08" => 6_000, "C09" => 100_000, "C10" => 16_000, "C11" => 6_000, "C12" => 16_000, "C13" => 16_000, "C14" => 24_000, "C15" => 32_000, "C22" => 16_000, _ => 8_000 }
}
// ---- worker: scenarios i = w, w + n, w + 2n, ...
fn worker(a: &[String]) {
    let id = &a[0];
    let (base, w, n, count, wall_ms, thorough) = (a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6] == "1");
    let t0 = seam::mono_us();
    let mut cx = Ctx::default();
    let (mut evals, mut nontrivial, mut unrepeated, mut selftests, mut mismatches) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let known = known(id);
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = w;
    let trace = std::env::var("CPSIM_TRACE").is_ok();
    while i < count && (seam::mono_us() - t0) / 1000 < wall_ms {
        if trace { eprintln!("scenario {i} seed {}", scenario_seed(base, i)) }
        let s = checks::generate(id, scenario_seed(base, i), thorough);
        unsafe { exec::WANT_COV = (i / n) % 24 == 0 }
        let v = checks::judge(&s, &mut cx);
        unsafe { exec::WANT_COV = false }
        evals += 1;
        if v.nontrivial { nontrivial += 1; keys.insert(v.key); if samples.len() < 2 && i / n > 3 { let mut t = s.to_text(); t.truncate(1500); samples.push(t) } }
        if let Some(x) = v.viol {
            if let Some(k) = known.iter().find(|k| k.0 == x.class && x.detail.contains(&k.1)) { *known_hits.entry(k.2.clone()).or_default() += 1; i += n; continue }
            // the same scenario again, with nothing remembered
            let again = (0..3).any(|_| checks::judge(&s, &mut Ctx::default()).viol.map_or(false, |y| y.class == x.class));
            if again { put(&format!("violation {i}\n")); print_stats(evals, nontrivial, unrepeated, selftests, mismatches, &cx, &keys, &samples, &known_hits); return }
            unrepeated += 1;
        }
        if (i / n) % 150 == 7 && id != "C12" && !s.steps.iter().any(|t| t.files.iter().any(|f| f.path == "resolve")) {
            selftests += 1;
            let (p, q) = (exec::run(&s), exec::run(&s));
            if p.digest() != q.digest() || p.taken != q.taken || p.ticks != q.ticks { mismatches += 1 }
        }
        i += n;
    }
    print_stats(evals, nontrivial, unrepeated, selftests, mismatches, &cx, &keys, &samples, &known_hits);
}
fn put(s: &str) { let mut o = std::io::stdout().lock(); let _ = o.write_all(s.as_bytes()); let _ = o.flush(); }
fn print_stats(evals: u64, nontrivial: u64, unrepeated: u64, selftests: u64, mismatches: u64, cx: &Ctx, keys: &HashSet<u64>, samples: &[String], known: &BTreeMap<String, u64>) {
    let mut o = String::new();
    let (runs, ticks) = unsafe { (exec::RUNS, exec::TICKS) };
    o += &format!("counts {evals} {nontrivial} {unrepeated} {selftests} {mismatches} {runs} {ticks} {}\n", unsafe { seam::NGUARD });
    for (k, v) in &cx.stats { o += &format!("stat {k} {v}\n") }
    for (k, v) in known { o += &format!("known {v} {k}\n") }
    for s in samples { o += &format!("sample {}\n", value::hex(s.as_bytes())) }
    let cov: Vec<String> = unsafe { exec::ALLCOV.iter().enumerate().filter(|x| *x.1).map(|x| x.0.to_string()).collect() };
    o += &format!("cov {}\n", cov.join(","));
    o += "keys ";
    for k in keys { o += &format!("{k:x},") }
    o += "\ndone\n";
    put(&o);
}
/// Recorded findings: lines "finding: property=ID class=CLASS match=TEXT what=..."
fn known(id: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{VERIF}/known-findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let r = l.strip_prefix("finding: property=")?.strip_prefix(id)?.strip_prefix(" class=")?;
        let (c, r) = r.split_once(" match=")?;
        let (m, w) = r.split_once(" what=")?;
        Some((c.to_string(), m.to_string(), w.to_string()))
    }).collect()
}
#[derive(Default)]
struct Total { evals: u64, nontrivial: u64, unrepeated: u64, selftests: u64, mismatches: u64, runs: u64, ticks: u64, guards: u64, stats: BTreeMap<String, u64>, samples: Vec<String>, cov: HashSet<u64>, keys: HashSet<u64>, known: BTreeMap<String, u64>, viol: Vec<u64>, dead: Vec<String> }
fn check(id: &str) -> i32 {
    if !checks::IDS.contains(&id) { eprintln!("no check {id}"); return 2 }
    let t0 = seam::mono_us();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let base = env_u("VERIF_SEED", 1);
    let n = std::thread::available_parallelism().map_or(8, |x| x.get() as u64).min(16);
    let wall = env_u("CPSIM_SECONDS", if thorough { 780 } else { 150 });
    let count = env_u("CPSIM_COUNT", if thorough { u64::MAX / 2 } else { quick_count(id) });
    let exe = std::env::current_exe().unwrap();
    let mut hs = vec![];
    for w in 0..n {
        let mut c = std::process::Command::new(&exe).arg("worker").args([id.to_string(), base.to_string(), w.to_string(), n.to_string(), count.to_string(), (wall * 1000).to_string(), (thorough as u8).to_string()])
            .stdout(std::process::Stdio::piped()).spawn().expect("spawn");
        let mut o = c.stdout.take().unwrap();
        hs.push((c, std::thread::spawn(move || { use std::io::Read; let mut b = vec![]; let _ = o.read_to_end(&mut b); b })));
    }
    let mut t = Total::default();
    for (w, (mut c, h)) in hs.into_iter().enumerate() {
        let b = h.join().unwrap();
        let st = c.wait().unwrap();
        let b = String::from_utf8_lossy(&b);
        if !st.success() || !b.ends_with("done\n") { t.dead.push(format!("worker {w}: {st}")) }
        for l in b.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "violation" => t.viol.push(r.parse().unwrap()),
                "counts" => { let f: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect(); t.evals += f[0]; t.nontrivial += f[1]; t.unrepeated += f[2]; t.selftests += f[3]; t.mismatches += f[4]; t.runs += f[5]; t.ticks += f[6]; t.guards = f[7] }
                "stat" => { let (a, b) = r.split_once(' ').unwrap(); *t.stats.entry(a.into()).or_default() += b.parse::<u64>().unwrap() }
                "known" => { let (a, b) = r.split_once(' ').unwrap(); *t.known.entry(b.into()).or_default() += a.parse::<u64>().unwrap() }
                "sample" => if t.samples.len() < 4 { if let Some(x) = value::unhex(r) { t.samples.push(String::from_utf8_lossy(&x).into_owned()) } },
                "cov" => t.cov.extend(r.split(',').filter_map(|x| x.parse::<u64>().ok())),
                "keys" => t.keys.extend(r.split(',').filter_map(|x| u64::from_str_radix(x, 16).ok())),
                _ => {}
            }
        }
    }
    let search_s = (seam::mono_us() - t0) as f64 / 1e6;
    for k in known(id) { println!("KNOWN-FINDING: property={id} {}", k.2) }
    let mut viol: Option<(Viol, String)> = None;
    t.viol.sort();
    for i in t.viol.clone() {
        if viol.is_some() { break }
        let s = checks::generate(id, scenario_seed(base, i), thorough);
        let mut cx = Ctx::default();
        let v0 = (0..3).find_map(|_| checks::judge(&s, &mut Ctx::default()).viol);
        if v0.is_none() { t.unrepeated += 1 }
        if let Some(v0) = v0 {
            println!("{id}: scenario {i} (seed {}) fails: [{}] {}", s.seed, v0.class, v0.detail);
            let (m, v, tried) = shrink::minimise(&s, v0, &mut cx, 90_000);
            let dir = format!("{VERIF}/replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{id}-{}.replay", s.seed);
            let text = m.to_text();
            std::fs::write(&path, format!("# property {id}, found at scenario {i} of VERIF_SEED={base}\n# class {}\n# {}\n{text}", v.class, v.detail.replace('\n', " "))).expect("write replay");
            println!("{id}: minimised after {tried} attempts: [{}] {}", v.class, v.detail);
            viol = Some((v, path));
        }
    }
    let wall_s = (seam::mono_us() - t0) as f64 / 1e6;
    write_evidence(id, thorough, base, &t, wall_s, search_s, viol.is_some(), n);
    println!("{id}: {} scenarios, {} simulated runs in {search_s:.1} s, {} distinct non-trivial, basic blocks reached {}/{}, determinism self-tests {} (mismatches {})", t.evals, t.runs, t.keys.len(), t.cov.len(), t.guards, t.selftests, t.mismatches);
    if let Some((_, p)) = viol { println!("VIOLATION property={id} replay={p}"); return 1 }
    if !t.dead.is_empty() { eprintln!("cpsim: {}", t.dead.join("; ")); return 3 }
    if t.evals == 0 { eprintln!("cpsim: nothing explored"); return 3 }
    0
}
fn replay(f: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(f) else { eprintln!("cannot read {f}"); return 2 };
    let Some(s) = Scn::from_text(&t) else { eprintln!("cannot parse {f}"); return 2 };
    match checks::judge(&s, &mut Ctx::default()).viol {
        Some(v) => { println!("{}: [{}] {}", s.check, v.class, v.detail); println!("VIOLATION property={} replay={f}", s.check); 1 }
        None => { println!("{}: held", s.check); 0 }
    }
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn write_evidence(id: &str, thorough: bool, base: u64, t: &Total, wall_s: f64, search_s: f64, violated: bool, workers: u64) {
    let d = checks::describe(id);
    let faults: Vec<String> = t.stats.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    let arr = |v: &[String]| v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ");
    let per_h = |x: u64| (x as f64 / search_s.max(0.001) * 3600.0) as u64;
    let j = format!("{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {base},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs\": {},\n  \"simulated_runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_time_steps\": {},\n  \"simulated_time_unit\": \"basic blocks of the code under test executed under the simulator's clock\",\n  \"events_and_faults\": {{{}}},\n  \"basic_blocks_reached\": {},\n  \"basic_blocks_total\": {},\n  \"determinism_selftests\": {},\n  \"determinism_mismatches\": {},\n  \"unrepeated_failures\": {},\n  \"known_findings_hit\": {},\n  \"workers\": {workers},\n  \"real_code\": [{}],\n  \"stubs\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall_s:.2},\n \"violations\": {}\n}}\n",
        jstr(id), if thorough { "thorough" } else { "quick" }, t.evals, t.keys.len(), t.nontrivial, jstr(d.rule), arr(&t.samples), t.runs, per_h(t.runs), per_h(t.evals), t.ticks, faults.join(", "),
        t.cov.len(), t.guards, t.selftests, t.mismatches, t.unrepeated, t.known.values().sum::<u64>(), arr(&d.real), arr(&d.stubs), arr(&d.assumptions), violated as u8);
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    std::fs::write(format!("{VERIF}/evidence/{id}.json"), j).expect("write evidence");
}
fn probe(a: &[String]) {
    let id = &a[0];
    let n: u64 = a[1].parse().unwrap();
    let lo: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut cx = Ctx::default();
    let t0 = seam::mono_us();
    let mut nt = 0;
    let mut classes = BTreeMap::<String, u64>::new();
    for i in lo..lo + n {
        let s = checks::generate(id, i, std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"));
        let ti = seam::mono_us();
        let v = checks::judge(&s, &mut cx);
        let ti = (seam::mono_us() - ti) / 1000;
        if ti > env_u("CPSIM_SLOW", 3000) { println!("seed {i} took {ti} ms"); if std::env::var("DUMP").is_ok() { let mut t = s.to_text(); t.truncate(700); println!("{t}") } }
        if v.nontrivial { nt += 1 }
        if let Some(x) = v.viol {
            let c = classes.entry(x.class.clone()).or_default();
            *c += 1;
            if *c <= 4 { println!("seed {i} {} {}", x.class, x.detail); if std::env::var("DUMP").is_ok() { println!("{}", s.to_text()) } }
        }
    }
    println!("{id} {n} nt {nt} {:?} {} ms {:?}", classes, (seam::mono_us() - t0) / 1000, cx.stats);
}

/// Runs each seed twice and shows where two runs differ (for development).
fn same(a: &[String]) {
    let n: u64 = a[1].parse().unwrap();
    let lo: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut bad = 0;
    for i in lo..lo + n {
        let s = checks::generate(&a[0], i, false);
        if s.steps.iter().any(|t| t.files.iter().any(|f| f.path == "resolve")) { continue }
        let (p, q) = (exec::run(&s), exec::run(&s));
        if p.digest() != q.digest() {
            bad += 1;
            if bad < 4 {
                println!("seed {i}: ticks {} {} taken {} {} rand {} {}", p.ticks, q.ticks, p.taken.len(), q.taken.len(), p.rand_calls, q.rand_calls);
                for (k, (x, y)) in p.steps.iter().zip(&q.steps).enumerate() { if x != y { let (x, y) = (format!("{x:?}"), format!("{y:?}")); let c = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count(); println!(" step {k}: {:?} vs {:?}", &x[c.saturating_sub(80)..(c + 60).min(x.len())], &y[c.saturating_sub(80)..(c + 60).min(y.len())]); break } }
            }
        }
    }
    println!("{} of {n} differ", bad);
}
