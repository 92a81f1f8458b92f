//! The commands: check a property with many seeded runs, replay one of them.
use crate::case::*;
use crate::os::sched;
use crate::props::{self, Prop};
use crate::rng::{mix, Rng};
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| {
        let mut p = std::env::current_exe().unwrap();
        for _ in 0..3 {
            p.pop();
        }
        p
    })
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() > 2 => check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick")),
        Some("worker") => worker(&a[2], num(&a[3]), num(&a[4]), &a[5], num(&a[6]), &a[7]),
        Some("archives") if a.len() > 2 => props::embed::archives(&a[2]),
        Some("selftest") => crate::selftest::main(a.get(2).map(|n| num(n)).unwrap_or(2000)),
        Some("replay") if a.len() > 2 => replay(&a[2], a.iter().any(|x| x == "--trace")),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("group") if a.len() > 3 => group(&a[2], num(&a[3])),
        _ => {
            eprintln!("lsim check <property> [quick|thorough] | lsim replay <file> [--trace] | lsim list | lsim group <property> <n>");
            2
        }
    };
    std::process::exit(code);
}

fn num(s: &str) -> u64 {
    s.parse().unwrap_or(0)
}
fn prop(id: &str) -> Option<Prop> {
    props::all().into_iter().find(|p| p.id == id)
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

// ---- known findings ----

struct Known {
    property: String,
    key: String,
    what: String,
}
/// Lines `known: property=<id> key="<class>" <what fails>`; other lines are for people.
fn known() -> Vec<Known> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (property, l) = l.split_once(" key=\"")?;
            let (key, what) = l.split_once("\" ")?;
            Some(Known { property: property.into(), key: key.into(), what: what.trim().into() })
        })
        .collect()
}

/// The programs whose workers check a property: this one, or for embedded dictionaries
/// the two that have them, plain and compressed (tools/build-embed.sh).
fn programs(id: &str) -> Vec<PathBuf> {
    if id != "C22" {
        return vec![std::env::current_exe().unwrap()];
    }
    let base = std::env::var_os("LSIM_TARGET").map(PathBuf::from).unwrap_or_else(|| root().join("target"));
    ["embed", "embedz"].iter().map(|d| base.join(d).join("x86_64-unknown-linux-gnu/debug/lsim")).collect()
}
/// The program in which this case can be executed again.
fn program_of(c: &Case) -> PathBuf {
    let p = programs(&c.prop);
    let n = c.int("compress") as usize % p.len();
    p[n].clone()
}

// ---- one worker process ----

#[derive(Serialize, Deserialize, Default)]
struct Found {
    replay: Option<Vec<u8>>,
    unreproduced: Vec<String>,
}

#[derive(Serialize, Deserialize, Default)]
struct Part {
    st: Stats,
    edges: Vec<u32>,
    edges_total: u32,
    samples: Vec<serde_json_string::S>,
    trails: BTreeSet<u64>,
    known: BTreeMap<String, u64>,
    found: Found,
    seeds: u64,
}
/// JSON inside bincode.
mod serde_json_string {
    #[derive(serde::Serialize, serde::Deserialize, Clone)]
    pub struct S(pub String);
}

fn injected(s: &Stats) -> u64 {
    s.fired.values().sum::<u64>() + s.switches
}

/// In these the input itself is what varies, and the history or damage in it.
const INPUT_CASES: &[&str] = &["C06", "C07", "C09", "C11", "C16", "C20", "C23", "C24"];

fn group_seed(id: &str, seed: u64, i: u64) -> u64 {
    let mut h = 0u64;
    for b in id.bytes() {
        h = mix(h, b as u64);
    }
    mix(mix(seed, h), i)
}

fn worker(id: &str, w: u64, n: u64, tier: &str, seed: u64, scratch: &str) -> i32 {
    let p = prop(id).expect("property");
    quiet_panics();
    crate::proc::setup_worker();
    sched::setup_cover();
    let mut world = World::new();
    let mut part = Part::default();
    let known: Vec<String> = known().into_iter().filter(|k| k.property == id).map(|k| k.key).collect();
    let thorough = tier == "thorough";
    let secs = std::env::var("LSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1200 } else { 240 });
    let until = Instant::now() + Duration::from_secs(secs);
    let stop = Path::new(scratch).join("stop");
    let groups = if thorough { u64::MAX } else { p.groups };
    let mut i = w;
    let mut nth = 0u64;
    'all: while i < groups && Instant::now() < until {
        if stop.exists() {
            break;
        }
        let gs = group_seed(id, seed, i);
        let mut rng = Rng::new(gs);
        world.forget();
        let cases = (p.gen)(&mut world, &mut rng, i);
        part.seeds += 1;
        world.st.groups += 1;
        for c in cases {
            if Instant::now() > until + Duration::from_secs(30) {
                break;
            }
            nth += 1;
            world.st.cases += 1;
            world.trail = 0;
            let before = injected(&world.st);
            let v = (p.exec)(&mut world, &c);
            if injected(&world.st) > before || INPUT_CASES.contains(&id) {
                part.trails.insert(mix(world.trail, digest(&(&c.scen, &c.n, &c.s))));
            }
            if part.samples.len() < 2 && (nth == 3 || nth == 11) {
                part.samples.push(serde_json_string::S(
                    serde_json::json!({
                        "seed": gs, "group": i, "scenario": c.scen,
                        "plan": c.plans.iter().map(props::build::plan_words).collect::<Vec<_>>(),
                        "details": c.n, "names": c.s,
                        "sources": c.sys.iter().map(|s| format!("{} with {} rows", s.kind.name(), s.row_count())).collect::<Vec<_>>(),
                        "texts": c.texts.iter().take(2).collect::<Vec<_>>(),
                        "threads": c.ops.len(),
                        "verdict": v.as_ref().map(|v| v.what.clone()).unwrap_or("held".into()),
                    })
                    .to_string(),
                ));
            }
            if let Some(v) = v {
                if known.contains(&v.key) {
                    *part.known.entry(v.key).or_default() += 1;
                    continue;
                }
                let t0 = world.st.runs;
                let (again, _) = exec_fresh(&mut world, p.exec, &c);
                let _ = t0;
                match again {
                    Some(a) if a.key == v.key => {
                        let limit = std::env::var("LSIM_MIN_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
                        let (c, v) = minimise(&mut world, p.exec, &c, &v, limit);
                        let (v2, trail) = exec_fresh(&mut world, p.exec, &c);
                        let v = v2.unwrap_or(v);
                        let r = Replay { property: id.into(), seed: gs, group: i, violation: v, minimised: true, case: c, trail };
                        part.found.replay = Some(serde_json::to_vec(&r).unwrap());
                        let _ = std::fs::write(&stop, b"found");
                        break 'all;
                    }
                    o => part.found.unreproduced.push(format!("{}: {} then {:?}", v.key, v.what, o.map(|o| o.key))),
                }
            } else if nth % 16 == 0 {
                // one seed is one execution
                let (v1, t1) = exec_fresh(&mut world, p.exec, &c);
                let (v2, t2) = exec_fresh(&mut world, p.exec, &c);
                world.st.reruns += 1;
                if t1 != t2 || v1 != v2 {
                    world.st.diverged += 1;
                    if let Ok(f) = std::env::var("LSIM_DIVERGED") {
                        // for people: replay it twice with --trace
                        let violation = Viol { key: "diverged".into(), what: String::new() };
                        let r = Replay { property: id.into(), seed: gs, group: i, violation, minimised: false, case: c.clone(), trail: t1.clone() };
                        let _ = std::fs::write(f, serde_json::to_vec(&r).unwrap());
                    }
                    part.found.unreproduced.push(format!("two executions of group {i} case {nth} differ"));
                }
            }
        }
        i += n;
    }
    part.st = world.st.clone();
    part.edges = (1..=sched::edges_total() as u32).filter(|e| sched::covered(*e)).collect();
    part.edges_total = sched::edges_total() as u32;
    let b = bincode::serialize(&part).unwrap();
    std::io::stdout().write_all(&b).unwrap();
    std::io::stdout().flush().unwrap();
    0
}

// ---- the check ----

fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = prop(id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let seed = seed();
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let n = std::env::var("LSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16)
    });
    let scratch = std::env::temp_dir().join(format!("lsim-{}-{id}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut kids = vec![];
    let programs = programs(id);
    let n = n.max(programs.len() as u64);
    for w in 0..n {
        let exe = &programs[w as usize % programs.len()];
        if !exe.exists() {
            eprintln!("{} is not built", exe.display());
            return 2;
        }
        let c = std::process::Command::new(exe)
            .args(["worker", id, &w.to_string(), &n.to_string(), tier, &seed.to_string(), scratch.to_str().unwrap()])
            .env("VERIF_ROOT", root())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .unwrap();
        kids.push(c);
    }
    let readers: Vec<_> = kids
        .iter_mut()
        .map(|k| {
            let mut o = k.stdout.take().unwrap();
            std::thread::spawn(move || {
                let mut b = vec![];
                let _ = o.read_to_end(&mut b);
                b
            })
        })
        .collect();
    let mut parts: Vec<(usize, Part)> = vec![];
    let mut broken = vec![];
    for (w, (mut k, r)) in kids.into_iter().zip(readers).enumerate() {
        let b = r.join().unwrap();
        let s = k.wait().unwrap();
        match bincode::deserialize::<Part>(&b) {
            Ok(p) if s.success() => parts.push((w % programs.len(), p)),
            _ => broken.push(format!("worker {w} ended with {s}")),
        }
    }
    let _ = std::fs::remove_file(scratch.join("stop"));
    let _ = std::fs::remove_dir(&scratch);

    let mut all = Part::default();
    // each program numbers its own edges
    let mut edges: BTreeSet<(usize, u32)> = BTreeSet::new();
    let mut totals: BTreeMap<usize, u32> = BTreeMap::new();
    let mut replays = vec![];
    for (program, p) in parts {
        all.st.merge(p.st);
        edges.extend(p.edges.into_iter().map(|e| (program, e)));
        totals.insert(program, p.edges_total);
        all.samples.extend(p.samples);
        all.trails.extend(p.trails);
        for (k, v) in p.known {
            *all.known.entry(k).or_default() += v;
        }
        all.found.unreproduced.extend(p.found.unreproduced);
        replays.extend(p.found.replay);
        all.seeds += p.seeds;
    }

    all.edges_total = totals.values().sum();

    // a violation counts when its file alone shows it again, in a new process
    let mut lines = vec![];
    let mut seen = BTreeSet::new();
    for r in replays {
        let rep: Replay = serde_json::from_slice(&r).unwrap();
        if !seen.insert(rep.violation.key.clone()) {
            continue;
        }
        let dir = root().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let slug: String =
            rep.violation.key.chars().map(|c| if c.is_ascii_alphanumeric() || c == '.' || c == '-' { c } else { '-' }).collect();
        let path = dir.join(format!("{id}-{slug}-{:016x}.json", rep.seed));
        std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
        let out = std::process::Command::new(program_of(&rep.case))
            .args(["replay", path.to_str().unwrap()])
            .env("VERIF_ROOT", root())
            .output()
            .unwrap();
        if out.status.code() == Some(1) {
            println!("{}", rep.violation.what);
            print!("{}", String::from_utf8_lossy(&out.stdout).lines().filter(|l| l.starts_with("replayed")).map(|l| format!("{l}\n")).collect::<String>());
            lines.push(format!("VIOLATION property={id} replay={}", path.display()));
        } else {
            all.found.unreproduced.push(format!("{} does not replay: {}", path.display(), rep.violation.what));
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let st = &all.st;
    let hours = wall / 3600.0;
    let faults: BTreeMap<&String, &u64> = st.fired.iter().collect();
    let ev = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.cases,
            "distinct_nontrivial": all.trails.len(),
            "rule": format!("Cases come from seeded groups: a generated dictionary source, its texts, and per case a plan of faults, deliveries and thread switches. {}. Distinct: by the digest of all events, switches and output of its runs.", if p.rule.is_empty() { "A case counts when at least one fault fired, a transfer was cut short or a thread switch happened in it" } else { p.rule }),
            "samples": all.samples.iter().take(6).map(|s| serde_json::from_str::<serde_json::Value>(&s.0).unwrap()).collect::<Vec<_>>(),
            "simulated_runs": st.runs,
            "command_line_runs": st.cli_runs,
            "seeds": all.seeds,
            "runs_per_hour": (st.runs as f64 / hours) as u64,
            "seeds_per_hour": (all.seeds as f64 / hours) as u64,
            "simulated_time_s": st.sim_ns as f64 / 1e9,
            "simulated_io_calls": st.events,
            "faults_injected": faults,
            "ends_of_runs": st.ends,
            "distinct_event_traces": st.hashes.len(),
            "distinct_thread_schedules": st.schedules.len(),
            "thread_switches": st.switches,
            "most_threads": st.max_threads,
            "code_edges_executed": st.steps,
            "code_edges_reached": edges.len(),
            "code_edges_of_lindera_crates": all.edges_total,
            "probes": st.probes,
            "cases_skipped": st.skipped,
            "determinism_reruns": st.reruns,
            "determinism_divergences": st.diverged,
            "not_reproduced": all.found.unreproduced.iter().take(5).collect::<Vec<_>>(),
            "known_findings_met": all.known,
            "real_components": ["lindera", "lindera-core", "lindera-dictionary", "lindera-*-builder", "lindera-tokenizer", "lindera-analyzer", "lindera-filter", "lindera-cli (main.rs)", "lindera-ipadic, -ipadic-neologd, -unidic, -ko-dic and -cc-cedict with their build scripts, lindera-compress and lindera-decompress (C22 only)", "tar, flate2, lzma-rs, yada, csv, bincode, encoding_rs, glob, serde_json, clap and Rust's standard library"],
            "stub_components": ["file system, directories, standard streams, clock, random source and process identity (libc calls), thread scheduling (pthread and futex)", "ureq, the build scripts' HTTP client (C22 only)"],
        },
        "assumptions": [
            "dictionaries are generated, with up to 70000 rows; the published ones need a network",
            "threads switch at I/O calls, synchronisation and code edges of lindera's crates, sequentially consistent",
            "a kill keeps what was written before it; a power loss keeps any prefix of what was not synced"
        ],
        "wall_s": wall,
        "violations": lines.len(),
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("evidence: {e}");
        return 2;
    }
    println!(
        "{id} {tier}: {} cases, {} runs, {} seeds, {} distinct, {} faults, {} switches, {}/{} edges, {:.1} simulated s, {:.1} s",
        st.cases,
        st.runs,
        all.seeds,
        all.trails.len(),
        st.fired.values().sum::<u64>(),
        st.switches,
        edges.len(),
        all.edges_total,
        st.sim_ns as f64 / 1e9,
        wall
    );
    for u in all.found.unreproduced.iter().take(5) {
        println!("not reproduced: {u}");
    }
    for k in known().iter().filter(|k| k.property == id) {
        println!("KNOWN-FINDING: property={id} {}", k.what);
    }
    for l in &lines {
        println!("{l}");
    }
    if !lines.is_empty() {
        1
    } else if !broken.is_empty() {
        for b in broken {
            eprintln!("{b}");
        }
        2
    } else {
        0
    }
}

// ---- replay ----

fn replay(file: &str, trace: bool) -> i32 {
    let Ok(b) = std::fs::read(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let r: Replay = serde_json::from_slice(&b).expect("replay file");
    let Some(p) = prop(&r.property) else { return 2 };
    let exe = program_of(&r.case);
    if std::env::current_exe().ok() != Some(exe.clone()) && std::env::var_os("LSIM_HERE").is_none() {
        let mut c = std::process::Command::new(&exe);
        c.args(["replay", file]).args(trace.then_some("--trace")).env("VERIF_ROOT", root()).env("LSIM_HERE", "1");
        return match c.status() {
            Ok(s) => s.code().unwrap_or(2),
            Err(e) => {
                eprintln!("{}: {e}", exe.display());
                2
            }
        };
    }
    quiet_panics();
    crate::proc::setup_worker();
    unsafe {
        crate::os::TRACE = trace;
    }
    let mut w = World::new();
    let (v, trail) = exec_fresh(&mut w, p.exec, &r.case);
    match v {
        Some(v) => {
            println!("{}: {}", v.key, v.what);
            println!(
                "replayed {} simulated processes; {}",
                w.st.runs,
                if v == r.violation && trail == r.trail { "every event as recorded" } else { "not every event as recorded" }
            );
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        None => {
            println!("{}: holds in this replay", r.property);
            0
        }
    }
}

/// For people: one group, case by case.
fn group(id: &str, i: u64) -> i32 {
    let Some(p) = prop(id) else { return 2 };
    quiet_panics();
    crate::proc::setup_worker();
    sched::setup_cover();
    let mut w = World::new();
    let mut rng = Rng::new(group_seed(id, seed(), i));
    let t = Instant::now();
    let cases = (p.gen)(&mut w, &mut rng, i);
    println!("{} cases, {:?}", cases.len(), t.elapsed());
    for (n, c) in cases.into_iter().enumerate() {
        if let Ok(d) = std::env::var("LSIM_DUMP") {
            let violation = Viol { key: "none".into(), what: String::new() };
            let r = Replay { property: id.into(), seed: seed(), group: i, violation, minimised: false, case: c.clone(), trail: 0 };
            let _ = std::fs::write(format!("{d}/{n}.json"), serde_json::to_vec(&r).unwrap());
        }
        let t = Instant::now();
        let before = w.st.fired.clone();
        let runs = w.st.runs;
        let v = (p.exec)(&mut w, &c);
        let new: Vec<String> = w
            .st
            .fired
            .iter()
            .filter(|(k, v)| before.get(*k) != Some(v))
            .map(|(k, v)| format!("{k}+{}", v - before.get(k).unwrap_or(&0)))
            .collect();
        println!(
            "{} {} {:?} {:?} {} | {} | {} runs {:?} | {}",
            c.sys.first().map(|s| s.kind).or(c.user.first().map(|u| u.kind)).map(|k| k.name()).unwrap_or("-"),
            c.scen,
            c.n,
            c.s,
            c.plans.iter().map(props::build::plan_words).collect::<Vec<_>>().join(" / "),
            new.join(" "),
            w.st.runs - runs,
            t.elapsed(),
            v.map(|v| format!("VIOLATED {}: {}", v.key, v.what)).unwrap_or("held".into())
        );
    }
    println!("{:?}", w.st.ends);
    println!("{:?}", w.st.probes);
    0
}
