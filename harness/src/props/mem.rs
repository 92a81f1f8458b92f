//! Memory: a process that goes on working holds no more and no more of it.
use super::build::plan_words;
use super::conc::{add_variants, disk, gen_setups, kinds_of, one_op, BADLOAD, BUILD, CLONED, LOAD, RAW, SHARED};
use super::load::compiled;
use super::*;
use crate::model::*;
use crate::os::{heap, StdinItem};
use lindera_analyzer::analyzer::Analyzer;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        groups: 400,
        gen: gen_c24,
        exec: exec_c24,
        rule: "a case is one process that repeats one to four operations on ever new texts, or one run of the program over many lines; the memory it holds is compared after each of at least two phases",
    }]
}

// operations besides those of conc.rs
const POISONED: u8 = 64; // an analysis that a filter fails
const PANICKING: u8 = 65; // an analysis in which a filter panics
const THREADS: u8 = 66; // three threads that analyse and end
const BADDIR: u8 = 67; // a load of the dictionary with the broken file
const BADBUILD: u8 = 68; // builds that fail
const PLACE: u8 = 69; // a build into a place of its own, loaded and dropped

/// A text like `base` that nobody analysed before.
fn fresh(base: &str, n: u64) -> String {
    const ALPHABET: &str = "アイウエオカキクケコサシスセソタチツテトナニヌネ";
    let mut at = base.len() / 3;
    while !base.is_char_boundary(at) {
        at += 1;
    }
    let a: Vec<char> = ALPHABET.chars().collect();
    let mut w = String::new();
    let mut k = n;
    for _ in 0..4 {
        w.push(a[k as usize % a.len()]);
        k /= a.len() as u64;
    }
    format!("{}{w}{}", &base[..at], &base[at..])
}

fn cycle(n: u64, c: &Case, kinds: &[Kind], shared: &[Arc<Analyzer>]) {
    for op in &c.ops[0] {
        let text = fresh(&c.texts[op.2 as usize % c.texts.len()], n);
        let a = shared.get(op.1 as usize % shared.len()).unwrap();
        let run = |o: u8, t: String| drop(one_op(0, &(o, op.1, 0), shared, &c.setups, kinds, &[t]));
        match op.0 {
            POISONED => run(SHARED, if op.1 & 1 == 0 { format!("{POISON}{text}") } else { format!("{text}{POISON}") }),
            PANICKING => run(SHARED, format!("{text}{PANIC_MARK}")),
            THREADS => {
                let hs: Vec<_> = (0..3)
                    .map(|i| {
                        let (a, text) = (a.clone(), fresh(&text, n + i));
                        std::thread::spawn(move || drop(analyze_one(&a, &text)))
                    })
                    .collect();
                for h in hs {
                    let _ = h.join();
                }
            }
            BADDIR => {
                let mut st = c.setups[op.1 as usize % c.setups.len()].clone();
                st.dict = "/bad".into();
                let _ = caught(|| drop(st.analyzer(kinds[0])));
            }
            BADBUILD => drop(to_res(caught(|| {
                let b = lindera_dictionary::DictionaryBuilderResolver::resolve_builder(kinds[kinds.len() - 1].lindera())?;
                match op.1 % 3 {
                    0 => b.build_dictionary("/nothing".as_ref(), "/bb".as_ref()),
                    1 => b.build_dictionary("/badsrc".as_ref(), "/bb".as_ref()),
                    _ => b.build_user_dictionary("/broken/user.csv".as_ref(), "/bb/user.bin".as_ref()),
                }
            }))),
            PLACE => drop(to_res(caught(|| {
                let b = lindera_dictionary::DictionaryBuilderResolver::resolve_builder(kinds[kinds.len() - 1].lindera())?;
                let dir = format!("/place{n:07}");
                b.build_dictionary("/src".as_ref(), dir.as_ref())?;
                let mut st = c.setups[0].clone();
                st.dict = dir.clone();
                st.user = None;
                st.config_file = None;
                let r = st.analyzer(c.sys[0].kind).map(|a| drop(analyze_one(&a, &text)));
                let _ = std::fs::remove_dir_all(&dir);
                r
            }))),
            // not one_op's: always the same two loads
            BADLOAD => drop(one_op(0, &(BADLOAD, op.1, op.2), shared, &c.setups, kinds, &[text])),
            BUILD => drop(one_op(0, &(BUILD, op.1, op.2), shared, &c.setups, kinds, &[text])),
            o => run(o, text),
        }
    }
}

/// (cycles of the phase, bytes held after it). Each phase is as long as all before it
/// together; more follow as long as the memory grows.
fn phases(c: &Case, kinds: &[Kind]) -> Vec<(u64, i64)> {
    let mut shared = vec![];
    for (s, k) in c.setups.iter().zip(kinds) {
        match caught(|| s.analyzer(*k)) {
            Ok(Ok(a)) => shared.push(Arc::new(a)),
            _ => return vec![],
        }
    }
    // the largest text comes first
    let long: String = c.texts.iter().map(|t| fresh(t, 1)).collect::<Vec<_>>().join("。").repeat(3);
    for a in &shared {
        drop(analyze_one(a, &long));
    }
    let mut v: Vec<(u64, i64)> = Vec::with_capacity(16);
    let n = c.int("cycles").max(1) as u64;
    let mut done = 0;
    while v.len() < 2 || (v.len() < 7 && grew(&v[v.len() - 2..])) {
        let len = if done == 0 { n } else { done };
        for i in 0..len {
            cycle(100_000 + done + i, c, kinds, &shared);
        }
        done += len;
        v.push((len, heap::live()));
    }
    v
}
/// At least one word for each cycle.
fn grew(v: &[(u64, i64)]) -> bool {
    v[1].1 - v[0].1 >= 8 * v[1].0 as i64
}

fn op_name(o: &(u8, u32, u32)) -> &'static str {
    match o.0 {
        SHARED => "analysis",
        CLONED => "analysis with a clone",
        RAW => "tokenization",
        LOAD => "load",
        BUILD => "build",
        BADLOAD => "load of something broken",
        POISONED => "analysis that fails",
        PANICKING => "analysis with a panic in a filter",
        THREADS => "threads",
        PLACE => "build and load in a new place",
        BADDIR => "load with a failing file",
        _ => "build that fails",
    }
}

fn exec_c24(w: &mut World, c: &Case) -> Option<Viol> {
    if c.scen == "stream" {
        return exec_stream(w, c);
    }
    if c.ops.is_empty() || c.ops[0].is_empty() || c.texts.is_empty() || c.setups.is_empty() {
        return None;
    }
    let mut img = disk(w, c)?;
    let good: Vec<(String, Vec<u8>)> = crate::world::out_files(&img, "/dict").into_iter().collect();
    for (k, v) in good {
        img.put(&format!("/bad/{k}"), &v);
    }
    c.sys[0].put(&mut img, "/badsrc");
    let kinds = kinds_of(c);
    let p = &c.plans[0];
    let (f, r) = w.run(&img, p, || Res::Ok(phases(c, &kinds)));
    let ops: Vec<&str> = c.ops[0].iter().map(op_name).collect();
    let ctx = format!("{}, repeated, {}", ops.join(", "), plan_words(p));
    let v = match f {
        Fate::Res(Res::Ok(v)) => v,
        o => return viol("breaks", format!("{ctx}: {}", o.word())),
    };
    if v.is_empty() {
        w.st.skipped += 1;
        return None;
    }
    *w.st.probes.entry("operations repeated".into()).or_default() += v.iter().map(|p| p.0).sum::<u64>() * ops.len() as u64;
    *w.st.probes.entry("allocations".into()).or_default() += r.allocs;
    if v.len() > 2 {
        w.st.probe("memory grew in the second phase");
    }
    if v.len() == 7 && grew(&v[5..]) {
        let hist: Vec<String> = v.iter().map(|(n, b)| format!("{n} times: {b} bytes")).collect();
        return viol("memory-grows", format!("{ctx}: the memory held grows without end: {}", hist.join(", then ")));
    }
    None
}

// the program over many lines

fn line_input(c: &Case, lines: u64) -> (String, Vec<usize>) {
    let mut s: String = c.texts.iter().map(|t| fresh(t, 1)).collect::<Vec<_>>().concat().repeat(3);
    s.push('\n');
    let mut ends = vec![];
    for i in 0..lines {
        s.push_str(&fresh(&c.texts[i as usize % c.texts.len()], 100_000 + i));
        s.push('\n');
        ends.push(s.len());
    }
    (s, ends)
}
fn exec_stream(w: &mut World, c: &Case) -> Option<Viol> {
    if c.texts.is_empty() || c.texts.iter().any(|t| t.contains('\n')) {
        return None;
    }
    let img = compiled(w, c)?;
    let args = super::cli::arguments(c)?;
    let n = c.int("lines").max(1) as u64;
    let mut p = c.plans[0].clone();
    let mut hist = vec![];
    // when the memory grows over the first lines, the same with many more
    for (a, b) in [(n, n * 4), (n * 8, n * 64)] {
        let (text, ends) = line_input(c, b);
        let size = (c.int("piece").max(1) as usize).min(text.len());
        p.stdin = text.as_bytes().chunks(size).map(|d| StdinItem::Data(d.to_vec())).collect();
        let (f, r) = w.cli(&img, &p, &args);
        if !f.is_ok() {
            return viol("fails", format!("{b} lines, {}: {}", plan_words(&p), f.word()));
        }
        *w.st.probes.entry("lines".into()).or_default() += b;
        let at = |lines: u64| {
            let end = ends[lines as usize - 1] as u64;
            r.held.iter().take_while(|h| h.0 <= end).last().map(|h| h.1).unwrap_or(0)
        };
        let mut k = a;
        while k < b {
            hist.push(format!("{k} lines: {} bytes, {} lines: {} bytes", at(k), 2 * k, at(2 * k)));
            if !grew(&[(k, at(k)), (k, at(2 * k))]) {
                return None;
            }
            k *= 2;
        }
        w.st.probe("memory grew over the first lines");
    }
    viol("memory-grows", format!("the program, {}: the memory held grows with the number of lines: {}", plan_words(&p), hist.join(", ")))
}

fn gen_c24(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let _ = w;
    let mut v = vec![];
    if group % 5 == 4 {
        let mut base = super::cli::gen_base(rng, "C24");
        base.scen = "stream".into();
        base.texts = (0..4).map(|_| gen_text(rng, &base.sys[0], base.user.first(), 4).replace(['\n', '\r'], "") + "a").collect();
        for k in 0..3 {
            let mut p = if k > 0 { gentle(rng, rng.0) } else { base_plan(rng.next()) };
            p.max_read = 0;
            let c = base.clone().with("lines", 60).with("piece", *rng.pick(&[50, 100, 300])).withs("format", ["mecab", "wakati", "json"][k]);
            v.push(c.plan(p));
        }
        return v;
    }
    let mut base = Case::new("C24", "repeat");
    let kind = *rng.pick(&KINDS);
    let size = *rng.pick(&[Size::Tiny, Size::Small, Size::Small]);
    base.sys.push(gen_sys(rng, kind, size, false));
    base.user.push(gen_user(rng, kind, Size::Tiny, 2, false));
    let ns = rng.range(1, 3);
    gen_setups(rng, &mut base, ns);
    for s in &mut base.setups {
        s.failing = true;
    }
    add_variants(rng, &mut base);
    for _ in 0..rng.range(1, 4) {
        let words = rng.range(1, 7);
        base.texts.push(gen_text(rng, &base.sys[0], Some(&base.user[0]), words) + "a");
    }
    for k in 0..6 {
        let mut c = base.clone();
        let mut o = vec![];
        let quick: &[u8] = &[SHARED, SHARED, CLONED, RAW, POISONED, PANICKING];
        let heavy: &[u8] = &[LOAD, BADLOAD, BADDIR, BUILD, BADBUILD, THREADS, PLACE];
        for _ in 0..rng.range(1, 4) {
            let op = if k % 2 == 0 { *rng.pick(quick) } else { *rng.pick(heavy) };
            o.push((op, rng.below(8) as u32, rng.below(32) as u32));
        }
        c.ops.push(o);
        let mut p = base_plan(rng.next());
        if rng.chance(1, 3) {
            gentle_into(rng, &mut p);
            p.max_read = 0;
            p.max_write = 0;
        }
        // a file of the broken dictionary and one of the broken source
        let file = *rng.pick(&FILES);
        p.sticky.push(Sticky { call: *rng.pick(&[Call::Open, Call::Read]), path: format!("/bad/{file}"), from: 0, errno: libc::EIO });
        p.sticky.push(Sticky { call: Call::Read, path: format!("/badsrc/{}", rng.pick(&["matrix.def", "char.def", "unk.def", ".csv"])), from: 0, errno: libc::EIO });
        v.push(c.with("cycles", if k % 2 == 0 { 80 } else { 10 }).plan(p));
    }
    v
}
