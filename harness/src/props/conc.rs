//! Analyses that share analyzers, tokenizers and dictionaries: at the same time, and
//! one after another.
use super::build::{plan_words, some_setup, toks_diff};
use super::load::compiled;
use super::*;
use crate::model::*;
use crate::os::vfs::Image;
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::LinderaResult;
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilter};
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilter};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            groups: 220,
            gen: gen_c10,
            exec: exec_c10,
            rule: "a case counts when at least two threads ran and the scheduler switched between them during the run",
        },
        Prop {
            id: "C11",
            groups: 180,
            gen: gen_c11,
            exec: exec_c11,
            rule: "a case is one history of at least two operations on shared analyzers, every answer compared with a fresh process",
        },
        Prop {
            id: "C23",
            groups: 160,
            gen: gen_c23,
            exec: exec_c23,
            rule: "a case is one to four threads with analyses inside filters of other analyses, or beside analyses whose filters wait for the end of other threads",
        },
    ]
}

// operations
pub const SHARED: u8 = 0; // analyse with the shared analyzer
pub const CLONED: u8 = 1; // analyse with a clone made now
pub const RAW: u8 = 2; // tokenize with the shared tokenizer
pub const LOAD: u8 = 3; // load an analyzer and analyse with it
pub const BUILD: u8 = 4; // build dictionaries meanwhile
pub const BADLOAD: u8 = 5; // a load that fails
const SWAP: u8 = 6; // build one of two sources into a place of the thread's own, and use it

/// For a `SWAP`: which of the two sources, and which user dictionary of it.
fn swap_of(a: u32) -> (bool, u32) {
    (a & 1 == 1, (a >> 1) % 4)
}

/// Whether the operations of this run name their files from the working directory.
static RELATIVE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// A path from the root, as this run names it.
fn named(p: &str) -> &str {
    if RELATIVE.load(std::sync::atomic::Ordering::Relaxed) {
        p.trim_start_matches('/')
    } else {
        p
    }
}

/// The setups as this run names their files.
fn name_all(setups: &[Setup], relative: bool) -> Vec<Setup> {
    RELATIVE.store(relative, std::sync::atomic::Ordering::Relaxed);
    setups
        .iter()
        .cloned()
        .map(|mut s| {
            s.dict = named(&s.dict).into();
            s.user = s.user.map(|(p, k)| (named(&p).into(), k));
            s.config_file = s.config_file.map(|p| named(&p).into());
            s
        })
        .collect()
}

fn swap(me: usize, a: u32, kind: Kind, text: &str) -> Toks {
    let (other, user) = swap_of(a);
    let made = to_res(caught(|| {
        let b = lindera_dictionary::DictionaryBuilderResolver::resolve_builder(kind.lindera())?;
        let (src, dir) = (named(if other { "/srcv" } else { "/src" }), named(&format!("/swap{me}")).to_string());
        b.build_dictionary(src.as_ref(), dir.as_ref())?;
        let csv = named(if other { "/user1/user.csv" } else { "/user/user.csv" });
        let bin = format!("{dir}/user.bin");
        let mut st = plain_setup(&dir);
        match user {
            0 => {}
            1 => st.user = Some((csv.into(), Some(kind))),
            _ => {
                b.build_user_dictionary(csv.as_ref(), bin.as_ref())?;
                st.user = Some((bin, None));
            }
        }
        st.analyzer(kind)
    }));
    match made {
        Res::Ok(x) => analyze_one(&x, text),
        Res::Err(e) => Res::Err(format!("setup: {e}")),
        Res::Panic(e) => Res::Panic(e),
    }
}

pub fn plain_setup(dir: &str) -> Setup {
    Setup {
        dict: dir.into(),
        user: None,
        mode: TokMode::Normal,
        filters: 0,
        config_file: None,
        failing: false,
        custom: None,
        way: 0,
    }
}

fn bad_load(n: u32) -> bool {
    use lindera_dictionary::*;
    caught(|| match n % 5 {
        0 => DictionaryLoader::load_dictionary(named("/nowhere").into()).is_err(),
        1 => DictionaryLoader::load_dictionary(named("/broken").into()).is_err(),
        2 => DictionaryLoader::load_user_dictionary_from_bin(named("/broken/user.bin").into()).is_err(),
        3 => DictionaryLoader::load_user_dictionary_from_csv(DictionaryKind::IPADIC, named("/broken/user.csv").into()).is_err(),
        _ => lindera_analyzer::analyzer::AnalyzerConfig::from_file(named("/broken/conf.json").as_ref())
            .and_then(|c| Analyzer::from_config(&c))
            .is_err(),
    })
    .unwrap_or(false)
}

pub fn one_op(me: usize, op: &(u8, u32, u32), shared: &[Arc<Analyzer>], setups: &[Setup], kinds: &[Kind], texts: &[String]) -> Toks {
    let (k, a, t) = *op;
    if k == SWAP {
        return swap(me, a, kinds[kinds.len() - 1], &texts[t as usize % texts.len()]);
    }
    let a = a as usize % setups.len();
    let text = &texts[t as usize % texts.len()];
    match k {
        SHARED => analyze_one(&shared[a], text),
        CLONED => analyze_one(&Analyzer::clone(&shared[a]), text),
        RAW => tokenize_one(&shared[a].tokenizer, text),
        LOAD => match to_res(caught(|| setups[a].analyzer(kinds[a]))) {
            Res::Ok(x) => analyze_one(&x, text),
            Res::Err(e) => Res::Err(format!("setup: {e}")),
            Res::Panic(e) => Res::Panic(e),
        },
        BUILD => to_res(caught(|| {
            let b = lindera_dictionary::DictionaryBuilderResolver::resolve_builder(kinds[kinds.len() - 1].lindera())?;
            if t % 2 == 0 {
                b.build_dictionary(named("/src").as_ref(), named(&format!("/built{me}")).as_ref())?;
            } else {
                b.build_user_dictionary(named("/user/user.csv").as_ref(), named(&format!("/built{me}/user.bin")).as_ref())?;
            }
            Ok(vec![])
        })),
        _ => {
            if bad_load(t) {
                Res::Ok(vec![])
            } else {
                Res::Err("a load of something broken did not fail".into())
            }
        }
    }
}

fn threads(setups: &[Setup], kinds: &[Kind], texts: &[String], ops: &[Vec<(u8, u32, u32)>]) -> Res<Vec<Vec<Toks>>> {
    let mut shared = vec![];
    for (s, k) in setups.iter().zip(kinds) {
        match to_res(caught(|| s.analyzer(*k))) {
            Res::Ok(a) => shared.push(Arc::new(a)),
            Res::Err(e) => return Res::Err(e),
            Res::Panic(e) => return Res::Panic(e),
        }
    }
    if ops.len() == 1 {
        let v = ops[0].iter().map(|o| one_op(0, o, &shared, setups, kinds, texts)).collect();
        return Res::Ok(vec![v]);
    }
    let mut hs = vec![];
    for (i, o) in ops.iter().enumerate() {
        let (o, shared, setups, kinds, texts) = (o.clone(), shared.clone(), setups.to_vec(), kinds.to_vec(), texts.to_vec());
        hs.push(std::thread::spawn(move || -> Vec<Toks> {
            o.iter().map(|o| one_op(i, o, &shared, &setups, &kinds, &texts)).collect()
        }));
    }
    // the owner goes first; the threads keep what they share alive
    drop(shared);
    let mut v = vec![];
    for h in hs {
        match h.join() {
            Ok(x) => v.push(x),
            Err(_) => return Res::Panic("a thread died".into()),
        }
    }
    Res::Ok(v)
}

pub fn disk(w: &mut World, c: &Case) -> Option<Image> {
    let mut img = compiled(w, c)?;
    c.sys.first()?.put(&mut img, "/src");
    c.sys.last()?.put(&mut img, "/srcv");
    // things that do not load
    img.mkdirs("/broken");
    img.put("/broken/char_def.bin", b"\x01\x02");
    img.put("/broken/user.bin", b"no dictionary");
    img.put("/broken/user.csv", "語,x,y,z,a,b\n".as_bytes());
    img.put("/broken/conf.json", b"{\"tokenizer\":{\"dictionary\":{\"path\":\"/broken\"},\"mode\":\"normal\"}}");
    Some(img)
}

pub fn kinds_of(c: &Case) -> Vec<Kind> {
    // and at the end the kind of the sources in /src
    let of = |s: &Setup| c.sys[if s.dict == "/dict" { 0 } else { 1 }].kind;
    c.setups.iter().map(of).chain([c.sys[0].kind]).collect()
}

/// What a process that does nothing else gives.
fn reference(w: &mut World, img: &Image, c: &Case, kinds: &[Kind], op: &(u8, u32, u32)) -> Option<Toks> {
    let a = op.1 as usize % c.setups.len();
    let text = c.texts[op.2 as usize % c.texts.len()].clone();
    match op.0 {
        SWAP => {
            let (other, user) = swap_of(op.1);
            let mut st = plain_setup(&if other { format!("/dict{}", c.sys.len() - 1) } else { "/dict".into() });
            if user > 0 {
                st.user = Some((if other { "/user1/user.bin" } else { "/user/user.bin" }.into(), None));
            }
            Some(w.alone(img, &st, c.sys[0].kind, &[text], false)[0].clone())
        }
        SHARED | CLONED | LOAD => Some(w.alone(img, &c.setups[a], kinds[a], &[text], false)[0].clone()),
        RAW => {
            // each sentence by itself
            let parts: Vec<String> = text.split_inclusive(&['。', '、', '\n', '\t']).map(|s| s.to_string()).collect();
            let mut raw = c.setups[a].clone();
            raw.filters = 0;
            raw.custom = None;
            raw.failing = false;
            let mut all = vec![];
            let mut at = 0;
            for p in parts {
                let t = w.alone(img, &raw, kinds[a], &[p.clone()], true);
                match &t[0] {
                    Res::Ok(t) => {
                        let n = all.len();
                        all.extend(t.iter().cloned().map(|mut t: Tok| {
                            t.start += at;
                            t.end += at;
                            t.position += n;
                            t
                        }));
                    }
                    o => return Some(o.clone()),
                }
                at += p.len();
            }
            Some(Res::Ok(all))
        }
        _ => Some(Res::Ok(vec![])),
    }
}

fn op_word(op: &(u8, u32, u32), c: &Case) -> String {
    let t = &c.texts[op.2 as usize % c.texts.len()];
    let a = op.1 as usize % c.setups.len();
    match op.0 {
        SHARED => format!("analyse {t:?} with analyzer {a}"),
        CLONED => format!("analyse {t:?} with a clone of analyzer {a}"),
        RAW => format!("tokenize {t:?} with the tokenizer of analyzer {a}"),
        LOAD => format!("load analyzer {a} again and analyse {t:?}"),
        BUILD => "build a dictionary".into(),
        SWAP => format!("build source {} and a user dictionary ({}) into one place and analyse {t:?}", swap_of(op.1).0 as u8, swap_of(op.1).1),
        _ => "load something broken".into(),
    }
}

fn exec_ops(w: &mut World, c: &Case) -> Option<Viol> {
    let img = disk(w, c)?;
    let kinds = kinds_of(c);
    let p = &c.plans[0];
    let setups = name_all(&c.setups, c.int("relative") == 1);
    let (f, r) = w.run(&img, p, || threads(&setups, &kinds, &c.texts, &c.ops));
    name_all(&[], false);
    if r.threads > 2 && !r.switches.is_empty() {
        w.st.probe("threads interleaved");
    }
    let ctx = if c.ops.len() > 1 {
        format!("{} threads{}, {}", c.ops.len(), if c.int("relative") == 1 { " with relative paths" } else { "" }, plan_words(p))
    } else {
        format!("a history of {} operations", c.ops.iter().map(|o| o.len()).sum::<usize>())
    };
    let got = match f {
        Fate::Res(Res::Ok(v)) => v,
        o if o.stuck() => return viol("no-end", format!("{ctx}: {}", o.word())),
        o => return viol("breaks", format!("{ctx}: {}", o.word())),
    };
    let mut alone = std::collections::HashMap::new();
    for (i, (ops, res)) in c.ops.iter().zip(&got).enumerate() {
        for (j, (op, g)) in ops.iter().zip(res).enumerate() {
            if !alone.contains_key(op) {
                alone.insert(*op, reference(w, &img, c, &kinds, op)?);
            }
            let want = &alone[op];
            if want != g {
                let before = if c.ops.len() == 1 && j > 0 { format!(", after {}", op_word(&ops[j - 1], c)) } else { String::new() };
                return viol(
                    "answer-changed",
                    format!("{ctx}: thread {i} operation {j} ({}{before}): {}", op_word(op, c), toks_diff(want, g)),
                );
            }
        }
    }
    None
}

pub fn gen_setups(rng: &mut Rng, base: &mut Case, n: i64) {
    for i in 0..n {
        let user = match rng.below(3) {
            0 => None,
            1 => Some(("/user/user.bin", None)),
            _ => Some(("/user/user.csv", Some(base.user[0].kind))),
        };
        let mut st = some_setup(rng, user);
        if base.sys.len() > 1 && rng.chance(1, 3) {
            st.dict = "/dict1".into();
            st.user = None;
        }
        if rng.chance(1, 4) {
            st.config_file = Some(format!("/conf{i}.json"));
        }
        st.failing = rng.chance(1, 3);
        if rng.chance(1, 2) {
            st.custom = Some(gen_chain(rng, &base.sys[if st.dict == "/dict" { 0 } else { 1 }]));
        }
        base.setups.push(st);
    }
}

/// The second source of each kind for `SWAP`.
pub fn add_variants(rng: &mut Rng, base: &mut Case) {
    let s = vary_sys(rng, &base.sys[0]);
    base.sys.push(s);
    let u = vary_user(rng, &base.user[0]);
    base.user.push(u);
}

fn gen_texts(rng: &mut Rng, base: &mut Case, n: i64) {
    for i in 0..n {
        let words = match rng.below(5) {
            0 => 1,
            1 => 30,
            _ => 8,
        };
        let mut t = gen_text(rng, &base.sys[0], Some(&base.user[0]), words);
        if rng.chance(1, 6) {
            // many sentences, long before short
            t = format!("{t}。{}、{}。a", gen_text(rng, &base.sys[0], None, 12), gen_text(rng, &base.sys[0], None, 2));
        }
        if rng.chance(1, 6) {
            // one sentence, and others that are like it but for a word
            let one = |rng: &mut Rng| gen_text(rng, &base.sys[0], Some(&base.user[0]), 3).replace(['。', '、', '\n', '\t'], "");
            let (head, tail) = (one(rng) + &one(rng), if rng.chance(1, 2) { one(rng) } else { String::new() });
            let len = 3 * rng.range(1, 3) as usize;
            t = String::new();
            for _ in 0..rng.range(2, 5) {
                let mut w = one(rng);
                if rng.chance(2, 3) {
                    w = w.chars().filter(|c| c.len_utf8() == 3).take(len / 3).collect();
                }
                t.push_str(&format!("{head}{w}{tail}{}", rng.pick(&["。", "、", "\n"])));
            }
        }
        match rng.below(10) {
            0 => t = format!("{POISON}{t}"),
            1 => t = format!("{t}{POISON}"),
            2 if i > 0 => t = format!("{t}{PANIC_MARK}"),
            3 if i > 0 => t = String::new(),
            _ => {}
        }
        base.texts.push(t);
    }
}

// ---- C10: analyses at the same time do not disturb each other ----

fn exec_c10(w: &mut World, c: &Case) -> Option<Viol> {
    exec_ops(w, c)
}
fn gen_c10(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let mut base = Case::new("C10", "threads");
    let kind = *rng.pick(&KINDS);
    let size = *rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]);
    base.sys.push(gen_sys(rng, kind, size, false));
    if rng.chance(1, 3) {
        let k = *rng.pick(&KINDS);
        base.sys.push(gen_sys(rng, k, Size::Small, false));
    }
    base.user.push(gen_user(rng, kind, Size::Tiny, 2, false));
    let ns = rng.range(1, 3);
    gen_setups(rng, &mut base, ns);
    add_variants(rng, &mut base);
    let nt = rng.range(2, 6);
    gen_texts(rng, &mut base, nt);
    let threads_n = rng.range(2, 4);
    for _ in 0..threads_n {
        let n = rng.range(1, 5);
        let mut o = vec![];
        for _ in 0..n {
            let op = match rng.below(20) {
                0..=8 => SHARED,
                9..=11 => CLONED,
                12..=14 => RAW,
                15..=17 => LOAD,
                18 if group % 3 == 0 => BUILD,
                18 if size != Size::Medium => SWAP,
                _ => BADLOAD,
            };
            o.push((op, rng.below(8) as u32, rng.below(32) as u32));
        }
        base.ops.push(o);
    }
    let Some(img) = disk(w, &base) else { return v };
    let kinds = kinds_of(&base);
    let (_, dry) = w.run(&img, &logged(base_plan(1)), || threads(&base.setups, &kinds, &base.texts, &base.ops));
    if dry.edges.is_empty() {
        return vec![base.plan(base_plan(1))];
    }
    for _ in 0..26 {
        let mut p = base_plan(rng.next());
        preempting(rng, &mut p, &dry);
        if rng.chance(1, 5) {
            p.max_read = *rng.pick(&[16, 100, 1000]);
        }
        let mut c = base.clone().plan(p);
        if rng.chance(1, 4) {
            c.n.insert("relative".into(), 1);
        }
        v.push(c);
    }
    v
}

// ---- C11: an answer does not depend on what was done before ----

fn exec_c11(w: &mut World, c: &Case) -> Option<Viol> {
    exec_ops(w, c)
}
fn gen_c11(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let _ = w;
    let mut v = vec![];
    let mut base = Case::new("C11", "history");
    let kind = *rng.pick(&KINDS);
    let size = if group % 10 == 0 { Size::Large } else { *rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]) };
    base.sys.push(gen_sys(rng, kind, size, false));
    if rng.chance(1, 3) {
        let k = *rng.pick(&KINDS);
        base.sys.push(gen_sys(rng, k, Size::Small, false));
    }
    base.user.push(gen_user(rng, kind, Size::Small, 2, false));
    let ns = rng.range(1, 3);
    gen_setups(rng, &mut base, ns);
    add_variants(rng, &mut base);
    let nt = rng.range(3, 9);
    gen_texts(rng, &mut base, nt);
    for k in 0..12 {
        let mut c = base.clone();
        let mut o = vec![];
        if k == 11 && size != Size::Large {
            // a process that has been at work for a while
            for _ in 0..*rng.pick(&[70, 140, 300, 600, 1100]) {
                let op = match rng.below(40) {
                    0..=19 => SHARED,
                    20..=38 => RAW,
                    _ => BADLOAD,
                };
                o.push((op, rng.below(ns as u64) as u32, rng.below(nt as u64) as u32));
            }
            c.ops.push(o);
            v.push(c.plan(base_plan(rng.next())));
            continue;
        }
        if k == 10 && rng.chance(1, 4) {
            // a whole book
            let mut t = format!("{}。", gen_text(rng, &base.sys[0], Some(&base.user[0]), 30));
            for _ in 0..rng.below(12) {
                t.push_str(&gen_text(rng, &base.sys[0], Some(&base.user[0]), 40));
                t.push_str(rng.pick(&["、", "。", "\n", "\t", ""]));
            }
            t = t.repeat(1 + *rng.pick(&[5_000, 20_000, 70_000, 140_000]) / t.len());
            c.texts.push(t);
            for _ in 0..rng.range(1, 3) {
                o.push((RAW, rng.below(ns as u64) as u32, if rng.chance(2, 3) { nt as u32 } else { rng.below(nt as u64) as u32 }));
            }
            o.push((RAW, rng.below(ns as u64) as u32, nt as u32));
            c.ops.push(o);
            let mut p = base_plan(rng.next());
            p.max_steps *= 50;
            v.push(c.plan(p));
            continue;
        }
        for _ in 0..rng.range(2, 24) {
            let op = match rng.below(20) {
                0..=8 => SHARED,
                9..=10 => CLONED,
                11..=15 => RAW,
                16 => LOAD,
                17 if group % 4 == 0 => BUILD,
                17..=18 if size != Size::Large => SWAP,
                _ => BADLOAD,
            };
            o.push((op, rng.below(8) as u32, rng.below(32) as u32));
        }
        c.ops.push(o);
        if rng.chance(1, 4) {
            c.n.insert("relative".into(), 1);
        }
        v.push(c.plan(base_plan(rng.next())));
    }
    v
}

// ---- C23: analyses inside and beside the filters of other analyses ----

type Deed = Box<dyn FnOnce()>;
thread_local! {
    /// What the next hook at each place does.
    static DEEDS: RefCell<[Option<Deed>; 4]> = const { RefCell::new([None, None, None, None]) };
}
fn set_deed(place: usize, d: Option<Deed>) {
    DEEDS.with(|s| s.borrow_mut()[place] = d);
}
/// A user's filter that does something else and leaves its input as it is.
#[derive(Clone)]
struct Hook(usize);
impl Hook {
    fn act(&self) {
        let d = DEEDS.with(|s| s.borrow_mut()[self.0].take());
        if let Some(d) = d {
            d();
        }
    }
}
impl CharacterFilter for Hook {
    fn name(&self) -> &str {
        "hook"
    }
    fn apply(&self, text: &str) -> LinderaResult<(String, Vec<usize>, Vec<i64>)> {
        self.act();
        Ok((text.to_string(), vec![], vec![]))
    }
}
impl TokenFilter for Hook {
    fn name(&self) -> &str {
        "hook"
    }
    fn apply(&self, _: &mut Vec<lindera_filter::token::Token>) -> LinderaResult<()> {
        self.act();
        Ok(())
    }
}
fn add_hooks(a: &mut Analyzer) {
    a.character_filters.insert(0, BoxCharacterFilter::from(Hook(0)));
    a.character_filters.push(BoxCharacterFilter::from(Hook(1)));
    a.token_filters.insert(0, BoxTokenFilter::from(Hook(2)));
    a.token_filters.push(BoxTokenFilter::from(Hook(3)));
}

const NESTED: u8 = 16;
const WAITING: u8 = 32;

/// The operation inside, and the filter it happens in.
fn inner(o: &(u8, u32, u32)) -> ((u8, u32, u32), usize) {
    let what = [SHARED, CLONED, RAW, LOAD, SHARED, RAW, BADLOAD, CLONED][(o.1 >> 12) as usize % 8];
    ((what, o.1 >> 16 & 7, o.2 >> 8), (o.1 >> 8 & 3) as usize)
}
fn outer(o: &(u8, u32, u32)) -> (u8, u32, u32) {
    (o.0 % 16, o.1 & 0xff, o.2 & 0xff)
}

#[derive(Clone)]
struct Shared {
    analyzers: Vec<Arc<Analyzer>>,
    setups: Vec<Setup>,
    kinds: Vec<Kind>,
    texts: Vec<String>,
    free: Arc<(Mutex<usize>, Condvar)>,
}
impl Shared {
    fn op(&self, me: usize, o: &(u8, u32, u32)) -> Toks {
        one_op(me, o, &self.analyzers, &self.setups, &self.kinds, &self.texts)
    }
    /// The answer, and that of the operation inside.
    fn hooked(&self, me: usize, o: &(u8, u32, u32)) -> (Toks, Option<Toks>) {
        let got = Rc::new(RefCell::new(None));
        let (what, place) = inner(o);
        match o.0 & !15 {
            NESTED => {
                let (s, g) = (self.clone(), got.clone());
                set_deed(place, Some(Box::new(move || *g.borrow_mut() = Some(s.op(me, &what)))));
            }
            WAITING => {
                let free = self.free.clone();
                set_deed(place, Some(Box::new(move || {
                    let mut n = free.0.lock().unwrap();
                    while *n > 0 {
                        n = free.1.wait(n).unwrap();
                    }
                })));
            }
            _ => {}
        }
        let t = self.op(me, &outer(o));
        set_deed(place, None);
        let g = got.borrow_mut().take();
        (t, g)
    }
}
/// The threads without an analysis that waits; the others wait for the end of these.
fn is_free(o: &[(u8, u32, u32)]) -> bool {
    !o.iter().any(|o| o.0 & WAITING != 0)
}
struct Free(Option<Arc<(Mutex<usize>, Condvar)>>);
impl Drop for Free {
    fn drop(&mut self) {
        if let Some(f) = &self.0 {
            *f.0.lock().unwrap_or_else(|e| e.into_inner()) -= 1;
            f.1.notify_all();
        }
    }
}

fn hooked_threads(setups: &[Setup], kinds: &[Kind], texts: &[String], ops: &[Vec<(u8, u32, u32)>]) -> Res<Vec<Vec<(Toks, Option<Toks>)>>> {
    let mut analyzers = vec![];
    for (s, k) in setups.iter().zip(kinds) {
        match to_res(caught(|| s.analyzer(*k))) {
            Res::Ok(mut a) => {
                add_hooks(&mut a);
                analyzers.push(Arc::new(a))
            }
            Res::Err(e) => return Res::Err(e),
            Res::Panic(e) => return Res::Panic(e),
        }
    }
    let n = ops.iter().filter(|o| is_free(o)).count();
    let sh = Shared {
        analyzers,
        setups: setups.to_vec(),
        kinds: kinds.to_vec(),
        texts: texts.to_vec(),
        free: Arc::new((Mutex::new(n), Condvar::new())),
    };
    let hs: Vec<_> = ops
        .iter()
        .enumerate()
        .map(|(i, o)| {
            let (o, sh) = (o.clone(), sh.clone());
            std::thread::spawn(move || {
                let _free = Free(is_free(&o).then(|| sh.free.clone()));
                o.iter().map(|o| sh.hooked(i, o)).collect::<Vec<_>>()
            })
        })
        .collect();
    let mut v = vec![];
    for h in hs {
        match h.join() {
            Ok(x) => v.push(x),
            Err(_) => return Res::Panic("a thread died".into()),
        }
    }
    Res::Ok(v)
}

fn exec_c23(w: &mut World, c: &Case) -> Option<Viol> {
    let img = disk(w, c)?;
    let kinds = kinds_of(c);
    let p = &c.plans[0];
    let (f, r) = w.run(&img, p, || hooked_threads(&c.setups, &kinds, &c.texts, &c.ops));
    if r.threads > 2 && !r.switches.is_empty() {
        w.st.probe("threads interleaved");
    }
    let ctx = format!("{} threads with analyses in filters, {}", c.ops.len(), plan_words(p));
    let got = match f {
        Fate::Res(Res::Ok(v)) => v,
        o if o.stuck() => return viol("no-end", format!("{ctx}: {}", o.word())),
        o => return viol("breaks", format!("{ctx}: {}", o.word())),
    };
    for (i, (ops, res)) in c.ops.iter().zip(&got).enumerate() {
        for (j, (op, (g, inside))) in ops.iter().zip(res).enumerate() {
            let o = outer(op);
            let want = reference(w, &img, c, &kinds, &o)?;
            if want != *g {
                return viol("answer-changed", format!("{ctx}: thread {i} operation {j} ({}): {}", op_word(&o, c), toks_diff(&want, g)));
            }
            if let Some(g) = inside {
                w.st.probe("analyses inside filters");
                let (o, place) = inner(op);
                let want = reference(w, &img, c, &kinds, &o)?;
                if want != *g {
                    let at = ["the first character filter", "the last character filter", "the first token filter", "the last token filter"][place];
                    return viol("answer-inside-changed", format!("{ctx}: thread {i} operation {j}: in {at}, {}: {}", op_word(&o, c), toks_diff(&want, g)));
                }
            }
        }
    }
    None
}

fn gen_c23(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let mut base = Case::new("C23", "filters");
    let kind = *rng.pick(&KINDS);
    let size = *rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]);
    base.sys.push(gen_sys(rng, kind, size, false));
    base.user.push(gen_user(rng, kind, Size::Tiny, 2, false));
    let ns = rng.range(1, 3);
    gen_setups(rng, &mut base, ns);
    add_variants(rng, &mut base);
    let nt = rng.range(2, 6);
    gen_texts(rng, &mut base, nt);
    let threads_n = 1 + group % 4;
    for i in 0..threads_n {
        let mut o = vec![];
        for _ in 0..rng.range(1, 4) {
            let op = match rng.below(10) {
                0..=3 => NESTED + *rng.pick(&[SHARED, SHARED, CLONED]),
                4..=6 if i > 0 => WAITING + *rng.pick(&[SHARED, SHARED, CLONED]),
                7 => RAW,
                8 => LOAD,
                _ => SHARED,
            };
            o.push((op, rng.below(8) as u32 | (rng.below(1 << 12) as u32) << 8, rng.below(32) as u32 | (rng.below(32) as u32) << 8));
        }
        base.ops.push(o);
    }
    let Some(img) = disk(w, &base) else { return v };
    let kinds = kinds_of(&base);
    let (_, dry) = w.run(&img, &logged(base_plan(1)), || hooked_threads(&base.setups, &kinds, &base.texts, &base.ops));
    if dry.edges.is_empty() {
        return vec![base.plan(base_plan(1))];
    }
    for k in 0..if threads_n == 1 { 2 } else { 20 } {
        let mut p = base_plan(rng.next());
        if k > 0 {
            preempting(rng, &mut p, &dry);
        }
        v.push(base.clone().plan(p));
    }
    v
}
