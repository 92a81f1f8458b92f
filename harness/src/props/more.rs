//! Reproducible answers, and loads that race a build.
use super::build::{plan_words, some_setup, toks_diff};
use super::load::compiled;
use super::*;
use crate::model::*;
use crate::os::vfs::Image;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryLoader, UserDictionaryConfig};
use std::path::PathBuf;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            groups: 300,
            gen: gen_c20,
            exec: exec_c20,
            rule: "a case is the same texts analysed in three to five processes that differ in hash seeds, clock, deliveries and the way the analyzer was made",
        },
        Prop {
            id: "C21",
            groups: 180,
            gen: gen_c21,
            exec: exec_c21,
            rule: "a case is one build and repeated loads of its output while it runs; it counts when the scheduler switched between them",
        },
    ]
}

// ---- C20: equal configuration and text, equal tokens ----

fn exec_c20(w: &mut World, c: &Case) -> Option<Viol> {
    let mut img = compiled(w, c)?;
    let s = c.sys.first()?;
    s.put(&mut img, "/src");
    // what stood in the same place before
    let before = vary_sys(&mut Rng::new(c.int("before") as u64), s);
    before.put(&mut img, "/srcv");
    let kind = s.kind;
    let plain = |t: &Toks| match t {
        Res::Err(_) => Res::Err(String::new()),
        Res::Panic(_) => Res::Panic(String::new()),
        o => o.clone(),
    };
    let mut want: Vec<Toks> = vec![];
    for (i, (setup, p)) in c.setups.iter().zip(&c.plans).enumerate() {
        let (st, texts) = (setup.clone(), c.texts.clone());
        let (rebuild, clone) = (c.int(&format!("build{i}")), c.int(&format!("clone{i}")) == 1);
        let (f, _) = w.run(&img, p, || {
            to_res(guarded(move || {
                let mut st = st;
                if rebuild > 0 {
                    let b = DictionaryBuilderResolver::resolve_builder(kind.lindera())?;
                    st.dict = "/here".into();
                    if rebuild == 2 {
                        b.build_dictionary("/srcv".as_ref(), "/here".as_ref())?;
                        let mut other = st.clone();
                        other.user = None;
                        other.config_file = None;
                        let a = other.analyzer(kind)?;
                        let _ = texts.iter().map(|t| analyze_one(&a, t)).count();
                    }
                    b.build_dictionary("/src".as_ref(), "/here".as_ref())?;
                }
                let mut a = st.analyzer(kind)?;
                if clone {
                    a = a.clone();
                }
                Ok(texts.iter().map(|t| analyze_one(&a, t)).collect::<Vec<Toks>>())
            }))
        });
        let got: Vec<Toks> = match f {
            Fate::Res(Res::Ok(v)) => v.iter().map(plain).collect(),
            Fate::Res(Res::Err(_)) => vec![Res::Err("setup".into()); c.texts.len()],
            // a configuration that cannot be constructed: then in no process
            Fate::Res(Res::Panic(_)) => vec![Res::Panic("setup".into()); c.texts.len()],
            o => return viol("breaks", format!("process {i}: {}", o.word())),
        };
        w.st.probe(match got.first() {
            Some(Res::Ok(_)) => "process answered",
            Some(Res::Panic(_)) => "process panicked",
            _ => "process refused",
        });
        if i == 0 {
            want = got;
            continue;
        }
        for (t, (a, b)) in c.texts.iter().zip(want.iter().zip(&got)) {
            if a != b {
                let way = |s: &Setup, i: usize| {
                    format!(
                        "{}{}{}{}, seed {}",
                        match c.int(&format!("build{i}")) {
                            0 => "",
                            1 => "built in place, ",
                            _ => "built over another in place, ",
                        },
                        match (&s.config_file, s.way) {
                            (Some(_), _) => "from a configuration file",
                            (_, 1) => "from command line flags",
                            (_, 2) => "from parts",
                            _ => "from loaders",
                        },
                        s.user.as_ref().map(|u| format!(", with {}", u.0)).unwrap_or_default(),
                        if c.int(&format!("clone{i}")) == 1 { ", cloned" } else { "" },
                        c.plans[i].seed
                    )
                };
                return viol(
                    "answers-differ",
                    format!(
                        "{t:?} analysed {} and {}: {}; filters {:?}",
                        way(&c.setups[0], 0),
                        way(setup, i),
                        toks_diff(a, b),
                        setup.custom
                    ),
                );
            }
        }
    }
    None
}

fn gen_c20(_w: &mut World, rng: &mut Rng, _group: u64) -> Vec<Case> {
    let mut v = vec![];
    let kind = *rng.pick(&KINDS);
    let size = *rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium, Size::Large]);
    let s = gen_sys(rng, kind, size, false);
    let u = gen_user(rng, kind, Size::Small, 2, false);
    for _ in 0..8 {
        let mut c = Case::new("C20", "again");
        c.sys.push(s.clone());
        c.user.push(u.clone());
        for _ in 0..rng.range(3, 8) {
            c.texts.push(gen_text(rng, &s, Some(&u), 10));
        }
        let user = rng.chance(1, 2);
        let mut st = some_setup(rng, None);
        st.custom = Some(gen_chain(rng, &s));
        for i in 0..rng.range(3, 5) {
            let mut st = st.clone();
            if user {
                st.user = Some(if rng.chance(1, 2) { ("/user/user.bin".into(), None) } else { ("/user/user.csv".into(), Some(kind)) });
            }
            if rng.chance(1, 3) {
                st.config_file = Some(format!("/conf{i}.json"));
            }
            st.way = rng.below(3) as u32;
            c.setups.push(st);
            c.plans.push(if rng.chance(1, 2) { gentle(rng, rng.0) } else { base_plan(rng.next()) });
            c.n.insert(format!("build{i}"), if size != Size::Large && rng.chance(1, 3) { rng.range(1, 2) } else { 0 });
            c.n.insert(format!("clone{i}"), rng.chance(1, 4) as i64);
        }
        c.n.insert("before".into(), (rng.next() >> 1) as i64);
        v.push(c);
    }
    v
}

// ---- C21: a load during a build ----

fn race(kind: Kind, src: &SysSrc, user: Option<&UserSrc>, loads: i64) -> Res<Vec<Res<Vec<String>>>> {
    let is_user = user.is_some();
    let b = std::thread::spawn(move || -> Res<()> {
        to_res(caught(|| {
            let b = DictionaryBuilderResolver::resolve_builder(kind.lindera())?;
            if is_user {
                b.build_user_dictionary("/usrc/user.csv".as_ref(), "/uout/user.bin".as_ref())
            } else {
                b.build_dictionary("/src".as_ref(), "/out".as_ref())
            }
        }))
    });
    let (src, user) = (src.clone(), user.cloned());
    let l = std::thread::spawn(move || -> Vec<Res<Vec<String>>> {
        (0..loads)
            .map(|_| match &user {
                Some(u) => {
                    let d = to_res(caught(|| {
                        DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: PathBuf::from("/uout/user.bin"), kind: None })
                    }));
                    match d {
                        Res::Ok(d) => {
                            let _quiet = crate::os::sched::Inside::new();
                            to_res(caught(|| Ok(differences_user(u, &d, Extent::Exact))))
                        }
                        Res::Err(e) => Res::Err(e),
                        Res::Panic(e) => Res::Panic(format!("in the load: {e}")),
                    }
                }
                None => match to_res(caught(|| DictionaryLoader::load_dictionary(PathBuf::from("/out")))) {
                    Res::Ok(d) => {
                        let _quiet = crate::os::sched::Inside::new();
                        to_res(caught(|| Ok(differences_sys(&src, &d, Extent::Exact))))
                    }
                    Res::Err(e) => Res::Err(e),
                    Res::Panic(e) => Res::Panic(format!("in the load: {e}")),
                },
            })
            .collect()
    });
    let b = b.join().unwrap_or_else(|_| Res::Panic("thread died".into()));
    let l = l.join();
    match (b, l) {
        (Res::Ok(()), Ok(l)) => Res::Ok(l),
        (Res::Ok(()), Err(_)) => Res::Panic("the loading thread died".into()),
        (Res::Err(e), _) => Res::Err(e),
        (Res::Panic(e), _) => Res::Panic(e),
    }
}

fn race_disk(c: &Case) -> Image {
    let mut img = Image::new();
    if let Some(u) = c.user.first() {
        img.put("/usrc/user.csv", u.csv().as_bytes());
    } else {
        c.sys[0].put(&mut img, "/src");
    }
    img
}

fn exec_c21(w: &mut World, c: &Case) -> Option<Viol> {
    let user = c.user.first();
    let g = match user {
        Some(u) => w.golden_user(u),
        None => w.golden_sys(c.sys.first()?),
    };
    // a faithless build is another property's matter
    if !g.fate.is_ok() || g.diff.as_ref().map(|d| !d.is_empty()).unwrap_or(true) {
        w.st.skipped += 1;
        return None;
    }
    let img = race_disk(c);
    let kind = user.map(|u| u.kind).unwrap_or(c.sys.first()?.kind);
    let (f, _) = w.run(&img, &c.plans[0], || race(kind, c.sys.first().unwrap(), user, c.int("loads")));
    let ctx = format!("{} {}, {}", kind.name(), if user.is_some() { "user dictionary" } else { "dictionary" }, plan_words(&c.plans[0]));
    match f {
        Fate::Res(Res::Ok(v)) => {
            for (i, l) in v.iter().enumerate() {
                match l {
                    Res::Err(_) => w.st.probe("load refused during the build"),
                    Res::Ok(d) if d.is_empty() => w.st.probe("load complete"),
                    Res::Ok(d) => return viol("partial-accepted", format!("{ctx}: load {i} during the build succeeds, but {}", d.join("; "))),
                    Res::Panic(p) => return viol("panic", format!("{ctx}: load {i} during the build panics, or what it gave does: {p}")),
                }
            }
            None
        }
        o => viol("build-disturbed", format!("{ctx}: the build gives {}", o.word())),
    }
}

fn gen_c21(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let user = group % 3 == 2;
    let kind = *rng.pick(&KINDS);
    let size = *rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]);
    let mut base = Case::new("C21", if user { "user" } else { "system" });
    let wide = rng.chance(1, 3);
    base.sys.push(gen_sys(rng, kind, size, wide));
    if user {
        base.user.push(gen_user(rng, kind, size, 5, false));
    }
    for k in 0..20 {
        let c = base.clone().with("loads", rng.range(1, 8));
        let img = race_disk(&c);
        let mut p = base_plan(rng.next());
        p.max_write = *rng.pick(&[0, 0, 7, 16, 100, 1000, 5000]);
        if k % 2 == 0 {
            p.max_read = *rng.pick(&[0, 16, 100, 1000]);
        }
        let (_, dry) = w.run(&img, &logged(p.clone()), || race(kind, &c.sys[0], c.user.first(), c.int("loads")));
        if dry.edges.is_empty() {
            continue;
        }
        preempting(rng, &mut p, &dry);
        if rng.chance(1, 2) {
            // back and forth at the calls that matter
            for _ in 0..rng.range(1, 8) {
                p.preempts.push(Preempt::Sync { nth: 1 + rng.below(dry.syncs.max(1)), to: rng.below(8) as u32 });
            }
        }
        v.push(c.plan(p));
    }
    v
}
