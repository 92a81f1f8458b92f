//! Loading dictionaries.
use super::build::{chunks, group_sys, group_user, plan_words, some_setup, toks_diff};
use super::*;
use crate::model::*;
use crate::os::vfs::Image;
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            groups: 180,
            gen: gen_c05,
            exec: exec_c05,
            rule: "a case counts when a fault fired in a load and the texts analysed after it were compared with the fault-free analysis",
        },
        Prop {
            id: "C06",
            groups: 160,
            gen: gen_c06,
            exec: exec_c06,
            rule: "a case is one compiled file cut, emptied, removed or cut while it is read, and one load of it",
        },
    ]
}

/// A disk with the compiled dictionaries of a case on it.
pub fn compiled(w: &mut World, c: &Case) -> Option<Image> {
    let mut img = Image::new();
    for (i, s) in c.sys.iter().enumerate() {
        let g = w.golden_sys(s);
        if !g.fate.is_ok() {
            w.st.skipped += 1;
            return None;
        }
        put_files(&mut img, &if i == 0 { "/dict".to_string() } else { format!("/dict{i}") }, &g.files);
    }
    for (i, u) in c.user.iter().enumerate() {
        let g = w.golden_user(u);
        if !g.fate.is_ok() {
            w.st.skipped += 1;
            return None;
        }
        let d = if i == 0 { "/user".to_string() } else { format!("/user{i}") };
        img.put(&format!("{d}/user.bin"), g.files.get("user.bin")?);
        img.put(&format!("{d}/user.csv"), u.csv().as_bytes());
    }
    for (i, st) in c.setups.iter().enumerate() {
        let k = if st.dict == "/dict" { 0 } else { 1.min(c.sys.len() - 1) };
        img.put(&format!("/conf{i}.json"), st.config_json(c.sys[k].kind).as_bytes());
    }
    if c.int("decoys") != 0 {
        decoys(w, c, &mut img)?;
    }
    Some(img)
}

/// Other dictionaries beside the one to load, under names that a program may keep copies under.
fn decoys(w: &mut World, c: &Case, img: &mut Image) -> Option<()> {
    let rng = &mut Rng::new(c.int("decoys") as u64);
    let other = vary_sys(rng, c.sys.first()?);
    let g = w.golden_sys(&other);
    if !g.fate.is_ok() {
        return Some(());
    }
    let used = c.setups.first().and_then(|s| s.user.as_ref()).map(|u| u.0.clone()).unwrap_or_else(|| "/user/user.bin".into());
    let mut names: Vec<(String, Vec<u8>)> = FILES.iter().filter_map(|f| Some((format!("/dict/{f}"), g.files.get(*f)?.to_vec()))).collect();
    let conf = Setup { dict: "/dict.old".into(), user: None, ..c.setups.first().cloned().unwrap_or_else(|| super::conc::plain_setup("/dict")) };
    names.push(("/conf0.json".into(), conf.config_json(other.kind).into_bytes()));
    if let Some(u) = c.user.first() {
        let mut u = vary_user(rng, u);
        for r in &mut u.rows {
            if let Some((pos, _)) = &mut r.simple {
                pos.push_str("他");
            }
            if let Some(d) = r.details.first_mut() {
                d.push_str("他");
            }
        }
        let gu = w.golden_user(&u);
        if let (true, Some(bin)) = (gu.fate.is_ok(), gu.files.get("user.bin")) {
            names.push(("/user/user.bin".into(), bin.to_vec()));
            names.push(("/user/user.csv".into(), u.csv().into_bytes()));
        }
    }
    for (path, data) in names {
        let (dir, file) = path.rsplit_once('/')?;
        let stem = file.rsplit_once('.').map_or(file, |f| f.0);
        let mut at: Vec<String> = [".bak", "~", ".tmp", ".old", ".new", ".orig", ".1", ".part", ".backup"].iter().map(|e| format!("{path}{e}")).collect();
        at.extend(["bak", "tmp", "old", "new"].iter().map(|e| format!("{dir}/{stem}.{e}")));
        at.extend([format!("{dir}/.{file}"), format!("{dir}/.{file}.tmp"), format!("{dir}/old/{file}"), format!("{dir}/backup/{file}"), format!("{dir}/tmp/{file}")]);
        at.extend([".bak", "~", ".tmp", ".old", ".new", "s", ".d"].iter().map(|e| format!("{dir}{e}/{file}")));
        at.extend(["/", "/tmp/", "/etc/lindera/", "/usr/share/lindera/"].iter().map(|d| format!("{d}{file}")));
        at.push(format!("{dir}/{stem}"));
        for p in at {
            if rng.chance(1, 12) && p.starts_with("/") && img.get(&p).is_none() {
                img.put(&p, &data);
            }
        }
        if path.starts_with("/user/") && path != used {
            img.put(&path, &data);
        }
    }
    Some(())
}

#[derive(Serialize, Deserialize)]
struct Twice {
    first: Res<Vec<Toks>>,
    second: Res<Vec<Toks>>,
}

fn analyse_all(setup: &Setup, kind: Kind, texts: &[String]) -> Res<Vec<Toks>> {
    to_res(caught(|| {
        let a = setup.analyzer(kind)?;
        Ok(texts.iter().map(|t| analyze_one(&a, t)).collect())
    }))
}

// ---- C05: a load gives the whole dictionary or an error ----

fn exec_c05(w: &mut World, c: &Case) -> Option<Viol> {
    let img = compiled(w, c)?;
    let p = &c.plans[0];
    let kind = c.sys.first()?.kind;
    let setup = c.setups.first()?.clone();
    let ctx = format!("loading {}with {}", if setup.user.is_some() { "with a user dictionary " } else { "" }, plan_words(p));
    let want = w.alone(&img, &setup, kind, &c.texts, false);
    if want.iter().any(|t| matches!(t, Res::Err(e) if e.starts_with("setup"))) {
        return viol("clean-load-fails", format!("the dictionary loaded without faults gives {}", want[0].word()));
    }
    let same = |got: &Vec<Toks>, which: &str| -> Option<Viol> {
        for (i, (a, b)) in want.iter().zip(got).enumerate() {
            if a != b {
                return viol("differs", format!("{ctx}: {which} succeeds, but {:?}: {}", c.texts[i], toks_diff(a, b)));
            }
        }
        None
    };
    if c.int("cli") == 1 {
        let mut args: Vec<String> = ["tokenize", "-d", "/dict"].map(String::from).to_vec();
        if let Some((p, _)) = &setup.user {
            args.extend(["-u".into(), p.clone()]);
        }
        let (f, r) = w.cli(&img, p, &args);
        if f.broke() {
            return viol("panic", format!("{ctx}: the program gives {}", f.word()));
        }
        if r.fired.contains_key("memory:abort") {
            let want = super::cli::render_all(&want, "mecab");
            if !want.as_bytes().starts_with(&r.out) {
                return viol("differs", format!("{ctx}: the program ends without memory after printing something else than after a load without faults"));
            }
            return None;
        }
        if f.is_err() && !r.out.is_empty() {
            return viol("half-output", format!("{ctx}: the program gives {} after printing {} bytes", f.word(), r.out.len()));
        }
        if f.is_ok() {
            let want = super::cli::render_all(&want, "mecab");
            if want.as_bytes() != &r.out[..] {
                return viol("differs", format!("{ctx}: the program succeeds and prints something else than after a load without faults"));
            }
        }
        return None;
    }
    let texts = c.texts.clone();
    let (f, r) = w.run(&img, p, || {
        to_res(guarded(move || {
            let first = analyse_all(&setup, kind, &texts);
            crate::os::calm();
            let second = analyse_all(&setup, kind, &texts);
            Ok(Twice { first, second })
        }))
    });
    if !r.fired.is_empty() {
        w.st.probe("load met a fault");
    }
    match f {
        Fate::Res(Res::Err(_)) if r.fired.contains_key("memory:abort") => {
            w.st.probe("load ended without memory");
            None
        }
        Fate::Res(Res::Ok(t)) => {
            match &t.first {
                Res::Ok(got) => {
                    if let Some(v) = same(got, "the load") {
                        return Some(v);
                    }
                }
                Res::Err(_) => w.st.probe("load refused"),
                Res::Panic(p) => return viol("panic", format!("{ctx}: panic ({p}) instead of an error")),
            }
            match &t.second {
                Res::Ok(got) => same(got, "the load after the faults"),
                o => viol("no-recovery", format!("{ctx}: after the faults stopped the next load in the same process gives {}", o.word())),
            }
        }
        o => viol("panic", format!("{ctx}: {}", o.word())),
    }
}

fn gen_c05(w: &mut World, rng: &mut Rng, _group: u64) -> Vec<Case> {
    let mut v = vec![];
    let s = group_sys(rng, false);
    let size = if rng.chance(1, 5) { Size::Large } else { Size::Small };
    let u = gen_user(rng, s.kind, size, 2, false);
    let mut base = Case::new("C05", "load");
    base.sys.push(s.clone());
    base.user.push(u.clone());
    for _ in 0..3 {
        base.texts.push(gen_text(rng, &s, Some(&u), 8));
    }
    for style in 0..4 {
        let mut b = base.clone();
        let user = match style {
            0 => None,
            1 => Some(("/user/user.bin", if rng.chance(1, 2) { Some(s.kind) } else { None })),
            _ => Some(("/user/user.csv", Some(s.kind))),
        };
        let mut st = some_setup(rng, user);
        if rng.chance(1, 3) {
            st.custom = Some(gen_chain(rng, &s));
        }
        st.config_file = if style == 3 || rng.chance(1, 3) { Some("/conf0.json".into()) } else { None };
        let cli = style == 1 && rng.chance(1, 2);
        if cli {
            st.config_file = None;
            st.filters = 0;
            st.custom = None;
            st.mode = TokMode::Normal;
            b.texts = b.texts.iter().map(|t| t.replace('\n', "").trim().to_string()).filter(|t| !t.is_empty()).collect();
            if b.texts.is_empty() {
                b.texts.push("a".into());
            }
            b.n.insert("cli".into(), 1);
        }
        b.setups.push(st.clone());
        if rng.chance(1, 4) {
            b.n.insert("decoys".into(), rng.range(1, 1 << 40));
        }
        let Some(img) = compiled(w, &b) else { return v };
        let (kind, texts) = (s.kind, b.texts.clone());
        let (_, dry) = w.run(&img, &logged(base_plan(1)), || Res::Ok(analyse_all(&st, kind, &texts)));
        for _ in 0..7 {
            let mut p = hostile(rng, &dry.log, rng.0, img.total(), 0);
            p.capacity = None;
            if let (1, Some((f, _))) = (rng.below(6), &st.user) {
                let (call, kind) = *rng.pick(&[(Call::Open, FaultKind::Err(libc::EIO)), (Call::Open, FaultKind::Err(libc::ENOENT)), (Call::Open, FaultKind::Err(libc::EACCES)), (Call::Read, FaultKind::Err(libc::EIO))]);
                p.faults.push(Fault { call, path: f.clone(), nth: 0, kind });
            }
            if cli {
                p.stdin = chunks(rng, (b.texts.join("\n") + "\n").as_bytes());
                p.max_fds = None;
                p.sticky.retain(|s| s.path != "/");
            }
            v.push(b.clone().plan(p));
        }
    }
    v
}

// ---- C06: damaged compiled files are refused ----

fn exec_c06(w: &mut World, c: &Case) -> Option<Viol> {
    let mut img = compiled(w, c)?;
    let full = img.clone();
    let name = c.str("file").to_string();
    let user = name == "user.bin";
    let path = if user { "/user/user.bin".to_string() } else { format!("/dict/{name}") };
    let data = img.get(&path)?.to_vec();
    let cut = c.int("cut") as usize;
    let mut also = String::new();
    let mut whole = false;
    if c.scen == "several" {
        // file:kept bytes, or file:- for a missing one
        whole = true;
        for part in c.str("parts").split(',') {
            let (f, n) = part.split_once(':')?;
            let p = format!("/dict/{f}");
            let had = img.get(&p).map(|d| d.to_vec())?;
            match n.parse::<usize>() {
                Ok(n) if n < had.len() => {
                    img.put(&p, &had[..n]);
                    whole = false;
                }
                Ok(_) => {}
                Err(_) => {
                    img.remove(&p);
                    whole = false;
                }
            }
            also += &format!(" {f}:{n}");
        }
    }
    if whole {
        return None;
    }
    let what = match c.scen.as_str() {
        "several" => format!("and others are cut or missing (bytes left:{also})"),
        "missing" => {
            img.remove(&path);
            "is missing".to_string()
        }
        "directory" => {
            img.remove(&path);
            img.mkdirs(&path);
            "is a directory".to_string()
        }
        "live" => format!("of {} bytes is cut while it is read", data.len()),
        _ => {
            if cut >= data.len() {
                return None;
            }
            img.put(&path, &data[..cut]);
            format!("has only the first {cut} of {} bytes", data.len())
        }
    };
    let ctx = format!("{} dictionary whose {name} {what}", c.sys.first()?.kind.name());
    let p = &c.plans[0];
    let (f, r): (Fate<()>, Report) = if c.int("cli") == 1 {
        let mut args: Vec<String> = ["tokenize", "-d", "/dict"].map(String::from).to_vec();
        if user {
            args.extend(["-u".into(), path.clone()]);
        }
        w.cli(&img, p, &args)
    } else {
        let (via, kind) = (c.int("via"), c.sys.first()?.kind);
        let mut st = super::conc::plain_setup("/dict");
        if user {
            st.user = Some((path.clone(), if via % 2 == 0 { Some(kind) } else { None }));
        }
        if via == 3 {
            st.config_file = Some("/conf.json".into());
            img.put("/conf.json", st.config_json(kind).as_bytes());
        }
        let load = move || -> lindera_core::LinderaResult<()> {
            match via {
                0 if user => lindera_dictionary::DictionaryLoader::load_user_dictionary_from_bin("/user/user.bin".into()).map(|_| ()),
                0 => lindera_dictionary::DictionaryLoader::load_dictionary("/dict".into()).map(|_| ()),
                1 => st.tokenizer().map(|_| ()),
                _ => st.analyzer(kind).map(|_| ()),
            }
        };
        // the process may have loaded the whole dictionary before
        let before = c.int("before") == 1 && c.scen != "live";
        let mut changes: Vec<(String, Option<Vec<u8>>)> = vec![];
        if before {
            let now = img.clone();
            for p in FILES.iter().map(|f| format!("/dict/{f}")).chain(["/user/user.bin".to_string()]) {
                let was = full.get(&p).map(|d| d.to_vec());
                if now.get(&p) != was.as_deref() {
                    changes.push((p.clone(), now.get(&p).map(|d| d.to_vec())));
                    img.remove(&p);
                    img.put(&p, was.as_deref()?);
                }
            }
        }
        let made_dir = c.scen == "directory";
        w.run(&img, p, || {
            to_res(guarded(move || {
                if before {
                    let _ = caught(&load);
                    for (p, to) in &changes {
                        let done = match to {
                            Some(d) => std::fs::write(p, d),
                            None => std::fs::remove_file(p).and_then(|_| if made_dir { std::fs::create_dir(p) } else { Ok(()) }),
                        };
                        if let Err(e) = done {
                            panic!("harness: {p}: {e}");
                        }
                    }
                }
                load()
            }))
        })
    };
    if c.scen == "live" && r.image.get(&path) == Some(&data[..]) {
        return None; // the cut came too late to matter
    }
    if f.broke() {
        return viol("panic", format!("{ctx}: loading gives {}", f.word()));
    }
    if f.is_ok() {
        return viol(&format!("accepted {}", name), format!("{ctx}: loading succeeds"));
    }
    None
}

fn gen_c06(w: &mut World, rng: &mut Rng, _group: u64) -> Vec<Case> {
    let mut v = vec![];
    let s = group_sys(rng, true);
    let u = group_user(rng, true);
    let mut base = Case::new("C06", "cut");
    base.sys.push(s.clone());
    base.user.push(u);
    if rng.chance(1, 4) {
        base.n.insert("decoys".into(), rng.range(1, 1 << 40));
    }
    let Some(img) = compiled(w, &base) else { return v };
    let mut names: Vec<&str> = FILES.to_vec();
    names.push("user.bin");
    for (i, name) in names.iter().enumerate() {
        let path = if *name == "user.bin" { "/user/user.bin".to_string() } else { format!("/dict/{name}") };
        let len = img.get(&path).map(|d| d.len()).unwrap_or(0) as u64;
        for k in 0..5 {
            let mut c = base.clone().withs("file", name).with("cli", (rng.chance(1, 8)) as i64);
            let mut p = base_plan(rng.next());
            let cut = match k {
                0 => rng.below(len.min(12)),
                1 => len.saturating_sub(1 + rng.below(12)),
                2 => rng.below(len / 4 + 1) * 4,
                _ => rng.below(len),
            };
            c = c.with("cut", cut.min(len.saturating_sub(1)) as i64);
            if k == 3 && rng.chance(1, 2) {
                c.scen = (*rng.pick(&["missing", "missing", "directory"])).into();
            }
            if k == 4 && rng.chance(1, 2) {
                c.scen = "live".into();
                p.max_read = *rng.pick(&[0, 64, 512]);
                p.faults.push(Fault { call: Call::Read, path: path.clone(), nth: rng.below(if p.max_read > 0 { 1 + len / 64 } else { 1 }) as u32, kind: FaultKind::Vanish });
            } else if rng.chance(1, 3) {
                gentle_into(rng, &mut p);
            }
            let _ = i;
            v.push(varied(rng, c).plan(p));
        }
    }
    // several files at once, as a power cut may leave them
    for _ in 0..12 {
        let mut files = FILES.to_vec();
        rng.shuffle(&mut files);
        let parts: Vec<String> = files[..rng.range(2, 4) as usize]
            .iter()
            .map(|f| {
                let len = img.get(&format!("/dict/{f}")).map(|d| d.len()).unwrap_or(0) as u64;
                match rng.below(8) {
                    0..=4 => format!("{f}:0"),
                    5 => format!("{f}:-"),
                    6 => format!("{f}:{}", rng.below(len / 4 + 1) * 4),
                    _ => format!("{f}:{}", rng.below(len.max(1))),
                }
            })
            .collect();
        let mut c = base.clone().withs("file", files[0]).withs("parts", &parts.join(",")).with("cli", (rng.chance(1, 8)) as i64);
        c.scen = "several".into();
        c = varied(rng, c);
        v.push(c.plan(base_plan(rng.next())));
    }
    v
}

fn varied(rng: &mut Rng, c: Case) -> Case {
    let via = if rng.chance(1, 2) { 0 } else { rng.range(1, 3) };
    let before = rng.chance(1, 6) as i64;
    c.with("via", via).with("before", before)
}
