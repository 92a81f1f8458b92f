//! Building dictionaries.
use super::*;
use crate::model::*;
use crate::os::vfs::Image;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", groups: 60, gen: gen_c01, exec: exec_c01, rule: "A case is one build of a generated system dictionary (every second one with faults); it counts when at least one fault fired in it" },
        Prop { id: "C02", groups: 80, gen: gen_c02, exec: exec_c02, rule: "A case is one compilation, or one direct load, of a generated user dictionary (most with faults); it counts when at least one fault fired in it" },
        Prop { id: "C03", groups: 240, gen: gen_c03, exec: exec_c03, rule: "A case is a history of one to three killed or failed builds into one place, with or without power loss, and a clean build after it; it counts when at least one kill or fault fired" },
        Prop { id: "C04", groups: 240, gen: gen_c04, exec: exec_c04, rule: "A case is one killed or failed build into a fresh place and one load of what it left; it counts when the kill or fault fired" },
        Prop { id: "C12", groups: 110, gen: gen_c12, exec: exec_c12, rule: "A case is one to three builds at once under random hash seeds, directory orders, deliveries and thread switches; it counts when at least one of these took effect" },
        Prop { id: "C13", groups: 300, gen: gen_c13, exec: exec_c13, rule: "A case is one compilation over an older compiled file, from a spoiled or missing source, with failing reads, or killed; it counts when a fault fired in it" },
        Prop { id: "C14", groups: 1000, gen: gen_c14, exec: exec_c14, rule: "A case is one build, compilation or analysis next to files of others, with faults or kills; it counts when a fault fired or a transfer was cut short" },
        Prop { id: "C15", groups: 300, gen: gen_c15, exec: exec_c15, rule: "A case is one to six builds, compilations or loads in one process, with failures; it counts when a fault fired or a transfer was cut short" },
        Prop { id: "C16", groups: 400, gen: gen_c16, exec: exec_c16, rule: "A case is one source file cut at some byte, before the build or while it is read, and the build of it; every case is a different cut" },
        Prop { id: "C17", groups: 350, gen: gen_c17, exec: exec_c17, rule: "A case is one build, compilation or analysis with short and interrupted transfers; it counts when one was really cut short or interrupted" },
        Prop { id: "C18", groups: 350, gen: gen_c18, exec: exec_c18, rule: "A case is one build, compilation, load or command line run with a fault that never stops; it counts when the fault fired" },
    ]
}

pub fn group_sys(rng: &mut Rng, wide: bool) -> SysSrc {
    let kind = *rng.pick(&KINDS);
    let size = gen_size(rng);
    gen_sys(rng, kind, size, wide)
}
pub fn group_user(rng: &mut Rng, wide: bool) -> UserSrc {
    let kind = *rng.pick(&KINDS);
    let size = gen_size(rng);
    gen_user(rng, kind, size, 5, wide)
}

const IN_DIRS: &[&str] = &["/src", "/data/dic v1/日本語", "/a[b]c", "/src-*", "/src/[!x]?", "src", "./dic/src", "./src/../src"];

fn build_any(w: &mut World, img: &Image, plan: &Plan, kind: Kind, cli: bool, input: &str, output: &str) -> (Fate<()>, Report) {
    if cli {
        let args = ["build", "-t", kind.name(), input, output].map(String::from).to_vec();
        w.cli(img, plan, &args)
    } else {
        w.run(img, plan, || build_sys(kind, input, output))
    }
}
/// The compiled file is `<output>/user.bin`.
fn compile_any(w: &mut World, img: &Image, plan: &Plan, kind: Kind, cli: bool, input: &str, output: &str) -> (Fate<()>, Report) {
    if cli {
        let args = ["build", "-u", "-t", kind.name(), input, output].map(String::from).to_vec();
        w.cli(img, plan, &args)
    } else {
        let o = format!("{output}/user.bin");
        w.run(img, plan, || build_user(kind, input, &o))
    }
}
/// From the command line an error is exit status 1, and a panic is 101: also an error
/// to whoever called the program, but not a report.
fn faults_of(c: &Case) -> bool {
    c.plans.first().map(|p| *p != base_plan(p.seed)).unwrap_or(false)
}

// ---- C01: success means a complete and faithful system dictionary ----

fn exec_c01(w: &mut World, c: &Case) -> Option<Viol> {
    let src = c.sys.first()?;
    let input = if c.str("in").is_empty() { "/src" } else { c.str("in") };
    let mut img = Image::new();
    src.put(&mut img, input);
    // a neighbour that a careless pattern would also match
    img.put("/src-xyz/Neighbour.csv", b"zzz,0,0,0,a,b,c,d,e,f,g,h,i\n");
    if let Some(old) = c.sys.get(1) {
        let g = w.golden_sys(old);
        put_files(&mut img, "/out", &g.files);
    }
    let missing = c.str("missing");
    if !missing.is_empty() {
        img.remove(&format!("{input}/{missing}"));
    }
    let (fate, r) = build_any(w, &img, &c.plans[0], src.kind, c.int("cli") == 1, input, "/out");
    let faulty = faults_of(c);
    let ctx = format!("{} build{}", src.kind.name(), if faulty { format!(" under {}", plan_words(&c.plans[0])) } else { String::new() });
    match &fate {
        f if f.broke() => return viol("panic", format!("{ctx}: {} instead of an error", fate.word())),
        f if f.stuck() => return viol("no-end", format!("{ctx}: {}", fate.word())),
        Fate::Res(Res::Ok(())) => {
            if !missing.is_empty() {
                return viol("missing-source", format!("{ctx}: success although {missing} does not exist"));
            }
            let files = out_files(&r.image, "/out");
            if faulty || input != "/src" || c.sys.len() > 1 {
                let g = w.golden_sys(src);
                if g.diff.as_ref().map(|d| d.is_empty()).unwrap_or(false) && g.files == files {
                    return None;
                }
            }
            let (v, _) = w.run(&r.image, &base_plan(9), || verify_sys(src, "/out", Extent::Exact));
            match v {
                Fate::Res(Res::Ok(d)) if d.is_empty() => None,
                Fate::Res(Res::Ok(d)) => viol(
                    if faulty { "unfaithful-after-fault" } else { "unfaithful" },
                    format!("{ctx}: success, but {}", d.join("; ")),
                ),
                o => viol(
                    if faulty { "unloadable-after-fault" } else { "unloadable" },
                    format!("{ctx}: success, but loading the result gives {}", o.word()),
                ),
            }
        }
        Fate::Res(Res::Err(e)) => {
            if !faulty && missing.is_empty() && c.int("over") == 0 {
                return viol("refused", format!("{ctx}: a valid source is refused: {e}"));
            }
            None
        }
        _ => None,
    }
}

pub fn plan_words(p: &Plan) -> String {
    let mut v: Vec<String> = vec![];
    for f in &p.faults {
        v.push(format!("{:?} #{} of {} {:?}", f.call, f.nth, f.path, f.kind));
    }
    for s in &p.sticky {
        v.push(format!("every {:?} of {}* from call {} on fails with {}", s.call, s.path, s.from, crate::os::errno_name(s.errno)));
    }
    if let Some(c) = p.capacity {
        v.push(format!("disk full at {c} bytes"));
    }
    if let Some(c) = p.max_fds {
        v.push(format!("at most {c} open files"));
    }
    if let Some((n, e)) = p.out_limit {
        v.push(format!("standard output fails with {} after {n} bytes", crate::os::errno_name(e)));
    }
    if let Some((nth, n)) = p.no_mem {
        v.push(if n > 1 << 40 { format!("no memory after {nth} allocations") } else { format!("no memory for {n} allocations after {nth}") });
    }
    if let Some(m) = p.memory {
        v.push(format!("at most {m} bytes of memory"));
    }
    if p.max_read > 0 || p.max_write > 0 {
        v.push(format!("pieces of at most {}/{} bytes", p.max_read, p.max_write));
    }
    if p.eintr_open + p.eintr_read + p.eintr_write > 0 {
        v.push("interrupted calls".into());
    }
    if !p.preempts.is_empty() || p.dense.is_some() {
        v.push(format!("{} placed switches{}", p.preempts.len(), if p.dense.is_some() { " and random switching" } else { "" }));
    }
    if v.is_empty() {
        "no faults".into()
    } else {
        v.join(", ")
    }
}

fn written(log: &[Ev]) -> u64 {
    log.iter().filter(|e| e.call == Call::Write && e.res > 0).map(|e| e.res as u64).sum()
}

fn gen_c01(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let huge = group % 40 == 7;
    let src = if huge {
        let k = *rng.pick(&KINDS);
        gen_sys(rng, k, Size::Huge, false)
    } else {
        group_sys(rng, true)
    };
    let plain = |s: &str| {
        let mut c = Case::new("C01", s);
        c.sys.push(src.clone());
        c
    };
    v.push(plain("plain").plan(base_plan(rng.next())));
    let g = w.golden_sys(&src);
    if !g.fate.is_ok() {
        return v;
    }
    let mut img = Image::new();
    src.put(&mut img, "/src");
    img.put("/src-xyz/Neighbour.csv", b"zzz,0,0,0,a,b,c,d,e,f,g,h,i\n");
    let (total, wr) = (img.total(), written(&g.log));
    if huge {
        for _ in 0..3 {
            v.push(plain("fault").plan(hostile(rng, &g.log, rng.0, total, wr)));
        }
        return v;
    }
    v.push(plain("plain").plan(base_plan(rng.next())).with("cli", 1));
    v.push(plain("dir").plan(base_plan(rng.next())).withs("in", rng.pick(IN_DIRS)));
    v.push(plain("missing").plan(base_plan(rng.next())).withs("missing", rng.pick(&["char.def", "unk.def", "matrix.def"])));
    // more words of one surface than the format can number
    if group % 4 == 1 {
        let mut c = plain("over").with("over", 1).plan(base_plan(rng.next()));
        let n = *rng.pick(&[32usize, 33, 40, 63, 64, 65]);
        let row = c.sys[0].files.iter().flat_map(|f| f.rows.iter()).find(|r| !r.bad).cloned();
        if let Some(row) = row {
            for i in 0..n {
                let mut r = row.clone();
                r.details[0] = format!("h{i}");
                c.sys[0].files[0].rows.push(r);
            }
            v.push(c);
        }
    }
    if rng.chance(1, 3) {
        let mut c = plain("over-old").plan(base_plan(rng.next()));
        let old = if rng.chance(1, 2) { nudge_sys(rng, &c.sys[0]) } else { group_sys(rng, false) };
        c.sys.push(old);
        v.push(c);
    }
    for k in 0..34 {
        let p = hostile(rng, &g.log, rng.0, total, wr);
        let mut c = plain("fault").plan(p);
        if k % 5 == 0 {
            c.n.insert("cli".into(), 1);
        }
        v.push(c);
    }
    v
}

// ---- C02: success means a complete and faithful user dictionary ----

fn exec_c02(w: &mut World, c: &Case) -> Option<Viol> {
    let src = c.user.first()?;
    let mut img = Image::new();
    img.put("/usrc/user.csv", src.csv().as_bytes());
    if let Some(old) = c.user.get(1) {
        let g = w.golden_user(old);
        if let Some(d) = g.files.get("user.bin") {
            img.put("/uout/user.bin", d);
        }
    }
    let faulty = faults_of(c);
    let direct = c.int("direct") == 1;
    let ctx = format!(
        "{} user dictionary{}",
        src.kind.name(),
        if faulty { format!(" under {}", plan_words(&c.plans[0])) } else { String::new() }
    );
    if direct {
        // straight from the CSV, without a compiled file
        let (f, _) = w.run(&img, &c.plans[0], || verify_user(src, "/usrc/user.csv", Extent::Exact));
        return match &f {
            Fate::Res(Res::Ok(d)) if d.is_empty() => None,
            Fate::Res(Res::Ok(d)) => viol("unfaithful-csv", format!("{ctx} read from CSV: {}", d.join("; "))),
            f if f.is_err() && (faulty || c.int("over") == 1) => None,
            f if f.is_err() => viol("refused", format!("{ctx} read from CSV: {}", f.word())),
            f => viol("panic", format!("{ctx} read from CSV: {}", f.word())),
        };
    }
    let (fate, r) = compile_any(w, &img, &c.plans[0], src.kind, c.int("cli") == 1, "/usrc/user.csv", "/uout");
    match &fate {
        f if f.broke() => viol("panic", format!("{ctx}: {} instead of an error", fate.word())),
        f if f.stuck() => viol("no-end", format!("{ctx}: {}", fate.word())),
        Fate::Res(Res::Ok(())) => {
            if faulty || c.user.len() > 1 {
                let g = w.golden_user(src);
                if g.diff.as_ref().map(|d| d.is_empty()).unwrap_or(false)
                    && g.files.get("user.bin").map(|d| &d[..]) == r.image.get("/uout/user.bin")
                {
                    return None;
                }
            }
            let (v, _) = w.run(&r.image, &base_plan(9), || verify_user(src, "/uout/user.bin", Extent::Exact));
            match v {
                Fate::Res(Res::Ok(d)) if d.is_empty() => None,
                Fate::Res(Res::Ok(d)) => viol(
                    if faulty { "unfaithful-after-fault" } else { "unfaithful" },
                    format!("{ctx}: success, but {}", d.join("; ")),
                ),
                o => viol(
                    if faulty { "unloadable-after-fault" } else { "unloadable" },
                    format!("{ctx}: success, but loading the result gives {}", o.word()),
                ),
            }
        }
        Fate::Res(Res::Err(e)) if !faulty && c.int("over") == 0 => viol("refused", format!("{ctx}: a valid source is refused: {e}")),
        _ => None,
    }
}

fn gen_c02(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let huge = group % 40 == 9;
    let src = if huge {
        let k = *rng.pick(&KINDS);
        gen_user(rng, k, Size::Huge, 5, false)
    } else {
        group_user(rng, true)
    };
    let plain = |s: &str| {
        let mut c = Case::new("C02", s);
        c.user.push(src.clone());
        c
    };
    v.push(plain("plain").plan(base_plan(rng.next())));
    v.push(plain("csv").plan(base_plan(rng.next())).with("direct", 1));
    let g = w.golden_user(&src);
    if !g.fate.is_ok() {
        return v;
    }
    let total = src.csv().len() as u64;
    let wr = written(&g.log);
    if huge {
        for _ in 0..3 {
            v.push(plain("fault").plan(hostile(rng, &g.log, rng.0, total, wr)));
        }
        return v;
    }
    v.push(plain("plain").plan(base_plan(rng.next())).with("cli", 1));
    if group % 4 == 1 {
        let mut c = plain("over").with("over", 1).plan(base_plan(rng.next()));
        let n = *rng.pick(&[32usize, 33, 40, 63, 64, 65]);
        let row = c.user[0].rows[0].clone();
        for i in 0..n {
            let mut r = row.clone();
            r.cost = i as i16;
            c.user[0].rows.push(r);
        }
        v.push(c.clone());
        c.n.insert("direct".into(), 1);
        v.push(c);
    }
    if rng.chance(1, 2) {
        let mut c = plain("over-old").plan(base_plan(rng.next()));
        let old = if rng.chance(1, 2) { nudge_user(rng, &c.user[0]) } else { group_user(rng, false) };
        c.user.push(old);
        v.push(c);
    }
    for k in 0..30 {
        let p = hostile(rng, &g.log, rng.0, total, wr);
        let mut c = plain("fault").plan(p);
        if k % 5 == 0 {
            c.n.insert("cli".into(), 1);
        } else if k % 7 == 0 {
            c.n.insert("direct".into(), 1);
        }
        v.push(c);
    }
    v
}

// ---- C03: a rebuild after crashes gives what a build from nothing gives ----

fn exec_c03(w: &mut World, c: &Case) -> Option<Viol> {
    let user = !c.user.is_empty();
    let cli = c.int("cli") == 1;
    let mut img = Image::new();
    if user {
        img.put("/usrc/user.csv", c.user[0].csv().as_bytes());
        if let Some(o) = c.user.get(1) {
            let g = w.golden_user(o);
            if let Some(d) = g.files.get("user.bin") {
                img.put("/uout/user.bin", d);
            }
        }
    } else {
        c.sys.first()?.put(&mut img, "/src");
        if let Some(o) = c.sys.get(1) {
            let g = w.golden_sys(o);
            put_files(&mut img, "/out", &g.files);
        }
    }
    let sources = img.snapshot(if user { "/usrc" } else { "/src" });
    let want = if user { w.golden_user(&c.user[0]) } else { w.golden_sys(&c.sys[0]) };
    if !want.fate.is_ok() {
        w.st.skipped += 1;
        return None;
    }
    let mut story = vec![];
    for (i, p) in c.plans.iter().enumerate() {
        let (f, r) = if user {
            compile_any(w, &img, p, c.user[0].kind, cli, "/usrc/user.csv", "/uout")
        } else {
            build_any(w, &img, p, c.sys[0].kind, cli, "/src", "/out")
        };
        story.push(format!("build {} with {} ended: {}", i + 1, plan_words(p), f.word()));
        img = r.image;
        // names of temporary inodes with no entry stay open only in the dead process
        if c.int("power") == 1 {
            img.power_loss(&mut Rng::new(p.seed ^ 0x9999));
            // the sources were on disk all along
            for (k, d) in &sources {
                if let Some(d) = d {
                    img.put(k, d);
                }
            }
        }
    }
    let (f, r) = if user {
        compile_any(w, &img, &base_plan(77), c.user[0].kind, cli, "/usrc/user.csv", "/uout")
    } else {
        build_any(w, &img, &base_plan(77), c.sys[0].kind, cli, "/src", "/out")
    };
    if !f.is_ok() {
        return viol("rebuild-fails", format!("{}; the clean rebuild then gives {}", story.join("; "), f.word()));
    }
    let got: BTreeMap<String, Vec<u8>> = if user {
        r.image.get("/uout/user.bin").map(|d| [("user.bin".to_string(), d.to_vec())].into()).unwrap_or_default()
    } else {
        out_files(&r.image, "/out")
    };
    if let Some(d) = first_difference(&want.files, &got) {
        return viol("rebuild-differs", format!("{}; after the clean rebuild {d}", story.join("; ")));
    }
    None
}

pub fn first_difference(want: &BTreeMap<String, Vec<u8>>, got: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (n, a) in want {
        match got.get(n) {
            None => return Some(format!("{n} is missing")),
            Some(b) if a != b => {
                let at = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                return Some(format!("{n} has {} bytes instead of {} and differs from byte {at}", b.len(), a.len()));
            }
            _ => {}
        }
    }
    None
}

fn gen_c03(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let user = group % 3 == 2;
    let mut base = Case::new("C03", if user { "user" } else { "system" });
    let g = if user {
        base.user.push(group_user(rng, false));
        w.golden_user(&base.user[0])
    } else {
        base.sys.push(group_sys(rng, false));
        w.golden_sys(&base.sys[0])
    };
    if !g.fate.is_ok() {
        return v;
    }
    let other = if user { (vec![], vec![gen_user(rng, base.user[0].kind, Size::Large, 5, false)]) } else { (vec![gen_sys(rng, base.sys[0].kind, Size::Large, false)], vec![]) };
    for k in 0..24 {
        let mut c = base.clone();
        if k % 3 == 1 {
            c.sys.extend(other.0.iter().cloned());
            c.user.extend(other.1.iter().cloned());
        } else if k % 6 == 2 {
            // the source as it was before a small edit
            if let Some(s) = c.sys.first() {
                let s = nudge_sys(rng, s);
                c.sys.push(s);
            }
            if let Some(s) = c.user.first() {
                let s = nudge_user(rng, s);
                c.user.push(s);
            }
        }
        c = c.with("power", (rng.chance(1, 2)) as i64).with("cli", (k % 8 == 0) as i64);
        for _ in 0..rng.range(1, 3) {
            let mut p = base_plan(rng.next());
            if rng.chance(1, 3) {
                p.max_write = *rng.pick(&[1, 16, 100, 1000]);
                p.max_read = *rng.pick(&[0, 100, 1000]);
            }
            if rng.chance(5, 6) {
                if let Some(e) = pick_event(rng, &g.log, &|e| !matches!(e.call, Call::Seek)) {
                    p.faults.push(kill_at(rng, e));
                }
            } else {
                p.faults.extend(rand_fault(rng, &g.log, &faultable));
            }
            c.plans.push(p);
        }
        v.push(c);
    }
    v
}

// ---- C04: what a killed or failed build leaves in a fresh place is refused ----

fn exec_c04(w: &mut World, c: &Case) -> Option<Viol> {
    let user = !c.user.is_empty();
    let p = &c.plans[0];
    let mut img = Image::new();
    let power = |img: &mut Image| {
        let before = img.snapshot("/");
        if c.int("power") == 1 {
            img.power_tail(&mut Rng::new(p.seed ^ 0x7777));
        }
        if img.snapshot("/") == before { "" } else { ", and a power cut took the ends of files" }
    };
    if user {
        let src = &c.user[0];
        img.put("/usrc/user.csv", src.csv().as_bytes());
        let old = c.user.get(1);
        if let Some(o) = old {
            let g = w.golden_user(o);
            img.put("/uout/user.bin", g.files.get("user.bin")?);
        }
        let (f, mut r) = compile_any(w, &img, p, src.kind, false, "/usrc/user.csv", "/uout");
        let cut = power(&mut r.image);
        if f.is_ok() && cut.is_empty() {
            return None;
        }
        let (l, _) = w.run(&r.image, &base_plan(3), || {
            to_res(guarded(|| {
                lindera_dictionary::DictionaryLoader::load_user_dictionary_from_bin("/uout/user.bin".into()).map(|_| ())
            }))
        });
        let ctx = format!("{} user dictionary, {}: the build ended with {}{cut}", src.kind.name(), plan_words(p), f.word());
        if l.is_err() {
            return None;
        }
        if !l.is_ok() {
            return viol("load-panics", format!("{ctx}; loading what it left gives {}", l.word()));
        }
        for s in c.user.iter() {
            let (v, _) = w.run(&r.image, &base_plan(3), || verify_user(s, "/uout/user.bin", Extent::Exact));
            if v == Fate::Res(Res::Ok(vec![])) {
                return None;
            }
        }
        return viol("partial-accepted", format!("{ctx}; what it left loads although it is not complete"));
    }
    let src = c.sys.first()?;
    src.put(&mut img, "/src");
    let missing = c.str("missing");
    if !missing.is_empty() {
        img.remove(&format!("/src/{missing}"));
    }
    let (f, mut r) = build_any(w, &img, p, src.kind, c.int("cli") == 1, "/src", "/out");
    let cut = power(&mut r.image);
    if f.is_ok() && cut.is_empty() {
        return None;
    }
    let ctx = format!("{}, {}: the build ended with {}{cut}", src.kind.name(), plan_words(p), f.word());
    let (l, _) = w.run(&r.image, &base_plan(3), || {
        to_res(guarded(|| lindera_dictionary::DictionaryLoader::load_dictionary("/out".into()).map(|_| ())))
    });
    if l.is_err() {
        return None;
    }
    if !l.is_ok() {
        return viol("load-panics", format!("{ctx}; loading what it left gives {}", l.word()));
    }
    let (v, _) = w.run(&r.image, &base_plan(3), || verify_sys(src, "/out", Extent::Exact));
    if v == Fate::Res(Res::Ok(vec![])) {
        return None;
    }
    let have: Vec<String> = out_files(&r.image, "/out").iter().map(|(n, d)| format!("{n}:{}", d.len())).collect();
    viol("partial-accepted", format!("{ctx}; what it left ({}) loads although it is not complete", have.join(" ")))
}

fn gen_c04(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let user = group % 3 == 2;
    let mut base = Case::new("C04", if user { "user" } else { "system" });
    let g = if user {
        base.user.push(group_user(rng, true));
        w.golden_user(&base.user[0])
    } else {
        base.sys.push(group_sys(rng, true));
        w.golden_sys(&base.sys[0])
    };
    if !g.fate.is_ok() {
        return v;
    }
    let mut img = Image::new();
    if user {
        img.put("/usrc/user.csv", base.user[0].csv().as_bytes());
    } else {
        base.sys[0].put(&mut img, "/src");
    }
    let (total, wr) = (img.total(), written(&g.log));
    for k in 0..30 {
        let mut c = base.clone();
        if user && k % 3 == 0 {
            c.user.push(gen_user(rng, base.user[0].kind, Size::Medium, 5, false));
        }
        let mut p = base_plan(rng.next());
        match k % 6 {
            0..=3 => {
                if rng.chance(1, 3) {
                    p.max_write = *rng.pick(&[1, 16, 100, 1000]);
                }
                let out_only = rng.chance(3, 4);
                if let Some(e) = pick_event(rng, &g.log, &|e| !matches!(e.call, Call::Seek) && (!out_only || e.path.contains("out"))) {
                    p.faults.push(kill_at(rng, e));
                }
            }
            4 => p = hostile(rng, &g.log, rng.0, total, wr),
            _ => {
                if !user {
                    c = c.withs("missing", rng.pick(&["char.def", "unk.def", "matrix.def"]));
                } else {
                    p = hostile(rng, &g.log, rng.0, total, wr);
                }
            }
        }
        if k % 5 == 2 {
            c = c.with("power", 1);
            if rng.chance(2, 3) {
                p.faults.clear(); // the power fails after the build
            }
        }
        c = c.with("cli", (k % 10 == 0) as i64);
        c.plans.push(p);
        v.push(c);
    }
    v
}

// ---- C12: a build is a function of its sources ----

/// What earlier builds and others may have left where a build puts its files.
fn leave_old(img: &mut Image, how: i64, dir: &str, files: &BTreeMap<String, Vec<u8>>) {
    for (k, (name, data)) in files.iter().enumerate() {
        let path = format!("{dir}/{name}");
        match how {
            0 => {}
            // the same
            1 => img.put(&path, data),
            // longer files
            2 => {
                let mut d = data.clone();
                d.extend_from_slice(&vec![0x41; 10_000]);
                d.rotate_left(3);
                img.put(&path, &d)
            }
            // cut or empty files
            3 => img.put(&path, &data[..data.len() * (k % 3) / 3]),
            // some of them
            4 if k % 2 == 0 => img.put(&path, b"old"),
            4 => {}
            // the same but for a byte
            6 => {
                let mut d = data.clone();
                if !d.is_empty() {
                    let at = (d.len() * (3 + k)) / 11 % d.len();
                    d[at] ^= 0x10;
                }
                img.put(&path, &d)
            }
            // others'
            _ => img.put(&format!("{path}.tmp"), data),
        }
    }
}

fn exec_c12(w: &mut World, c: &Case) -> Option<Viol> {
    let (from, to) = (c.str("from").to_string(), c.str("to").to_string());
    let mut img = Image::new();
    let mut wants = vec![];
    for (i, s) in c.sys.iter().enumerate() {
        s.put(&mut img, &format!("{from}/src{i}"));
        let g = w.golden_sys(s);
        if !g.fate.is_ok() {
            w.st.skipped += 1;
            return None;
        }
        leave_old(&mut img, c.int("old"), &format!("{to}/out{i}"), &g.files);
        wants.push(g);
    }
    let mut uwants = vec![];
    for (i, u) in c.user.iter().enumerate() {
        img.put(&format!("{from}/usrc{i}/user.csv"), u.csv().as_bytes());
        let g = w.golden_user(u);
        if !g.fate.is_ok() {
            w.st.skipped += 1;
            return None;
        }
        leave_old(&mut img, c.int("old"), &format!("{to}/uout{i}"), &g.files);
        uwants.push(g);
    }
    let kinds: Vec<Kind> = c.sys.iter().map(|s| s.kind).collect();
    let ukinds: Vec<Kind> = c.user.iter().map(|s| s.kind).collect();
    let one_by_one = c.int("one_by_one") == 1;
    let (f, r) = w.run(&img, &c.plans[0], || many_builds(&kinds, &ukinds, &from, &to, one_by_one));
    let ctx = format!(
        "{} builds {}from {from}/ to {to}/{}with {}",
        kinds.len() + ukinds.len(),
        if one_by_one { "one after another " } else { "" },
        if c.int("old") == 0 { " " } else { ", where there are files already, " },
        plan_words(&c.plans[0])
    );
    match f {
        Fate::Res(Res::Ok(v)) => {
            for (i, x) in v.iter().enumerate() {
                if !x.is_ok() {
                    return viol("build-fails", format!("{ctx}: build {i} gives {}", x.word()));
                }
            }
        }
        o => return viol("build-fails", format!("{ctx}: {}", o.word())),
    }
    for (i, g) in wants.iter().enumerate() {
        if let Some(d) = first_difference(&g.files, &ours(out_files(&r.image, &format!("{to}/out{i}")))) {
            return viol("bytes-differ", format!("{ctx}: dictionary {i} ({}): {d}", kinds[i].name()));
        }
    }
    for (i, g) in uwants.iter().enumerate() {
        let got: BTreeMap<String, Vec<u8>> =
            r.image.get(&format!("{to}/uout{i}/user.bin")).map(|d| [("user.bin".to_string(), d.to_vec())].into()).unwrap_or_default();
        if let Some(d) = first_difference(&g.files, &got) {
            return viol("bytes-differ", format!("{ctx}: user dictionary {i} ({}): {d}", ukinds[i].name()));
        }
    }
    None
}

/// Without what others left.
fn ours(mut files: BTreeMap<String, Vec<u8>>) -> BTreeMap<String, Vec<u8>> {
    files.retain(|k, _| !k.ends_with(".tmp"));
    files
}

fn many_builds(kinds: &[Kind], ukinds: &[Kind], from: &str, to: &str, one_by_one: bool) -> Res<Vec<Res<()>>> {
    let mut hs = vec![];
    let mut done = vec![];
    let ended = |h: std::thread::JoinHandle<Res<()>>| h.join().unwrap_or_else(|_| Res::Panic("thread died".into()));
    for (i, k) in kinds.iter().enumerate() {
        let k = *k;
        let (from, to) = (from.to_string(), to.to_string());
        hs.push(std::thread::spawn(move || {
            to_res(caught(|| {
                lindera_dictionary::DictionaryBuilderResolver::resolve_builder(k.lindera())?
                    .build_dictionary(format!("{from}/src{i}").as_ref(), format!("{to}/out{i}").as_ref())
            }))
        }));
        if one_by_one {
            done.extend(hs.drain(..).map(ended));
        }
    }
    for (i, k) in ukinds.iter().enumerate() {
        let k = *k;
        let (from, to) = (from.to_string(), to.to_string());
        hs.push(std::thread::spawn(move || {
            to_res(caught(|| {
                lindera_dictionary::DictionaryBuilderResolver::resolve_builder(k.lindera())?
                    .build_user_dictionary(format!("{from}/usrc{i}/user.csv").as_ref(), format!("{to}/uout{i}/user.bin").as_ref())
            }))
        }));
        if one_by_one {
            done.extend(hs.drain(..).map(ended));
        }
    }
    done.extend(hs.into_iter().map(ended));
    Res::Ok(done)
}

fn gen_c12(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let mut base = Case::new("C12", "together");
    let small = |rng: &mut Rng| *rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]);
    let k0 = *rng.pick(&KINDS);
    let sz = if group % 5 == 0 { Size::Large } else { small(rng) };
    base.sys.push(gen_sys(rng, k0, sz, true));
    match group % 4 {
        0 => {}
        1 => {
            let k = if rng.chance(1, 2) { k0 } else { *rng.pick(&KINDS) };
            let sz = small(rng);
            base.sys.push(gen_sys(rng, k, sz, false));
        }
        2 => {
            let sz = small(rng);
            base.sys.push(gen_sys(rng, k0, sz, false));
            let k = *rng.pick(&KINDS);
            base.user.push(gen_user(rng, k, Size::Small, 5, true));
        }
        _ => {
            for _ in 0..2 {
                let k = *rng.pick(&KINDS);
                let sz = small(rng);
                base.user.push(gen_user(rng, k, sz, 5, true));
            }
        }
    }
    // what a run without switches looks like
    let mut img = Image::new();
    for (i, s) in base.sys.iter().enumerate() {
        s.put(&mut img, &format!("/src{i}"));
    }
    for (i, u) in base.user.iter().enumerate() {
        img.put(&format!("/usrc{i}/user.csv"), u.csv().as_bytes());
    }
    let kinds: Vec<Kind> = base.sys.iter().map(|s| s.kind).collect();
    let ukinds: Vec<Kind> = base.user.iter().map(|s| s.kind).collect();
    let (_, dry) = w.run(&img, &logged(base_plan(1)), || many_builds(&kinds, &ukinds, "", "", false));
    for k in 0..22 {
        let mut p = base_plan(rng.next());
        if k % 2 == 0 {
            gentle_into(rng, &mut p);
        } else {
            p.shuffle_dir = rng.chance(1, 2);
        }
        if kinds.len() + ukinds.len() > 1 && !dry.edges.is_empty() {
            preempting(rng, &mut p, &dry);
        }
        let mut c = base.clone();
        if rng.chance(1, 3) {
            c.n.insert("old".into(), rng.range(1, 6));
        }
        if rng.chance(1, 3) {
            const PLACES: [&str; 8] = ["/a", "/b/c/d/e/f", "/with blank", "/辞書", "/x.csv", "/dict.words", "/q\"uote'", "/.hidden"];
            let place = |rng: &mut Rng| {
                let mut s = rng.pick(&PLACES).to_string();
                for _ in 0..rng.below(3) {
                    s.push_str(rng.pick(&PLACES));
                }
                s
            };
            let (mut from, mut to) = (place(rng), place(rng));
            // from the working directory
            if rng.chance(1, 3) {
                from.remove(0);
            }
            if rng.chance(1, 3) {
                to.remove(0);
            }
            c.s.insert("from".into(), from);
            c.s.insert("to".into(), to);
        }
        if rng.chance(1, 5) {
            c.n.insert("one_by_one".into(), 1);
        }
        v.push(c.plan(p));
    }
    v
}

// ---- C13: a bad source never costs the compiled file ----

fn exec_c13(w: &mut World, c: &Case) -> Option<Viol> {
    let (old, new) = (c.user.first()?, c.user.get(1)?);
    let g = w.golden_user(old);
    let before = g.files.get("user.bin")?.clone();
    let mut img = Image::new();
    img.put("/uout/user.bin", &before);
    let text = if c.bytes.is_empty() { new.csv().into_bytes() } else { c.bytes.clone() };
    // beside the dictionary it compiles to, and newer than it
    let dir = if c.int("beside") == 1 { "/uout" } else { "/usrc" };
    let source = format!("{dir}/user.csv");
    if c.int("missing") == 0 {
        img.put(&source, &text);
    } else {
        img.mkdirs(dir);
    }
    let (f, r) = compile_any(w, &img, &c.plans[0], new.kind, c.int("cli") == 1, &source, "/uout");
    let ctx = format!("{} user dictionary, {}, {}", new.kind.name(), c.scen, plan_words(&c.plans[0]));
    if f.is_ok() {
        // nothing of the source may be passed over in silence
        return match r.image.get("/uout/user.bin") {
            _ if c.scen.starts_with("killed") => None,
            _ if c.scen != "read-fault" => viol("accepted", format!("{ctx}: compiling reports success")),
            Some(d) if w.golden_user(new).files.get("user.bin").is_some_and(|g| &g[..] == d) => None,
            d => viol("accepted", format!("{ctx}: compiling reports success with {} bytes that are not the source", d.map_or(0, |d| d.len()))),
        };
    }
    if (c.scen == "bad row" || c.scen == "no source") && f.broke() {
        return viol("panic", format!("{ctx}: {}", f.word()));
    }
    match r.image.get("/uout/user.bin") {
        Some(d) if d == &before[..] => None,
        Some(d) => viol(
            "destroyed",
            format!("{ctx}: compiling gives {}, and the dictionary compiled before has {} bytes instead of {}", f.word(), d.len(), before.len()),
        ),
        None => viol("destroyed", format!("{ctx}: compiling gives {}, and the dictionary compiled before is gone", f.word())),
    }
}

/// A file with one row that cannot be right.
fn spoil(rng: &mut Rng, src: &UserSrc) -> Vec<u8> {
    let text = src.csv();
    let mut lines: Vec<String> = vec![];
    for l in text.lines() {
        match lines.last_mut() {
            // a line break inside a quoted field
            Some(p) if p.matches('"').count() % 2 == 1 => *p += &format!("\n{l}"),
            _ => lines.push(l.to_string()),
        }
    }
    let at = match rng.below(4) {
        0 => 0,
        1 => lines.len(),
        _ => rng.below(lines.len() as u64 + 1) as usize,
    };
    let nd = if src.kind.mixed_user_rows() { 9 } else { 8 };
    let stars = vec!["*"; nd].join(",");
    let line = match rng.below(14) {
        8 => (*rng.pick(&["a", "ab", "x", "#", "# a note", "\"\"", "\"語\"", "*", "0", "EOS", "語 名詞 ゴ", "語\t名詞\tゴ", "語、名詞、ゴ"])).to_string(),
        9 => (*rng.pick(&["語,", ",語", ",", "語,名詞", "a,b", "語,0,0,10", "語,0,0,10,", "語,,,,", ",,,,,,"])).to_string(),
        10 => format!("語,0,0,,{stars}"),
        11 => format!("語,0,0,{},{stars}", rng.pick(&["1.5", "0x10", "１０", "1e3", "--1", "32768", "-32769", "99999999999", "*", "+", "-"])),
        12 => format!("語,{},0,10,{stars}", rng.pick(&["", "65536", "-1", "*", "1.0", "あ"])),
        13 => format!("語,0,{},10,{stars}", rng.pick(&["", "65536", "-1", "*", "1.0", "あ"])),
        0 => format!("語,x,0,10,{stars}"),
        1 => format!("語,0,70000,10,{stars}"),
        2 => format!("語,0,0,ten,{stars}"),
        3 => "語,0,0,10,a".to_string(),
        4 => "語".to_string(),
        5 => "語,名詞".to_string(),
        6 => format!("語,-1,0,10,{stars}"),
        _ => format!("語,0,0,40000,{stars}"),
    };
    lines.insert(at.min(lines.len()), line);
    let mut b = lines.join("\n").into_bytes();
    if rng.chance(1, 6) {
        // not even UTF-8
        let i = rng.below(b.len() as u64) as usize;
        b[i] = 0xff;
    }
    if !rng.chance(1, 4) {
        b.push(b'\n');
    }
    b
}

fn gen_c13(w: &mut World, rng: &mut Rng, _group: u64) -> Vec<Case> {
    let mut v = vec![];
    let kind = *rng.pick(&KINDS);
    let size = gen_size(rng);
    let old = gen_user(rng, kind, size, 5, false);
    let size = gen_size(rng);
    let new = gen_user(rng, kind, size, 5, false);
    let g = w.golden_user(&new);
    if !w.golden_user(&old).fate.is_ok() || !g.fate.is_ok() {
        return v;
    }
    for k in 0..20 {
        let mut c = Case::new("C13", "read-fault").with("cli", (k % 6 == 0) as i64);
        c.user = vec![old.clone(), new.clone()];
        let mut p = base_plan(rng.next());
        match k % 4 {
            0 | 1 => {
                c.scen = "bad row".into();
                c.bytes = spoil(rng, &new);
                c.n.insert("beside".into(), rng.chance(1, 3) as i64);
                if k % 8 == 0 {
                    gentle_into(rng, &mut p);
                    p.eintr_read = 0;
                }
            }
            2 if k % 8 == 2 => {
                c.scen = "no source".into();
                c.n.insert("missing".into(), 1);
                c.n.insert("beside".into(), rng.chance(1, 3) as i64);
            }
            _ => {
                let ok = |e: &Ev| e.path.starts_with("/usrc") && matches!(e.call, Call::Open | Call::Read);
                if let Some(e) = pick_event(rng, &g.log, &ok) {
                    p.faults.push(fault_at(e, FaultKind::Err(errno_for(rng, e.call, false))));
                }
                if rng.chance(1, 3) {
                    p.max_read = *rng.pick(&[16, 100, 1000]);
                }
            }
        }
        v.push(c.plan(p));
    }
    // killed while it compiles a bad source, or while it reads a good one
    let last = g.log.iter().rev().find(|e| e.path.starts_with("/usrc") && e.call == Call::Read).map_or(0, |e| e.n);
    for k in 0..4 {
        let mut c = Case::new("C13", "killed at a bad row").with("cli", (k == 3) as i64);
        c.user = vec![old.clone(), new.clone()];
        let mut p = base_plan(rng.next());
        if k < 2 {
            c.bytes = spoil(rng, &new);
            let mut img = Image::new();
            img.put("/uout/user.bin", &w.golden_user(&old).files["user.bin"]);
            img.put("/usrc/user.csv", &c.bytes);
            let (_, dry) = compile_any(w, &img, &logged(base_plan(1)), new.kind, false, "/usrc/user.csv", "/uout");
            if let Some(e) = pick_event(rng, &dry.log, &|_| true) {
                p.faults.push(kill_at(rng, e));
            }
        } else {
            c.scen = "killed while reading".into();
            if let Some(e) = pick_event(rng, &g.log, &|e: &Ev| e.n <= last) {
                p.faults.push(fault_at(e, FaultKind::Kill));
            }
        }
        v.push(c.plan(p));
    }
    v
}

// ---- C14: what is written, and where ----

fn exec_c14(w: &mut World, c: &Case) -> Option<Viol> {
    let mut img = Image::new();
    img.put("/home/notes.txt", b"keep me");
    img.put("/tmp/other", b"keep me too");
    let p = &c.plans[0];
    let (f, done, r, allowed): (String, bool, Report, Vec<&str>) = match c.scen.as_str() {
        "build" => {
            let s = c.sys.first()?;
            s.put(&mut img, "/work/src");
            // a source that cannot be built: the build fails in one of its stages
            if let Some(name) = c.s.get("bad") {
                let path = format!("/work/src/{name}");
                let n = img.get(&path).map(|d| d.len()).unwrap_or(0);
                match c.int("how") {
                    0 => drop(img.names.remove(&path)),
                    1 => drop(img.put(&path, b"no such thing\nas this\n")),
                    2 => drop(img.put(&path, &[0xff, 0xfe, 0x00, 0xff, b'\n'])),
                    _ => {
                        let half = img.get(&path).map(|d| d[..n / 2].to_vec()).unwrap_or_default();
                        img.put(&path, &half);
                    }
                }
            }
            img.put("/work/out/README", b"mine");
            if c.int("inside") == 1 {
                // an output directory that is also used for something else
                img.put("/work/out/dict/user.bin", b"mine");
                img.put("/work/out/dict/README", b"mine");
                img.put("/work/out/dict/more/notes.csv", b"mine");
            }
            let (f, r) = build_any(w, &img, p, s.kind, c.int("cli") == 1, "/work/src", "/work/out/dict");
            (f.word(), f.is_ok(), r, vec!["/work/out/dict", "/work/out"])
        }
        "compile" => {
            let u = c.user.first()?;
            img.put("/work/usrc/user.csv", u.csv().as_bytes());
            if c.s.contains_key("bad") {
                img.put("/work/usrc/user.csv", format!("{}語,名詞\n", u.csv()).as_bytes());
            }
            img.put("/work/uout/other.bin", b"mine");
            if c.int("inside") == 1 {
                img.put("/work/usrc/user.bin", b"mine");
                img.put("/work/uout/user.csv", b"mine");
            }
            let (f, r) = compile_any(w, &img, p, u.kind, c.int("cli") == 1, "/work/usrc/user.csv", "/work/uout");
            (f.word(), f.is_ok(), r, vec!["/work/uout/user.bin", "/work/uout"])
        }
        _ => {
            let s = c.sys.first()?;
            let g = w.golden_sys(s);
            if !g.fate.is_ok() {
                return None;
            }
            put_files(&mut img, "/dict", &g.files);
            let setup = c.setups.first()?.clone();
            if let Some(u) = c.user.first() {
                img.put("/user/user.csv", u.csv().as_bytes());
                img.put("/user/user.bin", w.golden_user(u).files.get("user.bin")?);
            }
            img.put("/conf.json", setup.config_json(s.kind).as_bytes());
            img.put("/text.txt", c.texts.join("\n").as_bytes());
            if c.int("cli") == 1 {
                let mut args: Vec<String> = ["tokenize", "-d", "/dict"].map(String::from).to_vec();
                if c.user.first().is_some() {
                    args.extend(["-u".into(), "/user/user.bin".into()]);
                }
                args.push("/text.txt".into());
                let (f, r) = w.cli(&img, p, &args);
                (f.word(), f.is_ok(), r, vec![])
            } else {
                let (k, texts) = (s.kind, c.texts.clone());
                let (f, r) = w.run(&img, p, || {
                    to_res(guarded(move || {
                        let a = setup.analyzer(k)?;
                        Ok(texts.iter().map(|t| analyze_one(&a, t)).filter(|t| t.is_ok()).count() as u32)
                    }))
                });
                (f.word(), f.is_ok(), r, vec![])
            }
        }
    };
    let ctx = format!("{} with {} ({f})", c.scen, plan_words(p));
    for m in &r.mutated {
        // directories on the way may be created, and the output files
        let output = c.scen == "build" && FILES.iter().any(|d| *m == format!("/work/out/dict/{d}"));
        let ok = output || allowed.iter().any(|a| m == a);
        // a temporary neighbour of the output is its own business, unless it stays after the end
        let near = match c.scen.as_str() {
            "build" => m.starts_with("/work/out/"),
            "compile" => m.starts_with("/work/uout/"),
            _ => false,
        };
        let cut_off = !done && (f.starts_with("Killed") || r.fired.keys().any(|k| k.starts_with("Unlink") || k.starts_with("Rename")));
        let temp = near && !img.names.contains_key(m) && (cut_off || !r.image.names.contains_key(m));
        if !ok && !temp {
            return viol("wrote-outside", format!("{ctx}: {m} was created, changed or removed"));
        }
    }
    for (path, before) in img.snapshot("/") {
        let inside = allowed.iter().any(|a| path == **a)
            || (c.scen == "build" && FILES.iter().any(|d| path == format!("/work/out/dict/{d}")));
        if let (false, Some(b)) = (inside, before) {
            if r.image.get(&path) != Some(&b[..]) {
                return viol("changed-file", format!("{ctx}: {path} is not what it was"));
            }
        }
    }
    None
}

pub fn some_setup(rng: &mut Rng, user: Option<(&str, Option<Kind>)>) -> Setup {
    Setup {
        dict: "/dict".into(),
        user: user.map(|(p, k)| (p.to_string(), k)),
        mode: TokMode::any(rng),
        filters: rng.below(FILTER_SETS as u64) as u32,
        config_file: None,
        failing: false,
        custom: None,
        way: 0,
    }
}

fn gen_c14(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let kind = *rng.pick(&KINDS);
    let size = gen_size(rng);
    let s = gen_sys(rng, kind, size, false);
    let u = gen_user(rng, kind, Size::Small, 2, false);
    let (gs, gu) = (w.golden_sys(&s), w.golden_user(&u));
    let fix = |log: &[Ev], from: &str, to: &str, from2: &str, to2: &str| -> Vec<Ev> {
        log.iter()
            .map(|e| {
                let mut e = e.clone();
                if let Some(r) = e.path.strip_prefix(from) {
                    e.path = format!("{to}{r}");
                } else if let Some(r) = e.path.strip_prefix(from2) {
                    e.path = format!("{to2}{r}");
                }
                e
            })
            .collect()
    };
    let blog = fix(&gs.log, "/src", "/work/src", "/out", "/work/out/dict");
    let ulog = fix(&gu.log, "/usrc", "/work/usrc", "/uout", "/work/uout");
    for k in 0..18 {
        let mut c = Case::new("C14", ["build", "compile", "analyse"][k % 3]).with("cli", (k % 4 == 0) as i64).with("inside", rng.chance(1, 2) as i64);
        let log: &[Ev] = match k % 3 {
            0 => {
                c.sys.push(s.clone());
                &blog
            }
            1 => {
                c.user.push(u.clone());
                &ulog
            }
            _ => {
                c.sys.push(s.clone());
                c.user.push(u.clone());
                let mut st = {
            let u = if rng.chance(1, 2) { ("/user/user.csv", Some(kind)) } else { ("/user/user.bin", None) };
            some_setup(rng, Some(u))
        };
                if rng.chance(1, 2) {
                    st.config_file = Some("/conf.json".into());
                }
                c.setups.push(st);
                for _ in 0..4 {
                    c.texts.push(gen_text(rng, &s, Some(&u), 8).replace('\n', ""));
                }
                &[]
            }
        };
        let bad = k % 3 < 2 && rng.chance(1, 3);
        if bad {
            let csv = s.files().keys().find(|n| n.ends_with(".csv")).cloned().unwrap_or_default();
            let name = *rng.pick(&["matrix.def", "char.def", "unk.def", &csv]);
            c.s.insert("bad".into(), name.to_string());
            c.n.insert("how".into(), rng.below(4) as i64);
        }
        let p = match rng.below(4) {
            _ if bad && rng.chance(2, 3) => base_plan(rng.next()),
            0 => base_plan(rng.next()),
            1 => gentle(rng, rng.0),
            2 if !log.is_empty() => {
                let mut p = base_plan(rng.next());
                if let Some(e) = pick_event(rng, log, &|e| e.call != Call::Seek) {
                    p.faults.push(kill_at(rng, e));
                }
                p
            }
            _ if !log.is_empty() => {
                let mut img = Image::new();
                s.put(&mut img, "/work/src");
                hostile(rng, log, rng.0, img.total(), written(log))
            }
            _ => {
                let mut p = base_plan(rng.next());
                let f = *rng.pick(&["/dict/dict.da", "/dict/dict.words", "/dict/matrix.mtx", "/dict/unk.bin", "/user/user.bin", "/user/user.csv", "/conf.json"]);
                let call = *rng.pick(&[Call::Open, Call::Read]);
                p.faults.push(Fault { call, path: f.into(), nth: 0, kind: FaultKind::Err(errno_for(rng, call, false)) });
                p
            }
        };
        let _ = group;
        v.push(c.plan(p));
    }
    v
}

// ---- C15: no file stays open ----

fn exec_c15(w: &mut World, c: &Case) -> Option<Viol> {
    let mut img = Image::new();
    let s = c.sys.first()?;
    let u = c.user.first()?;
    let g = w.golden_sys(s);
    let gu = w.golden_user(u);
    if !g.fate.is_ok() || !gu.fate.is_ok() {
        w.st.skipped += 1;
        return None;
    }
    s.put(&mut img, "/src");
    img.put("/usrc/user.csv", u.csv().as_bytes());
    put_files(&mut img, "/dict", &g.files);
    img.put("/user/user.bin", gu.files.get("user.bin")?);
    let setup = c.setups.first()?.clone();
    img.put("/conf.json", setup.config_json(s.kind).as_bytes());
    if !c.str("missing").is_empty() {
        img.remove(c.str("missing"));
    }
    let (kind, ukind) = (s.kind, u.kind);
    let times = c.int("times").max(1);
    let scen = c.scen.clone();
    let (f, r) = w.run(&img, &c.plans[0], || {
        to_res(guarded(move || {
            let mut last = vec![];
            for i in 0..times {
                let mut st = setup.clone();
                let one: Res<()> = match scen.as_str() {
                    "build" => to_res(caught(|| {
                        lindera_dictionary::DictionaryBuilderResolver::resolve_builder(kind.lindera())?
                            .build_dictionary("/src".as_ref(), "/out".as_ref())
                    })),
                    "compile" => to_res(caught(|| {
                        lindera_dictionary::DictionaryBuilderResolver::resolve_builder(ukind.lindera())?
                            .build_user_dictionary("/usrc/user.csv".as_ref(), "/uout/user.bin".as_ref())
                    })),
                    _ => {
                        st.user = Some(if i % 2 == 0 { ("/user/user.bin".into(), None) } else { ("/usrc/user.csv".into(), Some(ukind)) });
                        to_res(caught(|| st.analyzer(kind).map(|_| ())))
                    }
                };
                last.push(one.word());
            }
            Ok(last.join(" | "))
        }))
    });
    let ctx = format!("{} time(s) {} with {} ({})", times, c.scen, plan_words(&c.plans[0]), short_word(&f));
    match &f {
        Fate::Res(Res::Ok(_)) => {
            if !r.open_fds.is_empty() {
                return viol("left-open", format!("{ctx}: still open: {}", r.open_fds.join(", ")));
            }
            None
        }
        _ => None,
    }
}
fn short_word(f: &Fate<String>) -> String {
    match f {
        Fate::Res(Res::Ok(s)) => s.chars().take(200).collect(),
        o => o.word(),
    }
}

fn gen_c15(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let kind = *rng.pick(&KINDS);
    let size = if group % 6 == 0 { Size::Large } else { *rng.pick(&[Size::Tiny, Size::Small, Size::Medium]) };
    let s = gen_sys(rng, kind, size, false);
    let u = gen_user(rng, kind, Size::Small, 2, false);
    let (gs, gu) = (w.golden_sys(&s), w.golden_user(&u));
    if !gs.fate.is_ok() || !gu.fate.is_ok() {
        return v;
    }
    let mut img = Image::new();
    s.put(&mut img, "/src");
    for k in 0..21 {
        let scen = ["build", "compile", "load"][k % 3];
        let mut c = Case::new("C15", scen).with("times", *rng.pick(&[1, 1, 2, 3, 6]));
        c.sys.push(s.clone());
        c.user.push(u.clone());
        let mut st = some_setup(rng, None);
        if rng.chance(1, 3) {
            st.config_file = Some("/conf.json".into());
        }
        c.setups.push(st);
        let p = match rng.below(5) {
            0 => gentle(rng, rng.0),
            1 => {
                let m: &[&str] = match scen {
                    "build" => &["/src/char.def", "/src/unk.def", "/src/matrix.def"],
                    "compile" => &["/usrc/user.csv"],
                    _ => &["/dict/dict.da", "/dict/char_def.bin", "/dict/unk.bin", "/dict/dict.words", "/user/user.bin", "/usrc/user.csv"],
                };
                c = c.withs("missing", rng.pick(m));
                base_plan(rng.next())
            }
            _ => match scen {
                "build" => hostile(rng, &gs.log, rng.0, img.total(), written(&gs.log)),
                "compile" => hostile(rng, &gu.log, rng.0, img.total(), written(&gu.log)),
                _ => {
                    let mut p = base_plan(rng.next());
                    for _ in 0..rng.range(1, 3) {
                        let f = *rng.pick(&["/dict/dict.da", "/dict/dict.vals", "/dict/dict.words", "/dict/matrix.mtx", "/dict/unk.bin", "/user/user.bin", "/usrc/user.csv", "/conf.json"]);
                        let call = *rng.pick(&[Call::Open, Call::Read, Call::Read]);
                        p.faults.push(Fault { call, path: f.into(), nth: rng.below(2) as u32, kind: FaultKind::Err(errno_for(rng, call, false)) });
                    }
                    p
                }
            },
        };
        v.push(c.plan(p));
    }
    v
}

// ---- C16: truncated sources ----

fn exec_c16(w: &mut World, c: &Case) -> Option<Viol> {
    let p = &c.plans[0];
    let mut img = Image::new();
    if !c.user.is_empty() {
        let u = &c.user[0];
        let text = u.csv().into_bytes();
        let cut = (c.int("cut") as usize).min(text.len());
        img.put("/usrc/user.csv", &text[..cut]);
        let (f, r) = compile_any(w, &img, p, u.kind, c.int("cli") == 1, "/usrc/user.csv", "/uout");
        let ctx = format!("{} user dictionary whose source is cut after {cut} of {} bytes", u.kind.name(), text.len());
        if f.broke() {
            return viol("panic", format!("{ctx}: {} instead of an error", f.word()));
        }
        if f.is_ok() {
            let mut left = u.clone();
            left.rows.truncate(complete_rows(&text, cut));
            let (v, _) = w.run(&r.image, &base_plan(9), || verify_user(&left, "/uout/user.bin", Extent::AtLeast));
            return match v {
                Fate::Res(Res::Ok(d)) if d.is_empty() => None,
                Fate::Res(Res::Ok(d)) => viol("lost-rows", format!("{ctx}: success, but {}", d.join("; "))),
                o => viol("unloadable", format!("{ctx}: success, but loading the result gives {}", o.word())),
            };
        }
        return None;
    }
    let s = c.sys.first()?;
    s.put(&mut img, "/src");
    let name = c.str("file");
    let path = format!("/src/{name}");
    let data = img.get(&path)?.to_vec();
    let cut = (c.int("cut") as usize).min(data.len());
    let live = c.int("live") == 1; // cut by someone else while the build reads it
    if !live {
        img.put(&path, &data[..cut]);
    }
    let (f, r) = build_any(w, &img, p, s.kind, c.int("cli") == 1, "/src", "/out");
    let cut = if live { r.image.get(&path).map(|d| d.len()).unwrap_or(0) } else { cut };
    let ctx = format!("{} build, {name} cut after {cut} of {} bytes{}", s.kind.name(), data.len(), if live { " while it was read" } else { "" });
    if f.broke() {
        return viol("panic", format!("{ctx}: {} instead of an error", f.word()));
    }
    if !f.is_ok() {
        return None;
    }
    let mut left = s.clone();
    if name == "matrix.def" {
        let text = &data[..cut];
        let lines = text.iter().filter(|b| **b == b'\n').count();
        left.costs.truncate(lines.saturating_sub(1));
    } else if let Some(f) = left.files.iter_mut().find(|f| f.name == name) {
        // count rows by growing prefixes of the real text
        let full = s.files.iter().find(|f| f.name == name)?;
        let mut keep = 0;
        for n in 1..=full.rows.len() {
            let part = CsvFile { rows: full.rows[..n].to_vec(), last_newline: true, ..full.clone() };
            if encode(s, &s.csv_text(&part)).len() <= cut {
                keep = n;
            } else {
                break;
            }
        }
        f.rows.truncate(keep);
    }
    let (v, _) = w.run(&r.image, &base_plan(9), || verify_sys(&left, "/out", Extent::AtLeast));
    match v {
        Fate::Res(Res::Ok(d)) if d.is_empty() => {
            let mut rng = Rng::new(p.seed ^ 0x1616);
            let mut texts: Vec<String> = (0..4).map(|_| gen_text(&mut rng, s, None, 12)).collect();
            texts.push(s.ranges.iter().flat_map(|(a, b, _)| [*a, (*a + *b) / 2, *b]).filter_map(char::from_u32).collect());
            let setup = Setup { mode: if cut % 2 == 0 { TokMode::Normal } else { TokMode::Split }, ..super::conc::plain_setup("/out") };
            let (v, _) = w.run(&r.image, &base_plan(9), || {
                to_res(caught(|| {
                    let t = setup.tokenizer()?;
                    Ok(texts.iter().map(|x| (x.clone(), tokenize_one(&t, x))).find(|x| !x.1.is_ok()))
                }))
            });
            match v {
                Fate::Res(Res::Ok(None)) => None,
                Fate::Res(Res::Ok(Some((t, o)))) => {
                    viol("unusable", format!("{ctx}: success and the result loads, but analysing {t:?} gives {}", o.word()))
                }
                o => viol("unusable", format!("{ctx}: success and the result loads, but analysing with it gives {}", o.word())),
            }
        }
        Fate::Res(Res::Ok(d)) => viol("lost-rows", format!("{ctx}: success, but {}", d.join("; "))),
        o => viol("unloadable", format!("{ctx}: success, but loading the result gives {}", o.word())),
    }
}
fn encode(s: &SysSrc, t: &str) -> Vec<u8> {
    if s.kind == Kind::Ipadic {
        encoding_rs::EUC_JP.encode(t).0.into_owned()
    } else {
        t.as_bytes().to_vec()
    }
}
/// Rows of a CSV file that end, newline included, before the cut.
fn complete_rows(text: &[u8], cut: usize) -> usize {
    let (mut n, mut quoted) = (0, false);
    for b in &text[..cut] {
        match b {
            b'"' => quoted = !quoted,
            b'\n' if !quoted => n += 1,
            _ => {}
        }
    }
    n
}

fn gen_c16(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    if group % 3 == 2 {
        let u = group_user(rng, false);
        let g = w.golden_user(&u);
        if !g.fate.is_ok() {
            return v;
        }
        let n = u.csv().len() as u64;
        for k in 0..24 {
            let mut c = Case::new("C16", "user").with("cut", rng.below(n) as i64).with("cli", (k % 6 == 0) as i64);
            c.user.push(u.clone());
            let mut p = base_plan(rng.next());
            if k % 3 == 0 {
                p.max_read = *rng.pick(&[1, 7, 100]);
            }
            v.push(c.plan(p));
        }
        return v;
    }
    let s = group_sys(rng, false);
    let g = w.golden_sys(&s);
    if !g.fate.is_ok() {
        return v;
    }
    let files = s.files();
    for k in 0..26 {
        let mut names: Vec<&String> = files.keys().filter(|n| !s.extra.contains(n)).collect();
        if k % 2 == 0 {
            names.retain(|n| n.ends_with(".csv") || *n == "matrix.def");
        }
        let name = (*rng.pick(&names)).clone();
        let len = files[&name].len() as u64;
        // mostly anywhere; sometimes in the first or last bytes
        let cut = match rng.below(5) {
            0 => rng.below(len.min(20) + 1),
            1 => len.saturating_sub(rng.below(20)),
            _ => rng.below(len + 1),
        };
        let mut c = Case::new("C16", "system").withs("file", &name).with("cut", cut as i64).with("cli", (k % 8 == 0) as i64);
        c.sys.push(s.clone());
        let mut p = base_plan(rng.next());
        if k % 4 == 3 {
            let path = format!("/src/{name}");
            let ok = |e: &Ev| e.call == Call::Read && e.path == path;
            p.max_read = *rng.pick(&[0, 16, 100, 1000]);
            if let Some(e) = pick_event(rng, &g.log, &ok) {
                p.faults.push(Fault { call: Call::Read, path: path.clone(), nth: e.nth + if p.max_read > 0 { rng.below(12) as u32 } else { 0 }, kind: FaultKind::Vanish });
                c = c.with("live", 1);
            }
        }
        v.push(c.plan(p));
    }
    v
}

// ---- C17: partial and interrupted transfers change nothing ----

fn exec_c17(w: &mut World, c: &Case) -> Option<Viol> {
    let p = &c.plans[0];
    let ctx = format!("{} with {}", c.scen, plan_words(p));
    let mut img = Image::new();
    match c.scen.as_str() {
        "build" => {
            let s = c.sys.first()?;
            let g = w.golden_sys(s);
            if !g.fate.is_ok() {
                return None;
            }
            s.put(&mut img, "/src");
            let (f, r) = build_any(w, &img, p, s.kind, c.int("cli") == 1, "/src", "/out");
            if !f.is_ok() {
                return viol("fails", format!("{ctx}: {}", f.word()));
            }
            first_difference(&g.files, &out_files(&r.image, "/out")).and_then(|d| viol("differs", format!("{ctx}: {d}")))
        }
        "compile" => {
            let u = c.user.first()?;
            let g = w.golden_user(u);
            if !g.fate.is_ok() {
                return None;
            }
            img.put("/usrc/user.csv", u.csv().as_bytes());
            let (f, r) = compile_any(w, &img, p, u.kind, c.int("cli") == 1, "/usrc/user.csv", "/uout");
            if !f.is_ok() {
                return viol("fails", format!("{ctx}: {}", f.word()));
            }
            let got: BTreeMap<String, Vec<u8>> =
                r.image.get("/uout/user.bin").map(|d| [("user.bin".to_string(), d.to_vec())].into()).unwrap_or_default();
            first_difference(&g.files, &got).and_then(|d| viol("differs", format!("{ctx}: {d}")))
        }
        _ => {
            let s = c.sys.first()?;
            let u = c.user.first()?;
            let (g, gu) = (w.golden_sys(s), w.golden_user(u));
            if !g.fate.is_ok() || !gu.fate.is_ok() {
                return None;
            }
            put_files(&mut img, "/dict", &g.files);
            img.put("/user/user.bin", gu.files.get("user.bin")?);
            img.put("/user/user.csv", u.csv().as_bytes());
            let setup = c.setups.first()?.clone();
            img.put("/conf.json", setup.config_json(s.kind).as_bytes());
            let want = w.alone(&img, &setup, s.kind, &c.texts, false);
            let (kind, texts) = (s.kind, c.texts.clone());
            let (f, _) = w.run(&img, p, || {
                to_res(guarded(move || {
                    let a = setup.analyzer(kind)?;
                    Ok(texts.iter().map(|t| analyze_one(&a, t)).collect::<Vec<Toks>>())
                }))
            });
            match f {
                Fate::Res(Res::Ok(got)) => {
                    for (i, (a, b)) in want.iter().zip(&got).enumerate() {
                        if a != b {
                            return viol("differs", format!("{ctx}: analysis of {:?}: {}", c.texts[i], toks_diff(a, b)));
                        }
                    }
                    None
                }
                o => {
                    if want.iter().all(|t| matches!(t, Res::Err(e) if e.starts_with("setup"))) {
                        return None;
                    }
                    viol("fails", format!("{ctx}: {}", o.word()))
                }
            }
        }
    }
}

pub fn toks_diff(want: &Toks, got: &Toks) -> String {
    match (want, got) {
        (Res::Ok(a), Res::Ok(b)) => {
            let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            format!("token {i} is {:?} instead of {:?} ({} tokens, expected {})", b.get(i), a.get(i), b.len(), a.len())
        }
        (a, b) => format!("{} instead of {}", b.word(), a.word()),
    }
}

fn gen_c17(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let kind = *rng.pick(&KINDS);
    let size = if group % 5 == 0 { Size::Large } else { *rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]) };
    let s = gen_sys(rng, kind, size, false);
    let u = gen_user(rng, kind, Size::Small, 2, false);
    let _ = w;
    for k in 0..18 {
        let mut c = Case::new("C17", ["build", "compile", "analyse"][k % 3]).with("cli", (k % 9 < 2) as i64);
        c.sys.push(s.clone());
        c.user.push(u.clone());
        let mut st = {
            let u = if rng.chance(1, 2) { ("/user/user.csv", Some(kind)) } else { ("/user/user.bin", None) };
            some_setup(rng, Some(u))
        };
        if rng.chance(1, 2) {
            st.config_file = Some("/conf.json".into());
        }
        c.setups.push(st);
        for _ in 0..3 {
            c.texts.push(gen_text(rng, &s, Some(&u), 8));
        }
        let mut p = gentle(rng, rng.0);
        if p == base_plan(p.seed) {
            p.max_write = 3;
        }
        v.push(c.plan(p));
    }
    v
}

// ---- C18: with faults that never stop, everything still comes to an end ----

/// Something else stands where a build would put its files.
fn obstruct(img: &mut Image, what: &str, out: &str) {
    match what {
        "file" => img.put(out, b"a file"),
        "dirs" => {
            for f in ["char_def.bin", "unk.bin", "dict.da", "dict.vals", "dict.words", "dict.wordsidx", "matrix.mtx", "user.bin"] {
                img.mkdirs(&format!("{out}/{f}"));
            }
        }
        _ => {}
    }
}

fn exec_c18(w: &mut World, c: &Case) -> Option<Viol> {
    let mut p = c.plans[0].clone();
    let ctx = format!("{} with {}", c.scen, plan_words(&p));
    let mut img = Image::new();
    let s = c.sys.first()?;
    let u = c.user.first()?;
    let (g, gu) = (w.golden_sys(s), w.golden_user(u));
    if !g.fate.is_ok() || !gu.fate.is_ok() {
        w.st.skipped += 1;
        return None;
    }
    let steps = g.steps.max(gu.steps);
    p.max_steps = 40 * steps + 20_000_000;
    p.max_events = 40 * (g.events + gu.events) + 20_000;
    let f: Fate<()> = match c.scen.as_str() {
        "build" => {
            s.put(&mut img, "/src");
            obstruct(&mut img, c.str("obstacle"), "/out");
            build_any(w, &img, &p, s.kind, c.int("cli") == 1, "/src", "/out").0
        }
        "compile" => {
            img.put("/usrc/user.csv", u.csv().as_bytes());
            obstruct(&mut img, c.str("obstacle"), "/uout");
            compile_any(w, &img, &p, u.kind, c.int("cli") == 1, "/usrc/user.csv", "/uout").0
        }
        "cli" => {
            put_files(&mut img, "/dict", &g.files);
            let mut args: Vec<String> = ["tokenize", "-d", "/dict"].map(String::from).to_vec();
            if c.int("file") == 1 {
                img.put("/text.txt", c.texts.join("\n").as_bytes());
                args.push("/text.txt".into());
            }
            w.cli(&img, &p, &args).0
        }
        _ => {
            put_files(&mut img, "/dict", &g.files);
            img.put("/user/user.bin", gu.files.get("user.bin")?);
            img.put("/user/user.csv", u.csv().as_bytes());
            let setup = c.setups.first()?.clone();
            img.put("/conf.json", setup.config_json(s.kind).as_bytes());
            let kind = s.kind;
            let (f, _) = w.run(&img, &p, || to_res(guarded(move || setup.analyzer(kind).map(|_| ()))));
            f
        }
    };
    if f.stuck() || matches!(&f, Fate::Crashed(c) if c.starts_with("no end")) {
        return viol("no-end", format!("{ctx}: {} ({} steps allowed)", f.word(), p.max_steps));
    }
    None
}

/// Errors that one may try to wait out.
const LASTING: &[i32] = &[libc::EAGAIN, libc::EAGAIN, libc::EBUSY, libc::ENOENT, libc::EEXIST, libc::ETIMEDOUT, libc::ENOMEM, libc::EMFILE, libc::ENOSPC, libc::ETXTBSY, libc::EDEADLK, libc::EINPROGRESS];

fn gen_c18(w: &mut World, rng: &mut Rng, group: u64) -> Vec<Case> {
    let mut v = vec![];
    let kind = *rng.pick(&KINDS);
    let size = if group % 6 == 0 { Size::Large } else { *rng.pick(&[Size::Tiny, Size::Small, Size::Medium]) };
    let s = gen_sys(rng, kind, size, false);
    let u = gen_user(rng, kind, Size::Small, 2, false);
    let _ = w;
    let g = w.golden_sys(&s);
    let gu = w.golden_user(&u);
    for k in 0..24 {
        let scen = ["build", "compile", "load", "cli"][k % 4];
        let mut c = Case::new("C18", scen).with("cli", (k % 5 == 0) as i64).with("file", (k % 8 == 3) as i64);
        c.sys.push(s.clone());
        c.user.push(u.clone());
        let mut st = {
            let u = if rng.chance(1, 2) { ("/user/user.csv", Some(kind)) } else { ("/user/user.bin", None) };
            some_setup(rng, Some(u))
        };
        st.filters = 0;
        if rng.chance(1, 2) {
            st.config_file = Some("/conf.json".into());
        }
        c.setups.push(st);
        for _ in 0..4 {
            c.texts.push(gen_text(rng, &s, Some(&u), 8).replace('\n', ""));
        }
        let mut p = base_plan(rng.next());
        let (call, path, from, wr): (Call, String, u64, bool) = match scen {
            "build" | "compile" => match pick_event(rng, if scen == "build" { &g.log } else { &gu.log }, &faultable) {
                Some(e) => (e.call, e.path.clone(), e.n, e.req & (libc::O_CREAT as u64) != 0),
                None => continue,
            },
            "load" => (
                *rng.pick(&[Call::Open, Call::Read, Call::Read]),
                (*rng.pick(&["/dict/", "/user/", "/dict/matrix", "/conf.json", "/"])).to_string(),
                rng.below(30),
                false,
            ),
            _ => {
                // output that fails for good, input that fails for good
                let text: Vec<u8> = c.texts.join("\n").into_bytes();
                p.stdin = chunks(rng, &text);
                match rng.below(3) {
                    0 => {
                        p.out_limit = Some((rng.below(400), *rng.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN])));
                        (Call::Readdir, "/nothing".to_string(), 0, false)
                    }
                    1 => (Call::Stdin, "<stdin>".to_string(), rng.below(40), false),
                    _ => (*rng.pick(&[Call::Read, Call::Stdout]), "".to_string(), rng.below(40), false),
                }
            }
        };
        p.sticky.push(Sticky {
            call,
            path: if rng.chance(1, 3) && scen != "cli" { "/".into() } else { path },
            from,
            errno: if rng.chance(1, 4) { *rng.pick(LASTING) } else { errno_for(rng, call, wr) },
        });
        if rng.chance(1, 3) {
            p.max_write = *rng.pick(&[16, 100, 1000]);
            p.max_read = *rng.pick(&[16, 100, 1000]);
        }
        if k % 6 == 1 {
            c.s.insert("obstacle".into(), rng.pick(&["file", "dirs"]).to_string());
        }
        v.push(c.plan(p));
    }
    v
}

/// Bytes as they may arrive: cut anywhere.
pub fn chunks(rng: &mut Rng, text: &[u8]) -> Vec<crate::os::StdinItem> {
    let mut v = vec![];
    let style = rng.below(5);
    let mut at = 0;
    while at < text.len() {
        let n = match style {
            0 => text.len(),
            1 => 1,
            2 => 1 + rng.below(4) as usize,
            3 => match text[at..].iter().position(|b| *b == b'\n') {
                Some(i) => i + 1,
                None => text.len() - at,
            },
            _ => 1 + rng.below(60) as usize,
        };
        // large inputs arrive in larger pieces after a while
        let n = if v.len() > 2000 { n.max(1 + rng.below(9000) as usize) } else { n }.min(text.len() - at);
        v.push(crate::os::StdinItem::Data(text[at..at + n].to_vec()));
        at += n;
    }
    v
}
