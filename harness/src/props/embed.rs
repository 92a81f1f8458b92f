//! Dictionaries that are part of the program: the build scripts that download, unpack and
//! compile them, and their use.
use super::build::{plan_words, some_setup, toks_diff};
use super::*;
use crate::model::*;
use crate::os::vfs::Image;
use lindera_analyzer::analyzer::Analyzer;
use std::io::Write;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        groups: 200,
        gen: gen_c22,
        exec: exec_c22,
        rule: "a case is a history of one to four runs of an embedding build script with network and disk faults, kills or power losses, or one to four threads that are the first to use embedded dictionaries; it counts when a fault fired, a transfer was cut short or threads were switched",
    }]
}

/// Name of the archive's directory, of the output directory, and where it is downloaded.
fn names(kind: Kind) -> (&'static str, &'static str, &'static str) {
    match kind {
        Kind::Ipadic => ("mecab-ipadic-2.7.0-20070801", "lindera-ipadic", "mecab-ipadic/archive/refs/tags/2.7.0-20070801.tar.gz"),
        Kind::Neologd => ("mecab-ipadic-neologd-0.0.7-20200820", "lindera-ipadic-neologd", "mecab-ipadic-neologd/archive/refs/tags/0.0.7-20200820.tar.gz"),
        Kind::Unidic => ("unidic-mecab-2.1.2", "lindera-unidic", "unidic-mecab/archive/refs/tags/2.1.2.tar.gz"),
        Kind::KoDic => ("mecab-ko-dic-2.1.1-20180720", "lindera-ko-dic", "mecab-ko-dic/archive/refs/tags/2.1.1-20180720.tar.gz"),
        Kind::CcCedict => ("CC-CEDICT-MeCab-0.1.0-20200409", "lindera-cc-cedict", "CC-CEDICT-MeCab/archive/refs/tags/0.1.0-20200409.tar.gz"),
    }
}
/// As in stubs/ureq.
fn net_file(kind: Kind) -> String {
    format!("https://github.com/lindera-morphology/{}", names(kind).2)
        .chars()
        .map(|c| if c.is_ascii_alphanumeric() || c == '.' || c == '-' { c } else { '_' })
        .collect()
}

pub fn archive(src: &SysSrc) -> Vec<u8> {
    let top = names(src.kind).0;
    let mut t = tar::Builder::new(flate2::write::GzEncoder::new(vec![], flate2::Compression::fast()));
    let mut head = |name: String, data: &[u8], dir: bool| {
        let mut h = tar::Header::new_gnu();
        h.set_size(data.len() as u64);
        h.set_mode(if dir { 0o755 } else { 0o644 });
        h.set_mtime(1_600_000_000);
        h.set_entry_type(if dir { tar::EntryType::Directory } else { tar::EntryType::Regular });
        t.append_data(&mut h, name, data).unwrap();
    };
    head(format!("{top}/"), &[], true);
    for (n, d) in src.files() {
        head(format!("{top}/{n}"), &d, false);
    }
    let mut z = t.into_inner().unwrap();
    z.flush().unwrap();
    z.finish().unwrap()
}

/// What is embedded in this program (tools/build-embed.sh).
pub fn embedded_source(kind: Kind) -> SysSrc {
    let mut rng = Rng::new(0xe3b0 + kind as u64);
    let mut s = gen_sys(&mut rng, kind, Size::Medium, false);
    match kind {
        Kind::Unidic => large_matrix(&mut rng, &mut s, 3000),
        Kind::KoDic => large_matrix(&mut rng, &mut s, 0),
        _ => {}
    }
    s
}

/// More connection costs than any buffer holds, up to `most`: much or little to compress.
fn large_matrix(rng: &mut Rng, s: &mut SysSrc, most: i64) {
    s.fwd = s.fwd.max(rng.range(60, 300) as u32);
    s.bwd = s.bwd.max(rng.range(60, 300) as u32);
    s.costs = (0..s.fwd)
        .flat_map(|f| (0..s.bwd).map(move |b| (f, b)))
        .map(|(f, b)| (f, b, if most == 0 { 0 } else { rng.range(-most, most) as i16 }))
        .collect();
}

/// `lsim archives <dir>`
pub fn archives(dir: &str) -> i32 {
    let _ = std::fs::remove_dir_all(dir);
    if let Err(e) = std::fs::create_dir_all(dir) {
        eprintln!("{dir}: {e}");
        return 2;
    }
    for k in KINDS {
        if let Err(e) = std::fs::write(format!("{dir}/{}", net_file(k)), archive(&embedded_source(k))) {
            eprintln!("{dir}: {e}");
            return 2;
        }
    }
    0
}

#[cfg(not(feature = "compress"))]
fn plain(d: &[u8]) -> Option<Vec<u8>> {
    Some(d.to_vec())
}
#[cfg(feature = "compress")]
fn plain(d: &[u8]) -> Option<Vec<u8>> {
    lindera_decompress::decompress(bincode::deserialize_from(d).ok()?).ok()
}
pub const COMPRESSED: bool = cfg!(feature = "compress");

/// The compiled files as a directory from which a dictionary can be loaded.
fn loadable(files: &BTreeMap<String, Vec<u8>>) -> Option<BTreeMap<String, Vec<u8>>> {
    files.iter().map(|(n, d)| plain(d).map(|d| (n.clone(), d))).collect()
}

fn exec_c22(w: &mut World, c: &Case) -> Option<Viol> {
    match c.scen.as_str() {
        "script" => exec_script(w, c),
        "threads" => exec_threads(w, c),
        _ => exec_program(w, c),
    }
}

// ---- the build scripts ----

fn run_script(w: &mut World, kind: Kind, img: &Image, plan: &Plan) -> (Fate<()>, Report) {
    let exe = format!("lindera_embed_{}_sim", kind.name().replace('-', "_"));
    w.program(&exe, &["OUT_DIR=/out"], img, plan, &[])
}
fn out_dir(kind: Kind) -> String {
    format!("/out/{}", names(kind).1)
}

fn script_disk(src: &SysSrc) -> Image {
    let mut img = Image::new();
    img.put(&format!("/net/{}", net_file(src.kind)), &archive(src));
    img.mkdirs("/out");
    img
}

fn exec_script(w: &mut World, c: &Case) -> Option<Viol> {
    let src = c.sys.first()?;
    let kind = src.kind;
    let want = w.golden_sys(src);
    if !want.fate.is_ok() {
        w.st.skipped += 1;
        return None;
    }
    let ctx = format!("{}{}", kind.name(), if COMPRESSED { ", compressed" } else { "" });
    // the compiled files mean what the source says
    let mut img = Image::new();
    put_files(&mut img, "/plain", &loadable(&want.files)?);
    let (f, _) = w.run(&img, &base_plan(9), || verify_sys(src, "/plain", Extent::Exact));
    match f {
        Fate::Res(Res::Ok(d)) if d.is_empty() => {}
        // without compression that is C01
        _ if !COMPRESSED => {
            w.st.skipped += 1;
            return None;
        }
        Fate::Res(Res::Ok(d)) => return viol("unfaithful", format!("{ctx}: {}", d.join("; "))),
        o => return viol("unfaithful", format!("{ctx}: loading what was compiled gives {}", o.word())),
    }
    let mut img = script_disk(src);
    let net = img.snapshot("/net");
    let mut story = vec![];
    let last = c.plans.len();
    for i in 0..=last {
        let clean = base_plan(78);
        let p = c.plans.get(i).unwrap_or(&clean);
        let (f, r) = run_script(w, kind, &img, p);
        story.push(format!("run {} with {} ended: {}", i + 1, plan_words(p), f.word()));
        if f.stuck() {
            return viol("no-end", format!("{ctx}: {}", story.join("; ")));
        }
        if f.is_ok() {
            let got = out_files(&r.image, &out_dir(kind));
            if let Some(d) = super::build::first_difference(&want.files, &got) {
                return viol("embeds-wrong", format!("{ctx}: {}; but {d}", story.join("; ")));
            }
        } else if i == last {
            return viol("never-builds", format!("{ctx}: {}", story.join("; ")));
        }
        img = r.image;
        if c.int("power") == 1 && i < last {
            img.power_loss(&mut Rng::new(p.seed ^ 0x9999));
            img.mkdirs("/out");
        }
        // the server is where it was
        for (k, d) in &net {
            if let Some(d) = d {
                img.put(k, d);
            }
        }
    }
    None
}

fn gen_script(w: &mut World, rng: &mut Rng) -> Vec<Case> {
    let mut v = vec![];
    let kind = *rng.pick(&KINDS);
    let size = *rng.pick(&[Size::Tiny, Size::Small, Size::Medium, Size::Large]);
    let mut src = gen_sys(rng, kind, size, false);
    if rng.chance(1, 3) {
        let most = *rng.pick(&[0, 0, 1, 30_000]);
        large_matrix(rng, &mut src, most);
    }
    let img = script_disk(&src);
    let (f, dry) = run_script(w, kind, &img, &logged(base_plan(1)));
    let bytes = archive(&src).len() as u64;
    for k in 0..12 {
        let mut c = Case::new("C22", "script").with("compress", COMPRESSED as i64);
        c.sys.push(src.clone());
        if f.is_ok() {
            c = c.with("power", (k % 4 == 3) as i64);
            for _ in 0..rng.range(1, 3) {
                let mut p = base_plan(rng.next());
                match rng.below(8) {
                    0..=2 => {
                        if let Some(e) = pick_event(rng, &dry.log, &|e| !matches!(e.call, Call::Seek)) {
                            p.faults.push(kill_at(rng, e));
                        }
                    }
                    3 => {
                        // the network: refused, reset, interrupted, in pieces
                        if let Some(e) = pick_event(rng, &dry.log, &|e| e.path.starts_with("/net") && matches!(e.call, Call::Open | Call::Read)) {
                            let errno = *rng.pick(&[libc::ECONNRESET, libc::ETIMEDOUT, libc::ECONNREFUSED, libc::EIO]);
                            p.faults.push(fault_at(e, FaultKind::Err(errno)));
                        }
                        p.max_read = *rng.pick(&[0, 100, 1000]);
                    }
                    4 => p = gentle(rng, rng.0),
                    5 => p = hostile(rng, &dry.log, rng.0, bytes, 4 * bytes),
                    6 => {
                        // the server sends less than it said
                        if let Some(e) = pick_event(rng, &dry.log, &|e| e.path.starts_with("/net") && e.call == Call::Read) {
                            p.faults.push(fault_at(e, FaultKind::Vanish));
                        }
                    }
                    _ => {
                        if let Some(e) = pick_event(rng, &dry.log, &faultable) {
                            let write = e.call == Call::Open && e.req & (libc::O_CREAT as u64) != 0;
                            p.sticky.push(Sticky { call: e.call, path: "/".into(), from: e.n, errno: errno_for(rng, e.call, write) });
                        }
                    }
                }
                c.plans.push(p);
            }
        }
        v.push(c);
        if !f.is_ok() {
            break;
        }
    }
    v
}

// ---- the use ----

/// Source, user dictionary, and the disk with what the embedded ones are compared with.
fn use_disk(w: &mut World, c: &Case) -> Option<Image> {
    let mut img = Image::new();
    for k in KINDS {
        if c.setups.iter().any(|s| s.dict == format!("kind:{}", k.name())) {
            let g = w.golden_sys(&embedded_source(k));
            if !g.fate.is_ok() {
                w.st.skipped += 1;
                return None;
            }
            put_files(&mut img, &format!("/dict-{}", k.name()), &loadable(&g.files)?);
        }
    }
    for u in &c.user {
        let g = w.golden_user(u);
        if !g.fate.is_ok() {
            w.st.skipped += 1;
            return None;
        }
        img.put(&format!("/user-{}/user.bin", u.kind.name()), g.files.get("user.bin")?);
        img.put(&format!("/user-{}/user.csv", u.kind.name()), u.csv().as_bytes());
    }
    for (i, st) in c.setups.iter().enumerate() {
        let mut st = st.clone();
        st.config_file = None;
        img.put(&format!("/conf{i}.json"), st.config_json(kind_of(&st)).as_bytes());
    }
    Some(img)
}
fn kind_of(s: &Setup) -> Kind {
    KINDS.into_iter().find(|k| s.dict == format!("kind:{}", k.name())).unwrap_or(Kind::Ipadic)
}
/// The same setup with the dictionary in a directory.
fn by_path(s: &Setup) -> Setup {
    let mut s = s.clone();
    s.dict = format!("/dict-{}", kind_of(&s).name());
    s.config_file = None;
    s.way = 0;
    if let Some(u) = &mut s.user {
        *u = (format!("/user-{}/user.bin", kind_of_user(&u.0).name()), None);
    }
    s
}
fn kind_of_user(p: &str) -> Kind {
    KINDS.into_iter().find(|k| p.starts_with(&format!("/user-{}/", k.name()))).unwrap_or(Kind::Ipadic)
}

fn using(setups: &[Setup], texts: &[String], ops: &[Vec<(u8, u32, u32)>]) -> Res<Vec<Vec<Toks>>> {
    let hs: Vec<_> = ops
        .iter()
        .map(|o| {
            let (o, setups, texts) = (o.clone(), setups.to_vec(), texts.to_vec());
            std::thread::spawn(move || {
                let mut kept: BTreeMap<u32, Analyzer> = BTreeMap::new();
                o.iter()
                    .map(|(op, s, t)| {
                        let s = s % setups.len() as u32;
                        let st = &setups[s as usize];
                        let text = &texts[*t as usize % texts.len()];
                        if *op == 0 || !kept.contains_key(&s) {
                            match to_res(caught(|| st.analyzer(kind_of(st)))) {
                                Res::Ok(a) => drop(kept.insert(s, a)),
                                Res::Err(e) => return Res::Err(format!("setup: {e}")),
                                Res::Panic(e) => return Res::Panic(format!("in the load: {e}")),
                            }
                        }
                        analyze_one(&kept[&s], text)
                    })
                    .collect::<Vec<Toks>>()
            })
        })
        .collect();
    let mut v = vec![];
    for h in hs {
        match h.join() {
            Ok(r) => v.push(r),
            Err(_) => return Res::Panic("thread died".into()),
        }
    }
    Res::Ok(v)
}

fn exec_threads(w: &mut World, c: &Case) -> Option<Viol> {
    let img = use_disk(w, c)?;
    let (f, _) = w.run(&img, &c.plans[0], || using(&c.setups, &c.texts, &c.ops));
    let ctx = format!("{}{} threads use embedded dictionaries, {}", if COMPRESSED { "compressed, " } else { "" }, c.ops.len(), plan_words(&c.plans[0]));
    let got = match f {
        Fate::Res(Res::Ok(v)) => v,
        o => return viol("breaks", format!("{ctx}: {}", o.word())),
    };
    let bare = |t: &Toks| match t {
        Res::Err(_) => Res::Err(String::new()),
        Res::Panic(_) => Res::Panic(String::new()),
        o => o.clone(),
    };
    for (t, (o, g)) in c.ops.iter().zip(&got).enumerate() {
        for (n, ((_, s, x), got)) in o.iter().zip(g).enumerate() {
            let st = &c.setups[*s as usize % c.setups.len()];
            let text = &c.texts[*x as usize % c.texts.len()];
            let want = w.alone(&img, &by_path(st), kind_of(st), std::slice::from_ref(text), false)[0].clone();
            if bare(&want) != bare(got) {
                return viol(
                    "answer-differs",
                    format!("{ctx}: thread {t}, operation {n}: {text:?} with the embedded {} dictionary: {}", kind_of(st).name(), toks_diff(&want, got)),
                );
            }
        }
    }
    None
}

fn exec_program(w: &mut World, c: &Case) -> Option<Viol> {
    let mut img = use_disk(w, c)?;
    let st = c.setups.first()?;
    let kind = kind_of(st);
    let text: String = c.texts.iter().map(|t| format!("{t}\n")).collect();
    img.put("/in.txt", text.as_bytes());
    let mode = if st.mode == TokMode::Normal { "normal" } else { "decompose" };
    let form = ["mecab", "wakati", "json"][c.int("format") as usize % 3];
    let args = |dict: [&str; 2], user: Option<String>| {
        let mut a: Vec<String> = ["tokenize", dict[0], dict[1], "-m", mode, "-o", form].map(String::from).to_vec();
        if let Some(u) = user {
            a.extend(["-u".to_string(), u]);
        }
        a.push("/in.txt".into());
        a
    };
    let dir = format!("/dict-{}", kind.name());
    let user = |ext: &str| st.user.as_ref().map(|u| format!("/user-{}/user.{ext}", kind_of_user(&u.0).name()));
    let (f0, r0) = w.cli(&img, &base_plan(6), &args(["-d", &dir], user("bin")));
    let csv = st.user.as_ref().map(|u| u.0.ends_with("csv")).unwrap_or(false);
    let (f, r) = w.cli(&img, &c.plans[0], &args(["-t", kind.name()], user(if csv { "csv" } else { "bin" })));
    let ctx = format!("{}lindera tokenize -t {}, {}", if COMPRESSED { "compressed, " } else { "" }, kind.name(), plan_words(&c.plans[0]));
    if f.is_ok() != f0.is_ok() || f.broke() != f0.broke() {
        return viol("program-differs", format!("{ctx}: {}, and from a directory {}", f.word(), f0.word()));
    }
    if r.out != r0.out {
        let at = r.out.iter().zip(&r0.out).position(|(a, b)| a != b).unwrap_or(r.out.len().min(r0.out.len()));
        return viol("program-differs", format!("{ctx}: the output differs from that with a directory from byte {at} on"));
    }
    None
}

fn gen_use(w: &mut World, rng: &mut Rng) -> Vec<Case> {
    let mut v = vec![];
    let mut base = Case::new("C22", "threads").with("compress", COMPRESSED as i64);
    let mut kinds: Vec<Kind> = vec![];
    for _ in 0..rng.range(1, 3) {
        kinds.push(*rng.pick(&KINDS));
    }
    for k in &kinds {
        let src = embedded_source(*k);
        let u = gen_user(rng, *k, Size::Tiny, 2, false);
        let mut st = some_setup(rng, None);
        st.dict = format!("kind:{}", k.name());
        if rng.chance(1, 3) {
            let ext = *rng.pick(&["csv", "bin"]);
            st.user = Some((format!("/user-{}/user.{ext}", k.name()), if ext == "csv" { Some(*k) } else { None }));
        }
        if rng.chance(1, 3) {
            st.config_file = Some(format!("/conf{}.json", base.setups.len()));
        }
        if rng.chance(1, 3) {
            st.filters = 0;
        }
        for _ in 0..rng.range(1, 3) {
            base.texts.push(gen_text(rng, &src, Some(&u), 8));
        }
        base.setups.push(st);
        if !base.user.iter().any(|x| x.kind == *k) {
            base.user.push(u);
        }
    }
    for _ in 0..3 {
        let mut c = base.clone().with("format", rng.below(3) as i64);
        c.scen = "program".into();
        let p = if rng.chance(1, 2) { gentle(rng, rng.0) } else { base_plan(rng.next()) };
        c.setups[0].filters = 0;
        v.push(c.plan(p));
    }
    for _ in 0..rng.range(1, 4) {
        let mut o = vec![];
        for _ in 0..rng.range(1, 3) {
            o.push((rng.below(2) as u8, rng.below(8) as u32, rng.below(32) as u32));
        }
        base.ops.push(o);
    }
    let Some(img) = use_disk(w, &base) else { return v };
    let (_, dry) = w.run(&img, &logged(base_plan(1)), || using(&base.setups, &base.texts, &base.ops));
    for _ in 0..16 {
        let mut p = base_plan(rng.next());
        if base.ops.len() > 1 && !dry.edges.is_empty() {
            preempting(rng, &mut p, &dry);
        } else if rng.chance(1, 2) {
            gentle_into(rng, &mut p);
        }
        v.push(base.clone().plan(p));
    }
    v
}

fn gen_c22(w: &mut World, rng: &mut Rng, _group: u64) -> Vec<Case> {
    if rng.chance(1, 2) {
        gen_script(w, rng)
    } else {
        gen_use(w, rng)
    }
}
