//! The command line program as a filter between two streams.
use super::build::{chunks, plan_words};
use super::load::compiled;
use super::*;
use crate::model::*;
use crate::os::vfs::Image;
use crate::os::StdinItem;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            groups: 120,
            gen: gen_c07,
            exec: exec_c07,
            rule: "a case is one run of the program whose whole output was compared with the line by line reference",
        },
        Prop {
            id: "C08",
            groups: 120,
            gen: gen_c08,
            exec: exec_c08,
            rule: "a case counts when standard output really failed during the run",
        },
        Prop {
            id: "C09",
            groups: 250,
            gen: gen_c09,
            exec: exec_c09,
            rule: "a case is one interactive run; every point where the program asked for input that had not arrived is checked",
        },
        Prop {
            id: "C19",
            groups: 220,
            gen: gen_c19,
            exec: exec_c19,
            rule: "a case counts when the input really failed, or held a line that is no text, during the run",
        },
    ]
}

/// What the program prints for one analysed line.
pub fn render(toks: &[Tok], format: &str) -> String {
    let mut s = String::new();
    match format {
        "wakati" => {
            if !toks.is_empty() {
                let v: Vec<&str> = toks.iter().map(|t| t.text.as_str()).collect();
                s.push_str(&v.join(" "));
                s.push('\n');
            }
        }
        "json" => {
            let v: Vec<serde_json::Value> = toks
                .iter()
                .map(|t| {
                    serde_json::json!({
                        "text": t.text,
                        "details": t.details,
                        "byte_start": t.start,
                        "byte_end": t.end,
                        "word_id": [t.word, t.system],
                    })
                })
                .collect();
            s.push_str(&serde_json::to_string_pretty(&v).unwrap());
            s.push('\n');
        }
        _ => {
            for t in toks {
                s.push_str(&t.text);
                s.push('\t');
                s.push_str(&t.details.join(","));
                s.push('\n');
            }
            s.push_str("EOS\n");
        }
    }
    s
}
pub fn render_all(v: &[Toks], format: &str) -> String {
    v.iter().map(|t| if let Res::Ok(t) = t { render(t, format) } else { String::new() }).collect()
}

pub struct Session {
    pub img: Image,
    pub args: Vec<String>,
    /// Input, and for every line of it: where it ends, and the output up to its answer.
    pub input: Vec<u8>,
    pub ends: Vec<(usize, usize)>,
    pub out: Vec<u8>,
}

/// The lines of `text`, each with its line break.
fn lines_of(text: &str) -> Vec<&str> {
    text.split_inclusive('\n').collect()
}

/// The command line of a case's configuration.
pub fn arguments(c: &Case) -> Option<Vec<String>> {
    let setup = c.setups.first()?;
    let (kind, format) = (c.sys.first()?.kind, c.str("format"));
    let mut args: Vec<String> = ["tokenize", "-d", "/dict", "-o", format].map(String::from).to_vec();
    if setup.mode == TokMode::Decompose {
        args.extend(["-m".into(), "decompose".into()]);
    }
    if let Some((p, _)) = &setup.user {
        args.extend(["-u".into(), p.clone()]);
    }
    let (cf, tf) = filters_of(setup, kind);
    for f in cf {
        args.extend(["-C".into(), format!("{}:{}", f["kind"].as_str()?, f["args"])]);
    }
    for f in tf {
        args.extend(["-T".into(), format!("{}:{}", f["kind"].as_str()?, f["args"])]);
    }
    Some(args)
}

/// Everything about a run that does not depend on the plan. The reference for a line
/// is a process of its own that analyses only this line.
pub fn session(w: &mut World, c: &Case) -> Option<Session> {
    let mut img = compiled(w, c)?;
    let setup = c.setups.first()?.clone();
    let kind = c.sys.first()?.kind;
    let text = c.texts.concat();
    let lines: Vec<String> = lines_of(&text).iter().map(|l| l.trim().to_string()).collect();
    let mut args = arguments(c)?;
    let toks = w.alone(&img, &setup, kind, &lines, false);
    let format = c.str("format");
    let mut out = String::new();
    let mut ends = vec![];
    let mut at = 0;
    for (l, t) in lines_of(&text).iter().zip(toks.iter()) {
        at += l.len();
        match t {
            Res::Ok(t) => out.push_str(&render(t, format)),
            Res::Err(_) => {
                w.st.skipped += 1;
                return None;
            }
            Res::Panic(_) => {
                w.st.skipped += 1;
                return None;
            }
        }
        ends.push((at, out.len()));
    }
    if c.int("file") == 1 {
        img.put("/text.txt", text.as_bytes());
        args.push("/text.txt".into());
    }
    Some(Session { img, args, input: text.into_bytes(), ends, out: out.into_bytes() })
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |v: &[u8]| String::from_utf8_lossy(&v[at.saturating_sub(10).min(v.len())..(at + 40).min(v.len())]).into_owned();
    format!("{} bytes instead of {}, from byte {at}: {:?} instead of {:?}", b.len(), a.len(), cut(b), cut(a))
}

/// One text per line, with the line breaks real files have.
fn gen_lines(rng: &mut Rng, s: &SysSrc, u: &UserSrc) -> Vec<String> {
    let n = match rng.below(6) {
        0 => rng.range(20, 60),
        1 => 1,
        _ => rng.range(2, 9),
    };
    let mut v: Vec<String> = vec![];
    match rng.below(24) {
        // many lines
        0 => {
            let few: Vec<String> = (0..12).map(|_| gen_text(rng, s, Some(u), 2).replace('\n', "") + "\n").collect();
            let n = *rng.pick(&[130, 260, 700, 1100]);
            return (0..n).map(|_| rng.pick(&few).clone()).collect();
        }
        // a line beyond usual limits
        1 => {
            let part: String = (0..20).map(|_| gen_text(rng, s, Some(u), 6).replace('\n', "")).collect::<String>() + "a";
            let n = *rng.pick(&[17_000, 66_000, 66_000, 140_000]);
            v.push(part.repeat(1 + n / part.len()) + "\n");
        }
        _ => {}
    }
    for i in 0..n {
        let mut t = match rng.below(14) {
            0 => String::new(),
            // lines that other programs take for commands or ends
            13 => (*rng.pick(&["\u{4}", "\u{1a}", "EOS", ".", "q", "quit", "exit", "#a", "//a", "-", "--", "\\n", "\\", "{}", "%s", "\u{1b}[0m", "\0", "BOS", "*", "null"])).to_string(),
            1 => "  \t".to_string(),
            2 => format!("  {} ", gen_text(rng, s, Some(u), 3).replace('\n', "")),
            // characters that some see as white space, ends of lines, or nothing
            12 => {
                let odd = ["\u{3000}", "\u{feff}", "\0", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "\r", "\r\r", "\u{a0}", "\u{200b}"];
                let t = gen_text(rng, s, Some(u), 2).replace('\n', "");
                let u = gen_text(rng, s, Some(u), 2).replace('\n', "");
                format!("{}{t}{}{u}{}", rng.pick(&odd), rng.pick(&odd), rng.pick(&odd))
            }
            3 if i % 7 == 3 => {
                // longer than the program's buffer
                let mut t = String::new();
                while t.len() < 9000 {
                    t.push_str(&gen_text(rng, s, Some(u), 8).replace('\n', ""));
                }
                t
            }
            // one character, the last line again, or one from before
            11 if rng.chance(1, 2) => (*rng.pick(&["a", " ", "1", "。", "\"", "東", "あ", "x"])).to_string(),
            10 | 11 if i > 0 => {
                let again = if rng.chance(2, 3) { v.last().unwrap() } else { rng.pick(&v) };
                again.trim_end_matches(['\r', '\n']).to_string()
            }
            _ => gen_text(rng, s, Some(u), 6).replace('\n', ""),
        };
        t.push_str(if rng.chance(1, 8) { "\r\n" } else { "\n" });
        v.push(t);
    }
    if rng.chance(1, 3) {
        let l = v.last_mut().unwrap();
        *l = l.trim_end_matches(['\r', '\n']).to_string();
        if l.is_empty() {
            v.pop();
        }
    }
    v
}

pub fn gen_base(rng: &mut Rng, prop: &str) -> Case {
    let kind = *rng.pick(&KINDS);
    let size = *rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium, Size::Large]);
    let s = gen_sys(rng, kind, size, false);
    let u = gen_user(rng, kind, Size::Small, 2, false);
    let mut c = Case::new(prop, "stream").withs("format", rng.pick(&["mecab", "mecab", "wakati", "json"]));
    c.texts = gen_lines(rng, &s, &u);
    let filters = if rng.chance(1, 2) { 0 } else { rng.below(FILTER_SETS as u64) as u32 };
    c.setups.push(Setup {
        dict: "/dict".into(),
        user: if rng.chance(1, 2) { Some(("/user/user.bin".into(), None)) } else { None },
        mode: *rng.pick(&[TokMode::Normal, TokMode::Decompose]),
        filters,
        config_file: None,
        failing: false,
        custom: if filters > 0 && rng.chance(1, 2) { Some(gen_chain(rng, &s)) } else { None },
        way: 0,
    });
    c.sys.push(s);
    c.user.push(u);
    c
}

pub fn stdin_of(rng: &mut Rng, c: &Case, p: &mut Plan) {
    if c.int("file") == 0 {
        p.stdin = chunks(rng, c.texts.concat().as_bytes());
    }
}

/// Input for a run whose lines were changed since it was planned (minimisation).
pub fn refit(p: &Plan, input: &[u8]) -> Plan {
    let mut p = p.clone();
    let have: usize = p.stdin.iter().map(|i| if let StdinItem::Data(d) = i { d.len() } else { 0 }).sum();
    if !p.stdin.is_empty() && have != input.len() {
        let sizes: Vec<usize> = p.stdin.iter().map(|i| if let StdinItem::Data(d) = i { d.len() } else { 0 }).collect();
        let mut items = vec![];
        let mut at = 0;
        for n in sizes.into_iter().cycle().filter(|n| *n > 0) {
            if at >= input.len() {
                break;
            }
            let e = (at + n).min(input.len());
            items.push(StdinItem::Data(input[at..e].to_vec()));
            at = e;
        }
        p.stdin = items;
    }
    p
}

// ---- C07: the output depends on the lines alone ----

fn exec_c07(w: &mut World, c: &Case) -> Option<Viol> {
    let s = session(w, c)?;
    let p = refit(&c.plans[0], &s.input);
    let (f, r) = w.cli(&s.img, &p, &s.args);
    let ctx = format!("{} in {} lines from {}, {}", s.input.len(), s.ends.len(), if c.int("file") == 1 { "a file" } else { "standard input" }, plan_words(&p));
    if !f.is_ok() {
        return viol("fails", format!("{ctx}: {}", f.word()));
    }
    if r.out != s.out {
        return viol("differs", format!("{ctx}: {}", first_diff(&s.out, &r.out)));
    }
    None
}
fn gen_c07(_w: &mut World, rng: &mut Rng, _group: u64) -> Vec<Case> {
    let mut v = vec![];
    let base = gen_base(rng, "C07");
    for k in 0..22 {
        let c = base.clone().with("file", (k % 3 == 2) as i64).withs("format", ["mecab", "wakati", "json"][(k / 3) % 3]);
        let mut p = gentle(rng, rng.0);
        p.max_read = if rng.chance(1, 2) { 0 } else { p.max_read };
        stdin_of(rng, &c, &mut p);
        v.push(c.plan(p));
    }
    v
}

// ---- C08: exit status 0 means that all of the output was taken ----

fn exec_c08(w: &mut World, c: &Case) -> Option<Viol> {
    let s = session(w, c)?;
    let p = refit(&c.plans[0], &s.input);
    let (f, r) = w.cli(&s.img, &p, &s.args);
    let ctx = format!("{} lines, {}", s.ends.len(), plan_words(&p));
    if r.fired.keys().any(|k| k.starts_with("Stdout:E") && !k.contains("EINTR")) {
        w.st.probe("standard output failed");
    }
    if f.is_ok() && r.out != s.out {
        return viol("lost-output", format!("{ctx}: exit status 0, but {} of {} bytes were written", r.out.len(), s.out.len()));
    }
    if f.stuck() {
        return viol("no-end", format!("{ctx}: {}", f.word()));
    }
    if matches!(f, Fate::Crashed(_)) {
        return viol("crash", format!("{ctx}: {}", f.word()));
    }
    if !s.out.starts_with(&r.out) {
        return viol("garbled", format!("{ctx}: {}, and what was written is no beginning of the output: {}", f.word(), first_diff(&s.out, &r.out)));
    }
    None
}
fn gen_c08(w: &mut World, rng: &mut Rng, _group: u64) -> Vec<Case> {
    let mut v = vec![];
    let base = gen_base(rng, "C08");
    let Some(s) = session(w, &base) else { return v };
    // how many write calls the output takes
    let mut p = logged(base_plan(1));
    p.stdin = vec![StdinItem::Data(s.input.clone())];
    let (_, dry) = w.cli(&s.img, &p, &s.args);
    for k in 0..24 {
        let c = base.clone().with("file", (k % 3 == 2) as i64);
        let mut p = if rng.chance(1, 2) { base_plan(rng.next()) } else { gentle(rng, rng.0) };
        stdin_of(rng, &c, &mut p);
        let errno = *rng.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]);
        match rng.below(3) {
            0 | 1 => {
                let n = match rng.below(4) {
                    0 => rng.below(s.out.len() as u64 + 1),
                    1 => (s.out.len() as u64).saturating_sub(rng.below(12)),
                    2 => rng.below(3),
                    // at the end of an answer
                    _ => s.ends.get(rng.below(s.ends.len().max(1) as u64) as usize).map(|e| e.1 as u64).unwrap_or(0),
                };
                p.out_limit = Some((n, errno));
            }
            _ => {
                let ok = |e: &Ev| e.call == Call::Stdout;
                if let Some(e) = pick_event(rng, &dry.log, &ok) {
                    p.faults.push(fault_at(e, FaultKind::Err(errno)));
                }
            }
        }
        v.push(c.plan(p));
    }
    v
}

// ---- C09: every complete line is answered before the program waits for more ----

fn exec_c09(w: &mut World, c: &Case) -> Option<Viol> {
    let s = session(w, c)?;
    let p = refit(&c.plans[0], &s.input);
    let (f, r) = w.cli(&s.img, &p, &s.args);
    let ctx = format!("{} lines, {}", s.ends.len(), plan_words(&p));
    let nl = s.input.last() == Some(&b'\n');
    w.st.probe("interactive run");
    for (seen, out) in &r.waits {
        *w.st.probes.entry("waits checked".into()).or_default() += 1;
        let n = s.ends.iter().enumerate().filter(|(i, e)| e.0 as u64 <= *seen && (nl || i + 1 < s.ends.len())).count();
        let due = if n == 0 { 0 } else { s.ends[n - 1].1 };
        if *out < due as u64 {
            return viol(
                "answer-held-back",
                format!("{ctx}: after {seen} bytes of input ({n} whole lines) the program waits for more, but {out} of the {due} bytes of its answers are out"),
            );
        }
    }
    if !f.is_ok() {
        return viol("fails", format!("{ctx}: {}", f.word()));
    }
    None
}
fn gen_c09(_w: &mut World, rng: &mut Rng, _group: u64) -> Vec<Case> {
    let mut v = vec![];
    let base = gen_base(rng, "C09");
    for k in 0..20 {
        let c = base.clone().withs("format", ["mecab", "wakati", "json"][k % 3]);
        let mut p = if rng.chance(1, 2) { base_plan(rng.next()) } else { gentle(rng, rng.0) };
        if rng.chance(2, 3) {
            p.max_read = 0;
        }
        stdin_of(rng, &c, &mut p);
        v.push(c.plan(p));
    }
    v
}

// ---- C19: input that fails is no end of input ----

fn exec_c19(w: &mut World, c: &Case) -> Option<Viol> {
    let mut s = session(w, c)?;
    let mut p = c.plans[0].clone();
    p.keep_log = true;
    let bad = c.int("bad") as usize; // number of the line that is no text, plus one
    if bad > 0 {
        if std::str::from_utf8(&c.bytes).is_ok() {
            return None;
        }
        let line = (bad - 1).min(s.ends.len().checked_sub(1)?);
        let start = if line == 0 { 0 } else { s.ends[line - 1].0 };
        let mut b = s.input[..start].to_vec();
        b.extend_from_slice(&c.bytes);
        b.extend_from_slice(&s.input[start..]);
        s.input = b;
        s.ends.truncate(line);
    }
    if c.int("file") == 1 {
        s.img.put("/text.txt", &s.input);
        match c.str("input") {
            "missing" => {
                s.img.remove("/text.txt");
            }
            "directory" => {
                s.img.remove("/text.txt");
                s.img.mkdirs("/text.txt");
            }
            _ => {}
        }
    } else {
        let fail: Option<StdinItem> = p.stdin.iter().find(|i| matches!(i, StdinItem::Err(_))).cloned();
        let at = (c.int("at") as usize).min(s.input.len());
        let sizes: Vec<usize> = p.stdin.iter().map(|i| if let StdinItem::Data(d) = i { d.len() } else { 0 }).filter(|n| *n > 0).collect();
        let end = if fail.is_some() { at } else { s.input.len() };
        let mut items = vec![];
        let mut pos = 0;
        for n in sizes.iter().copied().chain([5000]).cycle() {
            if pos >= end {
                break;
            }
            let e = (pos + n).min(end);
            items.push(StdinItem::Data(s.input[pos..e].to_vec()));
            pos = e;
        }
        if let Some(i) = fail {
            items.push(i);
            items.push(StdinItem::Data(s.input[end..].to_vec()));
        }
        items.retain(|i| !matches!(i, StdinItem::Data(d) if d.is_empty()));
        p.stdin = items;
    }
    let (f, r) = w.cli(&s.img, &p, &s.args);
    let ctx = format!("{} lines, {}{}", s.ends.len(), plan_words(&p), if bad > 0 { ", one line that is no UTF-8" } else { "" });
    // how much had arrived when the input failed
    let mut seen = 0;
    let mut failed = bad > 0;
    let mut ended = false; // the end was seen, and a later read failed
    for e in r.log.iter().filter(|e| e.call == Call::Stdin || (e.path == "/text.txt" && matches!(e.call, Call::Read | Call::Open))) {
        if e.res < 0 && e.res != -(libc::EINTR as i64) {
            failed = true;
            break;
        }
        if e.call != Call::Open && e.res > 0 {
            seen += e.res as usize;
        }
        // interrupted calls tell nothing
        if e.res >= 0 {
            ended = e.call != Call::Open && e.res == 0;
        }
    }
    if !failed {
        return None;
    }
    w.st.probe("input failed");
    if f.is_ok() {
        return viol("failure-hidden", format!("{ctx}: exit status 0 although the input failed after {seen} bytes"));
    }
    if f.stuck() || matches!(f, Fate::Crashed(_)) {
        return viol("crash", format!("{ctx}: {}", f.word()));
    }
    let n = s.ends.iter().filter(|e| e.0 <= seen && (ended || s.input[e.0 - 1] == b'\n')).count();
    let due = if n == 0 { 0 } else { s.ends[n - 1].1 };
    if r.out != s.out[..due] {
        return viol(
            "wrong-answers",
            format!("{ctx}: {} after {seen} bytes ({n} whole lines before the failure): {}", f.word(), first_diff(&s.out[..due], &r.out)),
        );
    }
    None
}
fn gen_c19(w: &mut World, rng: &mut Rng, _group: u64) -> Vec<Case> {
    let mut v = vec![];
    let base = gen_base(rng, "C19");
    let Some(s) = session(w, &base) else { return v };
    if s.ends.is_empty() {
        return v;
    }
    for k in 0..22 {
        let mut c = base.clone().with("file", (k % 3 == 2) as i64);
        let mut p = if rng.chance(1, 2) { base_plan(rng.next()) } else { gentle(rng, rng.0) };
        if rng.chance(1, 3) {
            p.max_read = *rng.pick(&[0, 1, 10, 100]);
        }
        if k % 5 == 4 {
            // broken UTF-8 inside a line
            c.bytes = match rng.below(4) {
                0 => vec![0xff],
                1 => vec![0xe6, 0x9d],
                2 => "東".as_bytes()[..1].to_vec(),
                _ => vec![b'a', 0x80, b'b'],
            };
            if rng.chance(1, 2) {
                c.bytes.push(b'\n');
            }
            c.n.insert("bad".into(), 1 + rng.below(s.ends.len() as u64) as i64);
            stdin_of(rng, &c, &mut p);
        } else if c.int("file") == 1 {
            match rng.below(8) {
                0 => c = c.withs("input", "missing"),
                1 => c = c.withs("input", "directory"),
                2 => p.faults.push(Fault { call: Call::Open, path: "/text.txt".into(), nth: 0, kind: FaultKind::Err(*rng.pick(&[libc::EACCES, libc::EMFILE, libc::EIO])) }),
                _ => {
                    p.max_read = *rng.pick(&[7, 30, 100, 1000, 0]);
                    let reads = 1 + s.input.len() as u64 / ((p.max_read as u64 / 2).max(1)).min(8192);
                    p.faults.push(Fault { call: Call::Read, path: "/text.txt".into(), nth: rng.below(reads.min(60)) as u32, kind: FaultKind::Err(*rng.pick(&[libc::EIO, libc::ESTALE])) });
                }
            }
        } else {
            stdin_of(rng, &c, &mut p);
            let at = match rng.below(3) {
                0 => rng.pick(&s.ends).0 as u64,
                _ => rng.below(s.input.len() as u64 + 1),
            };
            c.n.insert("at".into(), at as i64);
            p.stdin.push(StdinItem::Err(*rng.pick(&[libc::EIO, libc::ENOTCONN, libc::EAGAIN])));
        }
        v.push(c.plan(p));
    }
    v
}
