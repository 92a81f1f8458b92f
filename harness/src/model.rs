//! Generated dictionary sources, and the reference model of what they mean.
use crate::os::vfs::Image;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Ipadic,
    Neologd,
    Unidic,
    KoDic,
    CcCedict,
}
pub const KINDS: [Kind; 5] = [Kind::Ipadic, Kind::Neologd, Kind::Unidic, Kind::KoDic, Kind::CcCedict];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Ipadic => "ipadic",
            Kind::Neologd => "ipadic-neologd",
            Kind::Unidic => "unidic",
            Kind::KoDic => "ko-dic",
            Kind::CcCedict => "cc-cedict",
        }
    }
    pub fn lindera(self) -> lindera_dictionary::DictionaryKind {
        self.name().parse().unwrap()
    }
    /// Detail columns of a dictionary row after surface, ids and cost.
    fn details(self) -> usize {
        match self {
            Kind::Ipadic | Kind::Neologd => 9,
            Kind::Unidic => 17,
            Kind::KoDic | Kind::CcCedict => 8,
        }
    }
    fn unk_fields(self) -> usize {
        match self {
            Kind::Ipadic | Kind::Neologd => 11,
            Kind::Unidic | Kind::CcCedict => 10,
            Kind::KoDic => 12,
        }
    }
    fn euc(self) -> bool {
        self == Kind::Ipadic
    }
    fn normalizes(self) -> bool {
        matches!(self, Kind::Ipadic | Kind::Neologd)
    }
    /// Rows whose ids or cost are no numbers are skipped (otherwise they are errors).
    pub fn skips_invalid(self) -> bool {
        self == Kind::CcCedict
    }
    pub fn mixed_user_rows(self) -> bool {
        matches!(self, Kind::Ipadic | Kind::Neologd)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Row {
    pub surface: String,
    pub left: u16,
    pub right: u16,
    pub cost: i16,
    pub details: Vec<String>,
    /// A cost column that is no number.
    pub bad: bool,
    /// Blanks around the numbers.
    pub blanks: bool,
    /// every column in quotation marks
    pub quoted: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CsvFile {
    pub name: String,
    pub rows: Vec<Row>,
    pub crlf: bool,
    pub last_newline: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cat {
    pub name: String,
    pub invoke: bool,
    pub group: bool,
    pub length: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SysSrc {
    pub kind: Kind,
    pub files: Vec<CsvFile>,
    pub cats: Vec<Cat>,
    pub ranges: Vec<(u32, u32, Vec<usize>)>,
    /// (category, left, right, cost)
    pub unk: Vec<(usize, u16, u16, i16)>,
    pub fwd: u32,
    pub bwd: u32,
    pub costs: Vec<(u32, u32, i16)>,
    /// Other files that lie in the source directory.
    pub extra: Vec<String>,
    pub lower_hex: bool,
    /// definitions of character classes after the ranges
    pub late_cats: bool,
    /// white space of the definition files
    pub style: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct UserRow {
    pub surface: String,
    /// Simple rows: part of speech and reading.
    pub simple: Option<(String, String)>,
    pub left: u16,
    pub right: u16,
    pub cost: i16,
    pub details: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct UserSrc {
    pub kind: Kind,
    pub rows: Vec<UserRow>,
    pub crlf: bool,
    pub last_newline: bool,
}

pub type Entry = (u16, u16, i16, Vec<String>);

fn csv_field(s: &str) -> String {
    if s.contains([',', '"', '\n', '\r']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

pub fn normalize(s: &str) -> String {
    s.replace('―', "—").replace('～', "〜")
}

impl SysSrc {
    fn enc(&self, s: &str) -> Vec<u8> {
        if self.kind.euc() {
            encoding_rs::EUC_JP.encode(s).0.into_owned()
        } else {
            s.as_bytes().to_vec()
        }
    }
    pub fn csv_text(&self, f: &CsvFile) -> String {
        let mut s = String::new();
        let nl = if f.crlf { "\r\n" } else { "\n" };
        for (i, r) in f.rows.iter().enumerate() {
            let num = |n: String| if r.blanks { format!(" {n} ") } else { n };
            let mut cols = vec![
                csv_field(&r.surface),
                num(r.left.to_string()),
                num(r.right.to_string()),
                if r.bad { "x".into() } else { num(r.cost.to_string()) },
            ];
            cols.extend(r.details.iter().map(|d| csv_field(d)));
            if r.quoted {
                for c in &mut cols {
                    if !c.starts_with('"') {
                        *c = format!("\"{c}\"");
                    }
                }
            }
            s.push_str(&cols.join(","));
            if f.last_newline || i + 1 < f.rows.len() {
                s.push_str(nl);
            }
        }
        s
    }
    pub fn char_def(&self) -> String {
        let mut s = String::from("# generated\n");
        let mut defs = String::new();
        for c in &self.cats {
            defs.push_str(&format!("{} {} {} {}\n", c.name, c.invoke as u8, c.group as u8, c.length));
        }
        defs.push('\n');
        if !self.late_cats {
            s.push_str(&defs);
        }
        for (a, b, cs) in &self.ranges {
            let names: Vec<&str> = cs.iter().map(|c| self.cats[*c].name.as_str()).collect();
            let hex = |c: u32| if self.lower_hex { format!("0x{c:04x}") } else { format!("0x{c:04X}") };
            if a == b {
                s.push_str(&format!("{} {} # one\n", hex(*a), names.join(" ")));
            } else {
                s.push_str(&format!("{}..{} {}\n", hex(*a), hex(*b), names.join(" ")));
            }
        }
        if self.late_cats {
            s.push_str(&defs);
        }
        self.styled(s)
    }
    pub fn unk_def(&self) -> String {
        let mut s = String::new();
        for (c, l, r, cost) in &self.unk {
            let mut cols = vec![self.cats[*c].name.clone(), l.to_string(), r.to_string(), cost.to_string()];
            while cols.len() < self.kind.unk_fields() {
                cols.push("*".into());
            }
            s.push_str(&cols.join(","));
            s.push('\n');
        }
        if self.style & 1 != 0 {
            s = s.replace('\n', "\r\n");
        }
        s
    }
    /// The same definitions with other white space.
    fn styled(&self, mut s: String) -> String {
        if self.style & 2 != 0 {
            s = s.replace(' ', "\t");
        }
        if self.style & 4 != 0 {
            s = s.replace(' ', "  ");
        }
        if self.style & 1 != 0 {
            s = s.replace('\n', "\r\n");
        }
        s
    }
    pub fn matrix_def(&self) -> String {
        let mut s = format!("{} {}\n", self.fwd, self.bwd);
        for (f, b, c) in &self.costs {
            s.push_str(&format!("{f} {b} {c}\n"));
        }
        self.styled(s)
    }
    /// Source files by name.
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for f in &self.files {
            m.insert(f.name.clone(), self.enc(&self.csv_text(f)));
        }
        for e in &self.extra {
            m.insert(e.clone(), b"not,a,dictionary,file\n".to_vec());
        }
        m.insert("char.def".into(), self.enc(&self.char_def()));
        m.insert("unk.def".into(), self.enc(&self.unk_def()));
        m.insert("matrix.def".into(), self.enc(&self.matrix_def()));
        // copies of the definitions under other names
        for e in &self.extra {
            if let Some(d) = ["char.def", "unk.def", "matrix.def"].iter().find(|f| e.starts_with(**f) || e == &f.replace(".def", ".bak")).and_then(|f| m.get(*f).cloned()) {
                m.insert(e.clone(), d);
            }
        }
        m
    }
    pub fn put(&self, img: &mut Image, dir: &str) {
        img.mkdirs(dir);
        for (n, d) in self.files() {
            img.put(&format!("{dir}/{n}"), &d);
        }
    }
    fn norm(&self, s: &str) -> String {
        if self.kind.normalizes() {
            normalize(s)
        } else {
            s.to_string()
        }
    }
    /// Every row of every file, by surface.
    pub fn entries(&self) -> BTreeMap<String, Vec<Entry>> {
        let mut m: BTreeMap<String, Vec<Entry>> = BTreeMap::new();
        for f in &self.files {
            for r in &f.rows {
                if r.bad {
                    continue;
                }
                m.entry(self.norm(&r.surface)).or_default().push((
                    r.left,
                    r.right,
                    r.cost,
                    r.details.iter().map(|d| self.norm(d)).collect(),
                ));
            }
        }
        for v in m.values_mut() {
            v.sort();
        }
        m
    }
    pub fn row_count(&self) -> usize {
        self.files.iter().map(|f| f.rows.iter().filter(|r| !r.bad).count()).sum()
    }
    pub fn cost(&self) -> BTreeMap<(u32, u32), i16> {
        self.costs.iter().map(|(f, b, c)| ((*f, *b), *c)).collect()
    }
    /// Categories of a character, in definition order of the ranges that hold it.
    pub fn categories(&self, c: u32) -> Vec<usize> {
        let mut v = vec![];
        for (a, b, cs) in &self.ranges {
            if *a <= c && c <= *b {
                for k in cs {
                    if !v.contains(k) {
                        v.push(*k);
                    }
                }
            }
        }
        if v.is_empty() {
            v.push(0);
        }
        v
    }
}

impl UserSrc {
    pub fn csv(&self) -> String {
        let mut s = String::new();
        for (i, r) in self.rows.iter().enumerate() {
            let mut cols = vec![csv_field(&r.surface)];
            match &r.simple {
                Some((p, y)) => {
                    cols.push(csv_field(p));
                    cols.push(csv_field(y));
                }
                None => {
                    cols.push(r.left.to_string());
                    cols.push(r.right.to_string());
                    cols.push(r.cost.to_string());
                    cols.extend(r.details.iter().map(|d| csv_field(d)));
                }
            }
            s.push_str(&cols.join(","));
            if self.last_newline || i + 1 < self.rows.len() {
                s.push_str(if self.crlf { "\r\n" } else { "\n" });
            }
        }
        s
    }
    fn expand(&self, r: &UserRow) -> Entry {
        match &r.simple {
            None => (r.left, r.right, r.cost, r.details.clone()),
            Some((p, y)) => {
                let x = "*".to_string();
                let d = match self.kind {
                    Kind::Ipadic | Kind::Neologd => {
                        vec![p.clone(), x.clone(), x.clone(), x.clone(), x.clone(), x.clone(), r.surface.clone(), y.clone(), x]
                    }
                    Kind::Unidic => {
                        let mut v = vec![x; 17];
                        v[0] = p.clone();
                        v[6] = y.clone();
                        v
                    }
                    Kind::KoDic => {
                        let mut v = vec![x; 8];
                        v[0] = p.clone();
                        v[3] = y.clone();
                        v
                    }
                    Kind::CcCedict => {
                        let mut v = vec![x; 8];
                        v[0] = p.clone();
                        v[4] = y.clone();
                        v
                    }
                };
                (0, 0, -10000, d)
            }
        }
    }
    pub fn entries(&self) -> BTreeMap<String, Vec<Entry>> {
        let mut m: BTreeMap<String, Vec<Entry>> = BTreeMap::new();
        for r in &self.rows {
            m.entry(r.surface.clone()).or_default().push(self.expand(r));
        }
        for v in m.values_mut() {
            v.sort();
        }
        m
    }
}

// ---- generation ----

const KANJI: &[char] = &['東', '京', '都', '大', '学', '日', '本', '語', '一', '二'];
const HIRA: &[char] = &['あ', 'い', 'う', 'の', 'は', 'も', 'す', 'で', 'き'];
const KATA: &[char] = &['ア', 'イ', 'カ', 'タ', 'ナ', 'ー', 'ス'];
const ASCII: &[char] = &['a', 'b', 'C', '1', '2', 'x'];
const HANGUL: &[char] = &['한', '국', '어', '가', '나', '다'];

fn alphabet(kind: Kind) -> Vec<char> {
    let mut v: Vec<char> = vec![];
    v.extend(KANJI);
    if kind == Kind::KoDic {
        v.extend(HANGUL);
    } else if kind != Kind::CcCedict {
        v.extend(HIRA);
        v.extend(KATA);
    }
    v.extend(ASCII);
    v
}

/// Characters no generated dictionary row uses.
const FOREIGN: &[char] = &['鬱', 'ん', 'ヴ', 'é', '😀', '𠮷', '！', '々', 'z'];

fn word(rng: &mut Rng, al: &[char], max: i64) -> String {
    let n = rng.range(1, max);
    (0..n).map(|_| *rng.pick(al)).collect()
}

fn detail(rng: &mut Rng, al: &[char], k: usize) -> String {
    match rng.below(12) {
        0..=3 => "*".into(),
        4..=6 => (*rng.pick(&["名詞", "動詞", "助詞", "記号", "接頭詞"])).to_string(),
        7 => format!("{}{}", word(rng, al, 3), k),
        8 => word(rng, al, 6),
        9 => (*rng.pick(&["a,b", "say \"x\"", "―", "～", "", "0", " a", "a ", "　", "a\tb", "a\nb", "\\N", "#", "ｱ", "-1", " ", "\u{b}"])).to_string(),
        _ => word(rng, al, 2),
    }
}

/// Details no old encoding knows.
fn modern(rng: &mut Rng, d: &mut [String]) {
    if !d.is_empty() && rng.chance(1, 25) {
        let k = rng.below(d.len() as u64) as usize;
        d[k] = (*rng.pick(&["\u{feff}", "\u{feff}名", "a\u{feff}", "\u{200b}", "\u{85}", "\u{2028}", "é", "e\u{301}", "が", "か\u{3099}", "𠮟", "😀"])).to_string();
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Size {
    Tiny,
    Small,
    Medium,
    Large,
    Huge,
}

pub fn gen_size(rng: &mut Rng) -> Size {
    match rng.below(20) {
        0..=4 => Size::Tiny,
        5..=12 => Size::Small,
        13..=17 => Size::Medium,
        _ => Size::Large,
    }
}

/// `wide`: ids and details of any size, for dictionaries that are only looked up.
pub fn gen_sys(rng: &mut Rng, kind: Kind, size: Size, wide: bool) -> SysSrc {
    let al = alphabet(kind);
    let nrows = match size {
        Size::Tiny => rng.range(1, 6),
        Size::Small => rng.range(8, 40),
        Size::Medium => rng.range(60, 200),
        Size::Large => rng.range(300, 900),
        Size::Huge => 70_000,
    } as usize;
    let nids = rng.range(2, 9) as u32;
    let (mut fwd, mut bwd) = (nids + rng.below(3) as u32, nids + rng.below(3) as u32);
    if wide && rng.chance(1, 4) {
        // a matrix larger than any buffer
        fwd = rng.range(30, 200) as u32;
        bwd = rng.range(30, 200) as u32;
    }
    // as many ids as there can be on one side
    let sparse = wide && rng.chance(1, 15);
    if sparse {
        let many = *rng.pick(&[32_767u32, 32_768, 33_000, 40_000, 65_534, 65_535]);
        (fwd, bwd) = if rng.chance(1, 2) { (many, nids) } else { (nids, many) };
    }
    let nfiles = rng.range(1, 4).min(nrows as i64) as usize;
    // more columns than a file of this kind has
    let more: Vec<usize> =
        (0..nfiles).map(|_| if size != Size::Huge && rng.chance(1, 15) { rng.range(1, 8) as usize } else { 0 }).collect();
    let mut files: Vec<CsvFile> = (0..nfiles)
        .map(|i| CsvFile {
            name: (*rng.pick(&["Noun", "Verb", "a.b", "名詞", "x y", "Symbol"])).to_string() + &format!("{i}.csv"),
            rows: vec![],
            crlf: rng.chance(1, 6),
            last_newline: !rng.chance(1, 5),
        })
        .collect();
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    let mut made = 0;
    let mut tries = 0;
    let maxlen = if size == Size::Huge { 5 } else { rng.range(2, 5) };
    let mut last: Option<String> = None;
    let mut burst = if wide && rng.chance(1, 3) && nrows > 30 { rng.range(15, 30) } else { 0 };
    while made < nrows && tries < nrows * 10 {
        tries += 1;
        let mut s = match &last {
            Some(l) if burst > 0 => {
                burst -= 1;
                l.clone()
            }
            // grow earlier words: deep tries; repeat them: homographs
            Some(l) if rng.chance(1, 6) && size != Size::Huge => l.clone(),
            Some(l) if rng.chance(1, 6) && l.chars().count() < 12 => format!("{l}{}", rng.pick(&al)),
            _ => word(rng, &al, maxlen),
        };
        if wide && burst == 0 && size != Size::Huge && rng.chance(1, 150) {
            s = word(rng, &al, 1).repeat(rng.range(20, 300) as usize);
        }
        if kind.normalizes() && burst == 0 && rng.chance(1, 60) {
            s.push(*rng.pick(&['―', '～']));
        }
        if burst == 0 && rng.chance(1, 80) && size != Size::Huge {
            s = (*rng.pick(&[",", "\"", "、", "。", "\"a", "a,b", " ", "　", "a b", " a", "a ", "#", "0x41", "ｱ"])).to_string();
        }
        if burst == 0 && rng.chance(1, 60) && size != Size::Huge && !kind.euc() {
            s = format!("{}{}", rng.pick(&["😀", "𠮷", "é", "e\u{301}"]), if rng.chance(1, 2) { s } else { String::new() });
        }
        let key = if kind.normalizes() { normalize(&s) } else { s.clone() };
        let c = count.entry(key).or_default();
        if *c >= 31 {
            burst = 0;
            continue;
        }
        *c += 1;
        last = Some(s.clone());
        let f = rng.below(nfiles as u64) as usize;
        let nd = kind.details() + more[f];
        let mut details: Vec<String> =
            (0..nd).map(|k| if size == Size::Huge { format!("d{}", made % 7 + k) } else { detail(rng, &al, k) }).collect();
        if wide && size != Size::Huge && rng.chance(1, 200) {
            let n = *rng.pick(&[255usize, 256, 300, 5000, 66_000]);
            details[rng.below(nd as u64) as usize] = "永".repeat(n / 3) + &"x".repeat(n % 3);
        }
        if size != Size::Huge && !kind.euc() {
            modern(rng, &mut details);
        }
        let cost = match rng.below(30) {
            0 => i16::MAX,
            1 => i16::MIN,
            2 => 0,
            _ => rng.range(-8000, 12000) as i16,
        };
        let bad = kind.skips_invalid() && rng.chance(1, 30);
        files[f].rows.push(Row {
            surface: s,
            left: if wide && rng.chance(1, 20) { *rng.pick(&[255, 256, 32767, 32768, 65535]) } else { rng.below(bwd as u64) as u16 },
            right: if wide && rng.chance(1, 20) { *rng.pick(&[255, 256, 32767, 32768, 65535]) } else { rng.below(fwd as u64) as u16 },
            cost,
            details,
            bad,
            blanks: rng.chance(1, 25),
            quoted: rng.chance(1, 25),
        });
        made += 1;
        // the same word again, all of it or all but one column
        if wide && rng.chance(1, 40) && size != Size::Huge && *c < 31 {
            *c += 1;
            let mut twin = files[f].rows[files[f].rows.len() - 1].clone();
            match rng.below(4) {
                0 => {}
                1 => twin.cost = twin.cost.wrapping_add(1),
                _ => {
                    let k = rng.below(nd as u64) as usize;
                    twin.details[k] = "永".into();
                }
            }
            let g = rng.below(nfiles as u64) as usize;
            files[if more[g] == more[f] { g } else { f }].rows.push(twin);
        }
    }
    if !files.iter().any(|f| f.rows.iter().any(|r| !r.bad)) {
        files[0].rows.push(Row {
            surface: "東".into(),
            left: 0,
            right: 1,
            cost: 10,
            details: (0..kind.details() + more[0]).map(|i| i.to_string()).collect(),
            bad: false,
            blanks: false,
            quoted: false,
        });
    }
    if !rng.chance(1, 4) {
        files.retain(|f| !f.rows.is_empty());
    }
    files.sort_by(|a, b| a.name.cmp(&b.name));

    // character classes: DEFAULT first, like every real char.def
    let mut cats = vec![];
    for n in ["DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA", "KANJINUMERIC", "HANGUL"] {
        cats.push(Cat { name: n.into(), invoke: rng.chance(1, 2), group: rng.chance(1, 2), length: rng.below(4) as u32 });
    }
    let mut ranges = vec![
        (0x20, 0x20, vec![1usize]),
        (0x30, 0x39, vec![4]),
        (0x41, 0x5a, vec![5]),
        (0x61, 0x7a, vec![5]),
        (0x3041, 0x309f, vec![6]),
        (0x30a1, 0x30ff, vec![7]),
        (0x4e00, 0x9fa5, vec![2]),
        (0xac00, 0xd7a3, vec![9]),
        (0x3001, 0x3002, vec![3]),
        (0x4e00, 0x4e00, vec![8, 2]),
    ];
    if rng.chance(1, 2) {
        ranges.push((0x30fc, 0x30fc, vec![7, 6]));
    }
    if rng.chance(1, 3) {
        ranges.push((0x21, 0x2f, vec![3]));
    }
    if rng.chance(1, 3) {
        ranges.swap(6, 9);
    }
    for _ in 0..rng.below(4) {
        let a = *rng.pick(&[0x61u32, 0x3041, 0x30a1, 0x4e00, 0xac00]) + rng.below(30) as u32;
        ranges.push((a, a + rng.below(60) as u32, vec![rng.below(cats.len() as u64) as usize]));
    }
    if rng.chance(1, 3) {
        // ranges that begin or end where others do, or hold them
        for _ in 0..rng.range(1, 5) {
            let (a, b, _) = rng.pick(&ranges).clone();
            let n = rng.range(1, 40) as u32;
            let (a, b) = match rng.below(8) {
                0 => (b, b),
                1 => (b, b + n),
                2 => (b + 1, b + n),
                3 => (a, a),
                4 => (a.saturating_sub(n), a),
                5 => (a.saturating_sub(n), b + n),
                6 => (a, b),
                _ => (0xff00, 0xffff),
            };
            let mut of = vec![rng.below(cats.len() as u64) as usize];
            if rng.chance(1, 4) {
                of.push(rng.below(cats.len() as u64) as usize);
            }
            if b <= 0xd7ff || a >= 0xe000 && b <= 0xffff {
                let at = rng.below(ranges.len() as u64 + 1) as usize;
                ranges.insert(at, (a, b, of));
            }
        }
    }
    let mut unk = vec![];
    for c in 0..cats.len() {
        for _ in 0..if rng.chance(1, 8) { rng.range(3, 9) } else { rng.range(1, 2) } {
            unk.push((c, rng.below(nids as u64) as u16, rng.below(nids as u64) as u16, rng.range(1000, 20000) as i16));
        }
    }
    rng.shuffle(&mut unk);
    let mut costs = vec![];
    if sparse {
        let edge = |rng: &mut Rng, n: u32| match rng.below(3) {
            0 => rng.below(n.min(9) as u64) as u32,
            1 => n - 1 - rng.below(n.min(9) as u64) as u32,
            _ => rng.below(n as u64) as u32,
        };
        let ids: BTreeSet<(u32, u32)> = (0..200).map(|_| (edge(rng, fwd), edge(rng, bwd))).collect();
        costs.extend(ids.into_iter().map(|(f, b)| (f, b, rng.range(-3000, 3000) as i16)));
    } else {
        for f in 0..fwd {
            for b in 0..bwd {
                if !rng.chance(1, 40) {
                    costs.push((f, b, rng.range(-3000, 3000) as i16));
                }
            }
        }
    }
    if rng.chance(1, 3) {
        rng.shuffle(&mut costs);
    }
    let mut extra = vec![];
    for e in ["README", "Noun.csv.bak", "rewrite.def", "csv", "pos-id.def"] {
        if rng.chance(1, 5) {
            extra.push(e.to_string());
        }
    }
    if rng.chance(1, 5) {
        for f in ["char", "unk", "matrix"] {
            for e in [".def.bak", ".def~", ".def.orig", ".def.old", ".def.default", ".def.txt", ".bak"] {
                if rng.chance(1, 3) {
                    extra.push(format!("{f}{e}"));
                }
            }
        }
    }
    SysSrc { kind, files, cats, ranges, unk, fwd, bwd, costs, extra, lower_hex: rng.chance(1, 3), late_cats: rng.chance(1, 6), style: if rng.chance(1, 4) { rng.below(8) as u8 } else { 0 } }
}

pub fn gen_user(rng: &mut Rng, kind: Kind, size: Size, nids: u32, wide: bool) -> UserSrc {
    let al = alphabet(kind);
    let n = match size {
        Size::Tiny => rng.range(1, 4),
        Size::Small => rng.range(5, 30),
        Size::Medium => rng.range(60, 200),
        Size::Large => rng.range(300, 900),
        Size::Huge => 70_000,
    };
    let simple_file = rng.chance(1, 2);
    let mixed = kind.mixed_user_rows() && rng.chance(1, 2);
    // more columns than the dictionary's own words have
    let more = if rng.chance(1, 8) { rng.range(1, 12) as usize } else { 0 };
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    let mut rows = vec![];
    let mut burst = if wide && rng.chance(1, 3) && n > 30 { rng.range(15, 31) } else { 0 };
    for i in 0..n {
        let mut s = word(rng, &al, if size == Size::Huge { 5 } else { 4 });
        if burst > 0 {
            burst -= 1;
            s = "東京都".into();
        }
        if rng.chance(1, 40) && size != Size::Huge {
            s = (*rng.pick(&["a,b", "\"q\"", "、", "とある―"])).to_string();
        }
        let c = count.entry(s.clone()).or_default();
        if *c >= 31 {
            continue;
        }
        *c += 1;
        let simple = if mixed { rng.chance(1, 2) } else { simple_file };
        let nd = match kind {
            Kind::Ipadic | Kind::Neologd if mixed && rng.chance(1, 10) => 9 + rng.below(3) as usize,
            _ => kind.details() + more,
        };
        let mut details: Vec<String> = (0..nd).map(|k| detail(rng, &al, k)).collect();
        modern(rng, &mut details);
        rows.push(UserRow {
            surface: s,
            simple: if simple { Some(if rng.chance(1, 12) { let mut odd = |k| if rng.chance(1, 3) { String::new() } else { detail(rng, &al, k) }; (odd(0), odd(1)) } else { (format!("カスタム{}", i % 5), word(rng, &al, 4)) }) } else { None },
            left: if wide && rng.chance(1, 20) { *rng.pick(&[255, 256, 32768, 65535]) } else { rng.below(nids as u64) as u16 },
            right: if wide && rng.chance(1, 20) { *rng.pick(&[255, 256, 32768, 65535]) } else { rng.below(nids as u64) as u16 },
            cost: match rng.below(40) {
                0 => i16::MIN,
                1 => i16::MAX,
                _ => rng.range(-9000, 9000) as i16,
            },
            details,
        });
    }
    UserSrc { kind, rows, crlf: rng.chance(1, 6), last_newline: !rng.chance(1, 5) }
}

/// Text to analyse: known words, unknown ones, punctuation, any length.
pub fn gen_text(rng: &mut Rng, src: &SysSrc, user: Option<&UserSrc>, max_words: i64) -> String {
    let al = alphabet(src.kind);
    let mut s = String::new();
    let words: Vec<&str> = src
        .files
        .iter()
        .flat_map(|f| f.rows.iter().map(|r| r.surface.as_str()))
        .take(3000)
        .collect();
    for _ in 0..rng.range(1, max_words) {
        match rng.below(20) {
            0..=8 => {
                if let Some(w) = words.get(rng.below(words.len().max(1) as u64) as usize) {
                    s.push_str(w);
                }
            }
            9..=11 => match user {
                Some(u) if !u.rows.is_empty() => s.push_str(&rng.pick(&u.rows).surface),
                _ => s.push_str(&word(rng, &al, 3)),
            },
            12..=14 => s.push_str(&word(rng, &al, 4)),
            15 => s.push(*rng.pick(FOREIGN)),
            16 => {
                // a run of one class: grouped unknown words
                let c = *rng.pick(FOREIGN);
                for _ in 0..rng.range(1, 6) {
                    s.push(c);
                }
            }
            17 => s.push(*rng.pick(&['。', '、'])),
            18 => s.push_str(*rng.pick(&[" ", "　", "１２", "ｱ", "12,3"])),
            _ => s.push_str(*rng.pick(&["。", "、", "。。", "。\n", "\t"])),
        }
    }
    s
}

/// Another source of the same shape: other costs, ids, details and classes under the same
/// surfaces, most of them of the same length.
pub fn vary_sys(rng: &mut Rng, s: &SysSrc) -> SysSrc {
    let mut v = s.clone();
    for c in &mut v.cats {
        if rng.chance(1, 2) {
            c.group = !c.group;
        }
        if rng.chance(1, 3) {
            c.invoke = !c.invoke;
        }
    }
    // the same number of ranges and classes in other places
    if rng.chance(2, 3) {
        for r in &mut v.ranges {
            if rng.chance(1, 2) {
                let d = (rng.range(1, 40) as u32).min(0xffff - r.1);
                (r.0, r.1) = (r.0 + d, r.1 + d);
            }
        }
    }
    if rng.chance(1, 2) {
        let (a, b) = (rng.below(v.ranges.len() as u64) as usize, rng.below(v.ranges.len() as u64) as usize);
        if v.ranges[a].2.len() == v.ranges[b].2.len() {
            let t = v.ranges[a].2.clone();
            v.ranges[a].2 = std::mem::replace(&mut v.ranges[b].2, t);
        }
    }
    if rng.chance(1, 2) {
        for c in &mut v.costs {
            c.2 = c.2.wrapping_neg().max(-9000);
        }
    }
    for u in &mut v.unk {
        if rng.chance(1, 2) {
            u.3 = rng.range(-2000, 9000) as i16;
        }
    }
    for f in &mut v.files {
        for r in &mut f.rows {
            if rng.chance(1, 2) {
                r.cost = rng.range(-3000, 9000) as i16;
            }
            for d in &mut r.details {
                if rng.chance(1, 2) {
                    *d = d.chars().map(|c| match c { '名' => '代', '動' => '副', 'a'..='y' => 'z', '*' => '+', '大' => '小', c => c }).collect();
                }
            }
        }
    }
    v
}
pub fn vary_user(rng: &mut Rng, s: &UserSrc) -> UserSrc {
    let mut v = s.clone();
    for r in &mut v.rows {
        if let Some((a, _)) = &mut r.simple {
            *a = a.chars().map(|c| match c { '名' => '代', '動' => '副', 'a'..='y' => 'z', '*' => '+', c => c }).collect();
        }
        for d in &mut r.details {
            if rng.chance(1, 2) {
                *d = d.chars().map(|c| match c { '名' => '代', '動' => '副', 'a'..='y' => 'z', '*' => '+', '大' => '小', c => c }).collect();
            }
        }
    }
    v
}

/// The same text with another character at one place, of the same length if it is of a known sort.
fn nudge_text(rng: &mut Rng, s: &str) -> String {
    let n = s.chars().count();
    if n == 0 {
        return s.into();
    }
    let at = rng.below(n as u64) as usize;
    s.chars()
        .enumerate()
        .map(|(i, c)| match c {
            c if i != at => c,
            'ー' | ',' | '"' | '\n' | '\r' => c,
            'a'..='z' => 'q',
            c if c.len_utf8() == 3 => '替',
            c => c,
        })
        .collect()
}

/// Nearly the same source: one cost, one detail, one row or one connection differs.
pub fn nudge_sys(rng: &mut Rng, s: &SysSrc) -> SysSrc {
    let mut v = s.clone();
    let full: Vec<usize> = (0..v.files.len()).filter(|i| !v.files[*i].rows.is_empty()).collect();
    if full.is_empty() {
        return v;
    }
    let f = &mut v.files[*rng.pick(&full)].rows;
    let at = if rng.chance(1, 3) { f.len() - 1 } else { rng.below(f.len() as u64) as usize };
    match rng.below(6) {
        0 | 1 => f[at].cost = f[at].cost.wrapping_add(1 + rng.below(200) as i16),
        2 => {
            let n = f[at].details.len().max(1) as u64;
            if let Some(d) = f[at].details.get_mut(rng.below(n) as usize) {
                *d = nudge_text(rng, d);
            }
        }
        3 => {
            let r = f[at].clone();
            f.push(r);
        }
        4 if f.len() > 1 => {
            f.remove(at);
        }
        _ => {
            let n = v.costs.len().max(1) as u64;
            if let Some(c) = v.costs.get_mut(rng.below(n) as usize) {
                c.2 = c.2.wrapping_add(1);
            }
        }
    }
    v
}
pub fn nudge_user(rng: &mut Rng, s: &UserSrc) -> UserSrc {
    let mut v = s.clone();
    if v.rows.is_empty() {
        return v;
    }
    let at = if rng.chance(1, 3) { v.rows.len() - 1 } else { rng.below(v.rows.len() as u64) as usize };
    match rng.below(4) {
        0 if v.rows.len() > 1 => {
            v.rows.remove(at);
        }
        1 => {
            let r = v.rows[at].clone();
            v.rows.push(r);
        }
        _ => {
            let r = &mut v.rows[at];
            if let Some((a, b)) = &mut r.simple {
                if rng.chance(1, 2) {
                    *a = nudge_text(rng, a);
                } else {
                    *b = nudge_text(rng, b);
                }
            } else if rng.chance(1, 2) {
                r.cost = r.cost.wrapping_add(1);
            } else {
                let n = r.details.len().max(1) as u64;
                if let Some(d) = r.details.get_mut(rng.below(n) as usize) {
                    *d = nudge_text(rng, d);
                }
            }
        }
    }
    v
}
