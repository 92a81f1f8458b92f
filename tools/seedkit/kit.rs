//! Small dictionaries and processes for the demonstrations.
#![allow(dead_code, unused_imports)]
pub use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
pub use lindera_core::mode::Mode;
pub use lindera_dictionary::{
    DictionaryBuilderResolver, DictionaryConfig, DictionaryKind, DictionaryLoader, UserDictionaryConfig,
};
pub use lindera_tokenizer::tokenizer::{Tokenizer, TokenizerConfig};
pub use std::fs;
pub use std::path::{Path, PathBuf};
pub use std::process::{Command, Output, Stdio};

pub const CHAR_DEF: &str = "DEFAULT 0 1 0\nSPACE 0 1 0\nKANJI 0 0 2\nALPHA 1 1 0\nNUMERIC 1 1 0\nHIRAGANA 0 1 2\nKATAKANA 1 1 2\n\
0x0020 SPACE\n0x0041..0x005A ALPHA\n0x0061..0x007A ALPHA\n0x0030..0x0039 NUMERIC\n0x4E00..0x9FA5 KANJI\n0x3041..0x309F HIRAGANA\n0x30A1..0x30FF KATAKANA\n";

#[derive(Clone)]
pub struct Src {
    pub kind: DictionaryKind,
    pub csv: Vec<(String, Vec<String>)>,
    pub matrix: String,
    pub chars: String,
    pub unk: String,
}

fn is_euc(kind: &DictionaryKind) -> bool {
    matches!(kind, DictionaryKind::IPADIC)
}

/// `words`: surface, left id, right id, cost, first detail.
pub fn src(kind: DictionaryKind, words: &[(&str, u16, u16, i16, &str)]) -> Src {
    let n = 3;
    let mut matrix = format!("{n} {n}\n");
    for a in 0..n {
        for b in 0..n {
            matrix.push_str(&format!("{a} {b} {}\n", (a * 7 + b * 3) * 10));
        }
    }
    let mut unk = String::new();
    let fields = match kind {
        DictionaryKind::UniDic | DictionaryKind::CcCedict => 10,
        DictionaryKind::KoDic => 12,
        _ => 11,
    };
    for c in ["DEFAULT", "SPACE", "KANJI", "ALPHA", "NUMERIC", "HIRAGANA", "KATAKANA"] {
        unk.push_str(&format!("{c},0,0,4000{}\n", ",*".repeat(fields - 4)));
    }
    let rows = words.iter().map(|w| row(&kind, w)).collect();
    Src { kind, csv: vec![("a.csv".into(), rows)], matrix, chars: CHAR_DEF.into(), unk }
}

pub fn row(kind: &DictionaryKind, w: &(&str, u16, u16, i16, &str)) -> String {
    let details = match kind {
        DictionaryKind::UniDic => 17,
        DictionaryKind::KoDic | DictionaryKind::CcCedict => 8,
        _ => 9,
    };
    let mut d = vec![w.4.to_string()];
    for i in 1..details {
        d.push(if i == 6 { w.0.to_string() } else { "*".into() });
    }
    format!("{},{},{},{},{}", w.0, w.1, w.2, w.3, d.join(","))
}

impl Src {
    pub fn write(&self, dir: &Path) {
        fs::create_dir_all(dir).unwrap();
        let put = |name: &str, text: &str| {
            let bytes = if is_euc(&self.kind) {
                encoding_rs::EUC_JP.encode(text).0.into_owned()
            } else {
                text.as_bytes().to_vec()
            };
            fs::write(dir.join(name), bytes).unwrap();
        };
        for (name, rows) in &self.csv {
            put(name, &rows.iter().map(|r| format!("{r}\n")).collect::<String>());
        }
        put("matrix.def", &self.matrix);
        put("char.def", &self.chars);
        put("unk.def", &self.unk);
    }
}

pub fn build(kind: &DictionaryKind, src: &Path, out: &Path) -> Result<(), String> {
    DictionaryBuilderResolver::resolve_builder(kind.clone())
        .unwrap()
        .build_dictionary(src, out)
        .map_err(|e| e.to_string())
}

pub fn build_user(kind: &DictionaryKind, csv: &Path, out: &Path) -> Result<(), String> {
    DictionaryBuilderResolver::resolve_builder(kind.clone())
        .unwrap()
        .build_user_dictionary(csv, out)
        .map_err(|e| e.to_string())
}

pub fn tokenizer(dict: &Path, user: Option<(&Path, Option<DictionaryKind>)>) -> Result<Tokenizer, String> {
    Tokenizer::from_config(TokenizerConfig {
        dictionary: DictionaryConfig { kind: None, path: Some(dict.into()) },
        user_dictionary: user.map(|(p, kind)| UserDictionaryConfig { path: p.into(), kind }),
        mode: Mode::Normal,
    })
    .map_err(|e| e.to_string())
}

pub fn tokens(t: &Tokenizer, text: &str) -> Vec<(String, Vec<String>)> {
    let mut v = t.tokenize(text).unwrap();
    v.iter_mut()
        .map(|t| {
            let s = t.text.to_string();
            let d = t.get_details().map(|d| d.iter().map(|x| x.to_string()).collect()).unwrap_or_default();
            (s, d)
        })
        .collect()
}

pub fn texts(t: &Tokenizer, text: &str) -> Vec<String> {
    tokens(t, text).into_iter().map(|x| x.0).collect()
}

/// All files under a directory with their bytes.
pub fn tree(dir: &Path) -> std::collections::BTreeMap<PathBuf, Vec<u8>> {
    let mut m = std::collections::BTreeMap::new();
    let Ok(rd) = fs::read_dir(dir) else { return m };
    for e in rd {
        let p = e.unwrap().path();
        if p.is_dir() {
            m.extend(tree(&p));
            m.insert(p, vec![]);
        } else {
            let b = fs::read(&p).unwrap_or_default();
            m.insert(p, b);
        }
    }
    m
}

/// This program again with arguments, its I/O under the shim's rules.
pub fn me(shim: &str, args: &[&str]) -> Output {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args);
    under(shim, &mut c).output().unwrap()
}

/// The command line program.
pub fn cli(shim: &str, args: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("lindera_cli"));
    c.args(args);
    under(shim, &mut c);
    c
}

fn under<'a>(shim: &str, c: &'a mut Command) -> &'a mut Command {
    if !shim.is_empty() {
        c.env("SHIM", shim).env("LD_PRELOAD", std::env::var("DEMO_SHIM").unwrap());
    }
    c
}

pub fn out_text(o: &Output) -> String {
    String::from_utf8_lossy(&o.stdout).into_owned()
}

pub fn feed(mut c: Command, input: &[u8]) -> Output {
    use std::io::Write;
    let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let mut i = ch.stdin.take().unwrap();
    let b = input.to_vec();
    let h = std::thread::spawn(move || {
        let _ = i.write_all(&b);
    });
    let o = ch.wait_with_output().unwrap();
    h.join().unwrap();
    o
}
