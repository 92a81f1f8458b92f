//! The operations of the real code that simulated processes perform, and the
//! comparison of what they leave with the reference model.
use crate::model::*;
use crate::os::vfs::Image;
use crate::os::{End, Ev, Plan, Report};
use crate::proc::{self, Cli, Outcome};
use crate::rng::{mix, Rng};
use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
use lindera_core::mode::{Mode, Penalty};
use lindera_core::LinderaResult;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryConfig, DictionaryLoader, UserDictionaryConfig};
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilter};
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilter};
use lindera_tokenizer::tokenizer::{Tokenizer, TokenizerConfig};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub const FILES: [&str; 7] = ["char_def.bin", "unk.bin", "dict.da", "dict.vals", "dict.words", "dict.wordsidx", "matrix.mtx"];

/// What an operation gave its caller.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Res<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Res<T> {
    pub fn word(&self) -> String {
        match self {
            Res::Ok(_) => "success".into(),
            Res::Err(e) => format!("error ({})", e.chars().take(160).collect::<String>()),
            Res::Panic(p) => format!("panic ({})", p.chars().take(200).collect::<String>()),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Err(_))
    }
}

/// What became of a simulated process that performed an operation.
#[derive(Clone, Debug, PartialEq)]
pub enum Fate<T> {
    Res(Res<T>),
    Ended(End),
    Crashed(String),
}
impl<T> Fate<T> {
    pub fn word(&self) -> String {
        match self {
            Fate::Res(r) => r.word(),
            Fate::Ended(e) => format!("{e:?}"),
            Fate::Crashed(c) => format!("crash ({c})"),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Fate::Res(Res::Ok(_)))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Fate::Res(Res::Err(_)))
    }
    /// A panic, or the death of the process by itself.
    pub fn broke(&self) -> bool {
        matches!(self, Fate::Res(Res::Panic(_)) | Fate::Crashed(_))
    }
    pub fn stuck(&self) -> bool {
        matches!(self, Fate::Ended(End::Deadlock | End::StepLimit | End::EventLimit))
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("LSIM_PANICS").is_some() {
            crate::os::raw::eprint(&format!("PANIC {at}: {m}\n"));
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{at}: {m}"));
    }));
}

/// Runs `f` in a thread of its own; a panic is a result.
pub fn guarded<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    let h = std::thread::spawn(move || {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
    });
    match h.join() {
        Ok(r) => r,
        Err(_) => Err("thread died".into()),
    }
}

/// The same without a thread.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn to_res<T>(r: Result<LinderaResult<T>, String>) -> Res<T> {
    match r {
        Ok(Ok(t)) => Res::Ok(t),
        Ok(Err(e)) => Res::Err(e.to_string()),
        Err(p) => Res::Panic(p),
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Tok {
    pub text: String,
    pub start: usize,
    pub end: usize,
    pub position: usize,
    pub position_length: usize,
    pub word: u32,
    pub system: bool,
    pub details: Vec<String>,
}
pub type Toks = Res<Vec<Tok>>;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize, Default)]
pub enum TokMode {
    #[default]
    Normal,
    Decompose,
    /// Low thresholds, so that short words are split too.
    Split,
    /// Kanji threshold and penalty, other threshold and penalty.
    Costs(usize, i32, usize, i32),
}
impl TokMode {
    pub fn any(rng: &mut Rng) -> TokMode {
        let bound = |rng: &mut Rng| *rng.pick(&[0, 0, 1, 1, 2, 3, 5, 7, 100]);
        let cost = |rng: &mut Rng| *rng.pick(&[0, 1, 800, 1700, 3000, 9000, -300]);
        match rng.below(6) {
            0 | 1 => TokMode::Normal,
            2 => TokMode::Decompose,
            3 => TokMode::Split,
            _ => TokMode::Costs(bound(rng), cost(rng), bound(rng), cost(rng)),
        }
    }
    pub fn mode(self) -> Mode {
        match self {
            TokMode::Normal => Mode::Normal,
            TokMode::Decompose => Mode::Decompose(Penalty::default()),
            TokMode::Split => Mode::Decompose(Penalty {
                kanji_penalty_length_threshold: 1,
                kanji_penalty_length_penalty: 5000,
                other_penalty_length_threshold: 1,
                other_penalty_length_penalty: 4000,
            }),
            TokMode::Costs(a, b, c, d) => Mode::Decompose(Penalty {
                kanji_penalty_length_threshold: a,
                kanji_penalty_length_penalty: b,
                other_penalty_length_threshold: c,
                other_penalty_length_penalty: d,
            }),
        }
    }
}

/// Where an analysis finds its files and what it does. A `dict` of "kind:<name>" is embedded.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Setup {
    pub dict: String,
    pub user: Option<(String, Option<Kind>)>,
    pub mode: TokMode,
    /// Number of a built-in filter set.
    pub filters: u32,
    /// Analyzer read from this configuration file.
    pub config_file: Option<String>,
    /// With the filters that fail on marked texts.
    pub failing: bool,
    /// Generated filters instead of a built-in set: kinds and arguments (JSON).
    #[serde(default)]
    pub custom: Option<(Filters, Filters)>,
    /// How an analyzer is assembled from parts: 0 loaders, 1 command line flags,
    /// 2 the filters' own constructors.
    #[serde(default)]
    pub way: u32,
}
pub type Filters = Vec<(String, String)>;

pub const FILTER_SETS: u32 = 6;

/// Character and token filters as configuration values.
pub fn filter_set(n: u32, kind: Kind) -> (Vec<serde_json::Value>, Vec<serde_json::Value>) {
    use serde_json::json;
    let iter = json!({"kind":"japanese_iteration_mark","args":{"normalize_kanji":true,"normalize_kana":true}});
    let map = json!({"kind":"mapping","args":{"mapping":{"１":"1","２":"2","ｱ":"ア","大学":"大","é":"e"}}});
    let nfkc = json!({"kind":"unicode_normalize","args":{"kind":"nfkc"}});
    let re = json!({"kind":"regex","args":{"pattern":"a+","replacement":"b"}});
    let lower = json!({"kind":"lowercase","args":{}});
    let upper = json!({"kind":"uppercase","args":{}});
    let len = json!({"kind":"length","args":{"min":1,"max":4}});
    let stop = json!({"kind":"stop_words","args":{"words":["の","は","a"]}});
    let keep = json!({"kind":"keep_words","args":{"words":["東","京","東京","日","本","一","a","大"]}});
    let jp_kind = match kind {
        Kind::Neologd => "ipadic-neologd",
        Kind::Unidic => "unidic",
        _ => "ipadic",
    };
    let compound = json!({"kind":"japanese_compound_word","args":{"kind":jp_kind,"tags":["名詞","名詞,数","記号"]}});
    let number = json!({"kind":"japanese_number","args":{"tags":["名詞","名詞,数"]}});
    let stem = json!({"kind":"japanese_katakana_stem","args":{"min":2}});
    let kana = json!({"kind":"japanese_kana","args":{"kind":"katakana"}});
    let stags = json!({"kind":"japanese_stop_tags","args":{"tags":["助詞","記号"]}});
    let ktags = json!({"kind":"japanese_keep_tags","args":{"tags":["名詞","動詞"]}});
    let tmap = json!({"kind":"mapping","args":{"mapping":{"東":"西","C":"c"}}});
    match n % FILTER_SETS {
        0 => (vec![], vec![]),
        1 => (vec![nfkc, iter], vec![lower, len]),
        2 => (vec![map, re], vec![upper, stop]),
        3 => (vec![nfkc.clone(), map], vec![compound, stem, tmap]),
        4 => (vec![iter, re], vec![number, kana, stags]),
        _ => (vec![map], vec![ktags, keep]),
    }
}

/// The filters of a setup as configuration values.
pub fn filters_of(s: &Setup, kind: Kind) -> (Vec<serde_json::Value>, Vec<serde_json::Value>) {
    let Some((c, t)) = &s.custom else { return filter_set(s.filters, kind) };
    let val = |v: &Filters| {
        v.iter()
            .map(|(k, a)| serde_json::json!({"kind": k, "args": serde_json::from_str::<serde_json::Value>(a).unwrap()}))
            .collect()
    };
    (val(c), val(t))
}

/// Any filters in any order, with arguments that match what the dictionary holds.
pub fn gen_chain(rng: &mut Rng, src: &SysSrc) -> (Filters, Filters) {
    use serde_json::{json, Map, Value};
    let words: Vec<&Row> = src.files.iter().flat_map(|f| f.rows.iter()).take(400).collect();
    let chars = ["東", "京", "大", "学", "日", "あ", "い", "の", "ア", "ー", "a", "b", "C", "1", "2", "é", "１", "ｱ", "한", "국", "鬱", "々", "😀"];
    fn piece(rng: &mut Rng, words: &[&Row], chars: &[&str]) -> String {
        match rng.below(4) {
            0 if !words.is_empty() => rng.pick(words).surface.clone(),
            1 => format!("{}{}", rng.pick(chars), rng.pick(chars)),
            2 => format!("{}{}{}", rng.pick(chars), rng.pick(chars), rng.pick(chars)),
            _ => rng.pick(chars).to_string(),
        }
    }
    // now and then long lists
    let long = rng.chance(1, 6);
    let map = |rng: &mut Rng| {
        let mut m = Map::new();
        for _ in 0..rng.range(1, if long { 80 } else { 12 }) {
            let k = piece(rng, &words, &chars);
            if k.is_empty() {
                continue;
            }
            let v = if rng.chance(1, 6) { String::new() } else { piece(rng, &words, &chars) };
            // overlapping keys: prefixes of each other
            if rng.chance(1, 3) {
                m.insert(format!("{k}{}", rng.pick(&chars)), json!(piece(rng, &words, &chars)));
            }
            m.insert(k, json!(v));
        }
        m.insert("ｱ".into(), json!("ア"));
        json!({"mapping": Value::Object(m)}).to_string()
    };
    let list = |rng: &mut Rng, n: i64| {
        let mut v: Vec<String> = vec![];
        for _ in 0..rng.range(1, if long { 70 } else { n }) {
            v.push(piece(rng, &words, &chars));
        }
        v
    };
    let tags = |rng: &mut Rng, n: i64| {
        let mut v: Vec<String> = vec![];
        for _ in 0..rng.range(1, if long { 70 } else { n }) {
            let t = match rng.below(4) {
                0 => (*rng.pick(&["名詞", "動詞", "助詞", "記号", "接頭詞", "UNK", "*"])).to_string(),
                1 => (*rng.pick(&["名詞,数", "名詞,*", "助詞,格助詞", "名詞,*,*,*", "名詞,接尾"])).to_string(),
                _ if !words.is_empty() => {
                    let r = rng.pick(&words);
                    let n = 1 + rng.below(4) as usize;
                    r.details.iter().take(n).cloned().collect::<Vec<_>>().join(",").split(',').take(4).collect::<Vec<_>>().join(",")
                }
                _ => "名詞".into(),
            };
            v.push(t);
        }
        v
    };
    let jp = match src.kind {
        Kind::Neologd => "ipadic-neologd",
        Kind::Unidic => "unidic",
        _ => "ipadic",
    };
    let mut cs: Filters = vec![];
    let (most_c, most_t) = if rng.chance(1, 14) { (14, 20) } else { (4, 6) };
    for _ in 0..rng.below(most_c) {
        let (k, a) = match rng.below(5) {
            0 => ("japanese_iteration_mark", json!({"normalize_kanji": rng.chance(2, 3), "normalize_kana": rng.chance(2, 3)}).to_string()),
            1 | 2 if cs.iter().filter(|c| c.0 == "mapping").count() < 3 => ("mapping", map(rng)),
            3 => {
                let (p, r) = *rng.pick(&[("a+", "b"), ("[0-9]+", "0"), ("大学|東京", "都"), ("(.)ー", "$1"), ("\\s{1,}", " "), ("[あ-ん]", ""), ("x", "xyz")]);
                ("regex", json!({"pattern": p, "replacement": r}).to_string())
            }
            _ => ("unicode_normalize", json!({"kind": rng.pick(&["nfc", "nfd", "nfkc", "nfkd"])}).to_string()),
        };
        cs.push((k.into(), a));
    }
    let mut ts: Filters = vec![];
    for _ in 0..rng.below(most_t) {
        let (k, a) = match rng.below(18) {
            0 => ("japanese_base_form", json!({"kind": jp}).to_string()),
            1 | 2 => {
                let mut a = json!({"kind": jp, "tags": tags(rng, 4)});
                if rng.chance(1, 2) {
                    a["new_tag"] = json!(*rng.pick(&["複合語", "複合,名詞", "x"]));
                }
                ("japanese_compound_word", a.to_string())
            }
            3 => ("japanese_kana", json!({"kind": rng.pick(&["hiragana", "katakana"])}).to_string()),
            4 => ("japanese_katakana_stem", json!({"min": rng.range(1, 4)}).to_string()),
            5 => ("japanese_keep_tags", json!({"tags": tags(rng, 8)}).to_string()),
            6 => ("japanese_number", if rng.chance(1, 2) { json!({"tags": tags(rng, 4)}) } else { json!({}) }.to_string()),
            7 => ("japanese_reading_form", json!({"kind": jp}).to_string()),
            8 => ("japanese_stop_tags", json!({"tags": tags(rng, 4)}).to_string()),
            9 => ("keep_words", json!({"words": list(rng, 20)}).to_string()),
            10 => ("korean_keep_tags", json!({"tags": tags(rng, 8)}).to_string()),
            11 => ("korean_reading_form", json!({}).to_string()),
            12 => ("korean_stop_tags", json!({"tags": tags(rng, 4)}).to_string()),
            13 => {
                let mut a = json!({});
                if rng.chance(1, 2) {
                    a["min"] = json!(rng.range(0, 3));
                }
                if rng.chance(1, 2) {
                    a["max"] = json!(rng.range(1, 6));
                }
                ("length", a.to_string())
            }
            14 => ("lowercase", "{}".to_string()),
            15 if ts.iter().filter(|c| c.0 == "mapping").count() < 3 => ("mapping", map(rng)),
            16 => ("stop_words", json!({"words": list(rng, 12)}).to_string()),
            _ => ("uppercase", "{}".to_string()),
        };
        ts.push((k.into(), a));
    }
    (cs, ts)
}

pub const POISON: &str = "✗";
/// A text on which a user's filter panics.
pub const PANIC_MARK: &str = "✘";

/// A user's filter that rejects marked texts.
#[derive(Clone)]
struct FailChar;
impl CharacterFilter for FailChar {
    fn name(&self) -> &str {
        "fail_char"
    }
    fn apply(&self, text: &str) -> LinderaResult<(String, Vec<usize>, Vec<i64>)> {
        if text.starts_with(POISON) {
            return Err(lindera_core::error::LinderaErrorKind::Content.with_error(anyhow::anyhow!("rejected")));
        }
        Ok((text.to_string(), vec![], vec![]))
    }
}
#[derive(Clone)]
struct FailTok;
impl TokenFilter for FailTok {
    fn name(&self) -> &str {
        "fail_tok"
    }
    fn apply(&self, tokens: &mut Vec<lindera_filter::token::Token>) -> LinderaResult<()> {
        if tokens.iter().any(|t| t.text.contains(PANIC_MARK)) {
            panic!("a user's filter panics");
        }
        if tokens.iter().any(|t| t.text.contains(POISON)) {
            // in the middle of its work
            if let Some(t) = tokens.first_mut() {
                t.text.push_str("broken");
            }
            return Err(lindera_core::error::LinderaErrorKind::Content.with_error(anyhow::anyhow!("rejected")));
        }
        Ok(())
    }
}

/// A character filter from its kind and arguments.
fn char_filter(way: u32, kind: &str, args: &serde_json::Value) -> LinderaResult<BoxCharacterFilter> {
    use lindera_filter::character_filter::*;
    let bytes = args.to_string().into_bytes();
    Ok(match (way, kind) {
        (1, _) => CharacterFilterLoader::load_from_cli_flag(&format!("{kind}:{args}"))?,
        (2, "japanese_iteration_mark") => BoxCharacterFilter::from(japanese_iteration_mark::JapaneseIterationMarkCharacterFilter::from_slice(&bytes)?),
        (2, "mapping") => BoxCharacterFilter::from(mapping::MappingCharacterFilter::from_slice(&bytes)?),
        (2, "regex") => BoxCharacterFilter::from(regex::RegexCharacterFilter::from_slice(&bytes)?),
        (2, "unicode_normalize") => BoxCharacterFilter::from(unicode_normalize::UnicodeNormalizeCharacterFilter::from_slice(&bytes)?),
        _ => CharacterFilterLoader::load_from_value(kind, args)?,
    })
}

/// A token filter from its kind and arguments.
fn token_filter(way: u32, kind: &str, args: &serde_json::Value) -> LinderaResult<BoxTokenFilter> {
    use lindera_filter::token_filter::*;
    let bytes = args.to_string().into_bytes();
    Ok(match (way, kind) {
        (1, _) => TokenFilterLoader::load_from_cli_flag(&format!("{kind}:{args}"))?,
        (2, "japanese_base_form") => BoxTokenFilter::from(japanese_base_form::JapaneseBaseFormTokenFilter::from_slice(&bytes)?),
        (2, "japanese_compound_word") => BoxTokenFilter::from(japanese_compound_word::JapaneseCompoundWordTokenFilter::from_slice(&bytes)?),
        (2, "japanese_kana") => BoxTokenFilter::from(japanese_kana::JapaneseKanaTokenFilter::from_slice(&bytes)?),
        (2, "japanese_katakana_stem") => BoxTokenFilter::from(japanese_katakana_stem::JapaneseKatakanaStemTokenFilter::from_slice(&bytes)?),
        (2, "japanese_keep_tags") => BoxTokenFilter::from(japanese_keep_tags::JapaneseKeepTagsTokenFilter::from_slice(&bytes)?),
        (2, "japanese_number") => BoxTokenFilter::from(japanese_number::JapaneseNumberTokenFilter::from_slice(&bytes)?),
        (2, "japanese_reading_form") => BoxTokenFilter::from(japanese_reading_form::JapaneseReadingFormTokenFilter::from_slice(&bytes)?),
        (2, "japanese_stop_tags") => BoxTokenFilter::from(japanese_stop_tags::JapaneseStopTagsTokenFilter::from_slice(&bytes)?),
        (2, "keep_words") => BoxTokenFilter::from(keep_words::KeepWordsTokenFilter::from_slice(&bytes)?),
        (2, "korean_keep_tags") => BoxTokenFilter::from(korean_keep_tags::KoreanKeepTagsTokenFilter::from_slice(&bytes)?),
        (2, "korean_stop_tags") => BoxTokenFilter::from(korean_stop_tags::KoreanStopTagsTokenFilter::from_slice(&bytes)?),
        (2, "length") => BoxTokenFilter::from(length::LengthTokenFilter::from_slice(&bytes)?),
        (2, "mapping") => BoxTokenFilter::from(mapping::MappingTokenFilter::from_slice(&bytes)?),
        (2, "stop_words") => BoxTokenFilter::from(stop_words::StopWordsTokenFilter::from_slice(&bytes)?),
        (2, "korean_reading_form") => BoxTokenFilter::from(korean_reading_form::KoreanReadingFormTokenFilter::new()),
        (2, "lowercase") => BoxTokenFilter::from(lowercase::LowercaseTokenFilter::new()),
        (2, "uppercase") => BoxTokenFilter::from(uppercase::UppercaseTokenFilter::new()),
        _ => TokenFilterLoader::load_from_value(kind, args)?,
    })
}

impl Setup {
    pub fn config_json(&self, kind: Kind) -> String {
        use serde_json::json;
        let (cf, tf) = filters_of(self, kind);
        let mode = match self.mode {
            TokMode::Normal => json!("normal"),
            _ => serde_json::to_value(self.mode.mode()).unwrap(),
        };
        let mut tok = match self.dict.strip_prefix("kind:") {
            Some(k) => json!({"dictionary":{"kind": k}}),
            None => json!({"dictionary":{"path": self.dict}}),
        };
        // "normal" is also what a configuration without a mode gives
        if self.mode != TokMode::Normal || self.way == 0 {
            tok["mode"] = mode;
        }
        if let Some((p, k)) = &self.user {
            let mut u = json!({"path": p});
            if let Some(k) = k {
                u["kind"] = json!(k.name());
            }
            tok["user_dictionary"] = u;
        }
        json!({"character_filters": cf, "tokenizer": tok, "token_filters": tf}).to_string()
    }

    pub fn tokenizer(&self) -> LinderaResult<Tokenizer> {
        Tokenizer::from_config(TokenizerConfig {
            dictionary: match self.dict.strip_prefix("kind:") {
                Some(k) => DictionaryConfig { kind: k.parse().ok(), path: None },
                None => DictionaryConfig { kind: None, path: Some(PathBuf::from(&self.dict)) },
            },
            user_dictionary: self.user.as_ref().map(|(p, k)| UserDictionaryConfig {
                path: PathBuf::from(p),
                kind: k.map(|k| k.lindera()),
            }),
            mode: self.mode.mode(),
        })
    }

    pub fn analyzer(&self, kind: Kind) -> LinderaResult<Analyzer> {
        let mut a = match &self.config_file {
            Some(f) => {
                Analyzer::from_config(&AnalyzerConfig::from_file(Path::new(f))?)?
            }
            None => {
                let (cf, tf) = filters_of(self, kind);
                let mut cs: Vec<BoxCharacterFilter> = vec![];
                for c in cf {
                    cs.push(char_filter(self.way, c["kind"].as_str().unwrap(), &c["args"])?);
                }
                let mut ts: Vec<BoxTokenFilter> = vec![];
                for t in tf {
                    ts.push(token_filter(self.way, t["kind"].as_str().unwrap(), &t["args"])?);
                }
                Analyzer::new(cs, self.tokenizer()?, ts)
            }
        };
        if self.failing {
            a.character_filters.insert(0, BoxCharacterFilter::from(FailChar));
            a.token_filters.push(BoxTokenFilter::from(FailTok));
        }
        Ok(a)
    }
}

pub fn analyze_one(a: &Analyzer, text: &str) -> Toks {
    to_res(caught(|| {
        a.analyze(text).map(|v| {
            v.into_iter()
                .map(|t| Tok {
                    text: t.text,
                    start: t.byte_start,
                    end: t.byte_end,
                    position: t.position,
                    position_length: t.position_length,
                    word: t.word_id.0,
                    system: t.word_id.1,
                    details: t.details,
                })
                .collect()
        })
    }))
}

pub fn tokenize_one(a: &Tokenizer, text: &str) -> Toks {
    to_res(caught(|| {
        a.tokenize(text).map(|v| {
            v.into_iter()
                .map(|mut t| Tok {
                    text: t.text.to_string(),
                    start: t.byte_start,
                    end: t.byte_end,
                    position: t.position,
                    position_length: t.position_length,
                    word: t.word_id.0,
                    system: t.word_id.1,
                    details: t.get_details().map(|d| d.iter().map(|s| s.to_string()).collect()).unwrap_or_default(),
                })
                .collect()
        })
    }))
}

pub fn build_sys(kind: Kind, input: &str, output: &str) -> Res<()> {
    let (i, o) = (input.to_string(), output.to_string());
    to_res(guarded(move || {
        DictionaryBuilderResolver::resolve_builder(kind.lindera())?.build_dictionary(Path::new(&i), Path::new(&o))
    }))
}
pub fn build_user(kind: Kind, input: &str, output: &str) -> Res<()> {
    let (i, o) = (input.to_string(), output.to_string());
    to_res(guarded(move || {
        DictionaryBuilderResolver::resolve_builder(kind.lindera())?.build_user_dictionary(Path::new(&i), Path::new(&o))
    }))
}

struct Bad(Vec<String>);
impl Bad {
    fn add(&mut self, s: impl FnOnce() -> String) {
        if self.0.len() < 4 {
            self.0.push(s());
        }
    }
}

/// Strings to look up: every surface, and every surface with more behind it.
fn queries(m: &BTreeMap<String, Vec<Entry>>, cap: usize) -> Vec<String> {
    let mut q: Vec<String> = vec!["zzz".into(), "鬱".into(), "東京都大学".into()];
    let step = (m.len() / cap).max(1);
    let mut prev = String::new();
    for (i, s) in m.keys().enumerate() {
        if i % step == 0 {
            q.push(s.clone());
            q.push(format!("{s}{prev}"));
            let mut t = s.clone();
            t.pop();
            if !t.is_empty() {
                q.push(t);
            }
            prev = s.clone();
        }
    }
    q
}

fn check_words(
    bad: &mut Bad,
    want: &BTreeMap<String, Vec<Entry>>,
    exact: bool,
    find: &dyn Fn(&str) -> Vec<(u32, bool, Entry)>,
    prefix: &dyn Fn(&str) -> Vec<(usize, Entry)>,
    system: bool,
) {
    let mut ids: BTreeSet<u32> = BTreeSet::new();
    for (s, w) in want {
        let got = find(s);
        for (id, sys, _) in &got {
            if *sys != system {
                bad.add(|| format!("word {s:?}: marked {}", if *sys { "system" } else { "user" }));
            }
            if !ids.insert(*id) {
                bad.add(|| format!("word id {id} of {s:?} is used twice"));
            }
        }
        let mut g: Vec<Entry> = got.into_iter().map(|x| x.2).collect();
        g.sort();
        if exact {
            if g != *w {
                let (a, b) = (short(&g), short(w));
                bad.add(|| format!("word {s:?}: dictionary has {a}, source has {b}"));
            }
        } else {
            // every row of the source is there
            let mut left = g.clone();
            for e in w {
                match left.iter().position(|x| x == e) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => {
                        let a = short(&g);
                        bad.add(|| format!("word {s:?}: row {e:?} is missing, dictionary has {a}"));
                    }
                }
            }
        }
        if bad.0.len() >= 4 {
            return;
        }
    }
    if !exact {
        return;
    }
    for q in queries(want, 1500) {
        let mut got = prefix(&q);
        got.sort();
        let mut w: Vec<(usize, Entry)> = vec![];
        for (i, c) in q.char_indices() {
            let end = i + c.len_utf8();
            if let Some(es) = want.get(&q[..end]) {
                w.extend(es.iter().map(|e| (end, e.clone())));
            }
        }
        w.sort();
        if got != w {
            bad.add(|| format!("prefixes of {q:?}: dictionary gives {} entries, source {}", got.len(), w.len()));
        }
        if bad.0.len() >= 4 {
            return;
        }
    }
}
fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "…"
    } else {
        s
    }
}

/// How much of a source must be in the dictionary.
#[derive(Clone, Copy, PartialEq)]
pub enum Extent {
    Exact,
    /// Rows, costs and so on may be added, none may be missing or different.
    AtLeast,
}

/// Loads the compiled dictionary through the public API and compares it with its
/// source. Differences come back as words.
pub fn verify_sys(src: &SysSrc, dir: &str, ext: Extent) -> Res<Vec<String>> {
    let src = src.clone();
    let dir = dir.to_string();
    to_res(guarded(move || Ok(differences_sys(&src, &DictionaryLoader::load_dictionary(PathBuf::from(&dir))?, ext))))
}

pub fn differences_sys(src: &SysSrc, d: &lindera_core::dictionary::Dictionary, ext: Extent) -> Vec<String> {
    {
        let mut bad = Bad(vec![]);
        let want = src.entries();
        let det = |id: u32| d.word_details(id as usize).unwrap_or_else(|| vec!["<no details>".into()]);
        check_words(
            &mut bad,
            &want,
            ext == Extent::Exact,
            &|s| {
                d.dict
                    .find_surface(s)
                    .into_iter()
                    .map(|e| (e.word_id.0, e.word_id.1, (e.left_id, e.right_id, e.word_cost, det(e.word_id.0))))
                    .collect()
            },
            &|s| d.dict.prefix(s).map(|(n, e)| (n, (e.left_id, e.right_id, e.word_cost, det(e.word_id.0)))).collect(),
            true,
        );
        let costs = src.cost();
        if ext == Extent::Exact {
            for f in 0..src.fwd {
                for b in 0..src.bwd {
                    let w = costs.get(&(f, b)).copied().unwrap_or(i16::MAX) as i32;
                    let g = d.cost_matrix.cost(f, b);
                    if g != w {
                        bad.add(|| format!("connection cost ({f},{b}): {g}, source has {w}"));
                    }
                }
            }
            let mut chars: BTreeSet<u32> = [0u32, 0x20, 0x41, 0x3042, 0x4e00, 0x4e8c, 0xac00, 0xfffd, 0x1f600, 0x10ffff].into();
            for (a, b, _) in &src.ranges {
                chars.extend([a.saturating_sub(1), *a, *a + 1, *b, *b + 1, (*a + *b) / 2]);
            }
            for c in chars.into_iter().filter_map(char::from_u32) {
                let g: Vec<&str> =
                    d.char_definitions.lookup_categories(c).iter().map(|k| d.char_definitions.category_name(*k)).collect();
                let w: Vec<&str> = src.categories(c as u32).iter().map(|k| src.cats[*k].name.as_str()).collect();
                if g != w {
                    let (g, w) = (short(&g), short(&w));
                    bad.add(|| format!("classes of {c:?}: {g}, source has {w}"));
                }
            }
            let unk_by: BTreeMap<&str, Vec<(u16, u16, i16)>> = src.cats.iter().enumerate().fold(BTreeMap::new(), |mut m, (i, c)| {
                m.insert(c.name.as_str(), src.unk.iter().filter(|u| u.0 == i).map(|u| (u.1, u.2, u.3)).collect());
                m
            });
            if d.char_definitions.categories().len() != src.cats.len() {
                bad.add(|| format!("{} character classes, source has {}", d.char_definitions.categories().len(), src.cats.len()));
            }
            for i in 0..d.char_definitions.categories().len() {
                let id = lindera_core::character_definition::CategoryId(i);
                let name = d.char_definitions.category_name(id).to_string();
                let def = d.char_definitions.lookup_definition(id);
                match src.cats.iter().find(|c| c.name == name) {
                    None => bad.add(|| format!("character class {name:?} is not in the source")),
                    Some(c) => {
                        if (def.invoke, def.group, def.length) != (c.invoke, c.group, c.length) {
                            bad.add(|| format!("character class {name}: {def:?}, source has {c:?}"));
                        }
                    }
                }
                let g: Vec<(u16, u16, i16)> = d
                    .unknown_dictionary
                    .lookup_word_ids(id)
                    .iter()
                    .map(|w| {
                        let e = d.unknown_dictionary.word_entry(*w);
                        (e.left_id, e.right_id, e.word_cost)
                    })
                    .collect();
                let (mut a, mut b) = (g, unk_by.get(name.as_str()).cloned().unwrap_or_default());
                a.sort();
                b.sort();
                if a != b {
                    bad.add(|| format!("unknown word entries of {name}: {a:?}, source has {b:?}"));
                }
            }
        } else {
            for ((f, b), w) in &costs {
                let g = d.cost_matrix.cost(*f, *b);
                if g != *w as i32 {
                    bad.add(|| format!("connection cost ({f},{b}): {g}, source has {w}"));
                }
            }
        }
        bad.0
    }
}

pub fn verify_user(src: &UserSrc, path: &str, ext: Extent) -> Res<Vec<String>> {
    let src = src.clone();
    let path = path.to_string();
    to_res(guarded(move || {
        let d = DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig {
            path: PathBuf::from(&path),
            kind: Some(src.kind.lindera()),
        })?;
        Ok(differences_user(&src, &d, ext))
    }))
}

pub fn differences_user(src: &UserSrc, d: &lindera_core::dictionary::UserDictionary, ext: Extent) -> Vec<String> {
    {
        let mut bad = Bad(vec![]);
        let det = |id: u32| d.word_details(id as usize).unwrap_or_else(|| vec!["<no details>".into()]);
        check_words(
            &mut bad,
            &src.entries(),
            ext == Extent::Exact,
            &|s| {
                d.dict
                    .find_surface(s)
                    .into_iter()
                    .map(|e| (e.word_id.0, e.word_id.1, (e.left_id, e.right_id, e.word_cost, det(e.word_id.0))))
                    .collect()
            },
            &|s| d.dict.prefix(s).map(|(n, e)| (n, (e.left_id, e.right_id, e.word_cost, det(e.word_id.0)))).collect(),
            false,
        );
        bad.0
    }
}

// ---- runs ----

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Stats {
    pub runs: u64,
    pub cli_runs: u64,
    pub groups: u64,
    pub cases: u64,
    pub skipped: u64,
    pub sim_ns: u64,
    pub events: u64,
    pub steps: u64,
    pub switches: u64,
    pub fired: BTreeMap<String, u64>,
    pub ends: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub hashes: BTreeSet<u64>,
    pub schedules: BTreeSet<u64>,
    pub max_threads: u32,
    pub reruns: u64,
    pub diverged: u64,
}
impl Stats {
    pub fn probe(&mut self, s: &str) {
        *self.probes.entry(s.to_string()).or_default() += 1;
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.cli_runs += o.cli_runs;
        self.groups += o.groups;
        self.cases += o.cases;
        self.skipped += o.skipped;
        self.sim_ns += o.sim_ns;
        self.events += o.events;
        self.steps += o.steps;
        self.switches += o.switches;
        for (k, v) in o.fired {
            *self.fired.entry(k).or_default() += v;
        }
        for (k, v) in o.ends {
            *self.ends.entry(k).or_default() += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_default() += v;
        }
        self.hashes.extend(o.hashes);
        self.schedules.extend(o.schedules);
        self.max_threads = self.max_threads.max(o.max_threads);
        self.reruns += o.reruns;
        self.diverged += o.diverged;
    }
}

pub struct World {
    pub cli: Cli,
    pub st: Stats,
    /// Digest of everything the runs since the last reset did.
    pub trail: u64,
    sys: HashMap<u64, Rc<Golden>>,
    user: HashMap<u64, Rc<Golden>>,
    pub toks: HashMap<u64, Rc<Vec<Toks>>>,
}

/// A fault-free run in a fresh process and what it left.
pub struct Golden {
    pub fate: Fate<()>,
    pub files: BTreeMap<String, Vec<u8>>,
    pub log: Vec<Ev>,
    pub steps: u64,
    pub events: u64,
    /// Differences from the source; None: it could not be loaded.
    pub diff: Option<Vec<String>>,
}

pub fn base_plan(seed: u64) -> Plan {
    Plan { seed, max_steps: 2_500_000_000, max_events: 2_000_000, ..Default::default() }
}
pub fn logged(mut p: Plan) -> Plan {
    p.keep_log = true;
    p
}

pub fn digest<T: Serialize>(t: &T) -> u64 {
    let b = bincode::serialize(t).unwrap();
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl World {
    pub fn new() -> World {
        World { cli: Cli::new(), st: Stats::default(), trail: 0, sys: HashMap::new(), user: HashMap::new(), toks: HashMap::new() }
    }
    pub fn forget(&mut self) {
        self.sys.clear();
        self.user.clear();
        self.toks.clear();
    }

    fn note(&mut self, r: &Report, end: &str) {
        let s = &mut self.st;
        s.runs += 1;
        s.sim_ns += r.clock_ns;
        s.events += r.events;
        s.steps += r.steps;
        s.switches += r.switches.len() as u64;
        for (k, v) in &r.fired {
            *s.fired.entry(k.clone()).or_default() += v;
        }
        *s.ends.entry(end.to_string()).or_default() += 1;
        s.hashes.insert(r.hash);
        if r.threads > 2 {
            s.schedules.insert(r.switch_hash);
        }
        s.max_threads = s.max_threads.max(r.threads);
        if std::env::var_os("LSIM_TRAIL").is_some() {
            eprintln!("TRAIL {} hash={:x} sw={:x} nsw={} ev={} steps={} out={:x}", end, r.hash, r.switch_hash, r.switches.len(), r.events, r.steps, digest(&r.out));
        }
        self.trail = mix(self.trail ^ r.hash, r.switch_hash ^ r.events ^ digest(&r.out));
    }

    /// A simulated process doing `body`.
    pub fn run<T: Serialize + DeserializeOwned>(&mut self, img: &Image, plan: &Plan, body: impl FnOnce() -> Res<T>) -> (Fate<T>, Report) {
        match proc::run(img, plan, body) {
            Outcome::Done(r, t) => {
                self.note(&r, match &t {
                    Res::Ok(_) => "success",
                    Res::Err(_) => "error",
                    Res::Panic(_) => "panic",
                });
                (Fate::Res(t), r)
            }
            // the end of a process that got no memory counts as an error it reported
            Outcome::Ended(End::Killed, r) if r.fired.contains_key("memory:abort") => {
                self.note(&r, "out of memory");
                (Fate::Res(Res::Err("out of memory".into())), r)
            }
            Outcome::Ended(e, r) => {
                self.note(&r, &format!("{e:?}"));
                (Fate::Ended(e), r)
            }
            Outcome::Crashed(c) => {
                let r = Report { image: img.clone(), ..Default::default() };
                self.note(&r, "crash");
                (Fate::Crashed(c), r)
            }
        }
    }

    /// The command line program; Ok(()) is exit 0.
    pub fn cli(&mut self, img: &Image, plan: &Plan, args: &[String]) -> (Fate<()>, Report) {
        self.program("lindera_cli_sim", &[], img, plan, args)
    }

    /// One of the real programs that are linked with the simulated system.
    pub fn program(&mut self, exe: &str, env: &[&str], img: &Image, plan: &Plan, args: &[String]) -> (Fate<()>, Report) {
        self.st.cli_runs += 1;
        let o = self.cli.run(exe, env, img, plan, args);
        match o {
            Outcome::Done(r, code) => {
                let f = if code == 0 {
                    Res::Ok(())
                } else if code == 101 {
                    Res::Panic(tail(&r.err))
                } else {
                    Res::Err(format!("exit {code}: {}", tail(&r.err)))
                };
                self.note(&r, match code {
                    0 => "exit 0",
                    101 => "exit 101 (panic)",
                    _ => "exit with error",
                });
                (Fate::Res(f), r)
            }
            // the end of a process that got no memory counts as an error it reported
            Outcome::Ended(End::Killed, r) if r.fired.contains_key("memory:abort") => {
                self.note(&r, "out of memory");
                (Fate::Res(Res::Err("out of memory".into())), r)
            }
            Outcome::Ended(e, r) => {
                self.note(&r, &format!("{e:?}"));
                (Fate::Ended(e), r)
            }
            Outcome::Crashed(c) => {
                let r = Report { image: img.clone(), ..Default::default() };
                self.note(&r, "crash");
                (Fate::Crashed(c), r)
            }
        }
    }

    /// Fault-free build of `src` from /src to /out, checked against the source.
    pub fn golden_sys(&mut self, src: &SysSrc) -> Rc<Golden> {
        let key = digest(src);
        if let Some(g) = self.sys.get(&key) {
            return g.clone();
        }
        let mut img = Image::new();
        src.put(&mut img, "/src");
        let kind = src.kind;
        let (fate, r) = self.run(&img, &logged(base_plan(1)), || build_sys(kind, "/src", "/out"));
        let files = out_files(&r.image, "/out");
        let mut diff = None;
        if fate.is_ok() {
            let (f, _) = self.run(&r.image, &base_plan(2), || verify_sys(src, "/out", Extent::Exact));
            diff = match f {
                Fate::Res(Res::Ok(d)) => Some(d),
                o => Some(vec![format!("loading it gives {}", o.word())]),
            };
        }
        let g = Rc::new(Golden { fate, files, log: r.log, steps: r.steps, events: r.events, diff });
        self.sys.insert(key, g.clone());
        g
    }

    pub fn golden_user(&mut self, src: &UserSrc) -> Rc<Golden> {
        let key = digest(src);
        if let Some(g) = self.user.get(&key) {
            return g.clone();
        }
        let mut img = Image::new();
        img.put("/usrc/user.csv", src.csv().as_bytes());
        let kind = src.kind;
        let (fate, r) = self.run(&img, &logged(base_plan(3)), || build_user(kind, "/usrc/user.csv", "/uout/user.bin"));
        let mut files = BTreeMap::new();
        if let Some(d) = r.image.get("/uout/user.bin") {
            files.insert("user.bin".to_string(), d.to_vec());
        }
        let mut diff = None;
        if fate.is_ok() {
            let (f, _) = self.run(&r.image, &base_plan(4), || verify_user(src, "/uout/user.bin", Extent::Exact));
            diff = match f {
                Fate::Res(Res::Ok(d)) => Some(d),
                o => Some(vec![format!("loading it gives {}", o.word())]),
            };
        }
        let g = Rc::new(Golden { fate, files, log: r.log, steps: r.steps, events: r.events, diff });
        self.user.insert(key, g.clone());
        g
    }

    /// Each text analysed by a process of its own (a few texts per process would share
    /// state; here nothing is shared).
    pub fn alone(&mut self, img: &Image, setup: &Setup, kind: Kind, texts: &[String], raw: bool) -> Rc<Vec<Toks>> {
        let key = digest(&(img, setup, texts, raw));
        if let Some(t) = self.toks.get(&key) {
            return t.clone();
        }
        let mut v: Vec<Toks> = vec![];
        let mut seen: HashMap<&String, usize> = HashMap::new();
        for t in texts {
            if let Some(i) = seen.get(t) {
                v.push(v[*i].clone());
                continue;
            }
            seen.insert(t, v.len());
            let (f, _) = self.run(img, &base_plan(5), || {
                let (s, t) = (setup.clone(), t.clone());
                to_res(guarded(move || {
                    if raw {
                        let k = s.tokenizer()?;
                        Ok(tokenize_one(&k, &t))
                    } else {
                        let a = s.analyzer(kind)?;
                        Ok(analyze_one(&a, &t))
                    }
                }))
            });
            v.push(match f {
                Fate::Res(Res::Ok(t)) => t,
                Fate::Res(Res::Err(e)) => Res::Err(format!("setup: {e}")),
                o => Res::Panic(o.word()),
            });
        }
        let v = Rc::new(v);
        self.toks.insert(key, v.clone());
        v
    }
}

pub fn tail(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    s.lines().filter(|l| !l.starts_with("note:")).collect::<Vec<_>>().join(" ").chars().take(300).collect()
}

/// The seven compiled files of a directory.
pub fn out_files(img: &Image, dir: &str) -> BTreeMap<String, Vec<u8>> {
    FILES.iter().filter_map(|f| img.get(&format!("{dir}/{f}")).map(|d| (f.to_string(), d.to_vec()))).collect()
}
pub fn put_files(img: &mut Image, dir: &str, files: &BTreeMap<String, Vec<u8>>) {
    img.mkdirs(dir);
    for (n, d) in files {
        img.put(&format!("{dir}/{n}"), d);
    }
}
