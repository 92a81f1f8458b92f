//! The simulated disk: an in-memory tree with, per file, the content that the last
//! fsync made durable.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct FileData {
    pub data: Vec<u8>,
    /// What survives a power cut for certain; None: never synced.
    pub synced: Option<Vec<u8>>,
    /// When it was last written (ns). Files that were there from the start are old, as
    /// unpacked from an archive.
    #[serde(default)]
    pub mtime: u64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Entry {
    Dir,
    File(u64),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Image {
    pub names: BTreeMap<String, Entry>,
    pub inodes: BTreeMap<u64, FileData>,
    pub next_ino: u64,
}

pub fn parent(p: &str) -> &str {
    match p.rfind('/') {
        Some(0) | None => "/",
        Some(i) => &p[..i],
    }
}

/// Absolute, without `.`, `..`, doubled or trailing slashes.
pub fn norm(p: &str) -> String {
    let mut parts: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    format!("/{}", parts.join("/"))
}

impl Image {
    pub fn new() -> Image {
        let mut i = Image::default();
        i.next_ino = 1;
        i.names.insert("/".into(), Entry::Dir);
        i
    }
    pub fn mkdirs(&mut self, p: &str) {
        let p = norm(p);
        let mut at = 0;
        while let Some(n) = p[at + 1..].find('/') {
            at = at + 1 + n;
            self.names.entry(p[..at].to_string()).or_insert(Entry::Dir);
        }
        self.names.entry(p).or_insert(Entry::Dir);
    }
    /// A file that was already there, safe on disk.
    pub fn put(&mut self, p: &str, data: &[u8]) {
        let p = norm(p);
        self.mkdirs(parent(&p));
        let ino = self.create(&p);
        let f = self.inodes.get_mut(&ino).unwrap();
        f.data = data.to_vec();
        f.synced = Some(data.to_vec());
        f.mtime = 1_500_000_000_000_000_000 + ino * 1_000_000_000;
    }
    pub fn create(&mut self, p: &str) -> u64 {
        if let Some(Entry::File(i)) = self.names.get(p) {
            return *i;
        }
        let ino = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(ino, FileData::default());
        self.names.insert(p.to_string(), Entry::File(ino));
        ino
    }
    pub fn get(&self, p: &str) -> Option<&[u8]> {
        match self.names.get(&norm(p)) {
            Some(Entry::File(i)) => self.inodes.get(i).map(|f| &f.data[..]),
            _ => None,
        }
    }
    pub fn remove(&mut self, p: &str) {
        if let Some(Entry::File(i)) = self.names.remove(&norm(p)) {
            self.inodes.remove(&i);
        }
    }
    pub fn remove_tree(&mut self, p: &str) {
        let p = norm(p);
        let pre = format!("{p}/");
        let victims: Vec<String> = self.names.keys().filter(|k| **k == p || k.starts_with(&pre)).cloned().collect();
        for v in victims {
            if let Some(Entry::File(i)) = self.names.remove(&v) {
                self.inodes.remove(&i);
            }
        }
    }
    /// Names directly in directory `p`.
    pub fn list(&self, p: &str) -> Vec<(String, Entry)> {
        let p = norm(p);
        let pre = if p == "/" { "/".to_string() } else { format!("{p}/") };
        self.names
            .range(pre.clone()..)
            .take_while(|(k, _)| k.starts_with(&pre))
            .filter(|(k, _)| k.len() > pre.len() && !k[pre.len()..].contains('/'))
            .map(|(k, e)| (k[pre.len()..].to_string(), *e))
            .collect()
    }
    pub fn total(&self) -> u64 {
        self.inodes.values().map(|f| f.data.len() as u64).sum()
    }
    /// Path -> content of everything under `p` (directories as None).
    pub fn snapshot(&self, p: &str) -> BTreeMap<String, Option<Vec<u8>>> {
        let p = norm(p);
        let pre = if p == "/" { "/".to_string() } else { format!("{p}/") };
        self.names
            .iter()
            .filter(|(k, _)| **k == p || k.starts_with(&pre))
            .map(|(k, e)| {
                (
                    k.clone(),
                    match e {
                        Entry::Dir => None,
                        Entry::File(i) => self.inodes.get(i).map(|f| f.data.clone()),
                    },
                )
            })
            .collect()
    }
    /// A power cut on a file system that writes data before sizes: files not synced keep
    /// a first part of their data, all of it or none; never-synced names may vanish.
    pub fn power_tail(&mut self, rng: &mut Rng) {
        let names: Vec<(String, u64)> =
            self.names.iter().filter_map(|(n, e)| if let Entry::File(i) = e { Some((n.clone(), *i)) } else { None }).collect();
        for (name, ino) in names {
            let Some(f) = self.inodes.get_mut(&ino) else { continue };
            if f.synced.as_ref() == Some(&f.data) {
                continue;
            }
            let n = f.data.len() as u64;
            let keep = match rng.below(8) {
                0..=2 => n,
                3 | 4 => 0,
                5 if f.synced.is_none() => {
                    self.names.remove(&name);
                    self.inodes.remove(&ino);
                    continue;
                }
                6 => n / 512 * 512 - (n / 512).min(rng.below(3)) * 512,
                _ => rng.below(n + 1),
            };
            f.data.truncate(keep as usize);
            f.synced = Some(f.data.clone());
        }
    }
    /// What a power cut may leave of data that no fsync covered: per file one of
    /// everything, nothing, the old content, or a random mix of pages (old or zero where
    /// the new page did not reach the disk); never-synced names may vanish.
    pub fn power_loss(&mut self, rng: &mut Rng) {
        let names: Vec<(String, u64)> =
            self.names.iter().filter_map(|(n, e)| if let Entry::File(i) = e { Some((n.clone(), *i)) } else { None }).collect();
        for (name, ino) in names {
            let Some(f) = self.inodes.get_mut(&ino) else {
                self.names.remove(&name);
                continue;
            };
            if f.synced.as_ref() == Some(&f.data) {
                continue;
            }
            let old = f.synced.clone();
            match rng.below(6) {
                0 => {} // all of it had reached the disk
                1 => match old {
                    Some(o) => f.data = o,
                    None => {
                        self.names.remove(&name);
                        self.inodes.remove(&ino);
                        continue;
                    }
                },
                2 => f.data.clear(),
                3 => {
                    // size updated, data not: zeros
                    let n = f.data.len();
                    f.data = vec![0; n];
                }
                4 => {
                    let n = rng.below(f.data.len() as u64 + 1) as usize;
                    f.data.truncate(n);
                }
                _ => {
                    let new = f.data.clone();
                    let base = old.unwrap_or_default();
                    let page = *rng.pick(&[512usize, 4096]);
                    let mut out = vec![];
                    for (k, chunk) in new.chunks(page).enumerate() {
                        if rng.chance(1, 2) {
                            out.extend_from_slice(chunk);
                        } else {
                            for j in 0..chunk.len() {
                                out.push(base.get(k * page + j).copied().unwrap_or(0));
                            }
                        }
                    }
                    f.data = out;
                }
            }
            let d = f.data.clone();
            f.synced = Some(d);
        }
    }
}
