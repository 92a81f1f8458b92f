//! Does the simulated file system behave like a real one? Random operations of std::fs
//! are done in a simulated process and in a scratch directory, and must give the same.
//! Not part of any check: `lsim selftest [n]`.
use crate::os::vfs::Image;
use crate::os::Plan;
use crate::proc::{self, Outcome};
use crate::rng::Rng;
use std::fs::{self, File, OpenOptions};
use std::io::{BufRead, BufReader, BufWriter, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};

const NAMES: [&str; 12] = ["a", "b", "c", "d", "d/x", "d/y", "d/e", "d/e/z", "d/e/w", "f", "f/g", "no/where"];

fn kind<T: std::fmt::Debug>(r: std::io::Result<T>) -> String {
    match r {
        Ok(t) => format!("{t:?}"),
        Err(e) => format!("{:?} {:?}", e.kind(), e.raw_os_error()),
    }
}

fn list(p: &Path) -> std::io::Result<Vec<String>> {
    let mut v = vec![];
    for e in fs::read_dir(p)? {
        let e = e?;
        let t = e.file_type()?;
        let m = e.metadata()?;
        v.push(format!("{:?} {} {}", e.file_name(), t.is_dir(), if m.is_file() { m.len() } else { 0 }));
    }
    v.sort();
    Ok(v)
}

fn tree(p: &Path, at: &str, out: &mut Vec<String>) {
    let Ok(rd) = fs::read_dir(p) else { return };
    let mut es: Vec<_> = rd.filter_map(|e| e.ok()).collect();
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let n = format!("{at}/{}", e.file_name().to_string_lossy());
        if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
            out.push(format!("{n}/"));
            tree(&e.path(), &n, out);
        } else {
            out.push(format!("{n} {:?}", fs::read(e.path()).ok()));
        }
    }
}

fn script(root: PathBuf, seed: u64) -> Vec<String> {
    let mut rng = Rng::new(seed);
    let mut log = vec![];
    let mut held: Vec<File> = vec![];
    for _ in 0..rng.range(5, 60) {
        let name = *rng.pick(&NAMES);
        let other = *rng.pick(&NAMES);
        let (p, q) = (root.join(name), root.join(other));
        let data: Vec<u8> = (0..rng.below(40)).map(|_| rng.below(256) as u8).collect();
        let op = rng.below(34);
        let r = match op {
            0 | 1 => format!("write {name} {}", kind(fs::write(&p, &data))),
            2 => format!("read {name} {}", kind(fs::read(&p))),
            3 => format!("mkdir {name} {}", kind(fs::create_dir(&p))),
            4 => format!("mkdirs {name} {}", kind(fs::create_dir_all(&p))),
            5 => format!("rm {name} {}", kind(fs::remove_file(&p))),
            6 => format!("rmdir {name} {}", kind(fs::remove_dir(&p))),
            7 if rng.chance(1, 3) => format!("rmall {name} {}", kind(fs::remove_dir_all(&p))),
            8 | 9 => format!("rename {name} {other} {}", kind(fs::rename(&p, &q))),
            10 => format!("copy {name} {other} {}", kind(fs::copy(&p, &q))),
            11 => format!("link {name} {other} {}", kind(fs::hard_link(&p, &q))),
            12 | 13 => format!("list {name} {}", kind(list(&p))),
            14 => format!("stat {name} {}", kind(fs::metadata(&p).map(|m| (m.is_dir(), m.is_file(), if m.is_file() { m.len() } else { 0 })))),
            15 => format!("exists {name} {} {}", p.exists(), p.is_dir()),
            16 => {
                let c = fs::canonicalize(&p).map(|c| c.strip_prefix(&root).map(|x| x.to_path_buf()).unwrap_or(c));
                format!("canon {name} {}", kind(c))
            }
            17..=20 => {
                let mut o = OpenOptions::new();
                let bits = rng.below(64);
                o.read(bits & 1 > 0).write(bits & 2 > 0).append(bits & 4 > 0).truncate(bits & 8 > 0).create(bits & 16 > 0).create_new(bits & 32 > 0);
                match o.open(&p) {
                    Ok(f) => {
                        held.push(f);
                        format!("open {name} {bits} ok")
                    }
                    Err(e) => format!("open {name} {bits} {:?} {:?}", e.kind(), e.raw_os_error()),
                }
            }
            21..=29 if !held.is_empty() => {
                let i = rng.below(held.len() as u64) as usize;
                match op {
                    21 => format!("h{i} write {}", kind(held[i].write(&data))),
                    22 => {
                        let mut b = vec![0; rng.below(30) as usize];
                        let r = held[i].read(&mut b);
                        let n = *r.as_ref().unwrap_or(&0);
                        format!("h{i} read {} {:?}", kind(r), &b[..n])
                    }
                    // (where a directory can be sought is up to the file system)
                    23 if held[i].metadata().is_ok_and(|m| m.is_file()) => {
                        let to = match rng.below(3) {
                            0 => SeekFrom::Start(rng.below(60)),
                            1 => SeekFrom::Current(rng.range(-20, 20)),
                            _ => SeekFrom::End(rng.range(-20, 20)),
                        };
                        format!("h{i} seek {}", kind(held[i].seek(to)))
                    }
                    24 => format!("h{i} len {}", kind(held[i].set_len(rng.below(50)))),
                    25 => format!("h{i} stat {}", kind(held[i].metadata().map(|m| (m.is_dir(), if m.is_file() { m.len() } else { 0 })))),
                    26 => {
                        let r = held[i].try_clone();
                        let s = kind(r.as_ref().map(|_| ()).map_err(|e| std::io::Error::from(e.kind())));
                        held.extend(r);
                        format!("h{i} clone {s}")
                    }
                    27 => format!("h{i} sync {} {}", kind(held[i].sync_all()), kind(held[i].sync_data())),
                    28 => {
                        let mut s = vec![];
                        let r = held[i].read_to_end(&mut s);
                        format!("h{i} rest {} {s:?}", kind(r))
                    }
                    _ => {
                        held.remove(i);
                        format!("h{i} closed")
                    }
                }
            }
            30 => {
                let r = File::create(&p).and_then(|f| {
                    let mut w = BufWriter::with_capacity(8, f);
                    for b in data.chunks(3) {
                        w.write_all(b)?;
                    }
                    w.write_all(b"\nx\ny")?;
                    w.flush()
                });
                format!("bufwrite {name} {}", kind(r))
            }
            31 => format!("lines {name} {}", kind(File::open(&p).and_then(|f| BufReader::with_capacity(5, f).split(b'\n').collect::<Result<Vec<_>, _>>()))),
            32 => {
                let r = (|| {
                    let mut a = File::open(&p)?;
                    let mut b = File::create(&q)?;
                    std::io::copy(&mut a, &mut b)
                })();
                format!("iocopy {name} {other} {}", if name == other { String::new() } else { kind(r) })
            }
            33 => {
                let r = (|| {
                    let m = fs::metadata(&p)?.modified()?;
                    let n = fs::metadata(&q)?.modified()?;
                    Ok(n.duration_since(m).is_ok() || m.duration_since(n).is_ok())
                })();
                format!("times {name} {other} {}", kind(r))
            }
            _ => continue,
        };
        log.push(r);
    }
    let mut out = vec![];
    tree(&root, "", &mut out);
    log.push(out.join("\n"));
    log
}

pub fn main(n: u64) -> i32 {
    proc::setup_worker();
    let mut bad = 0;
    for seed in 0..n {
        let scratch = std::env::temp_dir().join(format!("lsim-selftest-{}-{seed}", std::process::id()));
        fs::create_dir_all(&scratch).unwrap();
        let scratch = fs::canonicalize(&scratch).unwrap();
        let real = script(scratch.clone(), seed);
        fs::remove_dir_all(&scratch).unwrap();
        let mut img = Image::new();
        img.mkdirs("/w");
        let mut plan = Plan { seed, ..Default::default() };
        plan.shuffle_dir = seed % 2 == 0;
        let sim = match proc::run(&img, &plan, || script("/w".into(), seed)) {
            Outcome::Done(_, v) => v,
            o => {
                println!("seed {seed}: {o:?}");
                bad += 1;
                continue;
            }
        };
        if real != sim {
            bad += 1;
            if bad < 12 {
                for (i, (a, b)) in real.iter().zip(&sim).enumerate() {
                    if std::env::var_os("LSIM_SCRIPT").is_some() {
                        println!("{i}: {a}\n      {b}");
                    }
                    if a != b {
                        println!("seed {seed} step {i}: real {a}\n                 sim  {b}");
                        break;
                    }
                }
            }
        }
    }
    println!("{n} scripts, {bad} differ");
    (bad > 0) as i32
}
