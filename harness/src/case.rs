//! One simulated execution, written out: everything a run needs, and the only input
//! of `exec`. A replay file is a case.
use crate::model::*;
use crate::os::{Dense, FaultKind, Plan};
use crate::world::{Setup, World};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Case {
    pub prop: String,
    pub scen: String,
    pub sys: Vec<SysSrc>,
    pub user: Vec<UserSrc>,
    pub texts: Vec<String>,
    pub plans: Vec<Plan>,
    pub n: BTreeMap<String, i64>,
    pub s: BTreeMap<String, String>,
    pub setups: Vec<Setup>,
    pub bytes: Vec<u8>,
    /// Per thread: (operation, analyzer, text).
    pub ops: Vec<Vec<(u8, u32, u32)>>,
}

impl Case {
    pub fn new(prop: &str, scen: &str) -> Case {
        Case { prop: prop.into(), scen: scen.into(), ..Default::default() }
    }
    pub fn int(&self, k: &str) -> i64 {
        self.n.get(k).copied().unwrap_or(0)
    }
    pub fn str(&self, k: &str) -> &str {
        self.s.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn with(mut self, k: &str, v: i64) -> Case {
        self.n.insert(k.into(), v);
        self
    }
    pub fn withs(mut self, k: &str, v: &str) -> Case {
        self.s.insert(k.into(), v.into());
        self
    }
    pub fn plan(mut self, p: Plan) -> Case {
        self.plans.push(p);
        self
    }
}

/// A broken property. `key` is the class that minimisation preserves and known
/// findings name.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    pub key: String,
    pub what: String,
}
pub fn viol(key: &str, what: String) -> Option<Viol> {
    Some(Viol { key: key.into(), what })
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub group: u64,
    pub violation: Viol,
    pub minimised: bool,
    pub case: Case,
    /// Digest of all events of the replayed runs.
    pub trail: u64,
}

pub type Exec = fn(&mut World, &Case) -> Option<Viol>;

/// Runs a case without anything remembered from other cases.
pub fn exec_fresh(w: &mut World, exec: Exec, c: &Case) -> (Option<Viol>, u64) {
    w.forget();
    w.trail = 0;
    let v = exec(w, c);
    (v, w.trail)
}

struct Min<'a> {
    w: &'a mut World,
    exec: Exec,
    key: String,
    best: Case,
    what: Viol,
    left: i64,
    until: std::time::Instant,
}
impl Min<'_> {
    fn try_case(&mut self, c: Case) -> bool {
        if self.left <= 0 || std::time::Instant::now() > self.until {
            return false;
        }
        self.left -= 1;
        self.w.forget();
        if let Some(v) = (self.exec)(self.w, &c) {
            if v.key == self.key {
                self.best = c;
                self.what = v;
                return true;
            }
        }
        false
    }
    fn over(&mut self) -> bool {
        if std::time::Instant::now() > self.until {
            self.left = 0;
        }
        self.left <= 0
    }
    fn edit(&mut self, f: impl FnOnce(&mut Case)) -> bool {
        if self.over() {
            return false;
        }
        let mut c = self.best.clone();
        f(&mut c);
        if bincode::serialize(&c).unwrap() == bincode::serialize(&self.best).unwrap() {
            return false;
        }
        self.try_case(c)
    }
    /// ddmin over one list.
    fn list<T: Clone>(&mut self, get: impl Fn(&mut Case) -> Option<&mut Vec<T>>, min: usize) {
        let len = |c: &mut Case| get(c).map(|v| v.len()).unwrap_or(0);
        let mut n = len(&mut self.best.clone());
        let mut chunk = (n / 2).max(1);
        while n > min && !self.over() {
            let mut at = 0;
            let mut any = false;
            while at < len(&mut self.best.clone()) && !self.over() {
                let have = len(&mut self.best.clone());
                let take = chunk.min(have - at);
                if have - take < min {
                    break;
                }
                let ok = self.edit(|c| {
                    if let Some(v) = get(c) {
                        v.drain(at..at + take);
                    }
                });
                if ok {
                    any = true;
                } else {
                    at += take;
                }
            }
            n = len(&mut self.best.clone());
            if chunk == 1 {
                if !any {
                    break;
                }
            } else {
                chunk = (chunk / 2).max(1);
            }
        }
    }
}

pub fn minimise(w: &mut World, exec: Exec, c: &Case, v: &Viol, secs: u64) -> (Case, Viol) {
    let mut m = Min {
        w,
        exec,
        key: v.key.clone(),
        best: c.clone(),
        what: v.clone(),
        left: 900,
        until: std::time::Instant::now() + std::time::Duration::from_secs(secs),
    };
    for round in 0..2 {
        for p in 0..m.best.plans.len() {
            m.edit(|c| {
                let s = &mut c.plans[p];
                s.max_read = 0;
                s.max_write = 0;
                s.eintr_open = 0;
                s.eintr_read = 0;
                s.eintr_write = 0;
                s.shuffle_dir = false;
                s.slow = 0;
            });
            m.edit(|c| c.plans[p].max_read = 0);
            m.edit(|c| c.plans[p].max_write = 0);
            m.edit(|c| c.plans[p].eintr_open = 0);
            m.edit(|c| c.plans[p].eintr_read = 0);
            m.edit(|c| c.plans[p].eintr_write = 0);
            m.edit(|c| c.plans[p].shuffle_dir = false);
            m.edit(|c| c.plans[p].slow = 0);
            m.edit(|c| c.plans[p].capacity = None);
            m.edit(|c| c.plans[p].max_fds = None);
            m.edit(|c| c.plans[p].out_limit = None);
            m.edit(|c| c.plans[p].no_mem = None);
            m.edit(|c| c.plans[p].memory = None);
            m.edit(|c| c.plans[p].dense = None);
            m.list(|c| Some(&mut c.plans[p].faults), 0);
            m.list(|c| Some(&mut c.plans[p].sticky), 0);
            m.list(|c| Some(&mut c.plans[p].preempts), 0);
            // narrow the window of random switching
            for _ in 0..14 {
                let Some(d) = m.best.plans[p].dense else { break };
                let to = d.to.min(1 << 32);
                let mid = d.from + (to.saturating_sub(d.from)) / 2;
                if mid <= d.from {
                    break;
                }
                let a = m.edit(|c| c.plans[p].dense = Some(Dense { to: mid, ..d }));
                if !a {
                    let b = m.edit(|c| c.plans[p].dense = Some(Dense { from: mid, to, ..d }));
                    if !b {
                        break;
                    }
                }
            }
            for f in 0..m.best.plans[p].faults.len() {
                if let FaultKind::Short(k) = m.best.plans[p].faults[f].kind {
                    if k > 1 {
                        m.edit(|c| c.plans[p].faults[f].kind = FaultKind::Short(1));
                    }
                }
            }
        }
        m.list(|c| Some(&mut c.ops), 1);
        for t in 0..m.best.ops.len() {
            m.list(|c| c.ops.get_mut(t), 1);
        }
        if m.best.ops.is_empty() {
            m.list(|c| Some(&mut c.texts), 1);
        }
        m.list(|c| Some(&mut c.bytes), 0);
        for s in 0..m.best.setups.len() {
            m.edit(|c| c.setups[s].failing = false);
            m.edit(|c| c.setups[s].custom = Some((vec![], vec![])));
            m.list(|c| c.setups[s].custom.as_mut().map(|f| &mut f.0), 0);
            m.list(|c| c.setups[s].custom.as_mut().map(|f| &mut f.1), 0);
            m.edit(|c| c.setups[s].user = None);
            m.edit(|c| c.setups[s].config_file = None);
        }
        for s in 0..m.best.sys.len() {
            m.edit(|c| c.sys[s].extra.clear());
            m.list(|c| Some(&mut c.sys[s].files), 1);
            for f in 0..m.best.sys[s].files.len() {
                m.list(|c| c.sys[s].files.get_mut(f).map(|f| &mut f.rows), 1);
                m.edit(|c| c.sys[s].files[f].crlf = false);
                m.edit(|c| c.sys[s].files[f].last_newline = true);
                if round == 1 {
                    m.edit(|c| {
                        for r in &mut c.sys[s].files[f].rows {
                            for d in &mut r.details {
                                *d = "*".into();
                            }
                        }
                    });
                }
            }
            m.list(|c| Some(&mut c.sys[s].costs), 1);
        }
        for s in 0..m.best.user.len() {
            m.list(|c| Some(&mut c.user[s].rows), 1);
        }
        for t in 0..m.best.texts.len() {
            // shorten from both ends
            let mut step = m.best.texts[t].chars().count() / 2;
            while step > 0 && !m.over() {
                let a = m.edit(|c| c.texts[t] = c.texts[t].chars().skip(step).collect());
                let b = m.edit(|c| {
                    let n = c.texts[t].chars().count().saturating_sub(step);
                    c.texts[t] = c.texts[t].chars().take(n).collect();
                });
                if !a && !b {
                    step /= 2;
                } else {
                    step = step.min(m.best.texts[t].chars().count() / 2);
                }
            }
        }
        if m.over() {
            break;
        }
    }
    (m.best, m.what)
}
