//! Minimisation of a failing replay: fewer and simpler operations, faults, damage, crashes and
//! switches, each candidate run in a process of its own and kept if it fails in the same class.
use crate::driver::{run_replay, Outcome, Replay, Scratch};
use crate::io::{Chunk, ReadPlan, WritePlan};
use crate::model::Cfg;
use crate::scen::*;
use crate::spec::*;
use std::time::{Duration, Instant};

struct M<'a> {
    scr: &'a Scratch,
    rep: Replay,
    end: Instant,
    tries: u64,
}

impl M<'_> {
    fn over(&self) -> bool {
        Instant::now() > self.end
    }
    fn attempt(&mut self, cand: Replay) -> bool {
        if self.over() {
            return false;
        }
        self.tries += 1;
        match run_replay(self.scr, &cand, 2) {
            Outcome::Viol(c, d, _) if c == self.rep.class => {
                self.rep = cand;
                self.rep.detail = d;
                true
            }
            _ => false,
        }
    }
    fn last(&self) -> &Scenario {
        self.rep.scenarios.last().unwrap()
    }
    fn edit(&mut self, f: impl FnOnce(&mut Scenario)) -> bool {
        let mut c = self.rep.clone();
        let s = c.scenarios.last_mut().unwrap();
        let before = s.clone();
        f(s);
        if *s == before {
            return false;
        }
        self.attempt(c)
    }
    /// Remove parts of a list as long as the failure stays.
    fn list(&mut self, len: impl Fn(&Scenario) -> usize, cut: impl Fn(&mut Scenario, usize, usize)) -> bool {
        let mut any = false;
        let mut size = len(self.last()).div_ceil(2);
        while size > 0 && !self.over() {
            let mut at = 0;
            let mut removed = false;
            while at < len(self.last()) && !self.over() {
                let k = size.min(len(self.last()) - at);
                if self.edit(|s| cut(s, at, k)) {
                    removed = true;
                    any = true;
                } else {
                    at += k;
                }
            }
            if size == 1 && !removed {
                break;
            }
            size = if size == 1 { 1 } else { size / 2 };
        }
        any
    }
}

fn cut<T>(v: &mut Vec<T>, at: usize, n: usize) {
    let e = (at + n).min(v.len());
    v.drain(at.min(e)..e);
}

pub fn minimise(scr: &Scratch, rep: &mut Replay, budget: Duration) {
    let mut m = M { scr, rep: rep.clone(), end: Instant::now() + budget, tries: 0 };
    // Earlier runs in the same process first.
    let mut size = (m.rep.scenarios.len() - 1).div_ceil(2);
    while size > 0 && m.rep.scenarios.len() > 1 && !m.over() {
        let mut at = 0;
        while at + 1 < m.rep.scenarios.len() && !m.over() {
            let mut c = m.rep.clone();
            let n = size.min(c.scenarios.len() - 1 - at);
            c.scenarios.drain(at..at + n);
            if !m.attempt(c) {
                at += n;
            }
        }
        size /= 2;
    }
    // Which switches did the schedule take?
    if matches!(m.last().prop.as_str(), "C14" | "C15" | "C24") {
        if let Outcome::Viol(_, _, t) = run_replay(scr, &m.rep, 2) {
            if !t.is_empty() {
                m.edit(|s| s.sched.explicit = Some(t));
            }
        }
    }
    loop {
        let mut any = false;
        let logs = m.last().logs.len();
        if logs > 1 {
            for t in (0..logs).rev() {
                any |= m.edit(|s| {
                    if s.logs.len() > 1 && t < s.logs.len() {
                        s.logs.remove(t);
                        if s.prop == "C14" && t < s.n.len() {
                            s.n.remove(t);
                        }
                    }
                });
            }
        }
        any |= m.list(|s| s.crashes.len(), |s, a, n| cut(&mut s.crashes, a, n));
        any |= m.list(|s| s.ds.as_ref().map_or(0, |d| d.ops.len()), |s, a, n| {
            if let Some(d) = &mut s.ds {
                cut(&mut d.ops, a, n)
            }
        });
        any |= m.list(|s| s.sched.explicit.as_ref().map_or(0, |d| d.len()), |s, a, n| {
            if let Some(d) = &mut s.sched.explicit {
                cut(d, a, n)
            }
        });
        any |= m.edit(|s| s.trace = false);
        any |= m.edit(|s| s.env = Default::default());
        any |= m.edit(|s| s.sched.fine_pm = 0);
        any |= m.edit(|s| s.sched.mem_pm = 0);
        for t in 0..m.last().logs.len() {
            any |= m.list(move |s| s.logs[t].spec.ops.len(), move |s, a, n| cut(&mut s.logs[t].spec.ops, a, n));
            any |= m.list(move |s| s.logs[t].read.faults.len(), move |s, a, n| cut(&mut s.logs[t].read.faults, a, n));
            any |= m.list(move |s| s.logs[t].write.faults.len(), move |s, a, n| cut(&mut s.logs[t].write.faults, a, n));
            any |= m.list(move |s| s.logs[t].damage.len(), move |s, a, n| cut(&mut s.logs[t].damage, a, n));
            any |= m.list(move |s| s.logs[t].arrive.as_ref().map_or(0, |x| x.points.len()), move |s, a, n| {
                if let Some(x) = &mut s.logs[t].arrive {
                    cut(&mut x.points, a, n)
                }
            });
            any |= m.edit(|s| s.logs[t].read = ReadPlan { faults: s.logs[t].read.faults.clone(), ..Default::default() });
            any |= m.edit(|s| s.logs[t].write = WritePlan { faults: s.logs[t].write.faults.clone(), cap: s.logs[t].write.cap, ..Default::default() });
            any |= m.edit(|s| s.logs[t].read.buf = None);
            any |= m.edit(|s| s.logs[t].read.eintr_pm = 0);
            any |= m.edit(|s| s.logs[t].read.chunk = Chunk::All);
            if !matches!(m.last().logs[t].read.chunk, Chunk::All | Chunk::One) {
                any |= m.edit(|s| s.logs[t].read.chunk = Chunk::One);
            }
            any |= m.edit(|s| s.logs[t].write.eintr_pm = 0);
            any |= m.edit(|s| s.logs[t].write.chunk = Chunk::All);
            any |= m.edit(|s| s.logs[t].write.cap = None);
            any |= m.edit(|s| s.logs[t].abandon = None);
            any |= m.edit(|s| s.logs[t].cut = None);
            for k in 0..m.last().logs[t].read.faults.len() {
                any |= m.edit(|s| s.logs[t].read.faults[k].times = 1);
                any |= m.edit(|s| s.logs[t].read.faults[k].kind = 6);
            }
            for k in 0..m.last().logs[t].damage.len() {
                any |= m.edit(|s| match &mut s.logs[t].damage[k].op {
                    DOp::Fill { len, .. } | DOp::Rand { len, .. } | DOp::InsRand { len, .. } if *len > 1 => *len /= 2,
                    DOp::Del(n) | DOp::Dup(n) if *n > 1 => *n /= 2,
                    _ => {}
                });
            }
            if let Iface::Low(c) = m.last().logs[t].iface.clone() {
                if c != Cfg::full() && c != Cfg::plain() {
                    any |= m.edit(|s| s.logs[t].iface = Iface::Low(Cfg::full()));
                    any |= m.edit(|s| s.logs[t].iface = Iface::Low(Cfg::plain()));
                    any |= m.edit(|s| {
                        if let Iface::Low(c) = &mut s.logs[t].iface {
                            c.allow = None;
                        }
                    });
                    any |= m.edit(|s| {
                        if let Iface::Low(c) = &mut s.logs[t].iface {
                            c.how = 0;
                            c.old_setter = false;
                        }
                    });
                    for k in (0..c.relist.len()).rev() {
                        any |= m.edit(|s| {
                            if let Iface::Low(c) = &mut s.logs[t].iface {
                                if k < c.relist.len() {
                                    c.relist.remove(k);
                                }
                            }
                        });
                    }
                }
            }
            // Simpler operations.
            for k in 0..m.last().logs[t].spec.ops.len() {
                if m.over() {
                    break;
                }
                any |= m.edit(|s| s.logs[t].spec.ops[k].v = 0);
                let fields = match &m.last().logs[t].spec.ops[k].k {
                    K::Format(f) => f.fields.len(),
                    _ => 0,
                };
                for i in (0..fields).rev() {
                    any |= m.edit(|s| {
                        if let K::Format(f) = &mut s.logs[t].spec.ops[k].k {
                            if f.fields.len() > 1 && i < f.fields.len() {
                                f.fields.remove(i);
                            }
                        }
                    });
                    any |= m.edit(|s| {
                        if let K::Format(f) = &mut s.logs[t].spec.ops[k].k {
                            if let Some(Field { arr: Some(n), .. }) = f.fields.get_mut(i) {
                                *n = (*n).min(1);
                            }
                        }
                    });
                }
                any |= m.edit(|s| match &mut s.logs[t].spec.ops[k].k {
                    K::Info { key, arr, .. } | K::Multi { key, arr, .. } => {
                        *key = "k".into();
                        *arr = arr.map(|n| n.min(1));
                    }
                    K::Param { key, .. } | K::DefParam { key, .. } => *key = "k".into(),
                    K::Log { text, .. } if text.len() > 1 => *text = "a".into(),
                    K::Unknown { len, .. } => *len = (*len).min(1),
                    K::Data { trim, .. } => *trim = false,
                    _ => {}
                });
            }
        }
        if !any || m.over() {
            break;
        }
    }
    let n = m.tries;
    *rep = m.rep;
    if !rep.note.is_empty() {
        rep.note.push_str("; ");
    }
    rep.note.push_str(&format!("minimised in {n} trials"));
}
