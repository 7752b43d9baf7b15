//! Reduction of a violating case: fewer threads, calls, faults and
//! preemptions, smaller arguments, as long as the violation class stays.
use crate::judge::*;
use crate::scen::{Env, Op, StreamSpec};
use seam::sched::Mode;

pub struct Min {
    pub case: Case,
    pub class: String,
    until: f64,
    pub tries: u64,
}
impl Min {
    fn try_(&mut self, c: Case) -> bool {
        if seam::sys::real_now() > self.until {
            return false;
        }
        self.tries += 1;
        let mut ctx = Ctx::new();
        if let Ok(Some(v)) = ctx.judge(&c) {
            if v.class == self.class {
                self.case = c;
                return true;
            }
        }
        false
    }
    fn edit(&mut self, f: impl Fn(&mut Case)) -> bool {
        let mut c = self.case.clone();
        f(&mut c);
        if to_text(&c) == to_text(&self.case) {
            return false;
        }
        self.try_(c)
    }
}
fn streams(op: &mut Op) -> Option<&mut StreamSpec> {
    match op {
        Op::Cfg { st, .. } | Op::Lens { st, .. } | Op::Hist { st, .. } => st.as_mut(),
        _ => None,
    }
}
pub fn minimise(case: Case, class: &str, seconds: f64) -> Min {
    let mut m = Min { case, class: class.into(), until: seam::sys::real_now() + seconds, tries: 0 };
    if m.case.kind == "stat" || m.case.kind == "shareable" {
        return m;
    }
    loop {
        let before = to_text(&m.case);
        m.edit(|c| c.scen.env = Env { alloc_fail: c.scen.env.alloc_fail, ..Env::base() });
        m.edit(|c| c.scen.stalls.clear());
        let mut i = 0;
        while i < m.case.scen.stalls.len() {
            if !m.edit(|c| { c.scen.stalls.remove(i); }) {
                i += 1;
            }
        }
        let mut t = 0;
        while t < m.case.scen.threads.len() && m.case.scen.threads.len() > 1 {
            let ok = m.edit(|c| {
                c.scen.threads.remove(t);
                c.scen.stalls.retain(|s| s.thread != t);
                c.scen.stalls.iter_mut().for_each(|s| if s.thread > t { s.thread -= 1 });
                if c.scen.threads.len() == 1 {
                    c.scen.mode = Mode::Solo;
                }
            });
            if !ok {
                t += 1;
            }
        }
        for t in 0..m.case.scen.threads.len() {
            // halves, then single calls
            let mut size = m.case.scen.threads[t].len() / 2;
            while size >= 1 {
                let mut k = 0;
                while k < m.case.scen.threads[t].len() {
                    let e = (k + size).min(m.case.scen.threads[t].len());
                    if !m.edit(|c| { c.scen.threads[t].drain(k..e); }) {
                        k += size;
                    }
                }
                size /= 2;
            }
            for k in 0..m.case.scen.threads[t].len() {
                // all streams of a case with the same specification change together
                let mut op = m.case.scen.threads[t][k].clone();
                let nf = streams(&mut op).map_or(0, |s| s.faults.len());
                for f in (0..nf).rev() {
                    let old = streams(&mut op).unwrap().clone();
                    let mut new = old.clone();
                    new.faults.remove(f);
                    let ok = m.edit(|c| for th in &mut c.scen.threads { for o in th { if let Some(s) = streams(o) { if *s == old { *s = new.clone(); } } } });
                    if ok {
                        *streams(&mut op).unwrap() = new;
                    } else {
                        for len in [1, 2, 4, 16] {
                            let mut new = old.clone();
                            if new.faults[f].len > len {
                                new.faults[f].len = len;
                                let ok = m.edit(|c| for th in &mut c.scen.threads { for o in th { if let Some(s) = streams(o) { if *s == old { *s = new.clone(); } } } });
                                if ok {
                                    *streams(&mut op).unwrap() = new;
                                    break;
                                }
                            }
                        }
                    }
                }
                if let Op::Cb(b) = &m.case.scen.threads[t][k] {
                    for f in (0..b.faults.len()).rev() {
                        m.edit(|c| if let Op::Cb(b) = &mut c.scen.threads[t][k] { b.faults.remove(f); });
                    }
                }
                if let Op::Dmg { path, .. } = &m.case.scen.threads[t][k] {
                    let len = path.len();
                    for l in crate::exec::PATHS {
                        if l < len && (m.edit(|c| if let Op::Dmg { path, .. } = &mut c.scen.threads[t][k] { path.truncate(l) }) || m.edit(|c| if let Op::Dmg { path, .. } = &mut c.scen.threads[t][k] { path.drain(..path.len() - l); })) {
                            break;
                        }
                    }
                }
                for d in [1, 2, 3, 5, 10, 30, 100, 257, 1000, 4000, 10_000, 40_000] {
                    let ok = m.edit(|c| {
                        let mut fix = |o: &mut Op| match o {
                            Op::Fn { count, .. } | Op::Meth { count, .. } | Op::Burn { count, .. } | Op::Lens { count, .. } => *count = (*count).min(d),
                            Op::Hist { samples, .. } => *samples = (*samples).min(d),
                            _ => {}
                        };
                        if c.kind == "hist" || c.kind == "geom" {
                            c.scen.threads.iter_mut().flatten().for_each(fix);
                        } else {
                            fix(&mut c.scen.threads[t][k]);
                        }
                    });
                    if ok {
                        break;
                    }
                }
            }
        }
        if to_text(&m.case) == before || seam::sys::real_now() > m.until {
            break;
        }
    }
    // The schedule, as an explicit list of switches.
    if m.case.scen.threads.len() > 1 && !matches!(m.case.scen.mode, Mode::Explicit(_)) {
        let mut ctx = Ctx::new();
        if let Ok(Some(_)) = ctx.judge(&m.case) {
            let rec = ctx.last_rec.clone();
            m.edit(|c| c.scen.mode = Mode::Explicit(rec.clone()));
        }
    }
    if let Mode::Explicit(v) = &m.case.scen.mode {
        let mut size = v.len() / 2;
        while size >= 1 && seam::sys::real_now() < m.until {
            let mut k = 0;
            loop {
                let Mode::Explicit(v) = &m.case.scen.mode else { break };
                if k >= v.len() || seam::sys::real_now() > m.until {
                    break;
                }
                let e = (k + size).min(v.len());
                if !m.edit(|c| if let Mode::Explicit(v) = &mut c.scen.mode { v.drain(k..e); }) {
                    k += size;
                }
            }
            size /= 2;
        }
    }
    m
}
