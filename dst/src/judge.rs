//! The oracles: each decides one case (a scenario, or a computed sample) alone,
//! so that a replay file and the code determine the verdict.
use crate::exec::*;
use crate::scen::*;
use inst::mc::{EFJC, EFRC, FJC, FRC};
use inst::ops;
use std::collections::{BTreeMap, HashMap, HashSet};
use seam::rng;

#[derive(Clone, Debug)]
pub struct Case {
    pub check: String,
    pub kind: String,
    pub p: Vec<f64>,
    pub scen: Scenario,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            *self.n.entry(k.to_string()).or_default() += v;
        }
    }
}
pub struct Ctx {
    pub refs: HashMap<String, Option<Res>>,
    pub st: Stats,
    pub last_rec: Vec<(u64, u8)>,
    pub digest: u64,
}
pub type Verdict = Result<Option<Viol>, String>;

pub fn to_text(c: &Case) -> String {
    let p: Vec<String> = c.p.iter().map(|x| format!("{x:?}")).collect();
    format!("check {}\nkind {}\nparams {}\n{}", c.check, c.kind, p.join(","), crate::scen::to_text(&c.scen))
}
pub fn parse(t: &str) -> Case {
    let mut c = Case { check: String::new(), kind: String::new(), p: vec![], scen: crate::scen::parse(t) };
    for l in t.lines() {
        match l.split_once(' ').unwrap_or((l, "")) {
            ("check", x) => c.check = x.into(),
            ("kind", x) => c.kind = x.into(),
            ("params", x) => c.p = x.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            _ => {}
        }
    }
    c
}
fn viol(class: &str, detail: String) -> Verdict {
    Ok(Some(Viol { class: class.into(), detail }))
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { refs: HashMap::new(), st: Stats::default(), last_rec: vec![], digest: 0 }
    }
    /// Runs a scenario and accounts for it.
    pub fn go(&mut self, s: &Scenario) -> Outcome {
        let o = run(s);
        self.st.add("runs", 1);
        for (i, n) in N_NAMES.iter().enumerate() {
            self.st.add(n, o.n[i]);
        }
        for (t, th) in s.threads.iter().enumerate() {
            for (k, op) in th.iter().enumerate() {
                let Some(r) = o.res.get(t).and_then(|x| x.get(k)) else { continue };
                if r.status != 0 {
                    self.st.add("calls", match op { Op::Fn { count, .. } | Op::Meth { count, .. } | Op::Burn { count, .. } | Op::Lens { count, .. } => *count, _ => 1 });
                }
                self.st.add("draws", r.draws);
                match op {
                    Op::Cb(_) => for (i, f) in r.fired.iter().enumerate() {
                        self.st.add(&format!("fault:callback_{}", CB_KINDS[i.min(7)]), *f & 0xFFFF_FFFF);
                    },
                    _ => for (i, f) in r.fired.iter().enumerate() {
                        self.st.add(&format!("fault:generator_{}", seam::rng::NAMES[i]), *f);
                    },
                }
                if let (Op::Bad { .. }, 2) = (op, r.status) {
                    self.st.add("fault:invalid_argument", 1);
                }
            }
        }
        let stalls = o.stalled.iter().filter(|x| **x).count() as u64;
        if stalls > 0 {
            let dead = s.stalls.iter().any(|x| x.forever);
            self.st.add(if dead { "fault:caller_killed_or_stalled_for_ever" } else { "fault:caller_stalled" }, stalls);
        }
        self.st.add("fault:allocation_failed", o.n[10]);
        self.st.add("fault:clock_jump", o.n[5]);
        if s.env.garbage != 0 {
            self.st.add("fault:memory_full_of_garbage", 1);
        }
        if s.threads.len() > 1 {
            self.st.sigs.insert(o.sig);
        } else {
            let mut h = 0;
            for r in o.res.iter().flatten() {
                h = seam::mix(h ^ r.draws ^ r.steps << 20);
                for f in &r.fired {
                    h = seam::mix(h ^ f);
                }
                for v in r.vals.iter().take(8) {
                    h = seam::mix(h ^ v);
                }
            }
            self.st.sigs.insert(h);
        }
        self.last_rec = o.rec.clone();
        self.digest = seam::mix(self.digest ^ o.sig);
        for r in o.res.iter().flatten() {
            for v in r.vals.iter().chain(&r.trace) {
                let v = if f64::from_bits(*v).is_nan() { 1 } else { *v };
                self.digest = seam::mix(self.digest ^ v);
            }
            self.digest = seam::mix(self.digest ^ r.status ^ r.draws << 8);
        }
        o
    }
    /// What the operation returns alone, in a pristine process. None: the
    /// process died.
    pub fn reference(&mut self, insts: &[Inst], op: &Op) -> Option<Res> {
        let mut op = op.clone();
        let mut ins = vec![];
        match &mut op {
            Op::Meth { inst, .. } | Op::Make { inst } | Op::Dmg { inst, .. } | Op::Hyp { inst, .. } => {
                ins.push(insts[at(*inst)].clone());
                *inst &= FRESH;
            }
            _ => {}
        }
        match &mut op {
            Op::Fn { count, .. } | Op::Meth { count, .. } => *count = 1,
            _ => {}
        }
        let key = ins.iter().map(inst_text).collect::<String>() + &op_text(&op);
        if let Some(r) = self.refs.get(&key) {
            return r.clone();
        }
        let mut s = Scenario::solo(ins, vec![op]);
        s.cap = 3_000_000_000;
        let o = run(&s);
        self.st.add("reference_runs", 1);
        let r = if o.end == End::Ok { o.res.into_iter().next().and_then(|v| v.into_iter().next()) } else { None };
        if self.refs.len() > 20_000 {
            self.refs.clear();
        }
        self.refs.insert(key, r.clone());
        r
    }
    /// The references of several operations on one model, which is created once.
    pub fn references(&mut self, insts: &[Inst], ops: Vec<Op>) {
        let mut todo: Vec<(String, Op)> = vec![];
        let mut ins = vec![];
        for mut op in ops {
            if let Op::Dmg { inst, .. } | Op::Hyp { inst, .. } = &mut op {
                ins = vec![insts[at(*inst)].clone()];
                *inst = 0;
                let key = inst_text(&ins[0]) + &op_text(&op);
                if !self.refs.contains_key(&key) && !todo.iter().any(|t| t.0 == key) {
                    todo.push((key, op));
                }
            }
        }
        let ops: Vec<Op> = todo.iter().map(|t| t.1.clone()).collect();
        if ops.is_empty() {
            return;
        }
        if self.refs.len() > 20_000 {
            self.refs.clear();
        }
        self.st.add("reference_runs", ops.len() as u64);
        for ((k, _), r) in todo.into_iter().zip(crate::exec::run_each(&ins, &ops)) {
            self.refs.insert(k, r);
        }
    }
    pub fn judge(&mut self, c: &Case) -> Verdict {
        match c.kind.as_str() {
            "eq" => self.eq(c),
            "geom" => self.geom(c),
            "ext" => self.ext_geom(c),
            "hist" => self.hist(c),
            "total" => self.total(c),
            "dmg" => self.dmg(c),
            "cb" => self.cb(c),
            "alloc" => self.alloc(c),
            "distinct" => self.distinct(c),
            "shareable" => self.shareable(c),
            "stat" => crate::sample::stat(self, c),
            k => Err(format!("unknown kind {k}")),
        }
    }

    /// Every call returns what it returns alone in a pristine process.
    /// p[0] = 1: also the progress rules.
    fn eq(&mut self, c: &Case) -> Verdict {
        let s = &c.scen;
        let progress = c.p.first() == Some(&1.0);
        let o = self.go(s);
        let mut fatal_ref = false;
        let mut bad: Option<Viol> = None;
        let forever = s.stalls.iter().any(|x| x.forever);
        for (t, th) in s.threads.iter().enumerate() {
            let mut cont: Option<(StreamSpec, u64)> = None;
            for (k, op) in th.iter().enumerate() {
                let Some(r) = o.res.get(t).and_then(|x| x.get(k)) else { continue };
                let mut rop = op.clone();
                if let Op::Cfg { st, .. } | Op::Lens { st, .. } | Op::Hist { st, .. } = &mut rop {
                    match st {
                        Some(x) => cont = Some((x.clone(), 0)),
                        None => match &cont {
                            Some((x, d)) => {
                                let mut y = x.clone();
                                y.skip += d;
                                *st = Some(y);
                            }
                            None => continue,
                        },
                    }
                    if let Some((_, d)) = &mut cont {
                        *d += r.draws;
                    }
                }
                if r.status == 0 {
                    continue;
                }
                if bad.is_some() {
                    continue;
                }
                let here = || format!("thread {t} call {k}: {}", op_text(op));
                if r.status == 2 && r.class == 2 {
                    bad = Some(Viol { class: "draw-budget".into(), detail: format!("{}: more draws than a call of this size can need", here()) });
                    continue;
                }
                let injected = match op {
                    Op::Cb(_) => r.fired.get(6).is_some_and(|f| *f > 0),
                    _ => r.fired.get(seam::rng::PANIC as usize).is_some_and(|f| *f > 0),
                };
                if injected && !(r.status == 2 && r.class == 1) {
                    bad = Some(Viol { class: "panic-swallowed".into(), detail: format!("{}: the injected panic came out as {}", here(), r.show()) });
                    continue;
                }
                if matches!(op, Op::Bad { .. }) && r.status != 2 {
                    bad = Some(Viol { class: "invalid-accepted".into(), detail: format!("{}: returned {}", here(), r.show()) });
                    continue;
                }
                if let Op::Cb(_) = op {
                    if r.fired.get(7).is_some_and(|f| *f >> 40 != 0) {
                        bad = Some(Viol { class: "reentrant".into(), detail: format!("{}: a re-entrant call came out wrong", here()) });
                        continue;
                    }
                }
                if let Op::Fn { count, ext: true, .. } | Op::Fn { count, ext: false, .. } | Op::Meth { count, .. } = op {
                    if r.status == 1 && r.vals.len() > 1 {
                        bad = Some(Viol { class: "mismatch".into(), detail: format!("{}: repetition {} of {count} differs: {}", here(), f64::from_bits(r.vals[1]), r.show()) });
                        continue;
                    }
                }
                // Exported functions are held against the native ones.
                if let Op::Fn { ext, .. } = &mut rop {
                    *ext = false;
                }
                let Some(want) = self.reference(&s.insts, &rop) else {
                    fatal_ref = true;
                    continue;
                };
                if !r.same(&want) {
                    bad = Some(Viol { class: "mismatch".into(), detail: format!("{}: returned {}, alone {}{}", here(), r.show(), want.show(), if same_bits(&r.vals, &want.vals) { " (other callbacks)" } else { "" }) });
                    continue;
                }
                if let Op::Hyp { .. } = op {
                    let v = r.f();
                    if v.len() == 2 && !close(v[0], v[1], 1e-9) {
                        bad = Some(Viol { class: "exported-differs".into(), detail: format!("{}: native {:?}, exported {:?}", here(), v[0], v[1]) });
                        continue;
                    }
                }
                if matches!(op, Op::Cfg { .. } | Op::Lens { .. } | Op::Hist { .. }) && r.draws != want.draws {
                    bad = Some(Viol { class: "draws".into(), detail: format!("{}: {} draws, alone {}", here(), r.draws, want.draws) });
                    continue;
                }
                if progress && r.steps > 4 * want.steps + 20_000 {
                    bad = Some(Viol { class: "own-steps".into(), detail: format!("{}: {} own steps, alone {}", here(), r.steps, want.steps) });
                }
            }
        }
        match &o.end {
            End::Ok => {}
            End::Abort(r) => return viol(r, format!("the callers came to a standstill ({r}) after {} steps", o.n[0])),
            End::Exit(73) => return viol("init", "a model could not be created".into()),
            e if fatal_ref || s.env.alloc_fail.is_some() => {
                let _ = e;
            }
            End::Signal(n) if *n == 27 || *n == 14 => return viol("hang", "a call did not return".into()),
            e => {
                // Which calls are fatal on their own?
                for th in &s.threads {
                    for op in th {
                        if let Op::Cfg { st: None, .. } | Op::Lens { st: None, .. } | Op::Hist { st: None, .. } = op {
                            continue;
                        }
                        if self.reference(&s.insts, op).is_none() {
                            return Ok(None);
                        }
                    }
                }
                return viol("crash", format!("the process ended: {e:?}"));
            }
        }
        if bad.is_some() {
            return Ok(bad);
        }
        if o.end == End::Ok {
            for (t, th) in o.res.iter().enumerate() {
                if !o.stalled[t] && th.iter().any(|r| r.status == 0) {
                    return Err("a call has no result".into());
                }
            }
        }
        if progress && o.waited {
            return viol("waits", format!("a caller had to wait for a stalled one{}", if forever { "" } else { " to go on" }));
        }
        Ok(None)
    }

    /// Geometry of rigid chains: a configuration, its continuation, and the
    /// lengths for the same draws.
    fn geom(&mut self, c: &Case) -> Verdict {
        let o = self.go(&c.scen);
        if let Some(v) = ended(&o)? {
            return Ok(Some(v));
        }
        for (th, rs) in c.scen.threads.iter().zip(&o.res) {
            let mut lasts: Vec<f64> = vec![];
            for (k, (op, r)) in th.iter().zip(rs).enumerate() {
                let here = || format!("call {k}: {}", op_text(op));
                if let Some(v) = unexpected(op, r) {
                    return Ok(Some(v));
                }
                if r.status != 1 {
                    lasts.clear();
                    continue;
                }
                match op {
                    Op::Cfg { model, n, p, st } => {
                        if st.is_some() {
                            lasts.clear();
                        }
                        let x = r.f();
                        if x.len() != 3 * n || x.iter().any(|v| !v.is_finite()) {
                            return viol("not-finite", format!("{}: {}", here(), r.show()));
                        }
                        let l = links(&x);
                        if *model == FJC || *model == FRC {
                            for (i, u) in l.iter().enumerate() {
                                let d = dot(u, u).sqrt();
                                if (d - 1.0).abs() > 1e-9 {
                                    return viol("link-length", format!("{}: link {i} has length {d:?}", here()));
                                }
                            }
                        } else if p.sd == 0.0 {
                            for (i, u) in l.iter().enumerate() {
                                let d = dot(u, u).sqrt();
                                if (d - p.mean).abs() > 1e-9 * (1.0 + p.mean) {
                                    return viol("link-length", format!("{}: link {i} has length {d:?} instead of {:?}", here(), p.mean));
                                }
                            }
                        }
                        if *model == FRC || *model == EFRC {
                            let free = *model == EFRC && p.sd > p.mean / 40.0;
                            let far = x.iter().fold(1.0, |m: f64, v| m.max(v.abs()));
                            for i in 1..l.len() {
                                let (a, b) = (dot(&l[i - 1], &l[i - 1]).sqrt(), dot(&l[i], &l[i]).sqrt());
                                if a < 1e-5 * far || b < 1e-5 * far {
                                    continue;
                                }
                                let d = dot(&l[i - 1], &l[i]) / (a * b);
                                let w = p.theta.cos();
                                // where the cosine is flat the sine tells
                                let c = inst::mc::cross(&l[i - 1], &l[i]);
                                let s = dot(&c, &c).sqrt() / (a * b);
                                if !((s - p.theta.sin().abs()).abs() < 1e-8) {
                                    return viol("angle", format!("{}: links {} and {i} at sine {s:?} instead of {:?}", here(), i - 1, p.theta.sin()));
                                }
                                if !((d - w).abs() < 1e-8 || free && (d + w).abs() < 1e-8) {
                                    return viol("angle", format!("{}: links {} and {i} at cosine {d:?} instead of {w:?}", here(), i - 1));
                                }
                            }
                        }
                        let e = &x[3 * n - 3..];
                        let last = (e[0] * e[0] + e[1] * e[1] + e[2] * e[2]).sqrt();
                        if last > bound(*model, *n, p) {
                            return viol("too-long", format!("{}: end-to-end length {last:?}", here()));
                        }
                        lasts.push(last);
                    }
                    Op::Lens { n, count, model, st, .. } => {
                        let v = r.f();
                        // repeated draws can magnify rounding in rotating frames
                        let tol = if (*model == FRC || *model == EFRC) && st.as_ref().is_some_and(|s| !s.faults.is_empty()) { 1e-6 } else { 1e-9 };
                        if v.len() != *count as usize {
                            return Err("lengths".into());
                        }
                        for (i, (a, b)) in lasts.iter().zip(&v).enumerate() {
                            if !((a - b).abs() <= tol * (1.0 + a.abs())) {
                                return viol("length", format!("{}: length {i} is {b:?}, but the same draws lead to a configuration of {n} links ending at {a:?}", here()));
                            }
                        }
                        lasts.clear();
                    }
                    _ => {}
                }
            }
        }
        Ok(None)
    }

    /// Extensible links: same draws, two length distributions.
    fn ext_geom(&mut self, c: &Case) -> Verdict {
        let o = self.go(&c.scen);
        if let Some(v) = ended(&o)? {
            return Ok(Some(v));
        }
        let ops = &c.scen.threads[0];
        let rs = &o.res[0];
        for (op, r) in ops.iter().zip(rs) {
            if let Some(v) = unexpected(op, r) {
                return Ok(Some(v));
            }
        }
        if ops.len() < 2 {
            return Ok(None);
        }
        if let (Op::Cfg { p: p1, model, n, st: s1 }, Op::Cfg { p: p2, model: m2, n: n2, st: s2 }) = (&ops[0], &ops[1]) {
            if model != m2 || n != n2 || s1 != s2 || rs[0].status != 1 || rs[1].status != 1 || p1.theta != p2.theta {
                return Ok(None);
            }
            let (a, b) = (links(&rs[0].f()), links(&rs[1].f()));
            // the lengths are normal variates which these draws give, in their order
            let z = variates(s1.as_ref(), rs[0].draws + 1);
            for (l, r, p) in [(&a, &rs[0], p1), (&b, &rs[1], p2)] {
                let far = r.f().iter().fold(1.0, |m: f64, v| m.max(v.abs()));
                let mut j = 0;
                for (i, l) in l.iter().enumerate() {
                    let l = dot(l, l).sqrt();
                    match z[j..].iter().position(|z| ((p.mean + p.sd * z).abs() - l).abs() <= 1e-13 * (16.0 * far + z.abs() * p.sd)) {
                        Some(k) => j += k + 1,
                        None => return viol("variate", format!("link {i}: length {l:?} is that of no normal variate of mean {} and deviation {} drawn after {j} draws; {}", p.mean, p.sd, op_text(&ops[0]))),
                    }
                }
                self.st.add("link_lengths_traced_to_a_variate", l.len() as u64);
            }
            for i in 0..a.len() {
                let (la, lb) = (dot(&a[i], &a[i]).sqrt(), dot(&b[i], &b[i]).sqrt());
                let ok = [1.0, -1.0].iter().any(|s| {
                    let z = (s * la - p1.mean) / p1.sd;
                    ((p2.mean + p2.sd * z).abs() - lb).abs() <= 1e-11 * (1.0 + z.abs() + p2.sd / p1.sd) * (1.0 + p1.mean + p2.sd + p2.mean)
                });
                if !ok {
                    return viol("variate", format!("link {i}: lengths {la:?} (mean {} deviation {}) and {lb:?} (mean {} deviation {}) of the same draws do not belong to one standard variate; {}", p1.mean, p1.sd, p2.mean, p2.sd, op_text(&ops[0])));
                }
                if *model == EFRC && i > 0 && p1.sd * 40.0 < p1.mean && p1.sd >= 0.004 {
                    let far = rs[1].f().iter().fold(1.0, |m: f64, v| m.max(v.abs()));
                    let lambda = p2.mean + p2.sd * (la - p1.mean) / p1.sd;
                    let lp = dot(&b[i - 1], &b[i - 1]).sqrt();
                    if lambda.abs() > 1e-5 * far && lp > 1e-5 * far {
                        let (d, w) = (dot(&b[i - 1], &b[i]) / (lp * lb), p1.theta.cos() * lambda.signum());
                        if !((d - w).abs() < 1e-8) {
                            return viol("angle", format!("link {i}, of length {lambda:?}, stands at cosine {d:?} to its predecessor instead of {w:?}; {}", op_text(&ops[1])));
                        }
                    }
                }
                // a negative length turns a link around, and with it all that follow in a chain of fixed angles
                let steady = p1.mean > 9.0 * p1.sd && p2.mean > 9.0 * p2.sd;
                if la > 1e-6 && lb > 1e-6 && (*model == EFJC || s1.as_ref().is_some_and(|s| s.faults.is_empty()) && steady) {
                    let d = dot(&a[i], &b[i]) / (la * lb);
                    let free = p1.sd > p1.mean / 40.0 || p2.sd > p2.mean / 40.0;
                    if (d - 1.0).abs() > 1e-7 && !(free && (d + 1.0).abs() < 1e-7) {
                        return viol("direction", format!("link {i}: direction depends on the length distribution; {}", op_text(&ops[0])));
                    }
                }
            }
        }
        Ok(None)
    }

    /// Histograms against the lengths of the same draws.
    fn hist(&mut self, c: &Case) -> Verdict {
        let o = self.go(&c.scen);
        if let Some(v) = ended(&o)? {
            return Ok(Some(v));
        }
        for (th, rs) in c.scen.threads.iter().zip(&o.res) {
            for k in 1..th.len() {
                let (Op::Lens { model: m1, n: n1, count, st: s1, p: p1 }, Op::Hist { model, b, n, p, samples, st }) = (&th[k - 1], &th[k]) else { continue };
                if m1 != model || n1 != n || count != samples || s1 != st || p1.theta != p.theta || st.is_none() {
                    continue;
                }
                if *model >= EFJC && (p1.mean != 1.0 || p1.sd != 1.0 / p.kappa.sqrt()) {
                    continue;
                }
                let (l, h) = (&rs[k - 1], &rs[k]);
                if let Some(v) = unexpected(&th[k - 1], l) {
                    return Ok(Some(v));
                }
                if l.status != 1 {
                    continue;
                }
                let here = || format!("call {k}: {}", op_text(&th[k]));
                let gmax = match *model {
                    FJC => 1.0,
                    FRC => bound(FRC, *n, p) / *n as f64 - 1e-9,
                    _ => p.gmax,
                };
                let g: Vec<f64> = l.f().iter().map(|x| x / *n as f64).collect();
                let over = g.iter().any(|x| !(*x <= gmax + 2e-9));
                let unsure = g.iter().any(|x| *x > gmax * (1.0 - 1e-12)) && *model >= EFJC;
                if h.status == 2 {
                    if h.class != 3 || (!over && !unsure) {
                        return viol("panic", format!("{}: {} although every sample is in range", here(), h.show()));
                    }
                    self.st.add("over_range_panics", 1);
                    continue;
                }
                if over {
                    return viol("over-range-accepted", format!("{}: a sample beyond the maximum extension did not panic", here()));
                }
                let v = h.f();
                let (cs, q) = v.split_at(*b);
                let mut total = 0.0;
                for i in 0..*b {
                    let w = gmax * (i as f64 + 0.5) / *b as f64;
                    if !close(cs[i], w, 2e-9) {
                        return viol("grid", format!("{}: bin {i} is centred at {:?} instead of {w:?}", here(), cs[i]));
                    }
                    let cnt = q[i] * gmax * *samples as f64 / *b as f64;
                    let eps = 3e-9 * gmax.max(1.0);
                    let (lo, hi) = (gmax * i as f64 / *b as f64, gmax * (i + 1) as f64 / *b as f64);
                    let (last, first) = (i + 1 == *b, i == 0);
                    let sure = g.iter().filter(|x| (first || **x > lo + eps) && (last || **x < hi - eps)).count() as f64;
                    let may = g.iter().filter(|x| (first || **x > lo - eps) && (last || **x < hi + eps)).count() as f64;
                    self.st.add("edge_samples", (may - sure) as u64);
                    let tol = 1e-6 * (1.0 + sure);
                    if !((cnt - cnt.round()).abs() <= tol) || cnt < sure - tol || cnt > may + tol {
                        return viol("bin-count", format!("{}: bin {i} holds {cnt:?} samples instead of {sure}{}", here(), if may > sure { format!(" to {may}") } else { String::new() }));
                    }
                    total += cnt;
                }
                if (total - *samples as f64).abs() > 1e-6 * *samples as f64 {
                    return viol("lost-samples", format!("{}: {total:?} of {samples} samples counted", here()));
                }
            }
        }
        Ok(None)
    }

    /// Whole numbers of samples in the bins, and all of them.
    fn total(&mut self, c: &Case) -> Verdict {
        let o = self.go(&c.scen);
        if let Some(v) = ended(&o)? {
            return Ok(Some(v));
        }
        for (op, h) in c.scen.threads[0].iter().zip(&o.res[0]) {
            let Op::Hist { model, b, n, p, samples, .. } = op else { continue };
            if h.status == 2 && h.class == 3 {
                self.st.add("over_range_panics", 1);
                continue;
            }
            if h.status != 1 {
                return viol("panic", format!("{}: {}", op_text(op), h.show()));
            }
            let gmax = match *model {
                FJC => 1.0,
                FRC => bound(FRC, *n, p) / *n as f64 - 1e-9,
                _ => p.gmax,
            };
            let tol = 0.1 + if *model == FRC { 3e-9 / gmax.abs() * *samples as f64 } else { 0.0 };
            let v = h.f();
            let mut total = 0.0;
            for (i, q) in v[*b..].iter().enumerate() {
                let cnt = q * gmax * *samples as f64 / *b as f64;
                if !((cnt - cnt.round()).abs() <= tol) || cnt < -tol {
                    return viol("bin-count", format!("{}: bin {i} holds {cnt:?} samples", op_text(op)));
                }
                total += cnt;
            }
            if (total - *samples as f64).abs() > tol {
                return viol("lost-samples", format!("{}: {total:?} of {samples} samples counted", op_text(op)));
            }
            self.st.add("samples_in_long_histograms", *samples);
        }
        Ok(None)
    }

    /// Distinct draws give distinct samples.
    fn distinct(&mut self, c: &Case) -> Verdict {
        let o = self.go(&c.scen);
        if let Some(v) = ended(&o)? {
            return Ok(Some(v));
        }
        let mut seen: HashMap<Vec<u64>, (String, String)> = HashMap::new();
        for (t, (th, rs)) in c.scen.threads.iter().zip(&o.res).enumerate() {
            let mut at: Option<(u64, u64)> = None;
            for (k, (op, r)) in th.iter().zip(rs).enumerate() {
                let (Op::Cfg { st, .. } | Op::Lens { st, .. } | Op::Hist { st, .. }) = op else { continue };
                if let Some(s) = st {
                    at = Some((s.seed, s.skip));
                }
                let id = format!("{at:?}");
                if let Some(a) = &mut at {
                    a.1 += r.draws;
                }
                if r.status != 1 {
                    return viol("panic", format!("thread {t} call {k}: {}: {}", op_text(op), r.show()));
                }
                if r.draws == 0 {
                    return viol("no-draws", format!("thread {t} call {k}: {}: took nothing from the generator", op_text(op)));
                }
                let name = op_text(op).rsplit_once(' ').unwrap().0.to_string();
                if let Some((n2, id2)) = seen.get(&r.vals) {
                    if *id2 != id && *n2 == name {
                        return viol("replayed", format!("thread {t} call {k}: {}: same sample as from other draws ({id2})", op_text(op)));
                    }
                }
                seen.insert(r.vals.clone(), (name, id));
            }
        }
        Ok(None)
    }

    fn shareable(&mut self, c: &Case) -> Verdict {
        let s = &ops::STRUCTS[c.p[0] as usize];
        self.st.add("runs", 1);
        if !(s.shareable)() {
            return viol("not-shareable", format!("{} can no longer be shared between threads", s.name));
        }
        Ok(None)
    }

    /// A failing allocation: the process may end, a result may not be wrong.
    fn alloc(&mut self, c: &Case) -> Verdict {
        let o = self.go(&c.scen);
        if o.end == End::Signal(6) {
            self.st.add("fault:allocation_failed", 1);
        } else if let Some(v) = ended(&o)? {
            return Ok(Some(v));
        }
        for (op, r) in c.scen.threads[0].iter().zip(o.res.first().unwrap_or(&vec![])) {
            if r.status == 1 {
                let want = self.reference(&c.scen.insts, op);
                if want.as_ref().is_some_and(|w| !r.same(w)) {
                    return viol("mismatch", format!("{}: returned {} although an allocation failed; alone {}", op_text(op), r.show(), want.unwrap().show()));
                }
            }
        }
        Ok(None)
    }

    /// Histories of the damage model.
    fn dmg(&mut self, c: &Case) -> Verdict {
        let o = self.go(&c.scen);
        if let Some(v) = ended(&o)? {
            return Ok(Some(v));
        }
        for i in 0..c.scen.insts.len() {
            let mut ops = vec![Op::Dmg { inst: i, path: vec![1.0] }];
            for op in c.scen.threads.iter().flatten() {
                if let Op::Dmg { inst, path } = op {
                    if at(*inst) == i && path.iter().all(|x| *x >= 1.0) {
                        let mut m: f64 = 1.0;
                        for s in path {
                            m = m.max(*s);
                            ops.push(Op::Dmg { inst: i, path: if m == *s { vec![m] } else { vec![m, *s] } });
                        }
                    }
                }
            }
            self.references(&c.scen.insts, ops);
        }
        for (t, (th, rs)) in c.scen.threads.iter().zip(&o.res).enumerate() {
            for (k, (op, r)) in th.iter().zip(rs).enumerate() {
                let Op::Dmg { inst, path } = op else { continue };
                if r.status == 0 {
                    continue;
                }
                let here = |i: usize| format!("thread {t} call {k} step {i}: {} on {}", op_text(op), inst_text(&c.scen.insts[at(*inst)]));
                let valid = path.iter().all(|x| *x >= 1.0);
                if !valid {
                    if r.status != 2 {
                        return viol("invalid-accepted", format!("{}: a stretch below one did not panic", here(0)));
                    }
                    self.st.add("fault:invalid_argument", 1);
                    continue;
                }
                if r.status != 1 {
                    return viol("panic", format!("{}: {}", here(0), r.show()));
                }
                let v = r.f();
                let alone = |x: &mut Ctx, p: Vec<f64>| -> Option<[f64; 2]> {
                    let r = x.reference(&c.scen.insts, &Op::Dmg { inst: at(*inst), path: p })?;
                    let v = r.f();
                    if r.status == 1 { Some([v[v.len() - 2], v[v.len() - 1]]) } else { None }
                };
                let Some([_, p1]) = alone(self, vec![1.0]) else { return viol("panic", here(0)) };
                let Inst::Dmg(method, ce, kappa, nl, sw) = &c.scen.insts[at(*inst)] else { return Err("inst".into()) };
                let model = Intact::new(*method, *ce, *kappa, *nl, *sw);
                let full = model.at(1.0);
                let mut m: f64 = 1.0;
                let mut low = f64::INFINITY;
                for (i, s) in path.iter().enumerate() {
                    m = m.max(*s);
                    let canon = if m == *s { vec![m] } else { vec![m, *s] };
                    let Some([sc, pc]) = alone(self, canon) else { return viol("panic", here(i)) };
                    let (si, pi) = (v[2 * i], v[2 * i + 1]);
                    // with method 2 the energy of overstretched chains overflows (sinh of about this)
                    let over = *method == 2 && kappa * (ce * (s + s.powi(-2)).sqrt() - 1.0) > 600.0;
                    if over && [pi, si].iter().zip([pc, sc]).all(|(x, y)| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()) && !(pi.is_finite() && si.is_finite()) {
                        self.st.add("damage_points_overflowing", 1);
                        continue;
                    }
                    if !pi.is_finite() || !si.is_finite() {
                        return viol("not-finite", format!("{}: {si:?} {pi:?}", here(i)));
                    }
                    if !close(pi, pc, 1e-9) || !close(si, sc, 1e-9) {
                        return viol("history", format!("{}: stress {si:?}, intact {pi:?}; directly from the largest stretch {m:?}: {sc:?}, {pc:?}", here(i)));
                    }
                    // 256/m cells of the grid are left along the axis of loading
                    if pi > low + 0.02 * p1 + pi * m / 256.0 {
                        return viol("healing", format!("{}: intact probability {pi:?} after {low:?}", here(i)));
                    }
                    low = low.min(pi);
                    let (a, b) = (pi / p1, model.at(m) / full);
                    self.st.add("damage_points", 1);
                    self.st.add("damage_points_with_broken_chains", (b < 0.95) as u64);
                    if (a - b).abs() > 0.03 + b * m / 256.0 {
                        return viol("damage-level", format!("{}: {a:.4} of the chains intact at largest stretch {m:?}, expected {b:.4}", here(i)));
                    }
                }
            }
        }
        Ok(None)
    }

    fn cb(&mut self, c: &Case) -> Verdict {
        let o = self.go(&c.scen);
        if let Some(v) = ended(&o)? {
            return Ok(Some(v));
        }
        for (th, rs) in c.scen.threads.iter().zip(&o.res) {
            for (op, r) in th.iter().zip(rs) {
                let Op::Cb(b) = op else { continue };
                if r.status == 0 {
                    continue;
                }
                let fired = r.fired.get(6).copied().unwrap_or(0) > 0;
                if fired != (r.status == 2) || fired && r.class != 1 {
                    return viol("panic", format!("{}: {}", op_text(op), if fired { format!("the injected panic came out as {}", r.show()) } else { r.show() }));
                }
                if r.fired[7] >> 40 != 0 {
                    return viol("reentrant", format!("{}: a re-entrant call came out wrong", op_text(op)));
                }
                if let Some((class, d)) = if b.what < 2 { newton(b, r) } else { integral(b, r) } {
                    return viol(class, format!("{}: {d}", op_text(op)));
                }
            }
        }
        Ok(None)
    }
}

struct Tr {
    w: u64,
    x: f64,
    y: f64,
    v: f64,
    panicked: bool,
}
fn trace(r: &Res) -> Vec<Tr> {
    r.trace.chunks(4).map(|t| Tr { w: t[0], x: f64::from_bits(t[1]), y: f64::from_bits(t[2]), v: f64::from_bits(t[3]), panicked: t[3] == 0x7ff8_dead_0000_0000 }).collect()
}
fn newton(b: &Cb, r: &Res) -> Option<(&'static str, String)> {
    let t = trace(r);
    let (y, guess, tol, budget) = (b.args[0], b.args[1], b.args[2], b.args[3]);
    let power = if b.what == 1 { b.args[4] as i32 } else { 1 };
    let nf = t.iter().filter(|e| e.w == 0).count();
    let np = t.len() - nf;
    if nf as f64 > budget || np as f64 > budget {
        return Some(("budget", format!("{nf} calls of the function and {np} of the derivative, allowed {budget}")));
    }
    if r.status != 1 {
        return None;
    }
    let res = r.f()[0];
    let nan = t.iter().any(|e| e.v.is_nan() && !e.panicked);
    if nan && res.is_finite() {
        return Some(("nan-hidden", format!("returned {res:?} although given a NaN")));
    }
    if nan {
        return None;
    }
    let last = t.iter().rev().find(|e| e.w == 0);
    match last {
        None => {
            if budget > 0.0 && tol < 1.0 {
                return Some(("no-iteration", "returned without calling the function".into()));
            }
            if res.to_bits() != guess.to_bits() {
                return Some(("invented", format!("returned {res:?} without calling the function, guess {guess:?}")));
            }
        }
        Some(e) => {
            let rel = ((y - e.v) / y).abs();
            if (nf as f64) < budget && rel > tol * (1.0 + 1e-9) {
                return Some(("early-stop", format!("stopped after {nf} of {budget} iterations at residual {rel:?}, tolerance {tol:?}")));
            }
        }
    }
    // The iterates: each follows from the values given for the one before.
    let mut x = guess;
    let mut i = 0;
    while i < t.len() {
        let f = t[i..].iter().position(|e| e.w == 0).map(|k| i + k)?;
        if !close(t[f].x, x, 1e-9) && (t[f].x - x).abs() > 1e-12 && x.is_finite() {
            return Some(("iterate", format!("evaluated at {:?}, the values so far lead to {x:?}", t[f].x)));
        }
        let p = t.iter().enumerate().skip(i).find(|(_, e)| e.w == 1).map(|(k, _)| k)?;
        let a = t[f].v - y;
        let step = -a.powi(power) / a.powi(power - 1) / t[p].v / power as f64;
        if !step.is_finite() || !t[f].x.is_finite() {
            return None;
        }
        x = t[f].x + step;
        if !x.is_finite() || (t[f].x.abs() + step.abs()) > 1e8 * (1.0 + x.abs()) {
            return None;
        }
        i = f.max(p) + 1;
    }
    if !close(res, x, 1e-9) && (res - x).abs() > 1e-12 {
        return Some(("iterate", format!("returned {res:?}, the values given lead to {x:?}")));
    }
    None
}
fn integral(b: &Cb, r: &Res) -> Option<(&'static str, String)> {
    let t = trace(r);
    let a = &b.args;
    let two = b.what >= 4;
    let grid = matches!(b.what, 3 | 6 | 7);
    let n = if grid { 0 } else { a[2] as usize };
    let (xr, yr, want, w) = match b.what {
        2 => ((a[0], a[1]), (0.0, 0.0), n, (a[1] - a[0]) / n as f64),
        4 => ((a[0], a[1]), (a[3], a[4]), n * n, (a[1] - a[0]) / n as f64 * ((a[4] - a[3]) / n as f64)),
        5 => ((a[0], a[1]), (a[0], a[1]), n * n, ((a[1] - a[0]) / n as f64).powi(2)),
        3 => ((0.0, 0.0), (0.0, 0.0), b.grid.len(), a[0]),
        6 => ((0.0, 0.0), (0.0, 0.0), b.grid.len() * b.grid2.len(), a[0]),
        _ => ((0.0, 0.0), (0.0, 0.0), b.grid.len() * b.grid.len(), a[0]),
    };
    let inside = |x: f64, (p, q): (f64, f64)| x >= p.min(q) - 1e-9 && x <= p.max(q) + 1e-9;
    for e in &t {
        let ok = if grid {
            let g2: &[f64] = if b.what == 6 { &b.grid2 } else { &b.grid };
            b.grid.contains(&e.x) && (!two || g2.contains(&e.y))
        } else {
            inside(e.x, xr) && (!two || inside(e.y, yr))
        };
        if !ok {
            return Some(("outside", format!("evaluated at {:?}, {:?}", e.x, e.y)));
        }
    }
    if t.len() > want && t.len() * 4 < CB_TRACE {
        return Some(("extra-calls", format!("{} calls for {want} points", t.len())));
    }
    if r.status != 1 || t.len() * 4 >= CB_TRACE {
        return None;
    }
    let distinct: HashSet<(u64, u64)> = t.iter().map(|e| (e.x.to_bits(), e.y.to_bits())).collect();
    let flat = !grid && (xr.0 == xr.1 || two && yr.0 == yr.1);
    if t.len() != want || (distinct.len() != want && !flat) {
        return Some(("points", format!("{} calls at {} points instead of {want}", t.len(), distinct.len())));
    }
    if want == 0 {
        return None;
    }
    let res = r.f()[0];
    let sum: f64 = t.iter().map(|e| e.v).sum();
    let abs: f64 = t.iter().map(|e| e.v.abs()).sum();
    let exact = sum * w;
    let ok = if exact.is_nan() { res.is_nan() } else if exact.is_infinite() || !abs.is_finite() || abs > 1e290 { res == exact || abs.is_finite() && !exact.is_finite() || abs > 1e290 && abs.is_finite() } else { (res - exact).abs() <= 1e-9 * abs * w.abs() + 1e-300 };
    if !ok {
        return Some(("sum", format!("returned {res:?}; the values given sum to {exact:?}")));
    }
    None
}

/// Reference for the share of intact chains: the model's equilibrium
/// distribution over initial configurations, of which those remain that exceed
/// the critical extension neither initially nor at the largest stretch.
struct Intact {
    ce: f64,
    w: Vec<f64>, // weights over radius^2
}
const IG: usize = 2000;
impl Intact {
    fn new(method: u8, ce: f64, k: f64, n: u8, sw: f64) -> Intact {
        use polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy as free;
        let c = 1.5 * n as f64 * k * (k + 1.0) / (k * k + 6.0 * k + 3.0) / sw.powf(2.0 / 3.0);
        let w = (0..IG)
            .map(|i| {
                let g = ce * (i as f64 + 0.5) / IG as f64;
                if method == 2 { (-free(&n, &k, &g)).exp() } else { (-c * g * g).exp() }
            })
            .collect();
        Intact { ce, w }
    }
    /// Unnormalised share at largest stretch m.
    fn at(&self, m: f64) -> f64 {
        // radial integral of w(g) g^2 times the share of directions that stay below
        let mut s = 0.0;
        for (i, w) in self.w.iter().enumerate() {
            let g = (i as f64 + 0.5) / IG as f64; // in units of the critical extension
            // m^2 x^2 + (1 - x^2)/m <= 1/g^2 for x = cosine
            let x2 = (1.0 / (g * g) - 1.0 / m) / (m * m - 1.0 / m).max(1e-300);
            s += w * g * g * x2.clamp(0.0, 1.0).sqrt();
        }
        s * self.ce.powi(3)
    }
}

pub fn close(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= rel * a.abs().max(b.abs())
}
/// The standard normal variate that begins at each of the first draws of a stream.
fn variates(s: Option<&StreamSpec>, draws: u64) -> Vec<f64> {
    let Some(s) = s else { return vec![] };
    let before = rng::uninstall();
    let v = (0..draws)
        .map(|k| {
            let mut x = rng::Stream::new(s.seed, s.faults.iter().filter(|f| f.kind != rng::PANIC).cloned().collect(), 20_000);
            x.skip(s.skip + k);
            rng::install(x);
            std::panic::catch_unwind(inst::mc::variate).unwrap_or(f64::NAN)
        })
        .collect();
    rng::uninstall();
    if let Some(b) = before {
        rng::install(*b);
    }
    v
}
pub fn links(x: &[f64]) -> Vec<[f64; 3]> {
    let mut p = [0.0; 3];
    x.chunks(3)
        .map(|c| {
            let d = [c[0] - p[0], c[1] - p[1], c[2] - p[2]];
            p = [c[0], c[1], c[2]];
            d
        })
        .collect()
}
pub fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
/// Largest possible end-to-end length (with a margin for rounding).
fn bound(model: u8, n: usize, p: &inst::mc::Par) -> f64 {
    let nf = n as f64;
    match model {
        FJC => nf * (1.0 + 1e-9),
        FRC => {
            let (a, b) = (nf / 2.0, nf / 2.0);
            let (a, b) = (a.ceil(), b.floor());
            ((a - b).powi(2) + 4.0 * a * b * (p.theta / 2.0).cos().powi(2)).sqrt() + 1e-9 * nf
        }
        EFJC | EFRC if p.sd == 0.0 => nf * p.mean * (1.0 + 1e-9),
        _ => f64::INFINITY,
    }
}
fn ended(o: &Outcome) -> Result<Option<Viol>, String> {
    Ok(match &o.end {
        End::Ok => None,
        End::Abort(r) => Some(Viol { class: r.clone(), detail: format!("the callers came to a standstill ({r})") }),
        End::Signal(27) | End::Signal(14) => Some(Viol { class: "hang".into(), detail: "a call did not return".into() }),
        End::Signal(n) => Some(Viol { class: "crash".into(), detail: format!("the process ended by signal {n}") }),
        End::Exit(73) => Some(Viol { class: "init".into(), detail: "a model could not be created".into() }),
        End::Exit(n) => return Err(format!("simulated process exited with {n}")),
    })
}
/// A panic that is not an injected one.
fn unexpected(op: &Op, r: &Res) -> Option<Viol> {
    let injected = r.fired.get(seam::rng::PANIC as usize).is_some_and(|f| *f > 0);
    match (r.status, r.class, injected) {
        (2, 1, true) => None,
        (2, 2, _) => Some(Viol { class: "draw-budget".into(), detail: format!("{}: more draws than a call of this size can need", op_text(op)) }),
        (2, _, _) => Some(Viol { class: "panic".into(), detail: format!("{}: {}", op_text(op), r.show()) }),
        (_, _, true) => Some(Viol { class: "panic-swallowed".into(), detail: format!("{}: the injected panic came out as {}", op_text(op), r.show()) }),
        _ => None,
    }
}
