//! Symbolic execution of one path.  A path is re-executed from the start along a
//! recorded list of decisions; new feasible decisions become new work items.

use crate::expr::*;
use crate::ir::*;
use crate::solver::{Answer, Solver};
use std::collections::{BTreeMap, BTreeSet};

/// Frames of at least 50 bytes would fill a thread's usual stack of 2 MB.
const MAX_DEPTH: usize = 40000;

#[derive(Clone, Debug)]
pub enum End {
    Done,
    /// an assumption excludes the path
    Infeasible,
    Panic(String),
    Fault(String),
    Steps,
    /// calls nested too deeply
    Stack,
    Check(String),
    Undecided(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    /// direction, forced (the other direction is infeasible)
    Br(bool, bool),
    Choice(u32),
    /// an expression is (or is not) this value
    Cv(u64, bool),
}

#[derive(Clone, Debug, Default)]
pub struct Item {
    pub prefix: Vec<Dec>,
    pub model: Vec<u64>,
}

#[derive(Clone, Copy, Debug)]
pub enum Input {
    Choice(u32),
    Var(u32),
}

struct Obj {
    data: Vec<u8>,
    sym: Vec<u32>,
    alive: bool,
    ro: bool,
    /// reachable from memory all threads can see
    esc: bool,
}

struct Frame {
    f: u32,
    pc: u32,
    base: u32,
    d: u32,
    sp: u32,
}

#[derive(Clone, Copy)]
struct VarInfo {
    w: u8,
    dom: [u64; 4],
    multi: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub forks: u64,
    pub decided_domain: u64,
    pub decided_model: u64,
    pub z3_queries: u64,
    pub z3_cached: u64,
    pub z3_unsat: u64,
    pub z3_ns: u64,
    pub checks: u64,
    pub checks_folded: u64,
    pub checks_domain: u64,
    pub checks_z3: u64,
    pub sym_bytes: u64,
    pub choices: u64,
    pub reach: BTreeMap<String, u64>,
    pub check_msgs: BTreeMap<String, u64>,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.done += o.done;
        self.infeasible += o.infeasible;
        self.steps += o.steps;
        self.max_steps = self.max_steps.max(o.max_steps);
        self.forks += o.forks;
        self.decided_domain += o.decided_domain;
        self.decided_model += o.decided_model;
        self.z3_queries += o.z3_queries;
        self.z3_cached += o.z3_cached;
        self.z3_unsat += o.z3_unsat;
        self.z3_ns += o.z3_ns;
        self.checks += o.checks;
        self.checks_folded += o.checks_folded;
        self.checks_domain += o.checks_domain;
        self.checks_z3 += o.checks_z3;
        self.sym_bytes += o.sym_bytes;
        self.choices += o.choices;
        for (k, v) in &o.reach {
            *self.reach.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.check_msgs {
            *self.check_msgs.entry(k.clone()).or_default() += v;
        }
    }
}

const STACK_SIZE: usize = 2 << 20;

pub struct Exec<'m> {
    m: &'m Module,
    panics: Vec<bool>,
    /// Hashing with random keys, which nothing may depend on.
    hashes: Vec<bool>,
    pub ar: Arena,
    solver: Solver,
    qcache: FxMap<u128, Option<Vec<(u32, u64)>>>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    objs: Vec<Obj>,
    nglob: usize,
    dirty: Vec<usize>,
    sp: u32,
    stack_hw: u32,
    vars: Vec<VarInfo>,
    pub model: Vec<u64>,
    pub inputs: Vec<Input>,
    cons: Vec<Id>,
    cons_vars: Vec<Vec<u32>>,
    prefix: Vec<Dec>,
    pos: usize,
    taken: Vec<Dec>,
    pub new_items: Vec<Item>,
    pub stats: Stats,
    pub step_limit: u64,
    pub params: Vec<u64>,
    pub texts: Vec<Vec<Val>>,
    pub obs: Vec<Val>,
    pub edge_seen: Vec<Vec<u8>>,
    pub fn_seen: Vec<bool>,
    path_reach: BTreeSet<String>,
    rng: u64,
    steps: u64,
    how: How,
    /// What another thread does, while it may run.
    other: Option<(u32, Val)>,
    /// The interrupted threads while others run.
    inside: Vec<Stopped>,
    /// Accesses to shared memory by the running thread so far, the one at which it is
    /// stopped, and how many more threads may be stopped at theirs.
    shared: u64,
    stop_at: u64,
    more: u64,
    mute: bool,
    /// Bytes moved, filled, compared and allocated; heap bytes in use and their maximum.
    moved: u64,
    live: u64,
    peak: u64,
}

/// A thread that waits while another one runs: its depth of calls, thread local data
/// and number of accesses to shared memory.
struct Stopped {
    depth: usize,
    own: Vec<(usize, Vec<u8>, Vec<Id>)>,
    shared: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    Domain,
    Model,
    Z3,
}

type R<T> = Result<T, End>;

fn full(w: u32) -> [u64; 4] {
    let _ = w;
    [u64::MAX; 4]
}

fn bits_of(t: &[u64; 256]) -> [u64; 4] {
    let mut r = [0u64; 4];
    for (i, &x) in t.iter().enumerate() {
        if x & 1 != 0 {
            r[i >> 6] |= 1 << (i & 63);
        }
    }
    r
}

fn band(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}

fn bempty(a: [u64; 4]) -> bool {
    a == [0; 4]
}

fn bhas(a: &[u64; 4], i: u64) -> bool {
    a[(i >> 6) as usize] >> (i & 63) & 1 != 0
}

fn bcount(a: &[u64; 4]) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}

fn bnth(a: &[u64; 4], mut k: u32) -> u64 {
    for i in 0..256u64 {
        if bhas(a, i) {
            if k == 0 {
                return i;
            }
            k -= 1;
        }
    }
    0
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, params: Vec<u64>, step_limit: u64) -> Exec<'m> {
        let mut objs = vec![Obj { data: vec![], sym: vec![], alive: false, ro: true, esc: false }];
        for g in &m.globals {
            objs.push(Obj { data: g.data.clone(), sym: vec![], alive: !g.external, ro: g.constant, esc: false });
        }
        let nglob = objs.len();
        objs.push(Obj { data: vec![0; STACK_SIZE], sym: vec![0; STACK_SIZE], alive: true, ro: false, esc: false });
        let panics = m
            .funcs
            .iter()
            .map(|f| {
                let n = &f.name;
                n.contains("4core9panicking")
                    || n.contains("3std9panicking11begin_panic")
                    || n.contains("3std9panicking13panic_handler")
                    || n.contains("3std9panicking19begin_panic_handler")
                    || n.contains("rust_begin_unwind")
                    || n.contains("17rust_begin_unwind")
                    || n.contains("3std9panicking20rust_panic_with_hook")
                    || n.contains("begin_panic_handler")
                    || n.contains("5alloc5alloc18handle_alloc_error")
                    || n.contains("3std7process5abort")
            })
            .collect();
        Exec {
            m,
            panics,
            hashes: m.funcs.iter().map(|f| f.name.contains("RandomState") && f.name.contains("8hash_one")).collect(),
            ar: Arena::new(),
            solver: Solver::new(),
            qcache: FxMap::default(),
            regs: vec![],
            frames: vec![],
            objs,
            nglob,
            dirty: vec![],
            sp: 0,
            stack_hw: 0,
            vars: vec![],
            model: vec![],
            inputs: vec![],
            cons: vec![],
            cons_vars: vec![],
            prefix: vec![],
            pos: 0,
            taken: vec![],
            new_items: vec![],
            stats: Stats::default(),
            step_limit,
            params,
            texts: vec![],
            obs: vec![],
            edge_seen: m.funcs.iter().map(|f| vec![0u8; f.edges.len()]).collect(),
            fn_seen: vec![false; m.funcs.len()],
            path_reach: BTreeSet::new(),
            rng: 0x9E3779B97F4A7C15,
            steps: 0,
            how: How::Domain,
            other: None,
            inside: vec![],
            shared: 0,
            stop_at: 0,
            more: 0,
            mute: false,
            moved: 0,
            live: 0,
            peak: 0,
        }
    }

    fn reset(&mut self, it: Item) {
        self.ar.reset();
        self.regs.clear();
        self.frames.clear();
        for g in self.dirty.drain(..) {
            self.objs[g].data.clone_from(&self.m.globals[g - 1].data);
            self.objs[g].sym.clear();
        }
        self.objs.truncate(self.nglob + 1);
        let hw = self.stack_hw as usize;
        self.objs[self.nglob].data[..hw].fill(0);
        self.objs[self.nglob].sym[..hw].fill(0);
        self.sp = 64;
        self.stack_hw = 64;
        self.vars.clear();
        self.model = it.model;
        self.inputs.clear();
        self.cons.clear();
        self.cons_vars.clear();
        self.prefix = it.prefix;
        self.pos = 0;
        self.taken.clear();
        self.new_items.clear();
        self.texts.clear();
        self.obs.clear();
        self.path_reach.clear();
        self.steps = 0;
        self.other = None;
        self.inside.clear();
        self.mute = false;
        self.moved = 0;
        self.live = 0;
        self.peak = 0;
        self.shared = 0;
    }

    pub fn run_path(&mut self, entry: u32, it: Item) -> End {
        self.reset(it);
        self.stats.paths += 1;
        let r = self.run(entry);
        self.stats.steps += self.steps;
        self.stats.max_steps = self.stats.max_steps.max(self.steps);
        let e = match r {
            Ok(()) => End::Done,
            Err(e) => e,
        };
        match e {
            End::Done => self.stats.done += 1,
            End::Infeasible => self.stats.infeasible += 1,
            _ => {}
        }
        if !matches!(e, End::Infeasible) {
            for k in std::mem::take(&mut self.path_reach) {
                *self.stats.reach.entry(k).or_default() += 1;
            }
        }
        e
    }

    /// Values of the inputs on this path, in creation order.
    pub fn input_values(&self) -> Vec<u64> {
        self.inputs
            .iter()
            .map(|i| match *i {
                Input::Choice(c) => c as u64,
                Input::Var(v) => self.model[v as usize],
            })
            .collect()
    }

    pub fn observed(&mut self) -> Vec<u64> {
        let o = self.obs.clone();
        o.into_iter().map(|v| self.ev(v)).collect()
    }

    pub fn text_values(&mut self) -> Vec<Vec<u8>> {
        let t = self.texts.clone();
        t.into_iter().map(|v| v.into_iter().map(|b| self.ev(b) as u8).collect()).collect()
    }

    fn ev(&mut self, v: Val) -> u64 {
        match v {
            Val::C(c) => c,
            Val::E(e) => {
                let m = std::mem::take(&mut self.model);
                let r = self.ar.eval(e, &m) as u64;
                self.model = m;
                r
            }
        }
    }

    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---------------------------------------------------------------- constraints

    fn split(&self, c: Id, pol: bool, out: &mut Vec<(Id, bool)>) {
        let n = &self.ar.n[c as usize];
        if n.w == 1 {
            if n.op == Op::Xor && self.ar.is_const(n.b) == Some(1) {
                return self.split(n.a, !pol, out);
            }
            if n.op == Op::And && pol || n.op == Op::Or && !pol {
                self.split(n.a, pol, out);
                self.split(n.b, pol, out);
                return;
            }
        }
        out.push((c, pol));
    }

    fn truth(&mut self, c: Id, pol: bool) -> [u64; 4] {
        let b = bits_of(self.ar.table(c));
        if pol {
            b
        } else {
            [!b[0], !b[1], !b[2], !b[3]]
        }
    }

    fn small(&self, c: Id) -> Option<usize> {
        let v = self.ar.n[c as usize].var;
        if v != 0 && v != MULTI {
            Some(v as usize - 1)
        } else {
            None
        }
    }

    fn assert(&mut self, c: Id, pol: bool) {
        let mut l = vec![];
        self.split(c, pol, &mut l);
        for (c, pol) in l {
            if self.ar.is_const(c).is_some() {
                continue;
            }
            if let Some(v) = self.small(c) {
                let t = self.truth(c, pol);
                self.vars[v].dom = band(self.vars[v].dom, t);
                continue;
            }
            // A negated conjunction in which all but one part is certain.
            let n = self.ar.n[c as usize];
            if n.w == 1 && (n.op == Op::And && !pol || n.op == Op::Or && pol) {
                let mut parts = vec![];
                self.split(c, !pol, &mut parts);
                let mut open = vec![];
                let mut sat = false;
                for &(p, q) in &parts {
                    if let Some(v) = self.small(p) {
                        let t = self.truth(p, q);
                        let d = self.vars[v].dom;
                        let i = band(d, t);
                        if i == d {
                            continue; // certainly true
                        }
                        if bempty(i) {
                            sat = true;
                        }
                    }
                    open.push((p, q));
                }
                if sat {
                    continue;
                }
                if open.len() == 1 {
                    let (p, q) = open[0];
                    self.assert(p, !q);
                    continue;
                }
            }
            let id = if pol { c } else { self.ar.not1(c) };
            if self.cons.contains(&id) {
                continue;
            }
            let vs = self.ar.vars_of(id);
            for &v in &vs {
                self.vars[v as usize].multi = true;
            }
            self.cons.push(id);
            self.cons_vars.push(vs);
        }
    }

    /// Unsigned bounds of an expression under the current domains.
    fn range(&mut self, i: Id) -> (u128, u128) {
        let mut memo = FxMap::default();
        self.range_rec(i, &mut memo, 0)
    }

    fn range_rec(&mut self, i: Id, memo: &mut FxMap<Id, (u128, u128)>, depth: u32) -> (u128, u128) {
        if let Some(&r) = memo.get(&i) {
            return r;
        }
        let n = self.ar.n[i as usize];
        let w = n.w as u32;
        let m = mask(w);
        let top = (0, m);
        if depth > 200 {
            return top;
        }
        let r = if n.op == Op::Const {
            (n.k, n.k)
        } else if n.var != MULTI && n.var != 0 && w <= 64 {
            let d = self.vars[n.var as usize - 1].dom;
            let t = self.ar.table(i);
            let (mut lo, mut hi) = (u64::MAX, 0u64);
            for j in 0..256u64 {
                if bhas(&d, j) {
                    lo = lo.min(t[j as usize]);
                    hi = hi.max(t[j as usize]);
                }
            }
            if lo > hi {
                top
            } else {
                (lo as u128, hi as u128)
            }
        } else {
            macro_rules! sub {
                ($x:expr) => {
                    self.range_rec($x, memo, depth + 1)
                };
            }
            match n.op {
                Op::ZExt => sub!(n.a),
                Op::Tab => {
                    let a = sub!(n.a);
                    let t = &self.ar.tables[n.k as usize].0;
                    let r = &t[a.0 as usize..=a.1 as usize];
                    (*r.iter().min().unwrap() as u128, *r.iter().max().unwrap() as u128)
                }
                Op::Add => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    match (a.1.checked_add(b.1), a.0.checked_add(b.0)) {
                        (Some(h), Some(l)) if h <= m => (l, h),
                        // adding a negative constant without wrapping below zero
                        (_, _) if self.ar.is_const(n.b).is_some() && w < 128 => {
                            let k = sext(b.0, w);
                            if k < 0 && a.0 >= k.unsigned_abs() {
                                (a.0 - k.unsigned_abs(), a.1 - k.unsigned_abs())
                            } else {
                                top
                            }
                        }
                        _ => top,
                    }
                }
                Op::Sub => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    if a.0 >= b.1 {
                        (a.0 - b.1, a.1 - b.0)
                    } else {
                        top
                    }
                }
                Op::Mul => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    match a.1.checked_mul(b.1) {
                        Some(h) if h <= m => (a.0 * b.0, h),
                        _ => top,
                    }
                }
                Op::UDiv => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    if b.0 > 0 {
                        (a.0 / b.1, a.1 / b.0)
                    } else {
                        top
                    }
                }
                Op::URem => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    if b.0 > 0 {
                        if a.1 < b.0 {
                            a
                        } else {
                            (0, b.1 - 1)
                        }
                    } else {
                        top
                    }
                }
                Op::And if w > 1 => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    (0, a.1.min(b.1))
                }
                Op::And => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    (a.0 & b.0, a.1 & b.1)
                }
                Op::Or if w == 1 => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    (a.0 | b.0, a.1 | b.1)
                }
                Op::Or => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    let h = a.1.max(b.1);
                    let bits = 128 - h.leading_zeros();
                    (a.0.max(b.0), mask(bits).min(m))
                }
                Op::Xor if w == 1 => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    if a.0 == a.1 && b.0 == b.1 {
                        (a.0 ^ b.0, a.0 ^ b.0)
                    } else {
                        top
                    }
                }
                Op::Ite => {
                    let c = sub!(n.a);
                    if c.0 == 1 {
                        sub!(n.b)
                    } else if c.1 == 0 {
                        sub!(n.c)
                    } else {
                        let (a, b) = (sub!(n.b), sub!(n.c));
                        (a.0.min(b.0), a.1.max(b.1))
                    }
                }
                Op::Concat => {
                    let lw = self.ar.w(n.b);
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    (a.0 << lw | b.0, a.1 << lw | b.1)
                }
                Op::Extract => {
                    let a = sub!(n.a);
                    if n.k == 0 && a.1 <= m {
                        a
                    } else if a.1 >> n.k <= m {
                        (a.0 >> n.k, a.1 >> n.k)
                    } else {
                        top
                    }
                }
                Op::Ult | Op::Ule | Op::Eq | Op::Slt | Op::Sle => {
                    let (a, b) = (sub!(n.a), sub!(n.b));
                    let aw = self.ar.w(n.a);
                    let half = 1u128 << (aw - 1).min(127);
                    let signed_ok = a.1 < half && b.1 < half;
                    match n.op {
                        Op::Ult if a.1 < b.0 => (1, 1),
                        Op::Ult if a.0 >= b.1 => (0, 0),
                        Op::Ule if a.1 <= b.0 => (1, 1),
                        Op::Ule if a.0 > b.1 => (0, 0),
                        Op::Slt if signed_ok && a.1 < b.0 => (1, 1),
                        Op::Slt if signed_ok && a.0 >= b.1 => (0, 0),
                        Op::Sle if signed_ok && a.1 <= b.0 => (1, 1),
                        Op::Sle if signed_ok && a.0 > b.1 => (0, 0),
                        // negative against non-negative
                        Op::Slt | Op::Sle if a.0 >= half && b.1 < half => (1, 1),
                        Op::Slt | Op::Sle if a.1 < half && b.0 >= half => (0, 0),
                        Op::Eq if a.1 < b.0 || b.1 < a.0 => (0, 0),
                        Op::Eq if a.0 == a.1 && b.0 == b.1 && a.0 == b.0 => (1, 1),
                        _ => top,
                    }
                }
                _ => top,
            }
        };
        memo.insert(i, r);
        r
    }

    fn cons_hold(&mut self, model: &[u64], changed: &[u32]) -> bool {
        for k in 0..self.cons.len() {
            if self.cons_vars[k].iter().any(|v| changed.contains(v)) {
                let c = self.cons[k];
                if self.ar.eval(c, model) == 0 {
                    return false;
                }
            }
        }
        true
    }

    /// A model of the path condition and `c`, if there is one.
    fn find_model(&mut self, c: Id) -> R<Option<Vec<u64>>> {
        if let Some(k) = self.ar.is_const(c) {
            self.how = How::Domain;
            return Ok(if k != 0 { Some(self.model.clone()) } else { None });
        }
        if let Some(v) = self.small(c) {
            let t = self.truth(c, true);
            let s = band(t, self.vars[v].dom);
            if bempty(s) {
                self.how = How::Domain;
                return Ok(None);
            }
            let n = bcount(&s);
            let mut m = self.model.clone();
            if !self.vars[v].multi {
                self.how = How::Domain;
                m[v] = bnth(&s, 0);
                // prefer printable witnesses
                for i in 0..n.min(256) {
                    let x = bnth(&s, i);
                    if (0x20..0x7f).contains(&x) {
                        m[v] = x;
                        break;
                    }
                }
                return Ok(Some(m));
            }
            for i in 0..n.min(24) {
                let k = if n <= 24 { i } else { (self.rnd() % n as u64) as u32 };
                m[v] = bnth(&s, k);
                if self.cons_hold(&m, &[v as u32]) {
                    self.how = How::Model;
                    return Ok(Some(m));
                }
            }
        } else {
            if self.range(c).1 == 0 {
                self.how = How::Domain;
                return Ok(None);
            }
            let mut parts = vec![];
            self.split(c, true, &mut parts);
            let mut m = self.model.clone();
            let mut fixed: Vec<(usize, [u64; 4])> = vec![];
            for &(p, q) in &parts {
                if let Some(v) = self.small(p) {
                    let t = self.truth(p, q);
                    match fixed.iter_mut().find(|f| f.0 == v) {
                        Some(f) => f.1 = band(f.1, t),
                        None => {
                            let d = self.vars[v].dom;
                            fixed.push((v, band(d, t)));
                        }
                    }
                }
            }
            if fixed.iter().any(|f| bempty(f.1)) {
                self.how = How::Domain;
                return Ok(None);
            }
            let vs = self.ar.vars_of(c);
            for round in 0..24 {
                for &v in &vs {
                    let vi = self.vars[v as usize];
                    if vi.w == 8 {
                        let s = fixed.iter().find(|f| f.0 == v as usize).map(|f| f.1);
                        let set = s.unwrap_or(vi.dom);
                        if s.is_none() && round == 0 {
                            m[v as usize] = self.model[v as usize];
                            continue;
                        }
                        if round < 8 && round > 0 && s.is_none() && self.rnd() & 1 == 0 {
                            m[v as usize] = self.model[v as usize];
                            continue;
                        }
                        let n = bcount(&set);
                        if n == 0 {
                            continue;
                        }
                        let k = (self.rnd() % n as u64) as u32;
                        m[v as usize] = bnth(&set, k);
                    } else if round > 0 {
                        let r = self.rnd();
                        let x = match r % 7 {
                            0 => self.rnd(),
                            1 => self.rnd() % 16,
                            2 => u64::MAX - self.rnd() % 4,
                            3 => (1u64 << 63).wrapping_add(self.rnd() % 3).wrapping_sub(1),
                            4 => self.model[v as usize],
                            5 => self.rnd() >> (r >> 8 & 63),
                            _ => m[vs[(r >> 8) as usize % vs.len()] as usize],
                        };
                        m[v as usize] = x & mask64(vi.w as u32);
                    }
                }
                if self.ar.eval(c, &m) != 0 && self.cons_hold(&m, &vs) {
                    self.how = How::Model;
                    return Ok(Some(m));
                }
            }
        }
        self.how = How::Z3;
        self.z3(c)
    }

    fn dom_expr(&mut self, v: u32) -> Option<Id> {
        let d = self.vars[v as usize].dom;
        if self.vars[v as usize].w != 8 || d == [u64::MAX; 4] {
            return None;
        }
        let x = self.ar.var_ids[v as usize];
        let mut r = self.ar.konst(1, 0);
        let mut i = 0u64;
        while i < 256 {
            if bhas(&d, i) {
                let lo = i;
                while i < 256 && bhas(&d, i) {
                    i += 1;
                }
                let a = self.ar.konst(8, lo as u128);
                let b = self.ar.konst(8, i as u128 - 1);
                let p = self.ar.bin(Op::Ule, a, x);
                let q = self.ar.bin(Op::Ule, x, b);
                let pq = self.ar.bin(Op::And, p, q);
                r = self.ar.bin(Op::Or, r, pq);
            } else {
                i += 1;
            }
        }
        Some(r)
    }

    fn z3(&mut self, c: Id) -> R<Option<Vec<u64>>> {
        let mut vs = self.ar.vars_of(c);
        let mut used = vec![false; self.cons.len()];
        let mut conj = vec![c];
        loop {
            let mut more = false;
            for k in 0..self.cons.len() {
                if !used[k] && self.cons_vars[k].iter().any(|v| vs.contains(v)) {
                    used[k] = true;
                    more = true;
                    conj.push(self.cons[k]);
                    for &v in &self.cons_vars[k] {
                        if !vs.contains(&v) {
                            vs.push(v);
                        }
                    }
                }
            }
            if !more {
                break;
            }
        }
        for &v in &vs.clone() {
            if let Some(e) = self.dom_expr(v) {
                conj.push(e);
            }
        }
        let mut key: u128 = self.ar.n[c as usize].h;
        for &x in &conj[1..] {
            key = key.wrapping_add(self.ar.n[x as usize].h.wrapping_mul(0xD6E8FEB86659FD93A0761D6478BD642F) | 1);
        }
        let got = match self.qcache.get(&key) {
            Some(r) => {
                self.stats.z3_cached += 1;
                r.clone()
            }
            None => {
                if std::env::var_os("SYMX_TRACE").is_some() {
                    eprintln!("z3{} {}", self.trace(), self.ar.show(c, 8));
                }
                let t = std::time::Instant::now();
                let r = self.solver.check(&self.ar, &conj, &vs);
                self.stats.z3_ns += t.elapsed().as_nanos() as u64;
                self.stats.z3_queries += 1;
                let r = match r {
                    Answer::Sat(m) => Some(m),
                    Answer::Unsat => {
                        self.stats.z3_unsat += 1;
                        None
                    }
                    Answer::Unknown => return Err(End::Undecided("solver gave no answer".into())),
                };
                if self.qcache.len() > 200_000 {
                    self.qcache.clear();
                }
                self.qcache.insert(key, r.clone());
                r
            }
        };
        match got {
            None => Ok(None),
            Some(vals) => {
                let mut m = self.model.clone();
                for (v, x) in vals {
                    m[v as usize] = x;
                }
                for &x in &conj {
                    if self.ar.eval(x, &m) == 0 {
                        return Err(End::Undecided("solver model does not satisfy the query".into()));
                    }
                }
                Ok(Some(m))
            }
        }
    }

    fn fork(&mut self, d: Dec, model: Vec<u64>) {
        self.stats.forks += 1;
        let mut prefix = self.taken.clone();
        prefix.push(d);
        self.new_items.push(Item { prefix, model });
    }

    fn decide(&mut self, c: Id) -> R<bool> {
        if let Some(k) = self.ar.is_const(c) {
            return Ok(k != 0);
        }
        if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos];
            self.pos += 1;
            self.taken.push(d);
            let Dec::Br(dir, forced) = d else {
                return Err(End::Undecided("replay diverged".into()));
            };
            if !forced {
                self.assert(c, dir);
            }
            return Ok(dir);
        }
        let cur = self.ev(Val::E(c)) != 0;
        let other = if cur { self.ar.not1(c) } else { c };
        let m = self.find_model(other)?;
        match self.how {
            How::Domain => self.stats.decided_domain += 1,
            How::Model => self.stats.decided_model += 1,
            How::Z3 => {}
        }
        match m {
            Some(m) => {
                self.fork(Dec::Br(!cur, false), m);
                self.taken.push(Dec::Br(cur, false));
                self.assert(c, cur);
            }
            None => self.taken.push(Dec::Br(cur, true)),
        }
        Ok(cur)
    }

    fn truthy(&mut self, v: Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(c & 1 != 0),
            Val::E(e) => self.decide(e),
        }
    }

    /// Fork over the possible values of an expression.
    fn concretize(&mut self, v: Val) -> R<u64> {
        let e = match v {
            Val::C(c) => return Ok(c),
            Val::E(e) => e,
        };
        let w = self.ar.w(e);
        let mut rounds = 0;
        loop {
            rounds += 1;
            if rounds > 2000 {
                return Err(End::Undecided("too many values for a symbolic address or size".into()));
            }
            if let Some(k) = self.ar.is_const(e) {
                return Ok(k as u64);
            }
            if self.pos < self.prefix.len() {
                let d = self.prefix[self.pos];
                self.pos += 1;
                self.taken.push(d);
                let Dec::Cv(x, yes) = d else {
                    return Err(End::Undecided("replay diverged".into()));
                };
                let k = self.ar.konst(w, x as u128);
                let eq = self.ar.bin(Op::Eq, e, k);
                self.assert(eq, yes);
                if yes {
                    return Ok(x);
                }
                continue;
            }
            let x = self.ev(Val::E(e));
            let k = self.ar.konst(w, x as u128);
            let eq = self.ar.bin(Op::Eq, e, k);
            let ne = self.ar.not1(eq);
            if let Some(m) = self.find_model(ne)? {
                self.fork(Dec::Cv(x, false), m);
            }
            self.taken.push(Dec::Cv(x, true));
            self.assert(eq, true);
            return Ok(x);
        }
    }

    // ---------------------------------------------------------------- memory

    fn fault(&self, what: &str, addr: u64, n: u64) -> End {
        let id = (addr >> 32) as usize;
        let size = self.objs.get(id).map(|o| o.data.len()).unwrap_or(0);
        End::Fault(format!(
            "{} of {} byte(s) at offset {} of object {} (size {}){}",
            what,
            n,
            addr & 0xffff_ffff,
            id,
            size,
            self.trace()
        ))
    }

    fn obj(&self, addr: u64, n: u64, what: &str) -> R<(usize, usize)> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match self.objs.get(id) {
            Some(o) if o.alive && off as u64 + n <= o.data.len() as u64 => Ok((id, off)),
            _ => Err(self.fault(what, addr, n)),
        }
    }

    fn load_bytes_sym(&mut self, id: usize, off: usize, n: usize) -> Id {
        let mut r: Option<Id> = None;
        for i in (0..n).rev() {
            let s = self.objs[id].sym[off + i];
            let b = if s != 0 {
                s
            } else {
                let k = self.objs[id].data[off + i] as u128;
                self.ar.konst(8, k)
            };
            r = Some(match r {
                None => b,
                Some(h) => self.ar.concat(h, b),
            });
        }
        r.unwrap()
    }

    fn load(&mut self, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = self.obj(addr, n as u64, "read")?;
        let o = &self.objs[id];
        if n <= 8 && (o.sym.is_empty() || o.sym[off..off + n].iter().all(|&x| x == 0)) {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::C(u64::from_le_bytes(b) & mask64(w)));
        }
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&x| x == 0) {
            let mut k = 0u128;
            for i in 0..n {
                k |= (o.data[off + i] as u128) << (8 * i);
            }
            return Ok(Val::E(self.ar.konst(w, k)));
        }
        let e = self.load_bytes_sym(id, off, n);
        let e = if 8 * n as u32 > w { self.ar.extract(e, 0, w) } else { e };
        Ok(self.ar.val(e))
    }

    fn load_at(&mut self, p: Val, off: u32, w: u32) -> R<Val> {
        let e = match p {
            Val::C(a) => return self.load(a.wrapping_add(off as u64), w),
            Val::E(e) => e,
        };
        // A table indexed by one symbolic byte.
        if let Some(v) = self.small(e) {
            if w <= 64 && self.pos >= self.prefix.len() || w <= 64 {
                let d = self.vars[v].dom;
                let t = *self.ar.table(e);
                let n = ((w + 7) / 8) as u64;
                let mut out = Box::new([0u64; 256]);
                let mut ok = true;
                let mut last = 0;
                let mut first_obj = None;
                for j in 0..256u64 {
                    if !bhas(&d, j) {
                        continue;
                    }
                    let a = t[j as usize].wrapping_add(off as u64);
                    let id = (a >> 32) as usize;
                    if *first_obj.get_or_insert(id) != id {
                        ok = false;
                        break;
                    }
                    match self.obj(a, n, "read") {
                        Ok((id, o)) => {
                            let ob = &self.objs[id];
                            if !ob.sym.is_empty() && ob.sym[o..o + n as usize].iter().any(|&x| x != 0) {
                                ok = false;
                                break;
                            }
                            let mut b = [0u8; 8];
                            b[..n as usize].copy_from_slice(&ob.data[o..o + n as usize]);
                            last = u64::from_le_bytes(b) & mask64(w);
                            out[j as usize] = last;
                        }
                        Err(_) => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    for j in 0..256u64 {
                        if !bhas(&d, j) {
                            out[j as usize] = last;
                        }
                    }
                    let var = self.ar.var_ids[v];
                    let r = self.ar.tab(var, out, w);
                    return Ok(self.ar.val(r));
                }
            }
        }
        // A table in memory indexed by a value with few possible positions.
        let (lo, hi) = self.range(e);
        if w <= 64 && hi - lo <= 255 && hi <= u64::MAX as u128 - off as u128 {
            let n = ((w + 7) / 8) as u64;
            let first = lo as u64 + off as u64;
            if let Ok((id, o)) = self.obj(first, (hi - lo) as u64 + n, "read") {
                let cnt = (hi - lo) as usize;
                let ob = &self.objs[id];
                if ob.sym.is_empty() || ob.sym[o..o + cnt + n as usize].iter().all(|&x| x == 0) {
                    let mut out = Box::new([0u64; 256]);
                    for j in 0..=cnt {
                        let mut b = [0u8; 8];
                        b[..n as usize].copy_from_slice(&ob.data[o + j..o + j + n as usize]);
                        out[j] = u64::from_le_bytes(b) & mask64(w);
                    }
                    for j in cnt + 1..256 {
                        out[j] = out[cnt];
                    }
                    let kl = self.ar.konst(64, lo);
                    let d = self.ar.bin(Op::Sub, e, kl);
                    let ix = self.ar.extract(d, 0, 8);
                    let r = self.ar.tab(ix, out, w);
                    return Ok(self.ar.val(r));
                }
            }
        }
        let a = self.concretize(Val::E(e))?;
        self.load(a.wrapping_add(off as u64), w)
    }

    fn touch(&mut self, id: usize) -> R<()> {
        if id < self.nglob {
            if self.objs[id].ro {
                return Err(End::Fault(format!("write to a constant{}", self.trace())));
            }
            if !self.dirty.contains(&id) {
                self.dirty.push(id);
            }
        }
        Ok(())
    }

    fn store(&mut self, addr: u64, w: u32, v: Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = self.obj(addr, n as u64, "write")?;
        if id < self.nglob {
            self.touch(id)?;
        }
        match v {
            Val::C(c) if n <= 8 => {
                let o = &mut self.objs[id];
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
                if self.other.is_some() && n == 8 && self.is_shared(id) {
                    self.escape(id, off, off + n);
                }
            }
            _ => {
                let mut e = self.ar.id(v, w);
                if 8 * n as u32 > w {
                    e = self.ar.zext(e, 8 * n as u32);
                }
                if self.objs[id].sym.is_empty() {
                    let l = self.objs[id].data.len();
                    self.objs[id].sym = vec![0; l];
                }
                for i in 0..n {
                    let b = self.ar.extract_raw(e, 8 * i as u32, 8);
                    self.put_byte(id, off + i, b);
                }
            }
        }
        Ok(())
    }

    fn put_byte(&mut self, id: usize, off: usize, b: Id) {
        let k = self.ar.is_const(b);
        let o = &mut self.objs[id];
        match k {
            Some(k) => {
                o.data[off] = k as u8;
                if !o.sym.is_empty() {
                    o.sym[off] = 0;
                }
            }
            None => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[off] = b;
            }
        }
    }

    fn byte(&self, id: usize, off: usize) -> Val {
        let o = &self.objs[id];
        if !o.sym.is_empty() && o.sym[off] != 0 {
            Val::E(o.sym[off])
        } else {
            Val::C(o.data[off] as u64)
        }
    }

    fn copy(&mut self, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.obj(src, n, "read")?;
        let (di, d0) = self.obj(dst, n, "write")?;
        self.touch(di)?;
        self.moved += n;
        let n = n as usize;
        if si == di {
            let o = &mut self.objs[si];
            o.data.copy_within(so..so + n, d0);
            if !o.sym.is_empty() {
                o.sym.copy_within(so..so + n, d0);
            }
        } else {
            let (a, b) = if si < di {
                let (l, r) = self.objs.split_at_mut(di);
                (&l[si], &mut r[0])
            } else {
                let (l, r) = self.objs.split_at_mut(si);
                (&r[0], &mut l[di])
            };
            b.data[d0..d0 + n].copy_from_slice(&a.data[so..so + n]);
            let ssym = !a.sym.is_empty() && a.sym[so..so + n].iter().any(|&x| x != 0);
            if ssym && b.sym.is_empty() {
                b.sym = vec![0; b.data.len()];
            }
            if !b.sym.is_empty() {
                if a.sym.is_empty() {
                    b.sym[d0..d0 + n].fill(0);
                } else {
                    b.sym[d0..d0 + n].copy_from_slice(&a.sym[so..so + n]);
                }
            }
        }
        if self.other.is_some() && self.is_shared(di) {
            self.escape(di, d0 & !7, d0 + n);
        }
        Ok(())
    }

    fn alloc(&mut self, n: u64) -> u64 {
        if n > 1 << 30 {
            return 0;
        }
        let id = self.objs.len() as u64;
        self.moved += 320;
        self.live += n;
        self.peak = self.peak.max(self.live);
        self.objs.push(Obj { data: vec![0; n as usize], sym: vec![], alive: true, ro: false, esc: false });
        id << 32
    }

    fn free(&mut self, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = (a >> 32) as usize;
        if id <= self.nglob || id >= self.objs.len() || !self.objs[id].alive || a & 0xffff_ffff != 0 {
            return Err(self.fault("free", a, 0));
        }
        let o = &mut self.objs[id];
        o.alive = false;
        self.live = self.live.saturating_sub(o.data.len() as u64);
        o.data = vec![];
        o.sym = vec![];
        Ok(())
    }

    fn trace(&self) -> String {
        let mut s = String::from(" in ");
        for (k, f) in self.frames.iter().rev().take(6).enumerate() {
            if k > 0 {
                s.push_str(" < ");
            }
            s.push_str(&crate::short_name(&self.m.funcs[f.f as usize].name));
        }
        s
    }

    // ---------------------------------------------------------------- operators

    fn bin(&mut self, op: Op, w: u32, a: Val, b: Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = mask64(w);
                let r = match op {
                    Op::Add => x.wrapping_add(y),
                    Op::Sub => x.wrapping_sub(y),
                    Op::Mul => x.wrapping_mul(y),
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl if y < 64 => x << y,
                    Op::LShr if y < 64 => x >> y,
                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => {
                        return Err(End::Fault(format!("division by zero{}", self.trace())))
                    }
                    _ => fold2(op, w, x as u128, y as u128).unwrap() as u64,
                };
                return Ok(Val::C(r & m));
            }
        }
        let x = self.ar.id(a, w);
        let y = self.ar.id(b, w);
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
            let z = self.ar.konst(w, 0);
            let zero = self.ar.bin(Op::Eq, y, z);
            if self.decide(zero)? {
                return Err(End::Fault(format!("division by zero{}", self.trace())));
            }
        }
        let r = self.ar.bin(op, x, y);
        Ok(self.ar.val(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let s = 64 - w.min(64);
            let (sx, sy) = (((x << s) as i64) >> s, ((y << s) as i64) >> s);
            return Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            } as u64);
        }
        let x = self.ar.id(a, w);
        let y = self.ar.id(b, w);
        let r = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.bin(Op::Eq, x, y);
                self.ar.not1(e)
            }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.ar.val(r)
    }

    fn select(&mut self, w: u32, c: Val, a: Val, b: Val) -> Val {
        match c {
            Val::C(k) => {
                if k & 1 != 0 {
                    a
                } else {
                    b
                }
            }
            Val::E(e) => {
                let x = self.ar.id(a, w);
                let y = self.ar.id(b, w);
                let r = self.ar.ite(e, x, y);
                self.ar.val(r)
            }
        }
    }

    fn cast(&mut self, op: Op, fw: u32, tw: u32, a: Val) -> Val {
        if let Val::C(x) = a {
            if tw <= 64 {
                match op {
                    Op::ZExt => return Val::C(x),
                    Op::Extract => return Val::C(x & mask64(tw)),
                    Op::SExt => {
                        let s = 64 - fw;
                        return Val::C(((((x << s) as i64) >> s) as u64) & mask64(tw));
                    }
                    _ => return Val::C(fold1(op, tw, fw, x as u128, 0).unwrap() as u64),
                }
            }
        }
        let e = self.ar.id(a, fw);
        let r = match op {
            Op::ZExt => self.ar.zext(e, tw),
            Op::SExt => self.ar.sext(e, tw),
            Op::Extract => self.ar.extract(e, 0, tw),
            _ => self.ar.un(op, tw, e),
        };
        self.ar.val(r)
    }

    /// (zext x * c) >> s over 256 bits, from products of 64 bit halves
    fn mul_shr(&mut self, x: Id, c: u128, s: u32, tw: u32) -> Val {
        let ar = &mut self.ar;
        let x = if ar.w(x) < 128 { ar.zext(x, 128) } else { x };
        let (m, k64) = (ar.konst(128, u64::MAX as u128), ar.konst(128, 64));
        let (cl, ch) = (ar.konst(128, c & u64::MAX as u128), ar.konst(128, c >> 64));
        let (xl, xh) = (ar.bin(Op::And, x, m), ar.bin(Op::LShr, x, k64));
        let ll = ar.bin(Op::Mul, xl, cl);
        let lh = ar.bin(Op::Mul, xl, ch);
        let hl = ar.bin(Op::Mul, xh, cl);
        let hh = ar.bin(Op::Mul, xh, ch);
        let mut mid = ar.bin(Op::LShr, ll, k64);
        for p in [lh, hl] {
            let q = ar.bin(Op::And, p, m);
            mid = ar.bin(Op::Add, mid, q);
        }
        let mut hi = hh;
        for p in [lh, hl, mid] {
            let q = ar.bin(Op::LShr, p, k64);
            hi = ar.bin(Op::Add, hi, q);
        }
        let (l1, l0) = (ar.bin(Op::Shl, mid, k64), ar.bin(Op::And, ll, m));
        let lo = ar.bin(Op::Or, l1, l0);
        let r = if s == 0 {
            lo
        } else if s >= 128 {
            let k = ar.konst(128, s as u128 - 128);
            ar.bin(Op::LShr, hi, k)
        } else {
            let (k, n) = (ar.konst(128, s as u128), ar.konst(128, 128 - s as u128));
            let (a, b) = (ar.bin(Op::LShr, lo, k), ar.bin(Op::Shl, hi, n));
            ar.bin(Op::Or, a, b)
        };
        let r = if tw < 128 { ar.extract(r, 0, tw) } else { r };
        ar.val(r)
    }

    fn overflow(&mut self, k: Intr, w: u32, a: Val, b: Val) -> R<(Val, Val)> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (x as u128, y as u128);
            let m = mask(w);
            let (sx, sy) = (sext(x, w), sext(y, w));
            let (r, o) = match k {
                Intr::UaddO => (x + y, x + y > m),
                Intr::UsubO => (x.wrapping_sub(y), x < y),
                Intr::UmulO => (x * y, x * y > m),
                _ => {
                    let s = match k {
                        Intr::SaddO => sx + sy,
                        Intr::SsubO => sx - sy,
                        _ => sx * sy,
                    };
                    (s as u128, sext(s as u128 & m, w) != s)
                }
            };
            return Ok((Val::C((r & m) as u64), Val::C(o as u64)));
        }
        let x = self.ar.id(a, w);
        let y = self.ar.id(b, w);
        if w > 64 {
            return self.overflow_wide(k, w, x, y);
        }
        let (rx, ry) = (self.range(x), self.range(y));
        let m = mask(w);
        let half = 1u128 << (w - 1);
        let no = match k {
            Intr::UaddO => rx.1 + ry.1 <= m,
            Intr::UmulO => rx.1 * ry.1 <= m,
            Intr::UsubO => rx.0 >= ry.1,
            Intr::SaddO => rx.1 < half && ry.1 < half && rx.1 + ry.1 < half,
            Intr::SmulO => rx.1 < half && ry.1 < half && rx.1 * ry.1 < half,
            Intr::SsubO => rx.1 < half && ry.1 < half,
            _ => false,
        };
        let op = match k {
            Intr::UaddO | Intr::SaddO => Op::Add,
            Intr::UsubO | Intr::SsubO => Op::Sub,
            _ => Op::Mul,
        };
        let r = self.ar.bin(op, x, y);
        let o = if no {
            self.ar.konst(1, 0)
        } else {
            match k {
                Intr::UaddO => self.ar.bin(Op::Ult, r, x),
                Intr::UsubO => self.ar.bin(Op::Ult, x, y),
                Intr::UmulO => {
                    let (ex, ey) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                    let p = self.ar.bin(Op::Mul, ex, ey);
                    let lim = self.ar.konst(2 * w, m);
                    self.ar.bin(Op::Ult, lim, p)
                }
                _ => {
                    let ww = if k == Intr::SmulO { 2 * w } else { w + 1 };
                    let (ex, ey) = (self.ar.sext(x, ww), self.ar.sext(y, ww));
                    let p = self.ar.bin(op, ex, ey);
                    let back = self.ar.sext(r, ww);
                    let e = self.ar.bin(Op::Eq, p, back);
                    self.ar.not1(e)
                }
            }
        };
        Ok((self.ar.val(r), self.ar.val(o)))
    }

    /// Overflow of more than 64 bits, without wider intermediate results.
    fn overflow_wide(&mut self, k: Intr, w: u32, x: Id, y: Id) -> R<(Val, Val)> {
        let op = match k {
            Intr::UaddO | Intr::SaddO => Op::Add,
            Intr::UsubO | Intr::SsubO => Op::Sub,
            _ => Op::Mul,
        };
        let r = self.ar.bin(op, x, y);
        let zero = self.ar.konst(w, 0);
        let o = match k {
            Intr::UaddO => self.ar.bin(Op::Ult, r, x),
            Intr::UsubO => self.ar.bin(Op::Ult, x, y),
            Intr::SaddO | Intr::SsubO => {
                let p = self.ar.bin(Op::Xor, x, r);
                let q = if k == Intr::SaddO { self.ar.bin(Op::Xor, y, r) } else { self.ar.bin(Op::Xor, x, y) };
                let z = self.ar.bin(Op::And, p, q);
                self.ar.bin(Op::Slt, z, zero)
            }
            _ => {
                // x != 0 and (r / x != y), and the signed minimum by -1
                let one = self.ar.konst(w, 1);
                let nz = self.ar.bin(Op::Eq, x, zero);
                let den = self.ar.ite(nz, one, x);
                let div = if k == Intr::UmulO { Op::UDiv } else { Op::SDiv };
                let back = self.ar.bin(div, r, den);
                let same = self.ar.bin(Op::Eq, back, y);
                let fine = self.ar.bin(Op::Or, nz, same);
                let mut o = self.ar.not1(fine);
                if k == Intr::SmulO {
                    let (m1, min) = (self.ar.konst(w, mask(w)), self.ar.konst(w, 1u128 << (w - 1)));
                    let (a, b) = (self.ar.bin(Op::Eq, x, m1), self.ar.bin(Op::Eq, y, min));
                    let c = self.ar.bin(Op::And, a, b);
                    o = self.ar.bin(Op::Or, o, c);
                }
                o
            }
        };
        Ok((self.ar.val(r), self.ar.val(o)))
    }

    // ---------------------------------------------------------------- interpreter

    #[inline(always)]
    fn g(&mut self, base: usize, o: Opn) -> Val {
        match o {
            Opn::R(r) => self.regs[base + r as usize],
            Opn::K(k) => Val::C(k),
            Opn::Big(i) => {
                let k = self.m.big[i as usize];
                Val::E(self.ar.konst(128, k))
            }
        }
    }

    fn enter(&mut self, f: u32, args: &[Val], d: u32) -> R<()> {
        let fun = &self.m.funcs[f as usize];
        self.fn_seen[f as usize] = true;
        let base = self.regs.len() as u32;
        self.regs.resize(base as usize + fun.nregs as usize, Val::C(0));
        for (i, a) in args.iter().enumerate() {
            if i < fun.nargs as usize {
                self.regs[base as usize + i] = *a;
            }
        }
        let sp = self.sp;
        self.sp += fun.frame;
        if self.sp as usize >= STACK_SIZE {
            return Err(End::Stack);
        }
        self.stack_hw = self.stack_hw.max(self.sp);
        if self.frames.len() > MAX_DEPTH {
            return Err(End::Stack);
        }
        self.frames.push(Frame { f, pc: 0, base, d, sp });
        Ok(())
    }

    fn take_edge(&mut self, f: u32, base: usize, e: u32) -> u32 {
        let m = self.m;
        let ed = &m.funcs[f as usize].edges[e as usize];
        self.edge_seen[f as usize][e as usize] = 1;
        match ed.moves.len() {
            0 => {}
            1 => {
                let v = self.g(base, ed.moves[0].1);
                self.regs[base + ed.moves[0].0 as usize] = v;
            }
            n if n <= 8 => {
                let mut t = [Val::C(0); 8];
                for (k, mv) in ed.moves.iter().enumerate() {
                    t[k] = self.g(base, mv.1);
                }
                for (k, mv) in ed.moves.iter().enumerate() {
                    self.regs[base + mv.0 as usize] = t[k];
                }
            }
            _ => {
                let t: Vec<Val> = ed.moves.iter().map(|mv| self.g(base, mv.1)).collect();
                for (k, mv) in ed.moves.iter().enumerate() {
                    self.regs[base + mv.0 as usize] = t[k];
                }
            }
        }
        ed.pc
    }

    /// Does this instruction use memory that other threads may use as well?
    fn shares(&self, ins: &I, base: usize) -> bool {
        let at = |o: &Opn| match match o {
            Opn::R(r) => self.regs[base + *r as usize],
            Opn::K(k) => Val::C(*k),
            _ => Val::C(0),
        } {
            Val::C(a) => {
                let id = (a >> 32) as usize;
                id > 0 && id < self.objs.len() && self.is_shared(id)
            }
            _ => false,
        };
        match ins {
            I::Load { p, .. } | I::Store { p, .. } | I::Rmw { p, .. } | I::CmpXchg { p, .. } => at(p),
            I::Call { t, args, .. } if matches!(**t, Target::Intr(..)) => args.iter().take(2).any(at),
            _ => false,
        }
    }

    fn is_shared(&self, id: usize) -> bool {
        if id < self.nglob {
            !self.objs[id].ro && !self.m.globals[id - 1].tls
        } else {
            self.objs[id].esc
        }
    }

    /// What the contents of a shared object point to is shared as well.
    fn escape(&mut self, id: usize, from: usize, to: usize) {
        let mut todo = vec![(id, from, to)];
        while let Some((id, from, to)) = todo.pop() {
            let mut found = vec![];
            let d = &self.objs[id].data;
            for i in (from..to.min(d.len()).saturating_sub(7)).step_by(8) {
                let a = u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
                let t = (a >> 32) as usize;
                if t >= self.nglob && t < self.objs.len() {
                    let o = &self.objs[t];
                    if o.alive && !o.esc && (a & 0xffff_ffff) <= o.data.len() as u64 {
                        found.push(t);
                    }
                }
            }
            for t in found {
                self.objs[t].esc = true;
                todo.push((t, 0, usize::MAX));
            }
        }
    }

    /// Whether the other thread runs here.
    fn interrupt(&mut self) -> bool {
        let c = if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos];
            self.pos += 1;
            matches!(d, Dec::Choice(1))
        } else {
            let m = self.model.clone();
            self.fork(Dec::Choice(1), m);
            false
        };
        self.taken.push(Dec::Choice(c as u32));
        c
    }

    fn run(&mut self, entry: u32) -> R<()> {
        self.enter(entry, &[], u32::MAX)?;
        let m = self.m;
        'frame: loop {
            let fr = self.frames.last().unwrap();
            let fid = fr.f;
            let base = fr.base as usize;
            let mut pc = fr.pc as usize;
            let fun = &m.funcs[fid as usize];
            let code = &fun.code[..];
            loop {
                self.steps += 1;
                if self.steps > self.step_limit {
                    return Err(End::Steps);
                }
                let ins = &code[pc];
                if self.other.is_some() && self.shares(ins, base) {
                    self.shared += 1;
                    let stop = if self.inside.is_empty() {
                        // one of them
                        self.stop_at == 0 && self.interrupt()
                    } else {
                        self.more > 0 && self.shared == self.stop_at
                    };
                    if stop {
                        if self.inside.is_empty() {
                            self.stop_at = self.shared;
                        } else {
                            self.more -= 1;
                        }
                        let (f, a) = self.other.unwrap();
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        let mut own = vec![];
                        for (k, g) in m.globals.iter().enumerate() {
                            if g.tls {
                                let o = &mut self.objs[k + 1];
                                own.push((k + 1, std::mem::replace(&mut o.data, g.data.clone()), std::mem::take(&mut o.sym)));
                            }
                        }
                        let shared = std::mem::take(&mut self.shared);
                        self.inside.push(Stopped { depth: self.frames.len(), own, shared });
                        self.enter(f, &[a], u32::MAX)?;
                        continue 'frame;
                    }
                }
                pc += 1;
                match ins {
                    I::Bin { op, w, d, a, b } => {
                        let (x, y) = (self.g(base, *a), self.g(base, *b));
                        let r = self.bin(*op, *w as u32, x, y)?;
                        self.regs[base + *d as usize] = r;
                    }
                    I::Icmp { p, w, d, a, b } => {
                        let (x, y) = (self.g(base, *a), self.g(base, *b));
                        let r = self.icmp(*p, *w as u32, x, y);
                        self.regs[base + *d as usize] = r;
                    }
                    I::Mov { d, a } => {
                        let x = self.g(base, *a);
                        self.regs[base + *d as usize] = x;
                    }
                    I::Load { d, w, p, off } => {
                        let a = self.g(base, *p);
                        let v = match a {
                            Val::C(a) => self.load(a.wrapping_add(*off as u64), *w as u32)?,
                            _ => self.load_at(a, *off, *w as u32)?,
                        };
                        self.regs[base + *d as usize] = v;
                    }
                    I::Store { w, v, p, off } => {
                        let a = self.g(base, *p);
                        let x = self.g(base, *v);
                        let a = match a {
                            Val::C(a) => a,
                            e => self.concretize(e)?,
                        };
                        self.store(a.wrapping_add(*off as u64), *w as u32, x)?;
                    }
                    I::Gep { d, base: b, k, idx } => {
                        let mut p = self.g(base, *b);
                        for (o, w, scale) in idx.iter() {
                            let i = self.g(base, *o);
                            let i = if *w < 64 { self.cast(Op::SExt, *w as u32, 64, i) } else { i };
                            let off = self.bin(Op::Mul, 64, i, Val::C(*scale))?;
                            p = self.bin(Op::Add, 64, p, off)?;
                        }
                        if *k != 0 {
                            p = self.bin(Op::Add, 64, p, Val::C(*k as u64))?;
                        }
                        self.regs[base + *d as usize] = p;
                    }
                    I::Br { e } => {
                        pc = self.take_edge(fid, base, *e) as usize;
                    }
                    I::CondBr { c, t, f } => {
                        let v = self.g(base, *c);
                        let b = match v {
                            Val::C(k) => k & 1 != 0,
                            Val::E(e) => self.decide(e)?,
                        };
                        pc = self.take_edge(fid, base, if b { *t } else { *f }) as usize;
                    }
                    I::Switch { w, v, cases, def } => {
                        let x = self.g(base, *v);
                        let mut e = *def;
                        match x {
                            Val::C(k) => {
                                for (c, ed) in cases.iter() {
                                    if *c == k {
                                        e = *ed;
                                        break;
                                    }
                                }
                            }
                            Val::E(_) => {
                                for (c, ed) in cases.iter() {
                                    let q = self.icmp(Pred::Eq, *w as u32, x, Val::C(*c));
                                    if self.truthy(q)? {
                                        e = *ed;
                                        break;
                                    }
                                }
                            }
                        }
                        pc = self.take_edge(fid, base, e) as usize;
                    }
                    I::Sel { w, ptr, d, c, a, b } => {
                        let cv = self.g(base, *c);
                        let (x, y) = (self.g(base, *a), self.g(base, *b));
                        let r = if *ptr {
                            if self.truthy(cv)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.select(*w as u32, cv, x, y)
                        };
                        self.regs[base + *d as usize] = r;
                    }
                    I::Cast { op, fw, tw, d, a } => {
                        let x = self.g(base, *a);
                        let r = self.cast(*op, *fw as u32, *tw as u32, x);
                        self.regs[base + *d as usize] = r;
                    }
                    I::Alloca { d, off } => {
                        let sp = self.frames.last().unwrap().sp;
                        self.regs[base + *d as usize] = Val::C(((self.nglob as u64) << 32) + sp as u64 + *off as u64);
                    }
                    I::Call { t, args, d, n, w } => {
                        let mut buf: [Val; 12] = [Val::C(0); 12];
                        let big: Vec<Val>;
                        let av: &[Val] = if args.len() <= 12 {
                            for (k, a) in args.iter().enumerate() {
                                buf[k] = self.g(base, *a);
                            }
                            &buf[..args.len()]
                        } else {
                            big = args.iter().map(|a| self.g(base, *a)).collect();
                            &big
                        };
                        let target = match &**t {
                            Target::Fn(f) => *f,
                            Target::Ptr(o) => {
                                let p = self.g(base, *o);
                                let p = self.concretize(p)?;
                                let id = (p >> 32).wrapping_sub(FN_BASE);
                                if p & 0xffff_ffff != 0 || id >= m.funcs.len() as u64 {
                                    return Err(End::Fault(format!("call of address {:x}{}", p, self.trace())));
                                }
                                id as u32
                            }
                            Target::Intr(k, iw) => {
                                self.frames.last_mut().unwrap().pc = pc as u32;
                                self.intrinsic(*k, *iw, *w as u32, av, base, *d)?;
                                continue;
                            }
                            Target::Ext(name) => {
                                self.frames.last_mut().unwrap().pc = pc as u32;
                                let r = self.external(name, av)?;
                                if *d != u32::MAX && *n > 0 {
                                    self.regs[base + *d as usize] = r;
                                }
                                continue;
                            }
                        };
                        if self.panics[target as usize] {
                            return Err(End::Panic(format!(
                                "{}{}",
                                crate::short_name(&m.funcs[target as usize].name),
                                self.trace()
                            )));
                        }
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        if self.hashes[target as usize] {
                            // one of the functions a hash may be, the worst: equal for all keys.
                            // The first key added to a small table comes last in its order.
                            if *d != u32::MAX {
                                self.regs[base + *d as usize] = Val::C(u64::MAX);
                            }
                            continue;
                        }
                        if !m.funcs[target as usize].defined {
                            let name = m.funcs[target as usize].name.clone();
                            let r = self.external(&name, av)?;
                            if *d != u32::MAX && *n > 0 {
                                self.regs[base + *d as usize] = r;
                            }
                            continue;
                        }
                        // small copy to end the borrow of `buf`
                        let av: Vec<Val> = av.to_vec();
                        self.enter(target, &av, *d)?;
                        continue 'frame;
                    }
                    I::Ret { v } => {
                        let mut t = [Val::C(0); 8];
                        let big: Vec<Val>;
                        let rv: &[Val] = if v.len() <= 8 {
                            for (k, o) in v.iter().enumerate() {
                                t[k] = self.g(base, *o);
                            }
                            &t[..v.len()]
                        } else {
                            big = v.iter().map(|o| self.g(base, *o)).collect();
                            &big
                        };
                        let fr = self.frames.pop().unwrap();
                        if self.inside.last().map_or(false, |x| x.depth == self.frames.len()) {
                            let t = self.inside.pop().unwrap();
                            for (k, d, s) in t.own {
                                self.objs[k].data = d;
                                self.objs[k].sym = s;
                            }
                            // at the same instruction still, and not stopped there again
                            self.shared = t.shared.max(self.stop_at);
                        }
                        self.sp = fr.sp;
                        self.regs.truncate(fr.base as usize);
                        match self.frames.last() {
                            None => return Ok(()),
                            Some(c) => {
                                if fr.d != u32::MAX {
                                    let b = c.base as usize + fr.d as usize;
                                    for (k, x) in rv.iter().enumerate() {
                                        self.regs[b + k] = *x;
                                    }
                                }
                            }
                        }
                        continue 'frame;
                    }
                    I::FBin { op, w, d, a, b } => {
                        let (x, y) = (self.g(base, *a), self.g(base, *b));
                        let (x, y) = (self.ar.id(x, *w as u32), self.ar.id(y, *w as u32));
                        let r = self.ar.fbin(*op, x, y);
                        self.regs[base + *d as usize] = self.ar.val(r);
                    }
                    I::FNeg { w, d, a } => {
                        let x = self.g(base, *a);
                        let r = self.bin(Op::Xor, *w as u32, x, Val::C(1u64 << (*w - 1)))?;
                        self.regs[base + *d as usize] = r;
                    }
                    I::FCmp { p, w, d, a, b } => {
                        let (x, y) = (self.g(base, *a), self.g(base, *b));
                        let (x, y) = (self.ar.id(x, *w as u32), self.ar.id(y, *w as u32));
                        let r = self.ar.fcmp(*p as u32, x, y);
                        self.regs[base + *d as usize] = self.ar.val(r);
                    }
                    I::Rmw { op, w, d, p, v } => {
                        let a = self.g(base, *p);
                        let a = self.concretize(a)?;
                        let old = self.load(a, *w as u32)?;
                        let x = self.g(base, *v);
                        let new = match op {
                            0 => self.bin(Op::Add, *w as u32, old, x)?,
                            1 => self.bin(Op::Sub, *w as u32, old, x)?,
                            2 => self.bin(Op::And, *w as u32, old, x)?,
                            3 => self.bin(Op::Or, *w as u32, old, x)?,
                            4 => self.bin(Op::Xor, *w as u32, old, x)?,
                            5 => x,
                            _ => {
                                let c = self.icmp(if *op == 6 { Pred::Ugt } else { Pred::Ult }, *w as u32, old, x);
                                self.select(*w as u32, c, old, x)
                            }
                        };
                        self.store(a, *w as u32, new)?;
                        self.regs[base + *d as usize] = old;
                    }
                    I::CmpXchg { w, d, p, c, n } => {
                        let a = self.g(base, *p);
                        let a = self.concretize(a)?;
                        let old = self.load(a, *w as u32)?;
                        let e = self.g(base, *c);
                        let q = self.icmp(Pred::Eq, *w as u32, old, e);
                        let ok = self.truthy(q)?;
                        if ok {
                            let x = self.g(base, *n);
                            self.store(a, *w as u32, x)?;
                        }
                        self.regs[base + *d as usize] = old;
                        self.regs[base + *d as usize + 1] = Val::C(ok as u64);
                    }
                    I::Pack { d, lw, lanes } => {
                        let mut r: Option<Id> = None;
                        for o in lanes.iter().rev() {
                            let x = self.g(base, *o);
                            let x = self.ar.id(x, *lw as u32);
                            r = Some(match r {
                                None => x,
                                Some(h) => self.ar.concat(h, x),
                            });
                        }
                        let v = self.ar.val(r.unwrap());
                        self.regs[base + *d as usize] = v;
                    }
                    I::Unpack { d, lw, n, fw, a } => {
                        let x = self.g(base, *a);
                        let e = self.ar.id(x, *fw as u32);
                        for k in 0..*n {
                            let l = self.ar.extract(e, k * *lw as u32, *lw as u32);
                            let v = self.ar.val(l);
                            self.regs[base + (*d + k) as usize] = v;
                        }
                    }
                    I::Unreachable => {
                        return Err(End::Fault(format!("unreachable code reached{}", self.trace())));
                    }
                    I::MulShr { d, fw, tw, a, c, s } => {
                        let x = self.g(base, *a);
                        let x = self.ar.id(x, *fw as u32);
                        let r = self.mul_shr(x, *c, *s as u32, *tw as u32);
                        self.regs[base + *d as usize] = r;
                    }
                    I::Unsupported(s) => {
                        return Err(End::Undecided(format!("{}{}", s, self.trace())));
                    }
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn intrinsic(&mut self, k: Intr, w: u32, rw: u32, a: &[Val], base: usize, d: u32) -> R<()> {
        let r = match k {
            Intr::Nop => return Ok(()),
            Intr::Memcpy | Intr::Memmove => {
                let n = self.concretize(a[2])?;
                if n == 0 {
                    return Ok(());
                }
                let s = self.concretize(a[1])?;
                let t = self.concretize(a[0])?;
                return self.copy(t, s, n);
            }
            Intr::Memset => {
                let n = self.concretize(a[2])?;
                let t = self.concretize(a[0])?;
                return self.fill(t, a[1], n);
            }
            Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin => {
                let p = match k {
                    Intr::Umax => Pred::Ugt,
                    Intr::Umin => Pred::Ult,
                    Intr::Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, w, a[0], a[1]);
                self.select(w, c, a[0], a[1])
            }
            Intr::UsubSat => {
                let c = self.icmp(Pred::Ult, w, a[0], a[1]);
                let s = self.bin(Op::Sub, w, a[0], a[1])?;
                self.select(w, c, Val::C(0), s)
            }
            Intr::UaddSat => {
                let (s, o) = self.overflow(Intr::UaddO, w, a[0], a[1])?;
                self.select(w, o, Val::C(mask64(w)), s)
            }
            Intr::SaddSat | Intr::SsubSat => {
                let (s, o) = self.overflow(if k == Intr::SaddSat { Intr::SaddO } else { Intr::SsubO }, w, a[0], a[1])?;
                let neg = self.icmp(Pred::Slt, w, a[0], Val::C(0));
                let lim = self.select(w, neg, Val::C(1u64 << (w - 1)), Val::C(mask64(w) >> 1));
                self.select(w, o, lim, s)
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop => {
                let e = self.ar.id(a[0], w);
                let op = match k {
                    Intr::Ctlz => Op::Ctlz,
                    Intr::Cttz => Op::Cttz,
                    _ => Op::Ctpop,
                };
                let r = self.ar.un(op, w, e);
                self.ar.val(r)
            }
            Intr::Bswap => {
                let e = self.ar.id(a[0], w);
                let mut r: Option<Id> = None;
                for i in 0..w / 8 {
                    let b = self.ar.extract(e, 8 * i, 8);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                self.ar.val(r.unwrap())
            }
            Intr::Bitreverse => {
                let e = self.ar.id(a[0], w);
                let mut r: Option<Id> = None;
                for i in 0..w {
                    let b = self.ar.extract(e, i, 1);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                self.ar.val(r.unwrap())
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.concretize(a[2])? % w as u64;
                let x = self.ar.id(a[0], w);
                let y = self.ar.id(a[1], w);
                let r = if 2 * w <= 128 {
                    let c = self.ar.concat(x, y);
                    if k == Intr::Fshl {
                        self.ar.extract(c, w - s as u32, w)
                    } else {
                        self.ar.extract(c, s as u32, w)
                    }
                } else {
                    return Err(End::Undecided("wide funnel shift".into()));
                };
                self.ar.val(r)
            }
            Intr::Abs => {
                let neg = self.icmp(Pred::Slt, w, a[0], Val::C(0));
                let m = self.bin(Op::Sub, w, Val::C(0), a[0])?;
                self.select(w, neg, m, a[0])
            }
            Intr::Ucmp | Intr::Scmp => {
                let lt = self.icmp(if k == Intr::Ucmp { Pred::Ult } else { Pred::Slt }, w, a[0], a[1]);
                let eq = self.icmp(Pred::Eq, w, a[0], a[1]);
                let t = self.select(rw, eq, Val::C(0), Val::C(1));
                self.select(rw, lt, Val::C(mask64(rw)), t)
            }
            Intr::SaddO | Intr::UaddO | Intr::SsubO | Intr::UsubO | Intr::SmulO | Intr::UmulO => {
                let (r, o) = self.overflow(k, w, a[0], a[1])?;
                if d != u32::MAX {
                    self.regs[base + d as usize] = r;
                    self.regs[base + d as usize + 1] = o;
                }
                return Ok(());
            }
            Intr::IsConstant => Val::C(0),
            Intr::TlsAddr | Intr::Expect => a[0],
            Intr::Trap => return Err(End::Panic(format!("trap{}", self.trace()))),
            Intr::FptouiSat | Intr::FptosiSat => {
                let op = if k == Intr::FptouiSat { Op::FpToUi } else { Op::FpToSi };
                self.cast(op, w, rw, a[0])
            }
            Intr::FRound(m) => {
                let e = self.ar.id(a[0], w);
                let r = self.ar.fround(m as u32, e);
                self.ar.val(r)
            }
            Intr::Copysign => {
                let m = mask64(w) >> 1;
                let x = self.bin(Op::And, w, a[0], Val::C(m))?;
                let y = self.bin(Op::And, w, a[1], Val::C(mask64(w) ^ m))?;
                self.bin(Op::Or, w, x, y)?
            }
            Intr::FMin | Intr::FMax => {
                let (x, y) = (self.ar.id(a[0], w), self.ar.id(a[1], w));
                // the other operand if one is not a number
                let lt = self.ar.fcmp(if k == Intr::FMin { 4 } else { 2 }, x, y);
                let un = self.ar.fcmp(8, y, y);
                let c = self.ar.bin(Op::Or, lt, un);
                let c = self.ar.val(c);
                self.select(w, c, a[0], a[1])
            }
            Intr::Fabs => self.bin(Op::And, w, a[0], Val::C(mask64(w) >> 1))?,
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd | Intr::ReduceUmax | Intr::ReduceUmin => {
                let mut r = a[0];
                for &x in &a[1..] {
                    r = match k {
                        Intr::ReduceOr => self.bin(Op::Or, w, r, x)?,
                        Intr::ReduceAnd => self.bin(Op::And, w, r, x)?,
                        Intr::ReduceAdd => self.bin(Op::Add, w, r, x)?,
                        _ => {
                            let p = if k == Intr::ReduceUmax { Pred::Ugt } else { Pred::Ult };
                            let c = self.icmp(p, w, r, x);
                            self.select(w, c, r, x)
                        }
                    };
                }
                r
            }
        };
        if d != u32::MAX {
            self.regs[base + d as usize] = r;
        }
        Ok(())
    }

    fn fill(&mut self, t: u64, v: Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (id, off) = self.obj(t, n, "write")?;
        self.touch(id)?;
        self.moved += n;
        match v {
            Val::C(b) => {
                let o = &mut self.objs[id];
                o.data[off..off + n as usize].fill(b as u8);
                if !o.sym.is_empty() {
                    o.sym[off..off + n as usize].fill(0);
                }
            }
            Val::E(e) => {
                for i in 0..n as usize {
                    self.put_byte(id, off + i, e);
                }
            }
        }
        Ok(())
    }

    fn cstr(&mut self, p: Val, n: Val) -> R<String> {
        let p = self.concretize(p)?;
        let n = self.concretize(n)?;
        let (id, off) = self.obj(p, n, "read")?;
        Ok(String::from_utf8_lossy(&self.objs[id].data[off..off + n as usize]).into_owned())
    }

    fn new_var(&mut self, w: u32) -> Val {
        let v = self.ar.new_var(w);
        let k = self.vars.len();
        self.vars.push(VarInfo { w: w as u8, dom: full(w), multi: false });
        if self.model.len() <= k {
            self.model.push(if w == 8 { b'0' as u64 } else { 0 });
        }
        self.inputs.push(Input::Var(k as u32));
        self.stats.sym_bytes += 1;
        Val::E(v)
    }

    fn external(&mut self, name: &str, a: &[Val]) -> R<Val> {
        Ok(match name {
            "sx_byte" => self.new_var(8),
            "sx_u64" => self.new_var(64),
            "sx_choose" => {
                let n = self.concretize(a[0])? as u32;
                self.stats.choices += 1;
                if n == 0 {
                    return Err(End::Undecided("choice among nothing".into()));
                }
                let c = if self.pos < self.prefix.len() {
                    let d = self.prefix[self.pos];
                    self.pos += 1;
                    let Dec::Choice(c) = d else {
                        return Err(End::Undecided("replay diverged".into()));
                    };
                    c
                } else {
                    for k in (1..n).rev() {
                        let m = self.model.clone();
                        self.fork(Dec::Choice(k), m);
                    }
                    0
                };
                self.taken.push(Dec::Choice(c));
                self.inputs.push(Input::Choice(c));
                Val::C(c as u64)
            }
            "sx_assume" => {
                match a[0] {
                    Val::C(k) => {
                        if k & 1 == 0 {
                            return Err(End::Infeasible);
                        }
                    }
                    Val::E(e) => {
                        if self.ev(a[0]) == 0 {
                            match self.find_model(e)? {
                                Some(m) => self.model = m,
                                None => return Err(End::Infeasible),
                            }
                        }
                        self.assert(e, true);
                    }
                }
                Val::C(0)
            }
            "sx_check" => {
                if self.pos < self.prefix.len() {
                    return Ok(Val::C(0));
                }
                self.stats.checks += 1;
                let msg = self.cstr(a[1], a[2])?;
                match self.stats.check_msgs.get_mut(&msg) {
                    Some(c) => *c += 1,
                    None => {
                        self.stats.check_msgs.insert(msg.clone(), 1);
                    }
                }
                match a[0] {
                    Val::C(k) => {
                        self.stats.checks_folded += 1;
                        if k & 1 == 0 {
                            return Err(End::Check(msg));
                        }
                    }
                    Val::E(e) => {
                        if self.ev(a[0]) == 0 {
                            return Err(End::Check(msg));
                        }
                        let ne = self.ar.not1(e);
                        let r = self.find_model(ne)?;
                        match self.how {
                            How::Domain => self.stats.checks_domain += 1,
                            _ => self.stats.checks_z3 += 1,
                        }
                        if let Some(m) = r {
                            self.model = m;
                            return Err(End::Check(msg));
                        }
                    }
                }
                Val::C(0)
            }
            "sx_other" => {
                let p = self.concretize(a[0])?;
                let id = (p >> 32).wrapping_sub(FN_BASE);
                let n = self.shared;
                if p == 0 {
                    self.other = None;
                    self.mute = matches!(a[1], Val::C(1));
                } else if p & 0xffff_ffff == 0 && id < self.m.funcs.len() as u64 {
                    self.other = Some((id as u32, a[1]));
                    self.mute = true;
                    self.more = self.concretize(a[2])?;
                    self.shared = 0;
                    self.stop_at = 0;
                    for k in 1..self.nglob {
                        if self.is_shared(k) {
                            self.escape(k, 0, usize::MAX);
                        }
                    }
                } else {
                    return Err(End::Undecided("no function".into()));
                }
                Val::C(n)
            }
            "sx_cost" => match self.concretize(a[0])? {
                0 => Val::C(self.steps + self.moved / 16),
                1 => {
                    self.peak = self.live;
                    Val::C(self.live)
                }
                _ => Val::C(self.peak),
            },
            "sx_reach" => {
                let s = self.cstr(a[0], a[1])?;
                self.path_reach.insert(s);
                Val::C(0)
            }
            "sx_observe" => {
                // threads observe in no particular order
                if !self.mute {
                    self.obs.push(a[0]);
                }
                Val::C(0)
            }
            "sx_param" => {
                let i = self.concretize(a[0])? as usize;
                Val::C(self.params.get(i).copied().unwrap_or(0))
            }
            "sx_input" => {
                let p = self.concretize(a[0])?;
                let n = self.concretize(a[1])?;
                let (id, off) = if n == 0 { (0, 0) } else { self.obj(p, n, "read")? };
                let t = (0..n as usize).map(|i| self.byte(id, off + i)).collect();
                self.texts.push(t);
                Val::C(0)
            }
            "malloc" => {
                let n = self.concretize(a[0])?;
                Val::C(self.alloc(n))
            }
            "calloc" => {
                let n = self.concretize(a[0])?.wrapping_mul(self.concretize(a[1])?);
                Val::C(self.alloc(n))
            }
            "realloc" => {
                let p = self.concretize(a[0])?;
                let n = self.concretize(a[1])?;
                let q = self.alloc(n);
                if q != 0 && p != 0 {
                    let old = self.objs[(p >> 32) as usize].data.len() as u64;
                    self.copy(q, p, old.min(n))?;
                    self.free(p)?;
                }
                Val::C(q)
            }
            "free" => {
                let p = self.concretize(a[0])?;
                self.free(p)?;
                Val::C(0)
            }
            "posix_memalign" => {
                let n = self.concretize(a[2])?;
                let q = self.alloc(n);
                let p = self.concretize(a[0])?;
                self.store(p, 64, Val::C(q))?;
                Val::C(if q == 0 { 12 } else { 0 })
            }
            "bcmp" | "memcmp" => {
                let n = self.concretize(a[2])?;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let p = self.concretize(a[0])?;
                let q = self.concretize(a[1])?;
                let (pi, po) = self.obj(p, n, "read")?;
                let (qi, qo) = self.obj(q, n, "read")?;
                let n = n as usize;
                self.moved += n as u64;
                // decided by concrete bytes alone?
                if name == "bcmp" {
                    let mut conj = self.ar.konst(1, 1);
                    for i in 0..n {
                        let (x, y) = (self.byte(pi, po + i), self.byte(qi, qo + i));
                        let e = self.icmp(Pred::Eq, 8, x, y);
                        if e == Val::C(0) {
                            return Ok(Val::C(1));
                        }
                        let e = self.ar.id(e, 1);
                        conj = self.ar.bin(Op::And, conj, e);
                    }
                    let ne = self.ar.not1(conj);
                    let r = self.ar.zext(ne, 32);
                    self.ar.val(r)
                } else {
                    let mut r = Val::C(0);
                    for i in (0..n).rev() {
                        let (x, y) = (self.byte(pi, po + i), self.byte(qi, qo + i));
                        let e = self.icmp(Pred::Eq, 8, x, y);
                        let l = self.icmp(Pred::Ult, 8, x, y);
                        let s = self.select(32, l, Val::C(0xffff_ffff), Val::C(1));
                        r = self.select(32, e, r, s);
                    }
                    r
                }
            }
            "strlen" => {
                let p = self.concretize(a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load(p + n, 8)?;
                    let z = self.icmp(Pred::Eq, 8, b, Val::C(0));
                    if self.truthy(z)? {
                        break;
                    }
                    n += 1;
                }
                Val::C(n)
            }
            "memcpy" | "memmove" => {
                let n = self.concretize(a[2])?;
                let s = self.concretize(a[1])?;
                let t = self.concretize(a[0])?;
                self.copy(t, s, n)?;
                Val::C(t)
            }
            "memset" => {
                let n = self.concretize(a[2])?;
                let t = self.concretize(a[0])?;
                let b = self.cast(Op::Extract, 32, 8, a[1]);
                self.fill(t, b, n)?;
                Val::C(t)
            }
            // waiting for a lock that a stopped thread holds: not an order of events
            "syscall" if matches!(a[0], Val::C(202)) && !self.inside.is_empty() => return Err(End::Infeasible),
            "syscall" if matches!(a[0], Val::C(202)) => Val::C(0),
            "abort" | "exit" | "_exit" => return Err(End::Panic(format!("{}{}", name, self.trace()))),
            // output goes nowhere
            "write" => a[2],
            "getenv" => Val::C(0),
            "getrandom" => a[1],
            // destructors of thread-local values do not matter
            "__cxa_thread_atexit_impl" | "sched_yield" => Val::C(0),
            "clock_gettime" => {
                let p = self.concretize(a[1])?;
                self.fill(p, Val::C(0), 16)?;
                Val::C(0)
            }
            "memchr" | "memrchr" => {
                let p = self.concretize(a[0])?;
                let n = self.concretize(a[2])?;
                let c = self.cast(Op::Extract, 32, 8, a[1]);
                let mut r = 0;
                self.moved += n;
                for i in 0..n {
                    let q = p + if name == "memchr" { i } else { n - 1 - i };
                    let b = self.load(q, 8)?;
                    let z = self.icmp(Pred::Eq, 8, b, c);
                    if self.truthy(z)? {
                        r = q;
                        break;
                    }
                }
                Val::C(r)
            }
            "trunc" | "floor" | "ceil" | "round" | "rint" | "roundeven" => {
                let m = match name { "trunc" => 0, "floor" => 1, "ceil" => 2, "round" => 4, _ => 3 };
                let x = self.ar.id(a[0], 64);
                let r = self.ar.fround(m, x);
                self.ar.val(r)
            }
            "fmod" => {
                let (x, y) = (self.ar.id(a[0], 64), self.ar.id(a[1], 64));
                let r = self.ar.fbin(Op::FRem, x, y);
                self.ar.val(r)
            }
            _ => return Err(End::Undecided(format!("external function {}{}", name, self.trace()))),
        })
    }
}
