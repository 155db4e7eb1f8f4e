//! The symbolic executor: explores every feasible path of an entry function.
use crate::expr::{Arena, FxMap, FxSet, Model, B, E};
use crate::ir::*;
use crate::val::{mask, sext, V};
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B8 {
    C(u8),
    S(E),
    U,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Stack,
    Heap,
    Global,
    Const,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub data: Vec<B8>,
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    regs: Rc<Vec<V>>,
    block: u32,
    ip: u32,
    allocas: Vec<u64>,
    catch: bool,
}

#[derive(Clone)]
struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    next: u64,
    pc: Vec<E>,
    known: Rc<FxSet<E>>,
    model: Rc<Model>,
    nsym: u32,
    inputs: Rc<Vec<(u32, u32)>>, // symbol, bytes
    obs: Rc<Vec<V>>,
    heap_live: u64,
    heap_total: u64,
    fail_at: u64,
    steps: u64,
    depth: u32,
    freed: Rc<Vec<(u64, u64)>>,
}

pub struct Violation {
    pub key: String,
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u8>,
    pub trace: Vec<String>,
}

pub struct Sample {
    pub inputs: Vec<u8>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks_const: u64,
    pub checks_sym: u64,
    pub branches_sym: u64,
    pub merges: u64,
    pub assumes: u64,
}

enum Stop {
    /// path finished normally
    Done,
    /// assumption infeasible
    Pruned,
    /// violation recorded; path abandoned
    Bad,
    /// engine cannot go on
    Unsupported(String),
    /// merging attempt given up (never escapes `try_merge`)
    Spec,
}

type R<T> = Result<T, Stop>;

enum Target {
    Func(Rc<Func>),
    Builtin(Rc<str>),
}

pub struct Limits {
    pub max_steps: u64,
    pub deadline: Instant,
    pub max_violations: usize,
}

pub struct Exec {
    pub m: Module,
    pub a: Arena,
    pub z: Z3,
    funcs: FxMap<u64, Rc<Target>>,
    names: HashMap<String, Rc<Target>>,
    globals: BTreeMap<u64, Rc<Obj>>,
    work: Vec<State>,
    pub violations: Vec<Violation>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<Sample>,
    pub stats: Stats,
    pub errors: BTreeMap<String, u64>,
    pub dbg_seen: FxSet<u32>,
    pub lim: Limits,
    pub nsamples: usize,
    pub sample_rng: u64,
    pub incomplete: Option<String>,
    pub suspects: Vec<(String, Vec<u8>)>,
    pub funcs_run: FxSet<String>,
    pub trace: bool,
    pub profile: HashMap<u32, u64>,
    phi_tmp: Vec<(u32, V)>,
    loc_cache: HashMap<u64, String>,
    /// depth of the merging attempt under way
    spec: u32,
    /// multi-byte stores made during the merging attempt
    wide: Vec<(u64, u64)>,
    merge_stat: HashMap<(usize, u32), (u32, u32)>,
    pub merge: bool,
    pub fork_prof: bool,
    pub fork_sites: HashMap<String, u64>,
}

const HEAP_BASE: u64 = 0x7f00_0000_0000;

fn log2(x: u64) -> u32 {
    63 - x.leading_zeros()
}

impl Exec {
    pub fn new(m: Module, z: Z3, lim: Limits) -> Exec {
        let mut globals = BTreeMap::new();
        for g in &m.globals {
            let mut data = vec![B8::U; g.ty.size() as usize];
            if let Some(v) = &g.init {
                init_bytes(&g.ty, v, 0, &mut data);
            }
            globals.insert(
                g.addr,
                Rc::new(Obj { size: g.ty.size(), align: g.align, kind: if g.constant { Kind::Const } else { Kind::Global }, data }),
            );
        }
        Exec {
            m,
            a: Arena::new(),
            z,
            funcs: Default::default(),
            names: Default::default(),
            globals,
            work: vec![],
            violations: vec![],
            covers: Default::default(),
            checks: Default::default(),
            samples: vec![],
            stats: Default::default(),
            errors: Default::default(),
            dbg_seen: Default::default(),
            lim,
            nsamples: 8,
            sample_rng: 1,
            incomplete: None,
            suspects: vec![],
            funcs_run: Default::default(),
            trace: false,
            profile: HashMap::new(),
            phi_tmp: vec![],
            loc_cache: HashMap::new(),
            spec: 0,
            wide: vec![],
            merge_stat: HashMap::new(),
            merge: true,
            fork_prof: false,
            fork_sites: HashMap::new(),
        }
    }

    fn target_by_name(&mut self, n: &str) -> Result<Rc<Target>, Stop> {
        if let Some(t) = self.names.get(n) {
            return Ok(t.clone());
        }
        let t = if is_builtin(n) || !self.m.func_lines.contains_key(n) {
            Rc::new(Target::Builtin(Rc::from(n)))
        } else {
            let f = self.m.parse_func(n).map_err(|e| Stop::Unsupported(format!("parse {n}: {e}")))?;
            self.funcs_run.insert(n.to_string());
            Rc::new(Target::Func(Rc::new(f)))
        };
        self.names.insert(n.to_string(), t.clone());
        Ok(t)
    }

    pub fn run(&mut self, entry: &str, arg: u64) {
        let f = match self.target_by_name(entry) {
            Ok(t) => match &*t {
                Target::Func(f) => f.clone(),
                _ => {
                    self.incomplete = Some(format!("entry {entry} not found"));
                    return;
                }
            },
            Err(_) => {
                self.incomplete = Some(format!("entry {entry} cannot be parsed"));
                return;
            }
        };
        let mut regs = vec![V::U; f.nregs as usize];
        if let Some(p) = f.params.first() {
            regs[*p as usize] = V::C(arg as u128);
        }
        let st = State {
            frames: vec![Frame { f, regs: Rc::new(regs), block: 0, ip: 0, allocas: vec![], catch: false }],
            mem: BTreeMap::new(),
            next: HEAP_BASE,
            pc: vec![],
            known: Default::default(),
            model: Rc::new(Model::new(vec![])),
            nsym: 1, // 0: undefined bits
            inputs: Default::default(),
            obs: Default::default(),
            heap_live: 0,
            heap_total: 0,
            fail_at: u64::MAX,
            steps: 0,
            depth: 0,
            freed: Default::default(),
        };
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            self.run_state(st);
            if self.violations.len() >= self.lim.max_violations || self.suspects.len() >= 8 {
                self.stop_incomplete("stopped after enough counterexamples or undecided paths".into());
                break;
            }
            if Instant::now() > self.lim.deadline {
                if !self.work.is_empty() {
                    self.stop_incomplete(format!("time limit ({} pending paths)", self.work.len()));
                }
                break;
            }
        }
    }

    fn run_state(&mut self, mut st: State) {
        let mut n = 0u32;
        loop {
            n += 1;
            if n & 0xffff == 0 && Instant::now() > self.lim.deadline {
                let w = format!("time limit (path of {} steps running, {} pending) at {}", st.steps, self.work.len(), self.where_am_i(&st));
                self.suspect(&st, w);
                return;
            }
            if st.steps > self.lim.max_steps {
                let w = format!("step limit on one path at {}", self.where_am_i(&st));
                self.suspect(&st, w);
                return;
            }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Done) => {
                    self.stats.paths += 1;
                    self.sample(&st);
                    return;
                }
                Err(Stop::Pruned) => {
                    self.stats.infeasible += 1;
                    return;
                }
                Err(Stop::Bad) => {
                    self.stats.paths += 1;
                    return;
                }
                Err(Stop::Spec) => unreachable!(),
                Err(Stop::Unsupported(e)) => {
                    let w = self.where_am_i(&st);
                    *self.errors.entry(format!("{e} at {w}")).or_insert(0) += 1;
                    self.suspect(&st, format!("{e} at {w}"));
                    return;
                }
            }
        }
    }

    fn stop_incomplete(&mut self, why: String) {
        if self.incomplete.is_none() {
            self.incomplete = Some(why);
        }
    }

    /// A path the engine cannot decide: exploration is incomplete, and the
    /// path's inputs are handed out for a native run.
    fn suspect(&mut self, st: &State, why: String) {
        let inputs = self.inputs_of(st, &st.model);
        self.suspects.push((why.clone(), inputs));
        self.stop_incomplete(why);
    }

    fn sample(&mut self, st: &State) {
        let k = self.stats.paths;
        let slot = if (self.samples.len()) < self.nsamples {
            self.samples.push(Sample { inputs: vec![], obs: vec![] });
            self.samples.len() - 1
        } else {
            self.sample_rng = self.sample_rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let r = (self.sample_rng >> 33) % k;
            if (r as usize) < self.nsamples {
                r as usize
            } else {
                return;
            }
        };
        let inputs = self.inputs_of(st, &st.model);
        let obs = st
            .obs
            .iter()
            .map(|v| match v {
                V::C(c) => *c as u64,
                V::S(e) => self.a.eval(*e, &st.model) as u64,
                _ => 0,
            })
            .collect();
        self.samples[slot] = Sample { inputs, obs };
    }

    fn inputs_of(&self, st: &State, m: &Model) -> Vec<u8> {
        let mut o = vec![];
        for (s, n) in st.inputs.iter() {
            let v = m.vals.get(*s as usize).copied().unwrap_or(0);
            for k in 0..*n {
                o.push((v >> (8 * k)) as u8);
            }
        }
        o
    }

    pub fn dbg_loc(&self, id: u32) -> Vec<(String, u32, String)> {
        // chain of (file, line, function), innermost first
        let mut out = vec![];
        let mut cur = Some(id);
        while let Some(i) = cur {
            if i == 0 || out.len() > 40 {
                break;
            }
            let l = match self.m.meta.get(&i) {
                Some(l) => self.m.lines[*l].clone(),
                None => break,
            };
            if !l.contains("DILocation(") {
                break;
            }
            let line = mfield(&l, "line: ").parse().unwrap_or(0);
            let mut sc = mref(&l, "scope: !");
            let mut name = String::new();
            let mut file = String::new();
            let mut guard = 0;
            while let Some(s) = sc {
                guard += 1;
                if guard > 100 {
                    break;
                }
                let sl = match self.m.meta.get(&s) {
                    Some(x) => &self.m.lines[*x],
                    None => break,
                };
                if sl.contains("DISubprogram(") {
                    name = mstr(sl, "linkageName: \"").or_else(|| mstr(sl, "name: \"")).unwrap_or_default();
                    if let Some(fi) = mref(sl, "file: !") {
                        if let Some(x) = self.m.meta.get(&fi) {
                            let fl = &self.m.lines[*x];
                            let fname = mstr(fl, "filename: \"").unwrap_or_default();
                            let dir = mstr(fl, "directory: \"").unwrap_or_default();
                            file = if fname.starts_with('/') || dir.is_empty() { fname } else { format!("{dir}/{fname}") };
                        }
                    }
                    break;
                }
                sc = mref(sl, "scope: !");
            }
            out.push((file, line, name));
            cur = mref(&l, "inlinedAt: !");
        }
        out
    }

    fn where_am_i(&self, st: &State) -> String {
        self.trace_of(st).into_iter().take(6).collect::<Vec<_>>().join(" <- ")
    }

    fn trace_of(&self, st: &State) -> Vec<String> {
        let mut o = vec![];
        for fr in st.frames.iter().rev() {
            let b = &fr.f.blocks[fr.block as usize];
            let d = b.insts.get(fr.ip as usize).map(|i| i.dbg).unwrap_or(0);
            let ch = self.dbg_loc(d);
            if ch.is_empty() {
                o.push(fr.f.name.clone());
            }
            for (f, l, n) in ch {
                let short: String = n.chars().take(90).collect();
                o.push(format!("{f}:{l} ({short})"));
            }
            if o.len() > 40 {
                break;
            }
        }
        o
    }

    fn violation(&mut self, st: &State, m: &Model, kind: &str, msg: &str) {
        if self.spec > 0 {
            return; // the attempt is abandoned; the forked path reports it
        }
        let key = format!("{kind}: {msg}");
        if self.violations.iter().any(|v| v.key == key) {
            return;
        }
        let inputs = self.inputs_of(st, m);
        let trace = self.trace_of(st);
        self.violations.push(Violation { key, kind: kind.into(), msg: msg.into(), inputs, trace });
    }

    // ---------------------------------------------------------------- solver
    fn add(&mut self, st: &mut State, e: E) {
        st.pc.push(e);
        Rc::make_mut(&mut st.known).insert(e);
    }

    fn query(&mut self, st: &State, e: E) -> R<Option<Model>> {
        if self.spec > 0 {
            return Err(Stop::Spec);
        }
        match self.z.check(&self.a, &st.pc, e, st.nsym, true) {
            (Res::Sat, m) => Ok(m),
            (Res::Unsat, _) => Ok(None),
            (Res::Unknown, _) => Err(Stop::Unsupported("solver returned unknown".into())),
        }
    }

    /// Decide the branch for this path; the other side is queued (the queued
    /// state executes the current instruction again).
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.a.cst(c) {
            return Ok(k != 0);
        }
        if st.known.contains(&c) {
            return Ok(true);
        }
        let nc = self.a.not(c);
        if st.known.contains(&nc) {
            return Ok(false);
        }
        if self.spec > 0 {
            return Err(Stop::Spec);
        }
        self.stats.branches_sym += 1;
        let dir = self.a.eval(c, &st.model) != 0;
        let (mine, other) = if dir { (c, nc) } else { (nc, c) };
        match self.query(st, other)? {
            None => {
                Rc::make_mut(&mut st.known).insert(mine);
            }
            Some(m) => {
                self.stats.forks += 1;
                if self.fork_prof {
                    let w = self.trace_of(st).into_iter().take(3).collect::<Vec<_>>().join(" <- ");
                    *self.fork_sites.entry(w).or_insert(0) += 1;
                }
                let mut o = st.clone();
                o.model = Rc::new(m);
                o.depth += 1;
                self.add(&mut o, other);
                self.work.push(o);
                st.depth += 1;
                self.add(st, mine);
            }
        }
        Ok(dir)
    }

    /// Executes the alternatives of a symbolic branch up to the point where
    /// they join and merges the resulting states with if-then-else terms, when
    /// they differ only in small values. Nothing is assumed about which
    /// alternatives are feasible. False: nothing changed, the caller forks.
    fn try_merge(&mut self, st: &mut State, sides: &[(E, u32)]) -> bool {
        if !self.merge || self.spec >= 3 {
            return false;
        }
        // an alternative already known to be (in)feasible on this path needs no merging
        for (c, _) in sides {
            if self.a.cst(*c).is_some() || st.known.contains(c) {
                return false;
            }
            let nc = self.a.not(*c);
            if st.known.contains(&nc) {
                return false;
            }
        }
        let d = st.frames.len();
        let (f, block) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.block)
        };
        let key = (Rc::as_ptr(&f) as usize, block);
        let stat = self.merge_stat.entry(key).or_insert((0, 0));
        if stat.1 > 6 && stat.0 * 8 < stat.1 {
            return false;
        }
        stat.1 += 1;
        let join = f.ipdom()[block as usize];
        self.spec += 1;
        let wide0 = self.wide.len();
        let steps0 = self.stats.steps;
        let r = self.merge_sides(st, sides, d, join, wide0);
        self.spec -= 1;
        if self.spec == 0 {
            self.wide.clear();
        }
        st.steps += self.stats.steps - steps0;
        match r {
            Some(mut m) => {
                m.steps = st.steps;
                *st = m;
                self.stats.merges += 1;
                self.merge_stat.get_mut(&key).unwrap().0 += 1;
                true
            }
            None => {
                if self.spec > 0 {
                    // the enclosing attempt will give up too
                } else {
                    self.wide.clear();
                }
                false
            }
        }
    }

    fn merge_sides(&mut self, st: &State, sides: &[(E, u32)], d: usize, join: u32, wide0: usize) -> Option<State> {
        let mut ends: Vec<(E, State)> = vec![];
        for (c, t) in sides {
            let mut s = st.clone();
            Rc::make_mut(&mut s.known).insert(*c);
            if self.jump(&mut s, *t).is_err() {
                return None;
            }
            let mut budget = 160;
            let b0 = st.frames[d - 1].block;
            loop {
                let n = s.frames.len();
                if join == u32::MAX {
                    if n + 1 == d {
                        break;
                    }
                } else if n == d {
                    let fr = s.frames.last().unwrap();
                    if fr.block == join && fr.ip == 0 {
                        break;
                    }
                }
                if n < d || budget == 0 {
                    return None;
                }
                if n == d {
                    let fr = s.frames.last().unwrap();
                    if fr.ip == 0 && fr.f.dominates(fr.block, b0) {
                        return None;
                    }
                }
                budget -= 1;
                if self.step(&mut s).is_err() {
                    return None;
                }
                // returning into a catching frame or the harness end is not a join
                if s.frames.is_empty() {
                    return None;
                }
            }
            ends.push((*c, s));
        }
        let (_, mut m) = ends.pop()?;
        while let Some((c, o)) = ends.pop() {
            m = self.merge_two(st, c, o, m, d, join, wide0)?;
        }
        m.known = st.known.clone();
        m.steps = st.steps;
        Some(m)
    }

    /// `a` where `c`, else `b`.
    fn merge_two(&mut self, base: &State, c: E, a: State, mut b: State, d: usize, join: u32, wide0: usize) -> Option<State> {
        const MAXW: u32 = 8;
        if a.heap_live != b.heap_live
            || a.heap_total != b.heap_total
            || a.fail_at != b.fail_at
            || !Rc::ptr_eq(&a.inputs, &b.inputs)
            || !Rc::ptr_eq(&a.obs, &b.obs)
            || !Rc::ptr_eq(&a.freed, &b.freed) && a.freed != b.freed
            || a.pc.len() != b.pc.len()
            || a.frames.len() != b.frames.len()
            || a.mem.len() != b.mem.len()
            || a.nsym != b.nsym
        {
            return None;
        }
        let cv = V::S(c);
        let n = a.frames.len();
        for k in 0..n {
            let (x, y) = (&a.frames[k], &b.frames[k]);
            if !Rc::ptr_eq(&x.f, &y.f) || x.block != y.block || x.ip != y.ip || x.allocas != y.allocas {
                return None;
            }
            if k + 1 < n && !Rc::ptr_eq(&x.regs, &y.regs) {
                return None;
            }
        }
        // registers of the top frame that are live after the join: those of the
        // base state, and the join's phis (or the call's result)
        let f = a.frames[n - 1].f.clone();
        let mut out = (*b.frames[n - 1].regs).clone();
        let ra = a.frames[n - 1].regs.clone();
        let mut merged = vec![];
        if join != u32::MAX {
            for ph in &f.blocks[join as usize].phis {
                merged.push((ph.dst, ph.ty.clone()));
            }
        } else {
            let fr = &base.frames[d - 2];
            let inst = &fr.f.blocks[fr.block as usize].insts[fr.ip as usize];
            if let (Some(dst), I::Call(cc)) = (inst.dst, &inst.i) {
                merged.push((dst, cc.ret.clone()));
                // an invoke also enters its normal successor
                if let Some((t, _)) = cc.invoke {
                    for ph in &f.blocks[t as usize].phis {
                        merged.push((ph.dst, ph.ty.clone()));
                    }
                }
            } else if let I::Call(cc) = &inst.i {
                if let Some((t, _)) = cc.invoke {
                    for ph in &f.blocks[t as usize].phis {
                        merged.push((ph.dst, ph.ty.clone()));
                    }
                }
            }
        }
        for r in 0..out.len() {
            if same(&ra[r], &out[r]) {
                continue;
            }
            match merged.iter().find(|x| x.0 as usize == r) {
                Some((_, ty)) => {
                    if !small(&self.a, ty, &ra[r], &out[r], MAXW) {
                        return None;
                    }
                    out[r] = self.select_v(ty, &cv, &ra[r], &out[r]);
                }
                None => {
                    // Defined on the way to the join. None of the blocks on the way
                    // dominates the branch, and none post-dominates it before the
                    // join, so the value is dead after the join.
                    out[r] = V::U;
                }
            }
        }
        // memory
        let mut diffs = 0;
        let mut newmem: Vec<(u64, Rc<Obj>)> = vec![];
        for ((ka, oa), (kb, ob)) in a.mem.iter().zip(b.mem.iter()) {
            if ka != kb {
                return None;
            }
            if Rc::ptr_eq(oa, ob) {
                continue;
            }
            if oa.size != ob.size || oa.kind != ob.kind {
                return None;
            }
            let mut no: Option<Obj> = None;
            for i in 0..oa.data.len() {
                let (x, y) = (oa.data[i], ob.data[i]);
                if x == y {
                    continue;
                }
                let addr = ka + i as u64;
                diffs += 1;
                if diffs > 12 || self.wide[wide0..].iter().any(|(s, n)| addr >= *s && addr - s < *n) {
                    return None;
                }
                let z = match (x, y) {
                    (B8::U, v) | (v, B8::U) => {
                        if oa.kind != Kind::Stack {
                            return None;
                        }
                        v
                    }
                    _ => {
                        let e = |s: &mut Self, v: B8| match v {
                            B8::C(k) => s.a.c(k as u128, 8),
                            B8::S(e) => e,
                            B8::U => unreachable!(),
                        };
                        let (ex, ey) = (e(self, x), e(self, y));
                        let r = self.a.ite(c, ex, ey);
                        match self.a.cst(r) {
                            Some(k) => B8::C(k as u8),
                            None => B8::S(r),
                        }
                    }
                };
                no.get_or_insert_with(|| (**ob).clone()).data[i] = z;
            }
            if let Some(o) = no {
                newmem.push((*kb, Rc::new(o)));
            }
        }
        for (k, o) in newmem {
            b.mem.insert(k, o);
        }
        b.next = a.next.max(b.next);
        b.frames[n - 1].regs = Rc::new(out);
        Some(b)
    }

    fn fix(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                let k = self.a.eval(*e, &st.model);
                let kc = self.a.c(k, w);
                let q = self.a.eq(*e, kc);
                let r = self.branch(st, q)?;
                debug_assert!(r);
                Ok(k)
            }
            V::U => Err(Stop::Unsupported("undefined value where a concrete one is needed".into())),
            V::A(_) => Err(Stop::Unsupported("aggregate where a scalar is needed".into())),
        }
    }

    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(k) = self.a.cst(c) {
            return if k != 0 { Ok(()) } else { Err(Stop::Pruned) };
        }
        self.stats.assumes += 1;
        if st.known.contains(&c) {
            return Ok(());
        }
        if self.a.eval(c, &st.model) == 0 {
            match self.query(st, c)? {
                None => return Err(Stop::Pruned),
                Some(m) => st.model = Rc::new(m),
            }
        }
        self.add(st, c);
        Ok(())
    }

    fn check(&mut self, st: &mut State, c: &V, msg: &str) -> R<()> {
        let ent = self.checks.entry(msg.to_string()).or_insert((0, 0));
        match c {
            V::C(k) => {
                ent.0 += 1;
                self.stats.checks_const += 1;
                if *k == 0 {
                    let m = st.model.clone();
                    self.violation(st, &m, "check", msg);
                    return Err(Stop::Bad);
                }
                Ok(())
            }
            V::S(e) => {
                ent.1 += 1;
                self.stats.checks_sym += 1;
                if st.known.contains(e) {
                    return Ok(());
                }
                let ne = self.a.not(*e);
                if self.a.eval(*e, &st.model) == 0 {
                    let m = st.model.clone();
                    self.violation(st, &m, "check", msg);
                    return self.assume(st, *e);
                }
                match self.query(st, ne)? {
                    Some(m) => {
                        self.violation(st, &m, "check", msg);
                        self.assume(st, *e)
                    }
                    None => {
                        Rc::make_mut(&mut st.known).insert(*e);
                        Ok(())
                    }
                }
            }
            _ => Err(Stop::Unsupported("check on undefined value".into())),
        }
    }

    // ---------------------------------------------------------------- memory
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, zero: bool) -> u64 {
        let al = align.max(1);
        let mut a = (st.next + 64 + al - 1) / al * al;
        if a % (2 * al) == 0 {
            a += al;
        }
        st.next = a + size + 64;
        st.mem.insert(a, Rc::new(Obj { size, align: al, kind, data: vec![if zero { B8::C(0) } else { B8::U }; size as usize] }));
        a
    }

    fn find<'s>(&'s self, st: &'s State, addr: u64) -> Option<(u64, &'s Rc<Obj>)> {
        if addr >= HEAP_BASE {
            let (b, o) = st.mem.range(..=addr).next_back()?;
            if addr <= b + o.size {
                return Some((*b, o));
            }
            None
        } else {
            let (b, o) = self.globals.range(..=addr).next_back()?;
            if addr <= b + o.size {
                if let Some(o2) = st.mem.get(b) {
                    return Some((*b, o2));
                }
                return Some((*b, o));
            }
            None
        }
    }

    fn mem_error(&mut self, st: &State, what: &str, addr: u64, size: u64) -> Stop {
        let mut d = String::from("invalid pointer");
        if st.freed.iter().any(|(b, s)| addr >= *b && addr < b + s.max(&1)) {
            d = "use after free".into();
        } else if let Some((b, o)) = self.find(st, addr) {
            d = format!("out of bounds of {:?} object of {} bytes at offset {}", o.kind, o.size, addr.wrapping_sub(b));
        } else if addr < 4096 {
            d = format!("null/dangling pointer {addr:#x}");
        }
        let m = st.model.clone();
        let loc = self.trace_of(st).into_iter().take(1).collect::<String>();
        self.violation(st, &m, "memory", &format!("{what} of {size} bytes: {d} at {loc}"));
        Stop::Bad
    }

    /// Resolve an address to (object base, offset value).
    fn resolve(&mut self, st: &mut State, p: &V, size: u64, align: u64, what: &str) -> R<(u64, V)> {
        match p {
            V::C(a) => {
                let a = *a as u64;
                let hit = self.find(st, a).map(|(b, o)| (b, o.size));
                match hit {
                    Some((b, os)) if a - b + size <= os => {
                        if align > 1 && a % align != 0 {
                            let m = st.model.clone();
                            let loc = self.trace_of(st).into_iter().take(1).collect::<String>();
                            self.violation(st, &m, "memory", &format!("misaligned {what} (align {align}) at {loc}"));
                            return Err(Stop::Bad);
                        }
                        Ok((b, V::C((a - b) as u128)))
                    }
                    _ => Err(self.mem_error(st, what, a, size)),
                }
            }
            V::S(e) => {
                let v = self.a.eval(*e, &st.model) as u64;
                let hit = self.find(st, v).map(|(b, o)| (b, o.size));
                match hit {
                    Some((b, os)) if v - b + size <= os => {
                        let nb = self.a.c((b as u128).wrapping_neg(), 64);
                        let off = self.a.bin(B::Add, *e, nb);
                        let lim = self.a.c((os - size + 1) as u128, 64);
                        let inr = self.a.ult(off, lim);
                        self.branch(st, inr)?;
                        if align > 1 {
                            let low = self.a.extract(*e, 0, log2(align));
                            let z = self.a.c(0, log2(align));
                            let ok = self.a.eq(low, z);
                            if !self.branch(st, ok)? {
                                let m = st.model.clone();
                                self.violation(st, &m, "memory", &format!("misaligned {what} (align {align})"));
                                return Err(Stop::Bad);
                            }
                        }
                        Ok((b, self.a.to_v(off)))
                    }
                    _ => Err(self.mem_error(st, what, v, size)),
                }
            }
            _ => {
                let m = st.model.clone();
                let loc = self.trace_of(st).into_iter().take(1).collect::<String>();
                self.violation(st, &m, "memory", &format!("{what} through an undefined pointer at {loc}"));
                Err(Stop::Bad)
            }
        }
    }

    fn obj<'s>(&'s self, st: &'s State, base: u64) -> &'s Rc<Obj> {
        match st.mem.get(&base) {
            Some(o) => o,
            None => &self.globals[&base],
        }
    }

    fn obj_mut<'s>(&mut self, st: &'s mut State, base: u64) -> R<&'s mut Obj> {
        if !st.mem.contains_key(&base) {
            let g = self.globals[&base].clone();
            st.mem.insert(base, g);
        }
        let o = st.mem.get_mut(&base).unwrap();
        if o.kind == Kind::Const {
            return Err(Stop::Unsupported("write to constant".into()));
        }
        Ok(Rc::make_mut(o))
    }

    fn bytes_to_v(&mut self, st: &mut State, bs: &[B8], w: u32) -> V {
        let mut all_c = true;
        let mut all_u = true;
        for b in bs {
            match b {
                B8::C(_) => all_u = false,
                B8::S(_) => {
                    all_c = false;
                    all_u = false
                }
                B8::U => all_c = false,
            }
        }
        if all_c {
            let mut v = 0u128;
            for (i, b) in bs.iter().enumerate() {
                if let B8::C(x) = b {
                    v |= (*x as u128) << (8 * i);
                }
            }
            return V::C(mask(v, w));
        }
        if all_u {
            return V::U;
        }
        let mut acc: Option<E> = None;
        for b in bs.iter() {
            let e = match b {
                B8::C(x) => self.a.c(*x as u128, 8),
                B8::S(e) => *e,
                B8::U => {
                    let id = st.nsym;
                    st.nsym += 1;
                    self.a.sym(id, 8)
                }
            };
            acc = Some(match acc {
                None => e,
                Some(lo) => self.a.concat(e, lo),
            });
        }
        let e = acc.unwrap();
        let e = if self.a.w(e) != w { self.a.extract(e, 0, w) } else { e };
        self.a.to_v(e)
    }

    fn v_to_bytes(&mut self, v: &V, w: u32, out: &mut Vec<B8>) {
        let n = (w + 7) / 8;
        match v {
            V::C(c) => {
                for i in 0..n {
                    out.push(B8::C((c >> (8 * i)) as u8));
                }
            }
            V::S(e) => {
                let e = if w % 8 != 0 { self.a.zext(*e, n * 8) } else { *e };
                for i in 0..n {
                    let x = self.a.extract(e, 8 * i, 8);
                    out.push(match self.a.cst(x) {
                        Some(c) => B8::C(c as u8),
                        None => B8::S(x),
                    });
                }
            }
            _ => {
                for _ in 0..n {
                    out.push(B8::U);
                }
            }
        }
    }

    fn load(&mut self, st: &mut State, ty: &Ty, p: &V, align: u64) -> R<V> {
        if !ty.is_scalar() {
            let n = ty.nelems();
            let mut v = Vec::with_capacity(n as usize);
            for i in 0..n {
                let (o, t) = ty.field(i);
                let pp = self.addk(p, o);
                v.push(self.load(st, &t, &pp, 1)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let n = ty.store_size();
        let (b, off) = self.resolve(st, p, n, align, "load")?;
        let w = ty.width();
        match off {
            V::C(o) => {
                let o = o as usize;
                let ob = self.obj(st, b).clone();
                Ok(self.bytes_to_v(st, &ob.data[o..o + n as usize], w))
            }
            V::S(oe) => {
                let ob = self.obj(st, b).clone();
                let (step, start) = self.stride(b, align);
                let cand = (ob.size - n + 1 + step - 1) / step;
                if cand > 300 {
                    let o = self.fix(st, &V::S(oe), 64)? as usize;
                    return Ok(self.bytes_to_v(st, &ob.data[o..o + n as usize], w));
                }
                let mut acc: Option<E> = None;
                let mut k = start;
                while k + n <= ob.size {
                    let v = self.bytes_to_v(st, &ob.data[k as usize..(k + n) as usize], w);
                    let e = match v {
                        V::U => None,
                        ref v => Some(self.a.to_e(v, w)),
                    };
                    if let Some(e) = e {
                        acc = Some(match acc {
                            None => e,
                            Some(x) => {
                                let kc = self.a.c(k as u128, 64);
                                let c = self.a.eq(oe, kc);
                                self.a.ite(c, e, x)
                            }
                        });
                    }
                    k += step;
                }
                match acc {
                    None => Ok(V::U),
                    Some(e) => Ok(self.a.to_v(e)),
                }
            }
            _ => unreachable!(),
        }
    }

    fn stride(&self, base: u64, align: u64) -> (u64, u64) {
        if align <= 1 {
            (1, 0)
        } else {
            (align, (align - base % align) % align)
        }
    }

    fn store(&mut self, st: &mut State, ty: &Ty, p: &V, v: &V, align: u64) -> R<()> {
        if !ty.is_scalar() {
            for i in 0..ty.nelems() {
                let (o, t) = ty.field(i);
                let pp = self.addk(p, o);
                let x = match v {
                    V::A(xs) => xs[i as usize].clone(),
                    _ => V::U,
                };
                self.store(st, &t, &pp, &x, 1)?;
            }
            return Ok(());
        }
        let n = ty.store_size();
        let (b, off) = self.resolve(st, p, n, align, "store")?;
        if self.obj(st, b).kind == Kind::Const {
            let a = match p {
                V::C(c) => *c as u64,
                _ => b,
            };
            return Err(self.mem_error(st, "store to constant", a, n));
        }
        let mut bytes = Vec::with_capacity(n as usize);
        self.v_to_bytes(v, ty.width(), &mut bytes);
        if self.spec > 0 && n > 1 {
            match &off {
                V::C(o) => self.wide.push((b + *o as u64, n)),
                _ => self.wide.push((b, u64::MAX)),
            }
        }
        match off {
            V::C(o) => {
                let ob = self.obj_mut(st, b)?;
                ob.data[o as usize..(o as u64 + n) as usize].copy_from_slice(&bytes);
            }
            V::S(oe) => {
                let size = self.obj(st, b).size;
                let (step, start) = self.stride(b, align);
                let cand = (size - n + 1 + step - 1) / step;
                if cand > 300 {
                    let o = self.fix(st, &V::S(oe), 64)? as usize;
                    let ob = self.obj_mut(st, b)?;
                    ob.data[o..o + n as usize].copy_from_slice(&bytes);
                    return Ok(());
                }
                let old = self.obj(st, b).data.clone();
                let mut new = old.clone();
                let mut k = start;
                while k + n <= size {
                    let kc = self.a.c(k as u128, 64);
                    let c = self.a.eq(oe, kc);
                    for j in 0..n as usize {
                        let x = match bytes[j] {
                            B8::C(v) => self.a.c(v as u128, 8),
                            B8::S(e) => e,
                            B8::U => {
                                let id = st.nsym;
                                st.nsym += 1;
                                self.a.sym(id, 8)
                            }
                        };
                        let y = match new[k as usize + j] {
                            B8::C(v) => self.a.c(v as u128, 8),
                            B8::S(e) => e,
                            B8::U => {
                                let id = st.nsym;
                                st.nsym += 1;
                                self.a.sym(id, 8)
                            }
                        };
                        let r = self.a.ite(c, x, y);
                        new[k as usize + j] = match self.a.cst(r) {
                            Some(v) => B8::C(v as u8),
                            None => B8::S(r),
                        };
                    }
                    k += step;
                }
                let ob = self.obj_mut(st, b)?;
                ob.data = new;
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    fn addk(&mut self, p: &V, k: u64) -> V {
        if k == 0 {
            return p.clone();
        }
        self.a.vbin(BinOp::Add, 64, p, &V::C(k as u128))
    }

    fn read_bytes(&mut self, st: &mut State, p: &V, n: u64, what: &str) -> R<Vec<B8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let a = V::C(self.fix(st, p, 64)?);
        let (b, off) = self.resolve(st, &a, n, 1, what)?;
        let o = match off {
            V::C(o) => o as usize,
            _ => unreachable!(),
        };
        Ok(self.obj(st, b).data[o..o + n as usize].to_vec())
    }

    fn write_bytes(&mut self, st: &mut State, p: &V, bs: &[B8], what: &str) -> R<()> {
        if bs.is_empty() {
            return Ok(());
        }
        let a = V::C(self.fix(st, p, 64)?);
        let (b, off) = self.resolve(st, &a, bs.len() as u64, 1, what)?;
        let o = match off {
            V::C(o) => o as usize,
            _ => unreachable!(),
        };
        if self.spec > 0 {
            self.wide.push((b + o as u64, bs.len() as u64));
        }
        if self.obj(st, b).kind == Kind::Const {
            return Err(self.mem_error(st, "store to constant", b, bs.len() as u64));
        }
        let ob = self.obj_mut(st, b)?;
        ob.data[o..o + bs.len()].copy_from_slice(bs);
        Ok(())
    }

    fn b8e(&mut self, st: &mut State, b: B8) -> E {
        match b {
            B8::C(v) => self.a.c(v as u128, 8),
            B8::S(e) => e,
            B8::U => {
                let id = st.nsym;
                st.nsym += 1;
                self.a.sym(id, 8)
            }
        }
    }

    fn concrete_str(&mut self, st: &mut State, p: &V, n: &V) -> String {
        let (p, n) = match (p, n) {
            (V::C(p), V::C(n)) => (*p, *n as u64),
            _ => return "?".into(),
        };
        match self.read_bytes(st, &V::C(p), n.min(400), "string") {
            Ok(b) => b.iter().map(|x| if let B8::C(c) = x { *c as char } else { '?' }).collect(),
            Err(_) => "?".into(),
        }
    }

    fn location(&mut self, st: &mut State, p: &V) -> String {
        let p = match p {
            V::C(p) => *p as u64,
            _ => return "?".into(),
        };
        if let Some(s) = self.loc_cache.get(&p) {
            return s.clone();
        }
        let nv = self.violations.len();
        let f = self.load(st, &Ty::Ptr, &V::C(p as u128), 1).unwrap_or(V::U);
        let n = self.load(st, &Ty::Int(64), &V::C(p as u128 + 8), 1).unwrap_or(V::U);
        let l = self.load(st, &Ty::Int(32), &V::C(p as u128 + 16), 1).unwrap_or(V::U);
        let s = self.concrete_str(st, &f, &n);
        self.violations.truncate(nv);
        let r = format!("{}:{}", s.trim_end_matches('\0'), if let V::C(l) = l { l } else { 0 });
        self.loc_cache.insert(p, r.clone());
        r
    }

    // ---------------------------------------------------------------- control
    fn op(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::V(v) => v.clone(),
        }
    }

    fn set(&self, st: &mut State, dst: Option<u32>, v: V) {
        if let Some(d) = dst {
            let fr = st.frames.last_mut().unwrap();
            Rc::make_mut(&mut fr.regs)[d as usize] = v;
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut tmp = std::mem::take(&mut self.phi_tmp);
            tmp.clear();
            for ph in &b.phis {
                let o = ph.inc.iter().find(|(l, _)| *l == from).map(|(_, o)| o);
                match o {
                    Some(Op::R(r)) => tmp.push((ph.dst, fr.regs[*r as usize].clone())),
                    Some(Op::V(v)) => tmp.push((ph.dst, v.clone())),
                    None => return Err(Stop::Unsupported("phi without incoming edge".into())),
                }
            }
            let regs = Rc::make_mut(&mut fr.regs);
            for (d, v) in tmp.drain(..) {
                regs[d as usize] = v;
            }
            self.phi_tmp = tmp;
        }
        fr.block = to;
        fr.ip = 0;
        Ok(())
    }

    /// complete the call instruction of the (now) top frame with a value
    fn complete_call(&mut self, st: &mut State, v: V) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.block as usize].insts[fr.ip as usize];
        self.set(st, inst.dst, v);
        match &inst.i {
            I::Call(c) => {
                if let Some((n, _)) = c.invoke {
                    self.jump(st, n)
                } else {
                    st.frames.last_mut().unwrap().ip += 1;
                    Ok(())
                }
            }
            _ => Err(Stop::Unsupported("return to a non-call".into())),
        }
    }

    fn pop_frame(&mut self, st: &mut State) -> Frame {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.remove(a);
        }
        fr
    }

    fn do_return(&mut self, st: &mut State, v: V) -> R<()> {
        let fr = self.pop_frame(st);
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        if fr.catch {
            return self.complete_call(st, V::C(0));
        }
        self.complete_call(st, v)
    }

    /// unwind from the current frame's instruction
    fn unwind(&mut self, st: &mut State, why: &str) -> R<()> {
        let full = st.clone_shallow_for_trace();
        let mut first = true;
        loop {
            let fr = st.frames.last().unwrap();
            let f = fr.f.clone();
            let inst = &f.blocks[fr.block as usize].insts[fr.ip as usize];
            if let I::Call(c) = &inst.i {
                if let Some((_, u)) = c.invoke {
                    return self.jump(st, u);
                }
            }
            let _ = first;
            first = false;
            let was_catch = fr.catch;
            self.pop_frame(st);
            if st.frames.is_empty() {
                let m = full.model.clone();
                self.violation(&full, &m, "panic", why);
                return Err(Stop::Bad);
            }
            if was_catch {
                return self.complete_call(st, V::C(1));
            }
        }
    }

    fn push_call(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>, catch: bool) -> R<()> {
        if st.frames.len() > 400 {
            return Err(Stop::Unsupported("call depth".into()));
        }
        let mut regs = vec![V::U; f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            if let Some(a) = args.get(i) {
                regs[*p as usize] = a.clone();
            }
        }
        st.frames.push(Frame { f, regs: Rc::new(regs), block: 0, ip: 0, allocas: vec![], catch });
        Ok(())
    }

    fn elementwise(&mut self, ty: &Ty, vs: &[V], mut f: impl FnMut(&mut Self, u32, &[V]) -> V) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.width();
                let mut out = vec![];
                for i in 0..*n as usize {
                    let xs: Vec<V> = vs
                        .iter()
                        .map(|v| match v {
                            V::A(x) => x[i].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    out.push(f(self, w, &xs));
                }
                V::A(Rc::new(out))
            }
            _ => f(self, ty.width(), vs),
        }
    }

    fn select_v(&mut self, ty: &Ty, c: &V, a: &V, b: &V) -> V {
        match (c, ty) {
            (V::C(k), _) => {
                if *k != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            (V::U, _) => a.clone(),
            (_, Ty::Struct(..)) | (_, Ty::Arr(..)) | (_, Ty::Vec(..)) => {
                let n = ty.nelems();
                let mut o = vec![];
                for i in 0..n {
                    let (_, t) = ty.field(i);
                    let g = |v: &V| match v {
                        V::A(x) => x[i as usize].clone(),
                        _ => V::U,
                    };
                    let (x, y) = (g(a), g(b));
                    o.push(self.select_v(&t, c, &x, &y));
                }
                V::A(Rc::new(o))
            }
            _ => self.a.vite(c, ty.width(), a, b),
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.stats.steps += 1;
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.block as usize].insts[fr.ip as usize];
        if inst.dbg != 0 {
            self.dbg_seen.insert(inst.dbg);
        }
        if self.trace {
            eprintln!("  [{}] {:?} b{} i{} {:?}", st.frames.len(), &f.name[..f.name.len().min(60)], fr.block, fr.ip, inst);
        }
        macro_rules! o {
            ($x:expr) => {
                self.op(st.frames.last().unwrap(), $x)
            };
        }
        let v: V = match &inst.i {
            I::Bin(op, ty, a, b) => {
                let (x, y) = (o!(a), o!(b));
                if let (V::C(_), V::C(d)) = (&x, &y) {
                    if *d == 0 && matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                        return Err(Stop::Unsupported("division by zero".into()));
                    }
                }
                if ty.is_scalar() {
                    self.a.vbin(*op, ty.width(), &x, &y)
                } else {
                    self.elementwise(ty, &[x, y], |s, w, v| s.a.vbin(*op, w, &v[0], &v[1]))
                }
            }
            I::ICmp(p, ty, a, b) => {
                let (x, y) = (o!(a), o!(b));
                if ty.is_scalar() {
                    self.a.vcmp(*p, ty.width(), &x, &y)
                } else {
                    self.elementwise(ty, &[x, y], |s, w, v| s.a.vcmp(*p, w, &v[0], &v[1]))
                }
            }
            I::Select(ct, ty, c, a, b) => {
                let (c, x, y) = (o!(c), o!(a), o!(b));
                if let Ty::Vec(n, et) = ct {
                    let _ = et;
                    let mut out = vec![];
                    for i in 0..*n {
                        let g = |v: &V| match v {
                            V::A(x) => x[i as usize].clone(),
                            _ => V::U,
                        };
                        let (_, t) = ty.field(i);
                        let (cc, xx, yy) = (g(&c), g(&x), g(&y));
                        out.push(self.select_v(&t, &cc, &xx, &yy));
                    }
                    V::A(Rc::new(out))
                } else {
                    self.select_v(ty, &c, &x, &y)
                }
            }
            I::Load(ty, p, al) => {
                let p = o!(p);
                self.load(st, ty, &p, *al)?
            }
            I::Store(ty, v, p, al) => {
                let (v, p) = (o!(v), o!(p));
                self.store(st, ty, &p, &v, *al)?;
                V::U
            }
            I::Gep(base, off, dy) => {
                let mut p = o!(base);
                for (ix, w, sc) in dy {
                    let i = o!(ix);
                    let i = if *w < 64 {
                        self.a.vsext(&i, *w, 64)
                    } else if *w > 64 {
                        self.a.vtrunc(&i, 64)
                    } else {
                        i
                    };
                    let s = self.a.vbin(BinOp::Mul, 64, &i, &V::C(*sc as u64 as u128));
                    p = self.a.vbin(BinOp::Add, 64, &p, &s);
                }
                if *off != 0 {
                    p = self.a.vbin(BinOp::Add, 64, &p, &V::C(*off as u64 as u128));
                }
                p
            }
            I::Cast(k, ft, tt, a) => {
                let x = o!(a);
                match k {
                    CastOp::Bit => {
                        if ft.is_scalar() && tt.is_scalar() {
                            x
                        } else {
                            // reinterpret through bytes
                            let mut bs = vec![];
                            self.flat_bytes(ft, &x, &mut bs);
                            let mut pos = 0;
                            self.unflat(st, tt, &bs, &mut pos)
                        }
                    }
                    _ => {
                        if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (ft, tt) {
                            let mut out = vec![];
                            for i in 0..*n as usize {
                                let e = match &x {
                                    V::A(v) => v[i].clone(),
                                    _ => V::U,
                                };
                                out.push(self.cast(*k, &e, fe.width(), te.width()));
                            }
                            V::A(Rc::new(out))
                        } else {
                            self.cast(*k, &x, ft.width(), tt.width())
                        }
                    }
                }
            }
            I::Call(c) => return self.call(st, c),
            I::ExtractValue(a, idx) => {
                let mut x = o!(a);
                for i in idx {
                    x = match &x {
                        V::A(v) => v[*i as usize].clone(),
                        _ => V::U,
                    };
                }
                x
            }
            I::InsertValue(a, v, idx, ty) => {
                let x = o!(a);
                let v = o!(v);
                insert(&x, &v, idx, ty)
            }
            I::ExtractElem(a, i) => {
                let x = o!(a);
                let i = o!(i);
                let i = self.fix(st, &i, 64)? as usize;
                match &x {
                    V::A(v) => v.get(i).cloned().unwrap_or(V::U),
                    _ => V::U,
                }
            }
            I::InsertElem(a, v, i, n) => {
                let x = o!(a);
                let v = o!(v);
                let i = o!(i);
                let i = self.fix(st, &i, 64)? as usize;
                let mut e = match &x {
                    V::A(v) => (**v).clone(),
                    _ => vec![V::U; *n as usize],
                };
                e[i] = v;
                V::A(Rc::new(e))
            }
            I::Shuffle(a, b, n, mk) => {
                let (x, y) = (o!(a), o!(b));
                let g = |v: &V, i: usize| match v {
                    V::A(v) => v[i].clone(),
                    _ => V::U,
                };
                V::A(Rc::new(
                    mk.iter()
                        .map(|k| match k {
                            None => V::U,
                            Some(k) if *k < *n => g(&x, *k as usize),
                            Some(k) => g(&y, (*k - *n) as usize),
                        })
                        .collect(),
                ))
            }
            I::Alloca(sz, al, n, w) => {
                let n = o!(n);
                let n = self.fix(st, &n, *w)? as u64;
                let a = self.alloc(st, sz * n, *al, Kind::Stack, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                V::C(a as u128)
            }
            I::Br(t) => return self.jump(st, *t),
            I::CondBr(c, a, b) => {
                let c = o!(c);
                let d = match c {
                    V::C(k) => k != 0,
                    V::S(e) => {
                        let ne = self.a.not(e);
                        if a != b && self.try_merge(st, &[(e, *a), (ne, *b)]) {
                            return Ok(());
                        }
                        self.branch(st, e)?
                    }
                    _ => {
                        let m = st.model.clone();
                        let loc = self.trace_of(st).into_iter().take(1).collect::<String>();
                        self.violation(st, &m, "memory", &format!("branch on uninitialised value at {loc}"));
                        return Err(Stop::Bad);
                    }
                };
                return self.jump(st, if d { *a } else { *b });
            }
            I::Switch(ty, v, d, cs) => {
                let x = o!(v);
                let w = ty.width();
                match x {
                    V::C(k) => {
                        let t = cs.iter().find(|(c, _)| *c == k).map(|(_, t)| *t).unwrap_or(*d);
                        return self.jump(st, t);
                    }
                    V::S(e) => {
                        if self.merge && cs.len() <= 4 {
                            let mut sides: Vec<(E, u32)> = vec![];
                            let mut rest = self.a.c(1, 1);
                            for (c, t) in cs {
                                let kc = self.a.c(*c, w);
                                let q = self.a.eq(e, kc);
                                let nq = self.a.not(q);
                                rest = self.a.and(rest, nq);
                                match sides.iter_mut().find(|s| s.1 == *t) {
                                    Some(s) => s.0 = self.a.or(s.0, q),
                                    None => sides.push((q, *t)),
                                }
                            }
                            match sides.iter_mut().find(|s| s.1 == *d) {
                                Some(s) => s.0 = self.a.or(s.0, rest),
                                None => sides.push((rest, *d)),
                            }
                            if sides.len() > 1 && self.try_merge(st, &sides) {
                                return Ok(());
                            }
                        }
                        let k = self.a.eval(e, &st.model);
                        let t = cs.iter().find(|(c, _)| *c == k).map(|(_, t)| *t);
                        match t {
                            Some(t) => {
                                let mut cond = self.a.c(0, 1);
                                for (c, tt) in cs {
                                    if *tt == t {
                                        let kc = self.a.c(*c, w);
                                        let q = self.a.eq(e, kc);
                                        cond = self.a.or(cond, q);
                                    }
                                }
                                self.branch(st, cond)?;
                                return self.jump(st, t);
                            }
                            None => {
                                let mut cond = self.a.c(1, 1);
                                for (c, _) in cs {
                                    let kc = self.a.c(*c, w);
                                    let q = self.a.eq(e, kc);
                                    let nq = self.a.not(q);
                                    cond = self.a.and(cond, nq);
                                }
                                self.branch(st, cond)?;
                                return self.jump(st, *d);
                            }
                        }
                    }
                    _ => {
                        let m = st.model.clone();
                        let loc = self.trace_of(st).into_iter().take(1).collect::<String>();
                        self.violation(st, &m, "memory", &format!("switch on uninitialised value at {loc}"));
                        return Err(Stop::Bad);
                    }
                }
            }
            I::Ret(v) => {
                let v = match v {
                    Some(v) => o!(v),
                    None => V::U,
                };
                return self.do_return(st, v);
            }
            I::Unreachable => {
                let m = st.model.clone();
                let loc = self.trace_of(st).into_iter().take(1).collect::<String>();
                self.violation(st, &m, "abort", &format!("unreachable code reached at {loc}"));
                return Err(Stop::Bad);
            }
            I::Resume(_) => {
                // continue unwinding in the caller
                let was_catch = st.frames.last().unwrap().catch;
                let full = st.clone();
                self.pop_frame(st);
                if st.frames.is_empty() {
                    let m = full.model.clone();
                    self.violation(&full, &m, "panic", "panic escaped the harness");
                    return Err(Stop::Bad);
                }
                if was_catch {
                    return self.complete_call(st, V::C(1));
                }
                return self.unwind(st, "panic escaped the harness");
            }
            I::LandingPad => V::A(Rc::new(vec![V::C(0xdead0), V::C(1)])),
            I::Freeze(_, a) => match o!(a) {
                V::U => V::C(0),
                V::A(v) => V::A(Rc::new(v.iter().map(|x| if let V::U = x { V::C(0) } else { x.clone() }).collect())),
                x => x,
            },
            I::Rmw(op, ty, p, v) => {
                let (p, v) = (o!(p), o!(v));
                let old = self.load(st, ty, &p, ty.size())?;
                let w = ty.width();
                let new = match op {
                    RmwOp::Xchg => v,
                    RmwOp::Add => self.a.vbin(BinOp::Add, w, &old, &v),
                    RmwOp::Sub => self.a.vbin(BinOp::Sub, w, &old, &v),
                    RmwOp::And => self.a.vbin(BinOp::And, w, &old, &v),
                    RmwOp::Or => self.a.vbin(BinOp::Or, w, &old, &v),
                    RmwOp::Xor => self.a.vbin(BinOp::Xor, w, &old, &v),
                    RmwOp::UMax | RmwOp::UMin | RmwOp::Max | RmwOp::Min => {
                        let p = match op {
                            RmwOp::UMax => Pred::Ugt,
                            RmwOp::UMin => Pred::Ult,
                            RmwOp::Max => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.a.vcmp(p, w, &old, &v);
                        self.a.vite(&c, w, &old, &v)
                    }
                };
                self.store(st, ty, &p, &new, ty.size())?;
                old
            }
            I::CmpXchg(ty, p, c, n) => {
                let (p, c, n) = (o!(p), o!(c), o!(n));
                let old = self.load(st, ty, &p, ty.size())?;
                let w = ty.width();
                let q = self.a.vcmp(Pred::Eq, w, &old, &c);
                let new = self.a.vite(&q, w, &n, &old);
                self.store(st, ty, &p, &new, ty.size())?;
                V::A(Rc::new(vec![old, q]))
            }
            I::FCmp(p, ty, a, b) => {
                let (x, y) = (o!(a), o!(b));
                match (x, y) {
                    (V::C(x), V::C(y)) => {
                        let (x, y) = if ty.width() == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x as u64), f64::from_bits(y as u64)) };
                        let uno = x.is_nan() || y.is_nan();
                        let r = match p.as_str() {
                            "oeq" => !uno && x == y,
                            "ogt" => !uno && x > y,
                            "oge" => !uno && x >= y,
                            "olt" => !uno && x < y,
                            "ole" => !uno && x <= y,
                            "one" => !uno && x != y,
                            "ord" => !uno,
                            "ueq" => uno || x == y,
                            "ugt" => uno || x > y,
                            "uge" => uno || x >= y,
                            "ult" => uno || x < y,
                            "ule" => uno || x <= y,
                            "une" => uno || x != y,
                            "uno" => uno,
                            "true" => true,
                            _ => false,
                        };
                        V::C(r as u128)
                    }
                    (x, y) if p == "oeq" || p == "une" => {
                        // IEEE equality on bit patterns
                        let w = ty.width();
                        let (xe, ye) = (self.a.to_e(&x, w), self.a.to_e(&y, w));
                        let eq = self.feq(xe, ye, w);
                        let r = if p == "oeq" { eq } else { self.a.not(eq) };
                        self.a.to_v(r)
                    }
                    _ => return Err(Stop::Unsupported(format!("symbolic fcmp {p}"))),
                }
            }
            I::FNeg(ty, a) => {
                let x = o!(a);
                let w = ty.width();
                self.a.vbin(BinOp::Xor, w, &x, &V::C(1u128 << (w - 1)))
            }
            I::FBin(n, ..) => return Err(Stop::Unsupported(format!("floating point {n}"))),
            I::FCast(n, ..) => return Err(Stop::Unsupported(format!("floating point {n}"))),
            I::Nop => V::U,
            I::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
        };
        self.set(st, inst.dst, v);
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn feq(&mut self, x: E, y: E, w: u32) -> E {
        let m = if w == 32 { 23 } else { 52 };
        let inf = if w == 32 { 0x7f80_0000u128 } else { 0x7ff0_0000_0000_0000u128 };
        let _ = m;
        let xl = self.a.extract(x, 0, w - 1);
        let yl = self.a.extract(y, 0, w - 1);
        let infc = self.a.c(inf, w - 1);
        let xn = self.a.ult(infc, xl);
        let yn = self.a.ult(infc, yl);
        let e = self.a.eq(x, y);
        let z = self.a.c(0, w - 1);
        let xz = self.a.eq(xl, z);
        let yz = self.a.eq(yl, z);
        let bz = self.a.and(xz, yz);
        let o = self.a.or(e, bz);
        let nan = self.a.or(xn, yn);
        let nn = self.a.not(nan);
        self.a.and(o, nn)
    }

    fn cast(&mut self, k: CastOp, x: &V, fw: u32, tw: u32) -> V {
        match k {
            CastOp::Trunc => self.a.vtrunc(x, tw),
            CastOp::ZExt => self.a.vzext(x, fw, tw),
            CastOp::SExt => self.a.vsext(x, fw, tw),
            CastOp::Bit => x.clone(),
        }
    }

    fn flat_bytes(&mut self, ty: &Ty, v: &V, out: &mut Vec<B8>) {
        if ty.is_scalar() {
            self.v_to_bytes(v, ty.width(), out);
            return;
        }
        for i in 0..ty.nelems() {
            let (_, t) = ty.field(i);
            let x = match v {
                V::A(x) => x[i as usize].clone(),
                _ => V::U,
            };
            self.flat_bytes(&t, &x, out);
        }
    }
    fn unflat(&mut self, st: &mut State, ty: &Ty, b: &[B8], pos: &mut usize) -> V {
        if ty.is_scalar() {
            let n = ty.store_size() as usize;
            let r = self.bytes_to_v(st, &b[*pos..*pos + n], ty.width());
            *pos += n;
            return r;
        }
        let mut o = vec![];
        for i in 0..ty.nelems() {
            let (_, t) = ty.field(i);
            o.push(self.unflat(st, &t, b, pos));
        }
        V::A(Rc::new(o))
    }

    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let mut args = Vec::with_capacity(c.args.len());
        {
            let fr = st.frames.last().unwrap();
            for (_, a) in &c.args {
                args.push(self.op(fr, a));
            }
        }
        let t = match &c.callee {
            Callee::Direct(n) => self.target_by_name(n)?,
            Callee::Indirect(o) => {
                let p = self.op(st.frames.last().unwrap(), o);
                let a = self.fix(st, &p, 64)? as u64;
                self.target_by_addr(st, a)?
            }
        };
        match &*t {
            Target::Func(f) => self.push_call(st, f.clone(), args, false),
            Target::Builtin(n) => {
                let n = n.clone();
                self.builtin(st, &n, c, args)
            }
        }
    }

    fn target_by_addr(&mut self, st: &mut State, a: u64) -> R<Rc<Target>> {
        if let Some(t) = self.funcs.get(&a) {
            return Ok(t.clone());
        }
        let n = match self.m.func_addr_name.get(&a) {
            Some(n) => n.clone(),
            None => {
                let m = st.model.clone();
                let loc = self.trace_of(st).into_iter().take(1).collect::<String>();
                self.violation(st, &m, "memory", &format!("call through an invalid function pointer at {loc}"));
                return Err(Stop::Bad);
            }
        };
        let t = self.target_by_name(&n)?;
        self.funcs.insert(a, t.clone());
        Ok(t)
    }

    fn builtin(&mut self, st: &mut State, n: &str, c: &CallI, args: Vec<V>) -> R<()> {
        if let Some(i) = n.strip_prefix("llvm.") {
            let v = self.intrinsic(st, i, c, args)?;
            return self.complete_call(st, v);
        }
        if let Some(s) = n.strip_prefix("sym_") {
            if self.spec > 0 {
                return Err(Stop::Spec);
            }
            return self.sym_call(st, s, args);
        }
        if n.contains("___rustc") || n.starts_with("__rust_") {
            if n.contains("___rust_no_alloc_shim") || n.contains("__rust_no_alloc_shim") {
                return self.complete_call(st, V::U);
            }
            if n.contains("alloc_error_handler") {
                return self.abort(st, "allocation failure aborted the process");
            }
            if n.contains("rust_dealloc") {
                let (p, s, al) = (args[0].clone(), args[1].clone(), args[2].clone());
                let p = self.fix(st, &p, 64)? as u64;
                let s = self.fix(st, &s, 64)? as u64;
                let al = self.fix(st, &al, 64)? as u64;
                self.free(st, p, s, al)?;
                return self.complete_call(st, V::U);
            }
            if n.contains("rust_realloc") {
                let p = self.fix(st, &args[0], 64)? as u64;
                let os = self.fix(st, &args[1], 64)? as u64;
                let al = self.fix(st, &args[2], 64)? as u64;
                let ns = self.fix(st, &args[3], 64)? as u64;
                if self.alloc_fails(st, ns) {
                    return self.complete_call(st, V::C(0));
                }
                let mut data = self.read_bytes(st, &V::C(p as u128), os.min(ns), "realloc")?;
                self.free(st, p, os, al)?;
                let a = self.alloc(st, ns, al, Kind::Heap, false);
                st.heap_live += 1;
                data.resize(ns as usize, B8::U);
                self.obj_mut(st, a)?.data = data;
                return self.complete_call(st, V::C(a as u128));
            }
            if n.contains("rust_alloc") {
                let s = self.fix(st, &args[0], 64)? as u64;
                let al = self.fix(st, &args[1], 64)? as u64;
                if self.alloc_fails(st, s) {
                    return self.complete_call(st, V::C(0));
                }
                let a = self.alloc(st, s, al, Kind::Heap, n.contains("zeroed"));
                st.heap_live += 1;
                return self.complete_call(st, V::C(a as u128));
            }
        }
        if n.contains("9panicking") || n.contains("rust_begin_unwind") {
            if n.contains("9panicking9panic_fmt") {
                let loc = args.last().cloned().unwrap_or(V::U);
                let l = self.location(st, &loc);
                return self.unwind(st, &format!("panic at {}", shorten(&l)));
            }
            if n.contains("rust_begin_unwind") {
                return self.unwind(st, "panic");
            }
            let loc = args.last().cloned().unwrap_or(V::U);
            let l = if n.contains("fmt") { self.location(st, &loc) } else { String::new() };
            return self.abort(st, &format!("non-unwinding panic {} {}", n, shorten(&l)));
        }
        match n {
            "bcmp" | "memcmp" => {
                let k = self.fix(st, &args[2], 64)? as u64;
                let x = self.read_bytes(st, &args[0], k, n)?;
                let y = self.read_bytes(st, &args[1], k, n)?;
                let mut acc = self.a.c(0, 32);
                for i in (0..k as usize).rev() {
                    let p = self.b8e(st, x[i]);
                    let q = self.b8e(st, y[i]);
                    let eq = self.a.eq(p, q);
                    let d = if n == "bcmp" {
                        self.a.c(1, 32)
                    } else {
                        let lt = self.a.ult(p, q);
                        let m1 = self.a.c(u32::MAX as u128, 32);
                        let p1 = self.a.c(1, 32);
                        self.a.ite(lt, m1, p1)
                    };
                    acc = self.a.ite(eq, acc, d);
                }
                let v = self.a.to_v(acc);
                self.complete_call(st, v)
            }
            "memcpy" | "memmove" => {
                let k = self.fix(st, &args[2], 64)? as u64;
                let x = self.read_bytes(st, &args[1], k, n)?;
                self.write_bytes(st, &args[0], &x, n)?;
                self.complete_call(st, args[0].clone())
            }
            "memset" => {
                let k = self.fix(st, &args[2], 64)? as u64;
                let b = self.a.vtrunc(&args[1], 8);
                let mut bs = vec![];
                self.v_to_bytes(&b, 8, &mut bs);
                let bs = vec![bs[0]; k as usize];
                self.write_bytes(st, &args[0], &bs, n)?;
                self.complete_call(st, args[0].clone())
            }
            "strlen" => {
                let p = self.fix(st, &args[0], 64)? as u64;
                let mut k = 0u64;
                loop {
                    let b = self.read_bytes(st, &V::C((p + k) as u128), 1, "strlen")?[0];
                    let z = match b {
                        B8::C(c) => c == 0,
                        b => {
                            let e = self.b8e(st, b);
                            let zc = self.a.c(0, 8);
                            let q = self.a.eq(e, zc);
                            self.branch(st, q)?
                        }
                    };
                    if z {
                        break;
                    }
                    k += 1;
                }
                self.complete_call(st, V::C(k as u128))
            }
            "abort" => self.abort(st, "abort called"),
            _ => Err(Stop::Unsupported(format!("call to external function {n}"))),
        }
    }

    fn abort(&mut self, st: &mut State, why: &str) -> R<()> {
        let m = st.model.clone();
        let tr = self.trace_of(st);
        let loc = tr.iter().find(|l| l.contains("/repo/")).cloned().unwrap_or_default();
        self.violation(st, &m, "abort", &format!("{why} {loc}"));
        Err(Stop::Bad)
    }

    fn alloc_fails(&mut self, st: &mut State, size: u64) -> bool {
        st.heap_total += 1;
        if size > 1 << 24 {
            return true;
        }
        if st.fail_at == u64::MAX {
            return false;
        }
        if st.fail_at == 0 {
            st.fail_at = u64::MAX;
            return true;
        }
        st.fail_at -= 1;
        false
    }

    fn free(&mut self, st: &mut State, p: u64, s: u64, al: u64) -> R<()> {
        let ok = match st.mem.get(&p) {
            Some(o) => o.kind == Kind::Heap && o.size == s && o.align == al,
            None => false,
        };
        if !ok {
            let m = st.model.clone();
            let tr = self.trace_of(st);
            let loc = tr.iter().find(|l| l.contains("/repo/")).cloned().unwrap_or_default();
            let d = if st.freed.iter().any(|(b, _)| *b == p) { "double free" } else { "invalid free" };
            self.violation(st, &m, "memory", &format!("{d} at {loc}"));
            return Err(Stop::Bad);
        }
        st.mem.remove(&p);
        st.heap_live -= 1;
        Rc::make_mut(&mut st.freed).push((p, s));
        Ok(())
    }

    fn sym_call(&mut self, st: &mut State, s: &str, args: Vec<V>) -> R<()> {
        match s {
            "any" => {
                let n = self.fix(st, &args[1], 64)? as u64;
                let mut left = n;
                let mut off = 0;
                while left > 0 {
                    let k = left.min(8);
                    let id = st.nsym;
                    st.nsym += 1;
                    let e = self.a.sym(id, 8 * k as u32);
                    Rc::make_mut(&mut st.inputs).push((id, k as u32));
                    let p = self.addk(&args[0], off);
                    self.store(st, &Ty::Int(8 * k as u32), &p, &V::S(e), 1)?;
                    left -= k;
                    off += k;
                }
                self.complete_call(st, V::U)
            }
            "assume" => {
                match &args[0] {
                    V::C(k) => {
                        if *k == 0 {
                            return Err(Stop::Pruned);
                        }
                    }
                    V::S(e) => self.assume(st, *e)?,
                    _ => return Err(Stop::Unsupported("assume on undefined".into())),
                }
                self.complete_call(st, V::U)
            }
            "check" => {
                let msg = self.concrete_str(st, &args[1], &args[2]);
                self.check(st, &args[0].clone(), &msg)?;
                self.complete_call(st, V::U)
            }
            "cover" => {
                let msg = self.concrete_str(st, &args[0], &args[1]);
                *self.covers.entry(msg).or_insert(0) += 1;
                self.complete_call(st, V::U)
            }
            "fix" => {
                let v = self.fix(st, &args[0].clone(), 64)?;
                self.complete_call(st, V::C(v))
            }
            "observe" => {
                Rc::make_mut(&mut st.obs).push(args[0].clone());
                self.complete_call(st, V::U)
            }
            "catch" => {
                let f = self.fix(st, &args[0], 64)? as u64;
                let t = self.target_by_addr(st, f)?;
                match &*t {
                    Target::Func(f) => self.push_call(st, f.clone(), vec![args[1].clone()], true),
                    _ => Err(Stop::Unsupported("catch of builtin".into())),
                }
            }
            "panic" => self.unwind(st, "harness panic"),
            "heap_live" => {
                let v = st.heap_live;
                self.complete_call(st, V::C(v as u128))
            }
            "heap_total" => {
                let v = st.heap_total;
                self.complete_call(st, V::C(v as u128))
            }
            "alloc_fail" => {
                st.fail_at = self.fix(st, &args[0], 64)? as u64;
                self.complete_call(st, V::U)
            }
            "alloc_fail_pending" => {
                let v = (st.fail_at != u64::MAX) as u128;
                self.complete_call(st, V::C(v))
            }
            _ => Err(Stop::Unsupported(format!("sym_{s}"))),
        }
    }

    fn with_overflow(&mut self, op: &str, w: u32, x: &V, y: &V) -> V {
        let signed = op.starts_with('s');
        let bop = match &op[1..4] {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            _ => BinOp::Mul,
        };
        if matches!(x, V::U) || matches!(y, V::U) {
            return V::A(Rc::new(vec![V::U, V::U]));
        }
        let r = self.a.vbin(bop, w, x, y);
        let o = match (bop, signed) {
            (BinOp::Add, false) => self.a.vcmp(Pred::Ult, w, &r, x),
            (BinOp::Sub, false) => self.a.vcmp(Pred::Ult, w, x, y),
            (BinOp::Mul, false) => {
                if let (V::C(a), V::C(b)) = (x, y) {
                    let (p, o) = a.overflowing_mul(*b);
                    V::C((o || p > mask(u128::MAX, w)) as u128)
                } else if let V::C(k) = y {
                    if *k == 0 {
                        V::C(0)
                    } else {
                        let lim = mask(u128::MAX, w) / *k;
                        self.a.vcmp(Pred::Ugt, w, x, &V::C(lim))
                    }
                } else if let V::C(k) = x {
                    if *k == 0 {
                        V::C(0)
                    } else {
                        let lim = mask(u128::MAX, w) / *k;
                        self.a.vcmp(Pred::Ugt, w, y, &V::C(lim))
                    }
                } else {
                    let w2 = (2 * w).min(128);
                    let a = self.a.vzext(x, w, w2);
                    let b = self.a.vzext(y, w, w2);
                    let p = self.a.vbin(BinOp::Mul, w2, &a, &b);
                    let h = self.a.vextract(&p, w, w2 - w);
                    self.a.vcmp(Pred::Ne, w2 - w, &h, &V::C(0))
                }
            }
            _ => {
                // signed: compute at double width
                let w2 = (2 * w).min(128);
                let a = self.a.vsext(x, w, w2);
                let b = self.a.vsext(y, w, w2);
                let p = self.a.vbin(bop, w2, &a, &b);
                let t = self.a.vtrunc(&p, w);
                let e = self.a.vsext(&t, w, w2);
                self.a.vcmp(Pred::Ne, w2, &p, &e)
            }
        };
        V::A(Rc::new(vec![r, o]))
    }

    fn intrinsic(&mut self, st: &mut State, i: &str, c: &CallI, args: Vec<V>) -> R<V> {
        let base = i.split('.').next().unwrap();
        let ty = &c.ret;
        let w = ty.width();
        let aw = c.args.first().map(|(t, _)| t.width()).unwrap_or(0);
        if let Ty::Vec(..) = ty {
            if matches!(base, "umin" | "umax" | "smin" | "smax" | "ctpop" | "abs" | "fshl" | "fshr" | "uadd" | "usub") {
                let c2 = CallI { callee: c.callee.clone(), args: c.args.clone(), ret: Ty::Void, invoke: None };
                let (n, et) = match ty {
                    Ty::Vec(n, t) => (*n, (**t).clone()),
                    _ => unreachable!(),
                };
                let mut out = vec![];
                for k in 0..n as usize {
                    let mut c3 = c2.clone();
                    c3.ret = et.clone();
                    for a in c3.args.iter_mut() {
                        if let Ty::Vec(_, t) = &a.0 {
                            a.0 = (**t).clone();
                        }
                    }
                    let xs = args
                        .iter()
                        .map(|v| match v {
                            V::A(x) => x[k].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    out.push(self.intrinsic(st, i, &c3, xs)?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        Ok(match base {
            "lifetime" | "dbg" | "sideeffect" | "prefetch" | "invariant" | "donothing" | "fake" => V::U,
            "experimental" if i.starts_with("experimental.noalias") => V::U,
            "assume" => {
                match &args[0] {
                    V::S(e) => {
                        // an llvm.assume that can fail is undefined behaviour
                        if !self.branch(st, *e)? {
                            let m = st.model.clone();
                            let loc = self.trace_of(st).into_iter().take(1).collect::<String>();
                            self.violation(st, &m, "memory", &format!("compiler assumption violated at {loc}"));
                            return Err(Stop::Bad);
                        }
                    }
                    V::C(0) => {
                        let m = st.model.clone();
                        let loc = self.trace_of(st).into_iter().take(1).collect::<String>();
                        self.violation(st, &m, "memory", &format!("compiler assumption violated at {loc}"));
                        return Err(Stop::Bad);
                    }
                    _ => {}
                }
                V::U
            }
            "expect" | "launder" | "strip" | "ssa" => args[0].clone(),
            "memcpy" | "memmove" => {
                let k = self.fix(st, &args[2], 64)? as u64;
                if k > 0 {
                    let x = self.read_bytes(st, &args[1], k, "memcpy read")?;
                    self.write_bytes(st, &args[0], &x, "memcpy write")?;
                }
                V::U
            }
            "memset" => {
                let k = self.fix(st, &args[2], 64)? as u64;
                let mut bs = vec![];
                self.v_to_bytes(&args[1], 8, &mut bs);
                let bs = vec![bs[0]; k as usize];
                self.write_bytes(st, &args[0], &bs, "memset")?;
                V::U
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if i.contains("with.overflow") => self.with_overflow(base, aw, &args[0], &args[1]),
            "uadd" | "usub" | "sadd" | "ssub" if i.contains(".sat") => {
                let p = self.with_overflow(base, w, &args[0], &args[1]);
                let (r, o) = match p {
                    V::A(v) => (v[0].clone(), v[1].clone()),
                    _ => unreachable!(),
                };
                match base {
                    "uadd" => self.a.vite(&o, w, &V::C(mask(u128::MAX, w)), &r),
                    "usub" => self.a.vite(&o, w, &V::C(0), &r),
                    _ => {
                        let neg = self.a.vcmp(Pred::Slt, w, &args[0], &V::C(0));
                        let mn = V::C(1u128 << (w - 1));
                        let mx = V::C((1u128 << (w - 1)) - 1);
                        let s = self.a.vite(&neg, w, &mn, &mx);
                        self.a.vite(&o, w, &s, &r)
                    }
                }
            }
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let q = self.a.vcmp(p, w, &args[0], &args[1]);
                self.a.vite(&q, w, &args[0], &args[1])
            }
            "abs" => {
                let q = self.a.vcmp(Pred::Slt, w, &args[0], &V::C(0));
                let n = self.a.vbin(BinOp::Sub, w, &V::C(0), &args[0]);
                self.a.vite(&q, w, &n, &args[0])
            }
            "ucmp" | "scmp" => {
                let (l, g) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.a.vcmp(l, aw, &args[0], &args[1]);
                let gt = self.a.vcmp(g, aw, &args[0], &args[1]);
                let r = self.a.vite(&gt, w, &V::C(1), &V::C(0));
                self.a.vite(&lt, w, &V::C(mask(u128::MAX, w)), &r)
            }
            "ctpop" => match &args[0] {
                V::C(x) => V::C(x.count_ones() as u128),
                V::S(e) => {
                    let mut acc = V::C(0);
                    for k in 0..w {
                        let b = self.a.extract(*e, k, 1);
                        let z = self.a.zext(b, w);
                        let z = self.a.to_v(z);
                        acc = self.a.vbin(BinOp::Add, w, &acc, &z);
                    }
                    acc
                }
                x => x.clone(),
            },
            "cttz" | "ctlz" => match &args[0] {
                V::C(x) => V::C(if base == "cttz" {
                    (x.trailing_zeros()).min(w) as u128
                } else {
                    (mask(*x, w).leading_zeros() - (128 - w)) as u128
                }),
                V::S(e) => {
                    let mut acc = self.a.c(w as u128, w);
                    for j in 0..w {
                        // last applied wins: go from least to most significant in priority
                        let k = if base == "cttz" { w - 1 - j } else { j };
                        let b = self.a.extract(*e, k, 1);
                        let r = if base == "cttz" { k } else { w - 1 - k };
                        let rc = self.a.c(r as u128, w);
                        acc = self.a.ite(b, rc, acc);
                    }
                    self.a.to_v(acc)
                }
                x => x.clone(),
            },
            "bswap" => match &args[0] {
                V::U => V::U,
                x => {
                    let x = x.clone();
                    let mut acc: Option<E> = None;
                    let xe = self.a.to_e(&x, w);
                    for k in 0..w / 8 {
                        let b = self.a.extract(xe, 8 * k, 8);
                        acc = Some(match acc {
                            None => b,
                            Some(h) => self.a.concat(h, b),
                        });
                    }
                    self.a.to_v(acc.unwrap())
                }
            },
            "bitreverse" => match &args[0] {
                V::U => V::U,
                x => {
                    let x = x.clone();
                    let xe = self.a.to_e(&x, w);
                    let mut acc: Option<E> = None;
                    for k in 0..w {
                        let b = self.a.extract(xe, k, 1);
                        acc = Some(match acc {
                            None => b,
                            Some(h) => self.a.concat(h, b),
                        });
                    }
                    self.a.to_v(acc.unwrap())
                }
            },
            "fshl" | "fshr" => {
                let s = self.a.vbin(BinOp::URem, w, &args[2], &V::C(w as u128));
                let inv = self.a.vbin(BinOp::Sub, w, &V::C(w as u128), &s);
                let (hi, lo) = if base == "fshl" {
                    (self.a.vbin(BinOp::Shl, w, &args[0], &s), self.a.vbin(BinOp::LShr, w, &args[1], &inv))
                } else {
                    (self.a.vbin(BinOp::Shl, w, &args[0], &inv), self.a.vbin(BinOp::LShr, w, &args[1], &s))
                };
                self.a.vbin(BinOp::Or, w, &hi, &lo)
            }
            "ptrmask" => self.a.vbin(BinOp::And, 64, &args[0], &args[1]),
            "is" => V::C(0), // is.constant
            "objectsize" => V::C(mask(u128::MAX, w)),
            "trap" | "ubsantrap" => {
                self.abort(st, "trap")?;
                V::U
            }
            "vector" if i.starts_with("vector.reduce.") => {
                let (op, et, n) = match &c.args[0].0 {
                    Ty::Vec(n, t) => (i.split('.').nth(2).unwrap().to_string(), t.width(), *n),
                    _ => return Err(Stop::Unsupported(i.into())),
                };
                let xs = match &args[0] {
                    V::A(x) => x.clone(),
                    _ => return Ok(V::U),
                };
                let mut acc = xs[0].clone();
                for k in 1..n as usize {
                    acc = match op.as_str() {
                        "add" => self.a.vbin(BinOp::Add, et, &acc, &xs[k]),
                        "or" => self.a.vbin(BinOp::Or, et, &acc, &xs[k]),
                        "and" => self.a.vbin(BinOp::And, et, &acc, &xs[k]),
                        "xor" => self.a.vbin(BinOp::Xor, et, &acc, &xs[k]),
                        _ => return Err(Stop::Unsupported(i.into())),
                    };
                }
                acc
            }
            "load" if i.starts_with("load.relative") => {
                let p = self.a.vbin(BinOp::Add, 64, &args[0], &args[1]);
                let v = self.load(st, &Ty::Int(32), &p, 1)?;
                let v = self.a.vsext(&v, 32, 64);
                self.a.vbin(BinOp::Add, 64, &args[0], &v)
            }
            "fabs" => self.a.vbin(BinOp::And, w, &args[0], &V::C(mask(u128::MAX, w - 1))),
            "copysign" => {
                let m = self.a.vbin(BinOp::And, w, &args[0], &V::C(mask(u128::MAX, w - 1)));
                let s = self.a.vbin(BinOp::And, w, &args[1], &V::C(1u128 << (w - 1)));
                self.a.vbin(BinOp::Or, w, &m, &s)
            }
            "eh" => V::C(1), // eh.typeid.for
            _ => return Err(Stop::Unsupported(format!("intrinsic llvm.{i}"))),
        })
    }
}

impl State {
    fn clone_shallow_for_trace(&self) -> State {
        self.clone()
    }
}

fn shorten(l: &str) -> String {
    l.to_string()
}

fn is_builtin(n: &str) -> bool {
    n.starts_with("llvm.")
        || n.starts_with("sym_")
        || n.contains("9panicking9panic_fmt")
        || n.contains("9panicking18panic_nounwind_fmt")
        || n.contains("9panicking14panic_nounwind")
        || n.contains("9panicking26panic_nounwind_nobacktrace")
        || n.contains("9panicking19panic_cannot_unwind")
        || n.contains("9panicking16panic_in_cleanup")
        || matches!(n, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen")
}

fn insert(x: &V, v: &V, idx: &[u32], ty: &Ty) -> V {
    if idx.is_empty() {
        return v.clone();
    }
    let mut e = match x {
        V::A(v) => (**v).clone(),
        _ => vec![V::U; ty.nelems() as usize],
    };
    let (_, t) = ty.field(idx[0] as u64);
    e[idx[0] as usize] = insert(&e[idx[0] as usize], v, &idx[1..], &t);
    V::A(Rc::new(e))
}

fn init_bytes(ty: &Ty, v: &V, at: usize, out: &mut [B8]) {
    if ty.is_scalar() {
        match v {
            V::C(c) => {
                for i in 0..ty.store_size() as usize {
                    out[at + i] = B8::C((c >> (8 * i)) as u8);
                }
            }
            _ => {}
        }
        return;
    }
    if let V::A(xs) = v {
        for (i, x) in xs.iter().enumerate() {
            let (o, t) = ty.field(i as u64);
            init_bytes(&t, x, at + o as usize, out);
        }
    }
}

pub fn mfield<'a>(l: &'a str, k: &str) -> &'a str {
    match l.find(k) {
        Some(i) => {
            let r = &l[i + k.len()..];
            let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
            &r[..e]
        }
        None => "",
    }
}
pub fn mref(l: &str, k: &str) -> Option<u32> {
    mfield(l, k).parse().ok()
}
pub fn mstr(l: &str, k: &str) -> Option<String> {
    let i = l.find(k)?;
    let r = &l[i + k.len()..];
    Some(r[..r.find('"')?].to_string())
}

#[allow(dead_code)]
fn unused(_: i128) {
    let _ = sext;
}

fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::S(x), V::S(y)) => x == y,
        (V::U, V::U) => true,
        (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q)),
        _ => false,
    }
}

/// Do `a` and `b` differ only in scalars of at most `w` bits?
fn small(ar: &Arena, ty: &Ty, a: &V, b: &V, w: u32) -> bool {
    if same(a, b) {
        return true;
    }
    if ty.is_scalar() {
        return ty.width() <= w || matches!(a, V::U) || matches!(b, V::U);
    }
    match (a, b) {
        (V::A(x), V::A(y)) if x.len() == y.len() => {
            (0..x.len()).all(|i| small(ar, &ty.field(i as u64).1, &x[i], &y[i], w))
        }
        (V::U, _) | (_, V::U) => true,
        _ => false,
    }
}
