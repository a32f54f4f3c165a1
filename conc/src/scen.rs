//! Multithreaded workloads on recording contexts, with the monitors that judge them.
//! The same code runs natively, under the thread sanitizer and in Miri.
use crate::rng::{hash_bytes, hash_u64, Rng};
use advantage::{AContext, AFloat, DVector, OpCode, Operation, Tape};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

pub type AD = AFloat<f64>;
/// signature and description of what went wrong
pub type Bad = (String, String);

#[derive(Default)]
pub struct Events {
    pub counts: BTreeMap<&'static str, u64>,
    /// identifies the interleaving that was observed
    pub order: u64,
    pub text: String,
}
impl Events {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
}

macro_rules! bad {
    ($sig:expr, $($arg:tt)*) => { return Err(($sig.to_string(), format!($($arg)*))) };
}
macro_rules! need {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !($cond) { bad!($sig, $($arg)*); } };
}

pub fn pause(rng: &mut Rng, calm: bool) {
    if calm {
        return;
    }
    match rng.below(12) {
        0 | 1 => std::thread::yield_now(),
        2 => std::thread::sleep(std::time::Duration::from_micros(rng.below(60) as u64)),
        3 | 4 => {
            for _ in 0..rng.below(400) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn near(a: f64, b: f64) -> bool {
    same(a, b) || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

// ------------------------------------------------------------ operations

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Sin,
    Cos,
    Abs,
    AddF(f64),
    RSubF(f64),
    MulF(f64),
    Neg,
}

impl Op {
    pub fn random(rng: &mut Rng) -> Op {
        let c = (rng.range(0, 32) as f64 - 16.0) / 8.0;
        match rng.below(12) {
            0 | 1 => Op::Add,
            2 => Op::Sub,
            3 | 4 => Op::Mul,
            5 => Op::Sin,
            6 => Op::Cos,
            7 => Op::Abs,
            8 => Op::AddF(c),
            9 => Op::RSubF(c),
            10 => Op::MulF(c),
            _ => Op::Neg,
        }
    }
    pub fn binary(&self) -> bool {
        matches!(self, Op::Add | Op::Sub | Op::Mul)
    }
    pub fn apply(&self, a: AD, b: AD) -> AD {
        match *self {
            Op::Add => a + b,
            Op::Sub => a - b,
            Op::Mul => a * b,
            Op::Sin => num_float::sin(a),
            Op::Cos => num_float::cos(a),
            Op::Abs => num_float::abs(a),
            Op::AddF(c) => a + c,
            Op::RSubF(c) => c - a,
            Op::MulF(c) => a * c,
            Op::Neg => -a,
        }
    }
    /// value and derivative, independently
    pub fn plain(&self, a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
        match *self {
            Op::Add => (a.0 + b.0, a.1 + b.1),
            Op::Sub => (a.0 - b.0, a.1 - b.1),
            Op::Mul => (a.0 * b.0, a.1 * b.0 + a.0 * b.1),
            Op::Sin => (a.0.sin(), a.0.cos() * a.1),
            Op::Cos => (a.0.cos(), -a.0.sin() * a.1),
            Op::Abs => (a.0.abs(), (a.0 + a.1).abs() - a.0.abs()),
            Op::AddF(c) => (a.0 + c, a.1),
            Op::RSubF(c) => (c - a.0, -a.1),
            Op::MulF(c) => (a.0 * c, a.1 * c),
            Op::Neg => (-a.0, -a.1),
        }
    }
    fn code(&self) -> Option<OpCode> {
        Some(match self {
            Op::Add | Op::AddF(_) => OpCode::Add,
            Op::Sub | Op::RSubF(_) => OpCode::Sub,
            Op::Mul | Op::MulF(_) => OpCode::Mul,
            Op::Sin => OpCode::Sin,
            Op::Cos => OpCode::Cos,
            Op::Abs => OpCode::Abs,
            // however negation is recorded
            Op::Neg => return None,
        })
    }
}

mod num_float {
    use super::AD;
    use advantage::Scalar;
    fn f<S: Scalar<f64>>(a: S, k: u8) -> S {
        match k {
            0 => a.sin(),
            1 => a.cos(),
            _ => a.abs(),
        }
    }
    pub fn sin(a: AD) -> AD {
        f(a, 0)
    }
    pub fn cos(a: AD) -> AD {
        f(a, 1)
    }
    pub fn abs(a: AD) -> AD {
        f(a, 2)
    }
}

// ------------------------------------------------------------ tapes

#[derive(Debug, Clone, PartialEq)]
pub struct Image {
    pub indeps: Vec<usize>,
    pub deps: Vec<usize>,
    pub ops: Vec<Operation>,
    pub values: Vec<u64>,
}
pub fn image(t: &dyn Tape) -> Image {
    Image {
        indeps: t.indeps().to_vec(),
        deps: t.deps().to_vec(),
        ops: t.ops_iter().collect(),
        values: t.values().iter().map(|v| v.to_bits()).collect(),
    }
}

fn op_value(op: &Operation, v: &[f64]) -> Option<f64> {
    let a = v[op.arg1?];
    let b = op.arg2.map(|i| v[i]);
    Some(match op.opcode {
        OpCode::Add => a + b?,
        OpCode::Sub => a - b?,
        OpCode::Mul => a * b?,
        OpCode::Sin => a.sin(),
        OpCode::Cos => a.cos(),
        OpCode::Abs => a.abs(),
        _ => return None,
    })
}

/// Complete, well formed, and reproducing itself
pub fn sound(t: &dyn Tape, what: &str, replayed: Option<&mut dyn Tape>) -> Result<(), Bad> {
    let v = t.values();
    let n = v.len();
    let mut defined = vec![false; n];
    for i in t.indeps() {
        need!(*i < n, "torn:range", "{}: argument index {} of {} values", what, i, n);
        need!(!defined[*i], "shared:index", "{}: value {} is two arguments", what, i);
        defined[*i] = true;
    }
    for op in t.ops_iter() {
        need!(op.vid < n, "torn:range", "{}: {:?} of {} values", what, op, n);
        need!(!defined[op.vid], "shared:index", "{}: value {} is defined twice ({:?})", what, op.vid, op);
        for a in [op.arg1, op.arg2].iter().flatten() {
            need!(*a < n && defined[*a], "torn:order", "{}: {:?} uses value {} before it is defined", what, op, a);
        }
        defined[op.vid] = true;
        if let Some(r) = op_value(&op, v) {
            need!(same(r, v[op.vid]), "torn:value", "{}: {:?} gives {:e}, stored is {:e}", what, op, r, v[op.vid]);
        }
    }
    need!(defined.iter().all(|d| *d), "torn:value", "{}: a stored value belongs to nothing recorded", what);
    for i in t.deps() {
        need!(*i < n && defined[*i], "torn:dep", "{}: result refers to value {}, which nothing defines", what, i);
    }
    if let Some(r) = replayed {
        let x = r.x();
        r.zero_order(&x);
        for i in 0..n {
            need!(same(r.values()[i], v[i]), "torn:replay", "{}: replay at the stored argument changes value {} from {:e} to {:e}", what, i, v[i], r.values()[i]);
        }
    }
    Ok(())
}

fn check_var(x: &AD, want: (f64, f64), what: &str) -> Result<(), Bad> {
    need!(near(x.value(), want.0), "var:value", "{}: value {:e} instead of {:e}", what, x.value(), want.0);
    need!(near(x.dvalue(), want.1), "var:tangent", "{}: derivative {:e} instead of {:e}", what, x.dvalue(), want.1);
    Ok(())
}

fn spawn_all(n: usize, f: impl Fn(usize) -> Result<Events, Bad> + Send + Sync + 'static) -> Result<Vec<Events>, Bad> {
    let f = Arc::new(f);
    let barrier = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let (f, b) = (f.clone(), barrier.clone());
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
                b.wait();
                f(i)
            }).expect("failed to spawn thread")
        })
        .collect();
    let mut out = vec![];
    let mut err = None;
    for h in hs {
        match h.join() {
            Ok(Ok(e)) => out.push(e),
            Ok(Err(b)) => err = err.or(Some(b)),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                err = err.or(Some(("panic:thread".into(), format!("a thread doing only valid things panicked: {}", m))));
            }
        }
    }
    match err {
        Some(b) => Err(b),
        None => Ok(out),
    }
}

// ------------------------------------------------------------ scripts: P08

#[derive(Debug, Clone)]
enum Act {
    Create(usize),
    /// a further handle through the id
    Lookup(usize),
    /// drop the k-th handle of the slot
    Drop(usize, usize),
    Indep(usize, usize, (f64, f64)),
    Plain(usize, (f64, f64)),
    /// slot (None: nothing is recorded), operation, operands, result
    Op(Option<usize>, Op, usize, usize, usize),
    Dep(usize, usize),
    Tape(usize),
    /// operands left over from a context that has ended
    Leftover(Op, usize, usize, usize),
}

#[derive(Debug, Clone)]
struct Script {
    acts: Vec<Act>,
    slots: usize,
    vars: Vec<(f64, f64)>,
}

fn script(rng: &mut Rng, len: usize) -> Script {
    let mut acts = vec![];
    let mut handles: Vec<usize> = vec![];
    let mut vars: Vec<(f64, f64)> = vec![];
    let mut owner: Vec<Option<usize>> = vec![];
    let val = |rng: &mut Rng| (rng.uniform(-2.0, 2.0), *rng.pick(&[0.0, 1.0, -0.5, 2.0]));
    while acts.len() < len {
        let live: Vec<usize> = (0..handles.len()).filter(|s| handles[*s] > 0).collect();
        match rng.below(30) {
            0 if handles.len() < 6 => {
                acts.push(Act::Create(handles.len()));
                handles.push(1);
            }
            _ if live.is_empty() && handles.len() < 6 => {
                acts.push(Act::Create(handles.len()));
                handles.push(1);
            }
            1 | 2 if !live.is_empty() => {
                let s = *rng.pick(&live);
                if handles[s] < 4 {
                    acts.push(Act::Lookup(s));
                    handles[s] += 1;
                }
            }
            3 | 4 if !live.is_empty() => {
                let s = *rng.pick(&live);
                acts.push(Act::Drop(s, rng.below(handles[s])));
                handles[s] -= 1;
            }
            5..=7 if !live.is_empty() => {
                let s = *rng.pick(&live);
                let v = val(rng);
                acts.push(Act::Indep(s, vars.len(), v));
                vars.push(v);
                owner.push(Some(s));
            }
            8 => {
                let v = val(rng);
                acts.push(Act::Plain(vars.len(), v));
                vars.push(v);
                owner.push(None);
            }
            9 | 10 if !live.is_empty() => {
                let s = *rng.pick(&live);
                let c: Vec<usize> = (0..vars.len()).filter(|i| owner[*i].is_none() || owner[*i] == Some(s)).collect();
                if !c.is_empty() {
                    acts.push(Act::Dep(s, *rng.pick(&c)));
                }
            }
            11 if !live.is_empty() => acts.push(Act::Tape(*rng.pick(&live))),
            _ => {
                if vars.is_empty() {
                    continue;
                }
                let a = if rng.chance(0.6) { vars.len() - 1 - rng.below(vars.len().min(4)) } else { rng.below(vars.len()) };
                let c: Vec<usize> = (0..vars.len())
                    .filter(|i| match (owner[a], owner[*i]) {
                        (Some(x), Some(y)) => x == y,
                        _ => true,
                    })
                    .collect();
                let b = *rng.pick(&c);
                let mut op = Op::random(rng);
                let mut r = op.plain(vars[a], vars[b]);
                if r.0.abs() > 100.0 || r.1.abs() > 100.0 {
                    op = Op::Sin;
                    r = op.plain(vars[a], vars[b]);
                }
                let own = if op.binary() { owner[a].or(owner[b]) } else { owner[a] };
                match own {
                    Some(s) if handles[s] == 0 => {
                        acts.push(Act::Leftover(op, a, b, vars.len()));
                        owner.push(None);
                    }
                    own => {
                        acts.push(Act::Op(own, op, a, b, vars.len()));
                        owner.push(own);
                    }
                }
                vars.push(r);
            }
        }
    }
    Script { acts, slots: handles.len(), vars }
}

/// Tapes the context of one slot gives when nothing else exists
fn solo(s: &Script, slot: usize) -> Vec<Image> {
    let mut ctx: Option<AContext> = None;
    let mut vars: HashMap<usize, AD> = HashMap::new();
    let mut out = vec![];
    let get = |vars: &HashMap<usize, AD>, i: usize| vars.get(&i).copied().unwrap_or_else(|| AD::new(s.vars[i].0, s.vars[i].1));
    for a in s.acts.iter() {
        match a {
            Act::Create(k) if *k == slot => ctx = Some(AContext::new()),
            Act::Indep(k, v, x) if *k == slot => {
                let mut y = AD::new(x.0, x.1);
                ctx.as_mut().unwrap().set_indep(&mut y);
                vars.insert(*v, y);
            }
            Act::Op(Some(k), op, a, b, r) if *k == slot => {
                let y = op.apply(get(&vars, *a), if op.binary() { get(&vars, *b) } else { AD::new(0.0, 0.0) });
                vars.insert(*r, y);
            }
            Act::Dep(k, v) if *k == slot => {
                let y = get(&vars, *v);
                ctx.as_mut().unwrap().set_dep(&y);
            }
            Act::Tape(k) if *k == slot => out.push(image(&ctx.as_ref().unwrap().tape())),
            _ => {}
        }
    }
    if let Some(c) = ctx {
        out.push(image(&c.tape()));
    }
    out
}

/// Compare without relying on stored constants being bit-equal to the model's
fn same_image(a: &Image, b: &Image) -> bool {
    a.indeps == b.indeps
        && a.deps == b.deps
        && a.ops == b.ops
        && a.values.len() == b.values.len()
        && a.values.iter().zip(&b.values).all(|(x, y)| near(f64::from_bits(*x), f64::from_bits(*y)))
}

struct Board {
    cids: Vec<AtomicUsize>,
}

fn play(s: &Script, expect: &[Vec<Image>], seed: u64, board: Option<&Board>, me: usize, calm: bool) -> Result<(Events, Vec<usize>), Bad> {
    let mut rng = Rng::new(seed);
    let mut ev = Events::default();
    let mut handles: Vec<Vec<AContext>> = (0..s.slots).map(|_| vec![]).collect();
    let mut cids: Vec<usize> = vec![0; s.slots];
    let mut next_image = vec![0; s.slots];
    let mut vars: Vec<AD> = Vec::with_capacity(s.vars.len());
    let mut all = vec![];
    let compare = |slot: usize, next: &mut usize, im: Image, ev: &mut Events| -> Result<(), Bad> {
        let want = &expect[slot][*next];
        *next += 1;
        need!(
            same_image(&im, want),
            "isolated:tape",
            "tape of a context differs from the recording made alone: {} arguments, {} results, {} operations, {} values instead of {}, {}, {}, {}; first difference {:?}",
            im.indeps.len(), im.deps.len(), im.ops.len(), im.values.len(),
            want.indeps.len(), want.deps.len(), want.ops.len(), want.values.len(),
            im.ops.iter().zip(&want.ops).find(|(a, b)| a != b)
        );
        ev.add("tapes compared with solo recordings", 1);
        Ok(())
    };
    for a in s.acts.iter() {
        pause(&mut rng, calm);
        if let Some(b) = board {
            if rng.chance(0.15) {
                hostile_lookup(b, &mut rng, &mut ev)?;
            }
        }
        match a {
            Act::Create(k) => {
                let c = if k % 3 == 2 { AContext::default() } else { AContext::new() };
                cids[*k] = c.cid();
                all.push(c.cid());
                need!(AContext::from_cid(cids[*k]).is_some(), "life:lost", "context {} cannot be found right after its creation", cids[*k]);
                if let Some(b) = board {
                    b.cids[rng.below(b.cids.len())].store(cids[*k], SeqCst);
                }
                handles[*k].push(c);
                ev.add("contexts", 1);
            }
            Act::Lookup(k) => match AContext::from_cid(cids[*k]) {
                Some(c) => {
                    need!(c.cid() == cids[*k], "life:wrong", "looking up context {} gives context {}", cids[*k], c.cid());
                    handles[*k].push(c);
                    ev.add("handles through ids", 1);
                }
                None => bad!("life:lost", "context {} with {} handles cannot be found by its id", cids[*k], handles[*k].len()),
            },
            Act::Drop(k, j) => {
                if handles[*k].len() == 1 {
                    let im = image(&handles[*k][0].tape());
                    compare(*k, &mut next_image[*k], im, &mut ev)?;
                }
                let c = handles[*k].remove(*j);
                drop(c);
                if handles[*k].is_empty() {
                    if board.is_none() {
                        need!(AContext::from_cid(cids[*k]).is_none(), "life:undead", "context {} is found although its last handle was dropped", cids[*k]);
                    }
                    ev.add("contexts ended", 1);
                } else {
                    need!(AContext::from_cid(cids[*k]).is_some(), "life:lost", "context {} cannot be found although {} handles exist", cids[*k], handles[*k].len());
                }
            }
            Act::Indep(k, v, x) => {
                assert_eq!(*v, vars.len());
                let mut y = AD::new(x.0, x.1);
                let j = rng.below(handles[*k].len());
                handles[*k][j].set_indep(&mut y);
                vars.push(y);
            }
            Act::Plain(v, x) => {
                assert_eq!(*v, vars.len());
                vars.push(AD::new(x.0, x.1));
            }
            Act::Op(own, op, a, b, r) => {
                assert_eq!(*r, vars.len());
                let y = op.apply(vars[*a], vars[*b]);
                check_var(&y, s.vars[*r], &format!("{:?}", op))?;
                vars.push(y);
                ev.add("operations", own.is_some() as u64);
            }
            Act::Leftover(op, a, b, r) => {
                assert_eq!(*r, vars.len());
                let y = op.apply(vars[*a], vars[*b]);
                check_var(&y, s.vars[*r], &format!("{:?} on variables left over from a context", op))?;
                if board.is_none() {
                    // were it recorded anywhere, marking it elsewhere would be refused
                    let mut c = AContext::new();
                    all.push(c.cid());
                    c.set_dep(&y);
                    let t = c.tape();
                    need!(
                        t.ops_iter().count() == 1 && t.deps().len() == 1 && t.ops_iter().all(|o| o.opcode == OpCode::Const) && near(t.y()[0], y.value()),
                        "life:leftover",
                        "the result of {:?} on leftover variables is not a plain number for another recording: {:?}",
                        op, t.ops_iter().collect::<Vec<_>>()
                    );
                    vars.push(y);
                } else {
                    // another thread may still hold the context
                    vars.push(AD::new(y.value(), y.dvalue()));
                }
                ev.add("operations on leftover variables", 1);
            }
            Act::Dep(k, v) => {
                let j = rng.below(handles[*k].len());
                handles[*k][j].set_dep(&vars[*v]);
            }
            Act::Tape(k) => {
                let j = rng.below(handles[*k].len());
                let t = handles[*k][j].tape();
                compare(*k, &mut next_image[*k], image(&t), &mut ev)?;
            }
        }
    }
    for k in 0..s.slots {
        if !handles[k].is_empty() {
            let im = image(&handles[k][0].tape());
            compare(k, &mut next_image[k], im, &mut ev)?;
        }
    }
    let _ = me;
    Ok((ev, all))
}

fn hostile_lookup(b: &Board, rng: &mut Rng, ev: &mut Events) -> Result<(), Bad> {
    let cid = b.cids[rng.below(b.cids.len())].load(SeqCst);
    if cid == 0 {
        return Ok(());
    }
    if let Some(c) = AContext::from_cid(cid) {
        need!(c.cid() == cid, "life:wrong", "looking up context {} gives context {}", cid, c.cid());
        if rng.chance(0.5) {
            let t = c.tape();
            sound(&t, "tape of another thread's context", None)?;
        }
        ev.add("other threads' contexts found", 1);
    } else {
        ev.add("other threads' contexts gone", 1);
    }
    Ok(())
}

/// Threads with contexts of their own
pub fn isolated(rng: &mut Rng, size: usize, calm: bool) -> Result<Events, Bad> {
    let threads = rng.range(2, 6.min(2 + size));
    let rounds = 1 + rng.below(size + 1);
    let hostile = rng.chance(0.5);
    let scripts: Vec<Vec<(Script, Vec<Vec<Image>>)>> = (0..threads)
        .map(|_| {
            (0..rounds)
                .map(|_| {
                    let len = 10 + rng.below(10 * size + 10);
                    let s = script(rng, len);
                    let e = (0..s.slots).map(|k| solo(&s, k)).collect();
                    (s, e)
                })
                .collect()
        })
        .collect();
    let scripts = Arc::new(scripts);
    let board = Arc::new(Board { cids: (0..4).map(|_| AtomicUsize::new(0)).collect() });
    let cids = Arc::new(Mutex::new(vec![]));
    let seed = rng.u64();
    let text = format!("{} threads x {} scripts, hostile {}, first {:?}", threads, rounds, hostile, scripts[0][0].0.acts);
    let c2 = cids.clone();
    let b2 = board.clone();
    let evs = spawn_all(threads, move |i| {
        let mut total = Events::default();
        for (k, (s, e)) in scripts[i].iter().enumerate() {
            let (ev, mine) = play(s, e, hash_u64(hash_u64(seed, i as u64), k as u64), if hostile { Some(&*b2) } else { None }, i, calm)?;
            for (k, v) in ev.counts {
                total.add(k, v);
            }
            let mut g = c2.lock().unwrap();
            for c in mine {
                g.push((c, i));
            }
        }
        Ok(total)
    })?;
    let mut all = cids.lock().unwrap().clone();
    let mut seen = HashSet::new();
    for (c, _) in all.iter() {
        need!(seen.insert(*c), "life:id", "two contexts have the id {}", c);
        need!(AContext::from_cid(*c).is_none(), "life:undead", "context {} is found although all handles were dropped", c);
    }
    all.sort();
    let base = all.first().map(|x| x.0).unwrap_or(0);
    let order: Vec<u8> = all.iter().flat_map(|(c, i)| [(c - base) as u8, *i as u8]).collect();
    let mut ev = Events { order: hash_bytes(&order), text, ..Default::default() };
    for e in evs {
        for (k, v) in e.counts {
            ev.add(k, v);
        }
    }
    ev.add("threads", threads as u64);
    Ok(ev)
}

/// One of many contexts alive at once
struct Member {
    cid: usize,
    handles: Vec<AContext>,
    vars: Vec<(AD, (f64, f64))>,
    /// arguments, operations and results so far
    count: (usize, usize, usize),
}
impl Member {
    fn step(&mut self, rng: &mut Rng, ev: &mut Events) -> Result<(), Bad> {
        let j = rng.below(self.handles.len());
        match rng.below(8) {
            0 => {
                let v = (rng.uniform(-2.0, 2.0), *rng.pick(&[0.0, 1.0, -0.5]));
                let mut x = AD::new(v.0, v.1);
                self.handles[j].set_indep(&mut x);
                self.vars.push((x, v));
                self.count.0 += 1;
            }
            1 if !self.vars.is_empty() => {
                let (x, _) = *rng.pick(&self.vars);
                self.handles[j].set_dep(&x);
                self.count.2 += 1;
            }
            2 => match AContext::from_cid(self.cid) {
                Some(c) => {
                    need!(c.cid() == self.cid, "life:wrong", "looking up context {} gives context {}", self.cid, c.cid());
                    self.handles.push(c);
                }
                None => bad!("life:lost", "context {} with {} handles cannot be found by its id", self.cid, self.handles.len()),
            },
            3 if self.handles.len() > 1 => drop(self.handles.swap_remove(j)),
            _ if !self.vars.is_empty() => {
                let (a, pa) = *rng.pick(&self.vars);
                let (b, pb) = *rng.pick(&self.vars);
                let op = *rng.pick(&[Op::Add, Op::Sub, Op::Sin, Op::Cos, Op::Abs]);
                let r = op.apply(a, b);
                let want = op.plain(pa, pb);
                check_var(&r, want, &format!("{:?} in one of many contexts", op))?;
                if want.0.abs() < 100.0 && want.1.abs() < 100.0 {
                    self.vars.push((r, want));
                }
                self.count.1 += 1;
                ev.add("operations", 1);
            }
            _ => {}
        }
        Ok(())
    }
    fn check(&self, ev: &mut Events) -> Result<(), Bad> {
        let t = self.handles[0].tape();
        let ops = t.ops_iter().filter(|o| o.opcode != OpCode::Const).count();
        let got = (t.indeps().len(), ops, t.deps().len());
        need!(got == self.count, "isolated:tape", "one of many contexts has {:?} arguments, operations and results; {:?} were made there", got, self.count);
        // every variable made here refers to a value of its own kind
        need!(t.values().len() >= got.0 + ops, "isolated:tape", "{} values for {} arguments and {} operations", t.values().len(), got.0, ops);
        ev.add("tapes compared with what was done", 1);
        Ok(())
    }
}

/// Many contexts alive at once, ending in any order
pub fn crowd(rng: &mut Rng, size: usize, calm: bool) -> Result<Events, Bad> {
    let threads = rng.range(1, 4);
    let each = size * 40 / threads + 1;
    let seed = rng.u64();
    let text = format!("{} threads with {} contexts each, {}", threads, each, seed);
    let cids = Arc::new(Mutex::new(vec![]));
    let c2 = cids.clone();
    let evs = spawn_all(threads, move |i| {
        let mut rng = Rng::new(hash_u64(seed, i as u64));
        let mut ev = Events::default();
        let mut all: Vec<Member> = vec![];
        let mut gone: Vec<(usize, Vec<(AD, (f64, f64))>)> = vec![];
        let mut made = vec![];
        let keep = *rng.pick(&[1.0, 0.9, 0.5]);
        for k in 0..each {
            if k % 16 == 0 {
                pause(&mut rng, calm);
            }
            let c = if k % 5 == 4 { AContext::default() } else { AContext::new() };
            made.push(c.cid());
            let mut m = Member { cid: c.cid(), handles: vec![c], vars: vec![], count: (0, 0, 0) };
            for _ in 0..rng.range(1, 4) {
                m.step(&mut rng, &mut ev)?;
            }
            all.push(m);
            ev.add("contexts", 1);
            // somebody else, perhaps made long ago
            let j = rng.below(all.len());
            all[j].step(&mut rng, &mut ev)?;
            if !rng.chance(keep) {
                let j = rng.below(all.len());
                let m = all.swap_remove(j);
                m.check(&mut ev)?;
                gone.push((m.cid, m.vars));
                drop(m.handles);
                need!(AContext::from_cid(gone.last().unwrap().0).is_none(), "life:undead", "context {} is found although its last handle was dropped", gone.last().unwrap().0);
            }
            if k % 64 == 0 && !gone.is_empty() {
                let (cid, vars) = rng.pick(&gone);
                ended(*cid, vars, "one of many contexts", &mut rng)?;
            }
        }
        ev.add("contexts alive at once", all.len() as u64);
        // all of them by id, in any order
        for i in (1..all.len()).rev() {
            all.swap(i, rng.below(i + 1));
        }
        for m in all.iter_mut() {
            match AContext::from_cid(m.cid) {
                Some(c) => need!(c.cid() == m.cid, "life:wrong", "looking up context {} gives context {}", m.cid, c.cid()),
                None => bad!("life:lost", "context {} of {} cannot be found by its id", m.cid, each),
            }
            m.step(&mut rng, &mut ev)?;
        }
        for m in all.iter() {
            m.check(&mut ev)?;
        }
        while let Some(m) = all.pop() {
            m.check(&mut ev)?;
            let cid = m.cid;
            let vars = m.vars;
            drop(m.handles);
            need!(AContext::from_cid(cid).is_none(), "life:undead", "context {} is found although its last handle was dropped", cid);
            gone.push((cid, vars));
            if let Some(o) = all.last() {
                need!(AContext::from_cid(o.cid).is_some(), "life:lost", "context {} cannot be found after another one ended", o.cid);
            }
            ev.add("contexts ended", 1);
        }
        for (cid, vars) in gone.iter().take(200) {
            ended(*cid, vars, "one of many contexts", &mut rng)?;
        }
        c2.lock().unwrap().extend(made.into_iter().map(|c| (c, i)));
        Ok(ev)
    })?;
    let mut all = cids.lock().unwrap().clone();
    let mut seen = HashSet::new();
    for (c, _) in all.iter() {
        need!(seen.insert(*c), "life:id", "two contexts have the id {}", c);
        need!(AContext::from_cid(*c).is_none(), "life:undead", "context {} is found although all handles were dropped", c);
    }
    all.sort();
    let order: Vec<u8> = all.iter().map(|(_, i)| *i as u8).collect();
    let mut ev = Events { order: hash_bytes(&order), text, ..Default::default() };
    for e in evs {
        for (k, v) in e.counts {
            ev.add(k, v);
        }
    }
    ev.add("threads", threads as u64);
    Ok(ev)
}

/// What a standing thread is asked to do next
enum Task {
    /// compute on variables of a living context, possibly through handles found by id
    Work { cid: usize, vars: Vec<(AD, (f64, f64))>, steps: usize },
    /// drop a handle
    Drop(AContext),
    /// nothing of this context may be left
    Dead { cid: usize, vars: Vec<(AD, (f64, f64))> },
}
type Reply = Result<Vec<(AD, (f64, f64))>, Bad>;

fn ended(cid: usize, vars: &[(AD, (f64, f64))], who: &str, rng: &mut Rng) -> Result<(), Bad> {
    need!(AContext::from_cid(cid).is_none(), "life:undead", "{}: context {} is found although all handles were dropped", who, cid);
    for _ in 0..if vars.is_empty() { 0 } else { 2 } {
        let (a, b) = (vars[rng.below(vars.len())], vars[rng.below(vars.len())]);
        let mut op = Op::random(rng);
        if op.plain(a.1, b.1).0.abs() > 100.0 {
            op = Op::Cos;
        }
        let y = op.apply(a.0, b.0);
        check_var(&y, op.plain(a.1, b.1), &format!("{}: {:?} after the end of the context", who, op))?;
        let mut c = AContext::new();
        c.set_dep(&y);
        need!(c.deps().len() == 1 && c.operations().len() == 1 && c.indeps().is_empty(), "life:leftover", "{}: {:?} after the end of the context was recorded: {:?}", who, op, c.operations());
    }
    need!(AContext::from_cid(cid).is_none(), "life:undead", "{}: context {} came back", who, cid);
    Ok(())
}

fn task(t: Task, rng: &mut Rng, calm: bool) -> Reply {
    match t {
        Task::Work { cid, vars, steps } => {
            let mut v = vars;
            for _ in 0..steps {
                pause(rng, calm);
                if rng.chance(0.2) {
                    match AContext::from_cid(cid) {
                        Some(c) => {
                            need!(c.cid() == cid, "life:wrong", "looking up context {} gives context {}", cid, c.cid());
                            if rng.chance(0.3) {
                                sound(&c.tape(), "tape taken by a standing thread", None)?;
                            }
                        }
                        None => bad!("life:lost", "context {} is not found although it lives", cid),
                    }
                }
                let (a, b) = (v[rng.below(v.len())], v[rng.below(v.len())]);
                let mut op = Op::random(rng);
                if op.plain(a.1, b.1).0.abs() > 100.0 {
                    op = Op::Cos;
                }
                let y = op.apply(a.0, b.0);
                let want = op.plain(a.1, b.1);
                check_var(&y, want, &format!("{:?} by a standing thread", op))?;
                v.push((y, want));
            }
            Ok(v)
        }
        Task::Drop(c) => {
            drop(c);
            Ok(vec![])
        }
        Task::Dead { cid, vars } => {
            ended(cid, &vars, "a standing thread", rng)?;
            Ok(vec![])
        }
    }
}

/// Threads that outlive the contexts they worked on
pub fn standing(rng: &mut Rng, size: usize, calm: bool) -> Result<Events, Bad> {
    use std::sync::mpsc::channel;
    let n = rng.range(1, 4);
    let phases = 1 + rng.below(size + 2);
    let mut ev = Events { text: format!("{} standing threads, {} phases", n, phases), ..Default::default() };
    let mut hands = vec![];
    for _ in 0..n {
        let (tx, rx) = channel::<Task>();
        let (back, replies) = channel::<Reply>();
        let seed = rng.u64();
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            let mut rng = Rng::new(seed);
            while let Ok(t) = rx.recv() {
                if back.send(task(t, &mut rng, calm)).is_err() {
                    break;
                }
            }
        }).expect("failed to spawn thread");
        hands.push((tx, replies, h));
    }
    let mut go = || -> Result<(), Bad> {
        let gone = || ("panic:thread".to_string(), "a thread doing only valid things panicked".to_string());
        for _ in 0..phases {
            let k = rng.range(1, 3);
            let mut ctxs: Vec<(AContext, usize, Vec<(AD, (f64, f64))>)> = vec![];
            for c in 0..k {
                let mut ctx = AContext::new();
                let vars = (0..rng.range(1, 3)).map(|i| {
                    let w = (0.25 * i as f64 + 0.125 * c as f64 - 0.3, rng.uniform(-1.0, 1.0));
                    let mut a = AD::new(w.0, w.1);
                    ctx.set_indep(&mut a);
                    (a, w)
                }).collect();
                let cid = ctx.cid();
                ctxs.push((ctx, cid, vars));
            }
            // every thread has its turn on some of them, one or several at a time
            for _ in 0..rng.range(1, 3) {
                let mut asked = vec![];
                for (w, h) in hands.iter().enumerate() {
                    if rng.chance(0.8) {
                        let c = rng.below(k);
                        let t = Task::Work { cid: ctxs[c].1, vars: ctxs[c].2.clone(), steps: 1 + rng.below(2 * size + 2) };
                        h.0.send(t).map_err(|_| gone())?;
                        asked.push((w, c));
                    }
                }
                if rng.chance(0.5) {
                    let c = rng.below(k);
                    let t = Task::Work { cid: ctxs[c].1, vars: ctxs[c].2.clone(), steps: 1 + rng.below(4) };
                    task(t, rng, calm)?;
                }
                for (w, c) in asked {
                    let v = hands[w].1.recv().map_err(|_| gone())??;
                    ev.order = hash_u64(ev.order, (w * 7 + c) as u64);
                    ev.add("operations by standing threads", v.len() as u64);
                    if rng.chance(0.5) {
                        ctxs[c].2.extend(v.into_iter().rev().take(2));
                    }
                }
            }
            while !ctxs.is_empty() {
                let (ctx, cid, vars) = ctxs.swap_remove(rng.below(ctxs.len()));
                sound(&ctx.tape(), "tape before the last handle goes", None)?;
                let spare = if rng.chance(0.3) { AContext::from_cid(cid) } else { None };
                if rng.chance(0.4) {
                    let h = &hands[rng.below(n)];
                    h.0.send(Task::Drop(ctx)).map_err(|_| gone())?;
                    h.1.recv().map_err(|_| gone())??;
                } else {
                    drop(ctx);
                }
                if let Some(c) = spare {
                    need!(AContext::from_cid(cid).map(|c| c.cid()) == Some(cid), "life:lost", "context {} is not found although it lives", cid);
                    drop(c);
                }
                ended(cid, &vars, "the owner", rng)?;
                for h in hands.iter() {
                    h.0.send(Task::Dead { cid, vars: vars.clone() }).map_err(|_| gone())?;
                }
                for h in hands.iter() {
                    h.1.recv().map_err(|_| gone())??;
                }
                // the others go on
                for (_, other, _) in ctxs.iter() {
                    need!(AContext::from_cid(*other).is_some(), "life:lost", "context {} is not found although it lives", other);
                }
                ev.add("contexts outlived by threads", 1);
            }
        }
        Ok(())
    };
    let r = go();
    for (tx, _, h) in hands {
        drop(tx);
        let _ = h.join();
    }
    r.map(|_| ev)
}

/// The last handle goes while others compute and look up
pub fn drop_race(rng: &mut Rng, size: usize, calm: bool) -> Result<Events, Bad> {
    let workers = rng.range(1, 3);
    let lookers = rng.range(0, 2);
    let mut ctx = AContext::new();
    let cid = ctx.cid();
    let xs: Vec<AD> = (0..3).map(|i| {
        let mut a = AD::new(0.3 * i as f64 + 0.2, 1.0);
        ctx.set_indep(&mut a);
        a
    }).collect();
    // a neighbour that must not notice
    let mut other = AContext::new();
    let mut oy: AD = other.new_indep(1.5);
    let bystander = Arc::new(Mutex::new(Some(ctx)));
    let seed = rng.u64();
    let steps = 4 + rng.below(6 * size + 4);
    let wait = rng.below(8 * size + 2);
    let gone = Arc::new(AtomicBool::new(false));
    let b2 = bystander.clone();
    let g2 = gone.clone();
    let text = format!("{} workers and {} lookers race with the drop of the last handle after {} pauses, {} steps", workers, lookers, wait, steps);
    let evs = spawn_all(workers + lookers + 1, move |i| {
        let mut rng = Rng::new(hash_u64(seed, i as u64));
        let mut ev = Events::default();
        if i == 0 {
            for _ in 0..wait {
                pause(&mut rng, calm);
                std::thread::yield_now();
            }
            let c = b2.lock().unwrap().take();
            drop(c);
            if lookers == 0 {
                // workers look up only while they record
                g2.store(true, SeqCst);
            }
        } else if i <= workers {
            let mut vars: Vec<(AD, (f64, f64))> = xs.iter().map(|x| (*x, (x.value(), x.dvalue()))).collect();
            let mut dead: Option<usize> = None;
            for k in 0..steps {
                pause(&mut rng, calm);
                if dead.is_none() && AContext::from_cid(cid).is_none() {
                    dead = Some(k);
                    // what is left was recorded while the context lived
                    vars.truncate(3);
                }
                if dead.is_some() {
                    need!(AContext::from_cid(cid).is_none(), "life:undead", "context {} came back", cid);
                }
                // only variables known to belong to the context, or, once it is gone, leftovers of it
                let n = if dead.is_some() { vars.len() } else { 3 };
                let (a, b) = (rng.below(n), rng.below(3));
                let mut op = Op::random(&mut rng);
                if op.plain(vars[a].1, vars[b].1).0.abs() > 100.0 {
                    op = Op::Cos;
                }
                let (pa, pb) = (vars[a], vars[b]);
                let y = op.apply(pa.0, pb.0);
                let want = op.plain(pa.1, pb.1);
                check_var(&y, want, &format!("{:?} while the context ends", op))?;
                if dead.is_some() {
                    let mut c = AContext::new();
                    c.set_dep(&y);
                    need!(c.deps().len() == 1 && c.operations().len() == 1 && c.indeps().is_empty(), "life:leftover", "{:?} after the end of the context was recorded: {:?}", op, c.operations());
                    vars.push((y, want));
                    ev.add("operations after the end", 1);
                } else {
                    ev.add("operations before the end was seen", 1);
                }
            }
            ev.order = dead.unwrap_or(steps + 1) as u64;
        } else {
            let mut seen = 0;
            for _ in 0..steps {
                pause(&mut rng, calm);
                match AContext::from_cid(cid) {
                    Some(c) => {
                        need!(c.cid() == cid, "life:wrong", "looking up context {} gives context {}", cid, c.cid());
                        sound(&c.tape(), "tape of a context about to end", None)?;
                        seen += 1;
                    }
                    None => break,
                }
            }
            ev.order = seen;
            ev.add("lookups of a context about to end", seen);
        }
        Ok(ev)
    })?;
    need!(AContext::from_cid(cid).is_none(), "life:undead", "context {} is found although all handles were dropped", cid);
    oy *= 2.0;
    other.set_dep(&oy);
    let t = other.tape();
    need!(t.deps().len() == 1 && t.ops_iter().filter(|o| o.opcode != OpCode::Const).count() == 1 && near(t.y()[0], 3.0), "isolated:tape", "a context nobody else used holds {:?}", t.ops_iter().collect::<Vec<_>>());
    let _ = gone;
    let mut ev = Events { text, ..Default::default() };
    for e in evs {
        ev.order = hash_u64(ev.order, e.order);
        for (k, v) in e.counts {
            ev.add(k, v);
        }
    }
    Ok(ev)
}

// ------------------------------------------------------------ shared recordings: P09

#[derive(Clone)]
struct Did {
    op: Op,
    a: AD,
    b: AD,
    r: AD,
}

struct Log {
    did: Vec<Did>,
    indeps: Vec<AD>,
    deps: Vec<AD>,
    images: Vec<(usize, usize)>,
    /// recorded by hand: index given, operation, value, operand
    raw: Vec<(usize, OpCode, f64, Option<usize>)>,
}

pub fn shared(rng: &mut Rng, size: usize, calm: bool) -> Result<Events, Bad> {
    let threads = rng.range(2, 5.min(2 + size));
    let steps = if size >= 100 { rng.range(60 * size, 200 * size) } else { 3 + rng.below(12 * size + 5) };
    let mut ctx = AContext::new();
    let cid = ctx.cid();
    let xs: Vec<AD> = (0..rng.range(1, 3)).map(|i| {
        let mut a = AD::new(0.7 - 0.4 * i as f64, 0.5);
        ctx.set_indep(&mut a);
        a
    }).collect();
    let first: Vec<AD> = xs.clone();
    let pool = Arc::new(Mutex::new(xs));
    let logs = Arc::new(Mutex::new(Vec::<(usize, Log)>::new()));
    let seed = rng.u64();
    let snap_p = *rng.pick(if size >= 100 { &[0.0, 0.0001, 0.0004] } else { &[0.0, 0.05, 0.3] });
    let only_ops = rng.chance(0.2);
    let text = format!("{} threads x {} steps on one context, snapshots {}", threads, steps, snap_p);
    let (p2, l2) = (pool.clone(), logs.clone());
    let evs = spawn_all(threads, move |i| {
        let mut rng = Rng::new(hash_u64(seed, i as u64));
        let mut ev = Events::default();
        let mut log = Log { did: vec![], indeps: vec![], deps: vec![], images: vec![], raw: vec![] };
        let mut mine: Vec<AD> = vec![];
        let mut ctx = match AContext::from_cid(cid) {
            Some(c) => c,
            None => bad!("life:lost", "context {} cannot be found", cid),
        };
        for k in 0..steps {
            pause(&mut rng, calm);
            let pick = |rng: &mut Rng, mine: &Vec<AD>, pool: &Mutex<Vec<AD>>| -> AD {
                if !mine.is_empty() && rng.chance(0.5) {
                    *rng.pick(mine)
                } else if rng.chance(0.1) {
                    AD::new(rng.uniform(-1.0, 1.0), 0.0)
                } else {
                    let g = pool.lock().unwrap();
                    let n = g.len();
                    g[n - 1 - rng.below(n.min(12))]
                }
            };
            let mut kind = rng.below(20);
            if only_ops && kind >= 16 {
                kind = 0;
            }
            match kind {
                0..=15 => {
                    let a = pick(&mut rng, &mine, &p2);
                    let b = pick(&mut rng, &mine, &p2);
                    let mut op = Op::random(&mut rng);
                    let pl = |op: Op| op.plain((a.value(), a.dvalue()), (b.value(), b.dvalue()));
                    if pl(op).0.abs() > 100.0 || pl(op).1.abs() > 1e3 {
                        op = Op::Sin;
                    }
                    let r = op.apply(a, b);
                    check_var(&r, pl(op), &format!("{:?} on a shared context", op))?;
                    log.did.push(Did { op, a, b, r });
                    mine.push(r);
                    if rng.chance(0.3) {
                        p2.lock().unwrap().push(r);
                    }
                    ev.add("operations", 1);
                }
                16 => {
                    let v = rng.uniform(-1.0, 1.0);
                    let xs: Vec<AD> = match rng.below(3) {
                        0 => vec![ctx.new_indep(v)],
                        1 => {
                            let mut x = AD::new(v, 0.25);
                            ctx.set_indep(&mut x);
                            vec![x]
                        }
                        _ => {
                            let k = rng.below(5);
                            let xs: Vec<AD> = ctx.new_indep_vec(k, v);
                            need!(xs.len() == k, "shared:count", "a vector of {} arguments has {}", k, xs.len());
                            xs
                        }
                    };
                    for x in xs {
                        need!(same(x.value(), v), "shared:value", "an argument of value {:e} declared as {:e}", v, x.value());
                        log.indeps.push(x);
                        mine.push(x);
                        ev.add("arguments declared meanwhile", 1);
                    }
                }
                17 | 18 => {
                    if !mine.is_empty() {
                        let any = |rng: &mut Rng| if rng.chance(0.15) { AD::from(rng.uniform(2.0, 3.0)) } else { *rng.pick(&mine) };
                        let ds: Vec<AD> = if rng.chance(0.6) { vec![any(&mut rng)] } else { (0..rng.below(5)).map(|_| any(&mut rng)).collect() };
                        if ds.len() == 1 {
                            ctx.set_dep(&ds[0]);
                        } else {
                            ctx.set_dep_slice(&ds);
                        }
                        ev.add("results marked meanwhile", ds.len() as u64);
                        log.deps.extend(ds);
                    }
                }
                19 if rng.chance(0.5) => {
                    let v = rng.uniform(-1.0, 1.0);
                    let c = ctx.record(OpCode::Const, v, None, None);
                    log.raw.push((c, OpCode::Const, v, None));
                    let r = ctx.record(OpCode::Sin, v.sin(), Some(c), None);
                    log.raw.push((r, OpCode::Sin, v.sin(), Some(c)));
                    ev.add("operations recorded by hand", 2);
                }
                _ => {}
            }
            if rng.chance(snap_p) {
                let t = ctx.tape();
                let mut t2 = t.clone();
                sound(&t, &format!("snapshot at step {} of thread {}", k, i), Some(&mut t2))?;
                log.images.push((t.ops_iter().count(), t.values().len()));
                ev.add("snapshots", 1);
            }
            if rng.chance(0.05) {
                ctx = match AContext::from_cid(cid) {
                    Some(c) => c,
                    None => bad!("life:lost", "context {} cannot be found", cid),
                };
            }
        }
        l2.lock().unwrap().push((i, log));
        Ok(ev)
    })?;
    // now alone: find out where everything went
    let end = ctx.tape();
    {
        let mut again = end.clone();
        sound(&end, "tape after all threads finished", Some(&mut again))?;
    }
    let mut logs = std::mem::take(&mut *logs.lock().unwrap());
    logs.sort_by_key(|l| l.0);
    let deps0 = ctx.deps();
    let ops = ctx.operations();
    let by_vid: HashMap<usize, (usize, Operation)> = ops.iter().enumerate().map(|(k, o)| (o.vid, (k, *o))).collect();
    // where each variable went: constants are recorded afresh, after everything else
    for (_, log) in logs.iter() {
        for d in log.did.iter() {
            ctx.set_dep(&d.a);
            if d.op.binary() {
                ctx.set_dep(&d.b);
            }
            ctx.set_dep(&d.r);
        }
        log.indeps.iter().chain(&log.deps).for_each(|a| ctx.set_dep(a));
    }
    let probed = ctx.deps()[deps0.len()..].to_vec();
    let mut probed = probed.into_iter();
    let mut probe = |_: &AD| -> usize { probed.next().unwrap() };
    let listed: HashMap<usize, usize> = end.indeps().iter().enumerate().map(|(k, v)| (*v, k)).collect();
    let values = end.values().to_vec();
    let mut claimed: HashMap<usize, usize> = HashMap::new();
    let mut recorded = 0;
    let mut plain_results = 0;
    let mut ids: HashSet<usize> = HashSet::new();
    for (i, log) in logs.iter() {
        for (k, d) in log.did.iter().enumerate() {
            let what = format!("operation {} of thread {}, {:?}", k, i, d.op);
            let va = probe(&d.a);
            let vb = if d.op.binary() { Some(probe(&d.b)) } else { None };
            let a_plain = !by_vid.contains_key(&va) && !listed.contains_key(&va);
            let b_plain = vb.is_some_and(|v| !by_vid.contains_key(&v) && !listed.contains_key(&v));
            let vr = probe(&d.r);
            if a_plain && (b_plain || vb.is_none()) {
                // nothing recorded is involved
                need!(!by_vid.contains_key(&vr), "shared:plain", "{} on plain numbers was recorded", what);
                plain_results += 1;
                continue;
            }
            recorded += 1;
            let (_, o) = match by_vid.get(&vr) {
                Some(x) => *x,
                None => bad!("shared:lost", "{} was not recorded: its result refers to value {}", what, vr),
            };
            need!(ids.insert(vr), "shared:index", "{}: value {} is also the result of another operation", what, vr);
            claimed.insert(vr, *i);
            need!(same(values[vr], d.r.value()), "shared:value", "{} stored {:e} instead of {:e}", what, values[vr], d.r.value());
            if let Some(code) = d.op.code() {
                need!(o.opcode == code, "shared:opcode", "{} was recorded as {:?}", what, o);
            }
            let is_const = |v: Option<usize>, c: f64| v.is_some_and(|v| by_vid.get(&v).is_some_and(|(_, o)| o.opcode == OpCode::Const) && same(values[v], c));
            let arg = |v: Option<usize>, id: usize, plain: bool, val: f64| if plain { is_const(v, val) } else { v == Some(id) };
            let ok = match d.op {
                Op::Add | Op::Sub | Op::Mul => arg(o.arg1, va, a_plain, d.a.value()) && arg(o.arg2, vb.unwrap(), b_plain, d.b.value()),
                Op::Sin | Op::Cos | Op::Abs => o.arg1 == Some(va) && o.arg2.is_none(),
                Op::AddF(c) | Op::MulF(c) => o.arg1 == Some(va) && is_const(o.arg2, c),
                Op::RSubF(c) => is_const(o.arg1, c) && o.arg2 == Some(va),
                Op::Neg => o.arg1 == Some(va) || o.arg2 == Some(va),
            };
            need!(ok, "shared:operands", "{} on values {} and {:?} was recorded as {:?}", what, va, vb, o);
        }
        for (vid, code, val, arg) in log.raw.iter() {
            let o = match by_vid.get(vid) {
                Some((_, o)) => *o,
                None => bad!("shared:lost", "{:?} recorded by hand on thread {} as value {} is not there", code, i, vid),
            };
            need!(ids.insert(*vid), "shared:index", "{:?} recorded by hand on thread {}: value {} is also something else", code, i, vid);
            need!(o.opcode == *code && o.arg1 == *arg && o.arg2.is_none(), "shared:operands", "{:?} of {:?} recorded by hand on thread {} became {:?}", code, arg, i, o);
            need!(same(values[*vid], *val), "shared:value", "{:?} recorded by hand on thread {} stored {:e} instead of {:e}", code, i, values[*vid], val);
            if *code != OpCode::Const {
                recorded += 1;
            }
        }
        let vids: Vec<usize> = log.indeps.iter().map(&mut probe).collect();
        let pos: Vec<Option<usize>> = vids.iter().map(|v| listed.get(v).copied()).collect();
        need!(pos.iter().all(|p| p.is_some()), "shared:lost", "an argument declared by thread {} is not listed", i);
        need!(pos.windows(2).all(|w| w[0] < w[1]), "shared:order", "arguments declared by thread {} are listed out of order", i);
        for (v, x) in vids.iter().zip(&log.indeps) {
            need!(ids.insert(*v), "shared:index", "argument of thread {} shares value {}", i, v);
            need!(same(values[*v], x.value()), "shared:value", "argument of thread {} stored as {:e}", i, values[*v]);
        }
        let vids: Vec<usize> = log.deps.iter().map(&mut probe).collect();
        // each thread's results in its order, as a subsequence
        let mut it = deps0.iter();
        for (v, d) in vids.iter().zip(&log.deps) {
            if by_vid.contains_key(v) || listed.contains_key(v) {
                need!(it.any(|w| w == v), "shared:order", "results marked by thread {} are missing or out of order", i);
            } else {
                need!(it.any(|w| same(values[*w], d.value())), "shared:lost", "a number marked by thread {} is not among the results", i);
            }
        }
    }
    let total_ind: usize = first.len() + logs.iter().map(|l| l.1.indeps.len()).sum::<usize>();
    need!(end.indeps().len() == total_ind, "shared:count", "{} arguments listed, {} declared", end.indeps().len(), total_ind);
    let total_dep: usize = logs.iter().map(|l| l.1.deps.len()).sum();
    need!(deps0.len() == total_dep, "shared:count", "{} results listed, {} marked", deps0.len(), total_dep);
    let real = ops.iter().filter(|o| o.opcode != OpCode::Const).count();
    need!(real == recorded, "shared:count", "{} operations recorded, {} performed", real, recorded);
    let order: Vec<u8> = ops.iter().filter_map(|o| claimed.get(&o.vid)).map(|i| *i as u8).collect();
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
    let mut ev = Events { order: hash_bytes(&order), text, ..Default::default() };
    ev.add("switches between threads in recordings", switches as u64);
    ev.add("operations on plain numbers", plain_results);
    for e in evs {
        for (k, v) in e.counts {
            ev.add(k, v);
        }
    }
    Ok(ev)
}

// ------------------------------------------------------------ one tape, many readers: P10

pub fn readers(rng: &mut Rng, size: usize, calm: bool) -> Result<Events, Bad> {
    let threads = rng.range(2, 4);
    let mut ctx = AContext::new();
    let n = rng.range(1, 3);
    let mut vars: Vec<AD> = (0..n).map(|i| ctx.new_indep(0.4 + 0.3 * i as f64)).collect();
    for _ in 0..4 + rng.below(8 * size + 4) {
        let (a, b) = (*rng.pick(&vars), *rng.pick(&vars));
        let mut op = Op::random(rng);
        if op == Op::Abs || op.plain((a.value(), 0.0), (b.value(), 0.0)).0.abs() > 50.0 {
            op = Op::Sin;
        }
        vars.push(op.apply(a, b));
    }
    let m = rng.range(1, 3);
    for _ in 0..m {
        let d = *rng.pick(&vars);
        ctx.set_dep(&d);
    }
    let tape = ctx.tape();
    let before = image(&tape);
    let dx = DVector::from_fn(n, |i, _| 1.0 - 0.5 * i as f64);
    let yb = DVector::from_fn(m, |i, _| 0.5 + i as f64);
    let bits = |v: &DVector<f64>| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    let f0 = bits(&tape.first_order_forward(&dx));
    let r0 = bits(&tape.first_order_reverse(&yb));
    let shared: Arc<dyn Tape> = Arc::new(tape.clone());
    let s2 = shared.clone();
    let seed = rng.u64();
    let rounds = 2 + rng.below(3 * size + 1);
    let vars = Arc::new(vars);
    let v2 = vars.clone();
    let cid = ctx.cid();
    let evs = spawn_all(threads, move |i| {
        let mut rng = Rng::new(hash_u64(seed, i as u64));
        let mut ev = Events::default();
        let mut own = tape.clone();
        for _ in 0..rounds {
            pause(&mut rng, calm);
            match rng.below(5) {
                0 | 1 => need!(bits(&s2.first_order_forward(&dx)) == f0, "tape:query", "forward sweep of a shared tape changed its answer"),
                2 => need!(bits(&s2.first_order_reverse(&yb)) == r0, "tape:query", "reverse sweep of a shared tape changed its answer"),
                3 => {
                    // re-evaluating a clone is nobody else's business
                    let x = own.x().map(|v| v + 0.25);
                    own.zero_order(&x);
                }
                _ => {
                    // nor is recording on
                    let a = *rng.pick(&v2);
                    let mut c = AContext::from_cid(cid).ok_or(("life:lost".to_string(), "context lost".to_string()))?;
                    c.set_dep(&(a * 2.0));
                }
            }
            ev.add("queries of a shared tape", 1);
        }
        Ok(ev)
    })?;
    need!(image(&*shared) == before, "tape:changed", "a shared tape changed while others queried it and recorded on");
    sound(&ctx.tape(), "tape of the context afterwards", None)?;
    let mut ev = Events { order: rng.u64(), text: format!("{} threads query one tape of {} operations", threads, before.ops.len()), ..Default::default() };
    for e in evs {
        for (k, v) in e.counts {
            ev.add(k, v);
        }
    }
    Ok(ev)
}
