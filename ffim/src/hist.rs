//! Random histories of C interface calls, every call also made through the Rust interface and both
//! compared. Needs nothing but the library, so it also runs under Miri.
use crate::rng::{hash_u64, Rng};
use advantage::{AContext, ADouble, DVector, Float, Operation, Tape};
use std::collections::BTreeMap;

#[repr(C)]
struct Ctx {
    _p: [u8; 0],
}
#[repr(C)]
struct Var {
    _p: [u8; 0],
}

// as declared in src/cxx/ffi.hpp
#[allow(clashing_extern_declarations)]
extern "C" {
    fn adv_acontext_free(this: *mut Ctx);
    fn adv_acontext_new() -> *mut Ctx;
    fn adv_acontext_new_independent(this: *mut Ctx) -> *mut Var;
    fn adv_acontext_set_dependent(this: *mut Ctx, val: *const Var);
    fn adv_adouble_free(this: *mut Var);
    fn adv_adouble_default() -> *mut Var;
    fn adv_adouble_copy(this: *const Var) -> *mut Var;
    fn adv_adouble_from_value(val: f64) -> *mut Var;
    fn adv_op_add(a: *const Var, b: *const Var, r: *mut *mut Var);
    fn adv_op_sub(a: *const Var, b: *const Var, r: *mut *mut Var);
    fn adv_op_mul(a: *const Var, b: *const Var, r: *mut *mut Var);
    fn adv_op_div(a: *const Var, b: *const Var, r: *mut *mut Var);
    fn adv_sin(x: *const Var, r: *mut *mut Var);
    fn adv_cos(x: *const Var, r: *mut *mut Var);
    fn adv_tan(x: *const Var, r: *mut *mut Var);
    fn adv_abs(x: *const Var, r: *mut *mut Var);
    fn adv_exp(x: *const Var, r: *mut *mut Var);
    fn adv_ln(x: *const Var, r: *mut *mut Var);
    fn adv_max(a: *const Var, b: *const Var, r: *mut *mut Var);
    fn adv_min(a: *const Var, b: *const Var, r: *mut *mut Var);
}
type Bin = unsafe extern "C" fn(*const Var, *const Var, *mut *mut Var);
type Un = unsafe extern "C" fn(*const Var, *mut *mut Var);

#[derive(Default)]
pub struct Events {
    pub text: String,
    pub print: u64,
    pub counts: BTreeMap<&'static str, u64>,
}
pub type Bad = (String, String);

struct Slot {
    c: *mut Var,
    r: ADouble,
    /// index of the context the variable belongs to
    ctx: Option<usize>,
}
struct Pair {
    c: *mut Ctx,
    r: AContext,
    alive: bool,
    cid: usize,
    rcid: usize,
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

unsafe fn see<'a>(v: *const Var) -> &'a ADouble {
    &*(v as *const ADouble)
}

macro_rules! bad {
    ($sig:expr, $($a:tt)*) => { return Err(($sig.to_string(), format!($($a)*))) };
}

fn compare_contexts(c: &AContext, r: &AContext, ev: &mut Events, t: &str) -> Result<(), Bad> {
    let (tc, tr) = (c.tape(), r.tape());
    if tc.indeps() != tr.indeps() || tc.deps() != tr.deps() {
        bad!("ffi:tape", "arguments {:?} and results {:?} instead of {:?} and {:?} after: {}", tc.indeps(), tc.deps(), tr.indeps(), tr.deps(), t);
    }
    let (oc, or): (Vec<Operation>, Vec<Operation>) = (tc.ops_iter().collect(), tr.ops_iter().collect());
    if oc.len() != or.len() {
        bad!("ffi:tape", "{} operations recorded instead of {} after: {}", oc.len(), or.len(), t);
    }
    for (a, b) in oc.iter().zip(or.iter()) {
        if format!("{:?}", a) != format!("{:?}", b) {
            bad!("ffi:tape", "recorded {:?} instead of {:?} after: {}", a, b, t);
        }
    }
    let (vc, vr) = (tc.values().to_vec(), tr.values().to_vec());
    if vc.len() != vr.len() || vc.iter().zip(vr.iter()).any(|(a, b)| !same(*a, *b)) {
        bad!("ffi:tape", "recorded values {:?} instead of {:?} after: {}", vc, vr, t);
    }
    *ev.counts.entry("recordings compared").or_insert(0) += 1;
    *ev.counts.entry("recorded operations compared").or_insert(0) += oc.len() as u64;
    // a replay elsewhere
    let n = tc.num_indeps();
    if n > 0 && n < 40 {
        let x = DVector::from_fn(n, |i, _| 0.3 + i as f64 * 0.21);
        let (mut a, mut b) = (tc.clone(), tr.clone());
        a.zero_order(&x);
        b.zero_order(&x);
        let (ya, yb) = (a.y(), b.y());
        if ya.iter().zip(yb.iter()).any(|(p, q)| !same(*p, *q)) {
            bad!("ffi:replay", "replay gives {:?} instead of {:?} after: {}", ya.as_slice(), yb.as_slice(), t);
        }
    }
    Ok(())
}

/// One history of `steps` calls. Everything created is freed at the end.
pub fn history(rng: &mut Rng, steps: usize) -> Result<Events, Bad> {
    let mut ev = Events::default();
    let mut slots: Vec<Option<Slot>> = vec![];
    let mut ctxs: Vec<Pair> = vec![];
    let mut h = 0u64;
    let r = unsafe { run(rng, steps, &mut ev, &mut slots, &mut ctxs, &mut h) };
    ev.print = h;
    // free what is left, in random order
    let mut rest: Vec<(bool, usize)> = slots.iter().enumerate().filter(|s| s.1.is_some()).map(|s| (true, s.0)).chain(ctxs.iter().enumerate().filter(|c| c.1.alive).map(|c| (false, c.0))).collect();
    while !rest.is_empty() {
        let (v, i) = rest.swap_remove(rng.below(rest.len()));
        unsafe {
            if v {
                adv_adouble_free(slots[i].as_ref().unwrap().c)
            } else {
                adv_acontext_free(ctxs[i].c)
            }
        }
        *ev.counts.entry("objects freed at the end").or_insert(0) += 1;
    }
    for c in ctxs.iter() {
        if c.cid != usize::MAX && AContext::from_cid(c.cid).is_some() {
            r?;
            bad!("ffi:context", "context {} can still be found after it was freed: {}", c.cid, ev.text);
        }
    }
    r.map(|_| ev)
}

unsafe fn run(rng: &mut Rng, steps: usize, ev: &mut Events, slots: &mut Vec<Option<Slot>>, ctxs: &mut Vec<Pair>, h: &mut u64) -> Result<(), Bad> {
    let bins: [(&str, Bin, fn(ADouble, ADouble) -> ADouble); 6] = [
        ("add", adv_op_add, |a, b| a + b),
        ("sub", adv_op_sub, |a, b| a - b),
        ("mul", adv_op_mul, |a, b| a * b),
        ("div", adv_op_div, |a, b| a / b),
        ("min", adv_min, |a, b| Float::min(a, b)),
        ("max", adv_max, |a, b| Float::max(a, b)),
    ];
    let uns: [(&str, Un, fn(ADouble) -> ADouble); 6] = [
        ("sin", adv_sin, |a| a.sin()),
        ("cos", adv_cos, |a| a.cos()),
        ("tan", adv_tan, |a| a.tan()),
        ("abs", adv_abs, |a| a.abs()),
        ("exp", adv_exp, |a| a.exp()),
        ("ln", adv_ln, |a| a.ln()),
    ];
    macro_rules! say {
        ($($a:tt)*) => {{
            let s = format!($($a)*);
            *h = hash_u64(*h, crate::rng::hash_bytes(s.as_bytes()));
            ev.text.push_str(&s);
            ev.text.push_str("; ");
        }};
    }
    macro_rules! count {
        ($k:expr) => {
            *ev.counts.entry($k).or_insert(0) += 1
        };
    }
    let special = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-3, -7.25, 1e200, 3.5];
    for _ in 0..steps {
        let live: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].is_some()).collect();
        let alive: Vec<usize> = (0..ctxs.len()).filter(|i| ctxs[*i].alive).collect();
        let pick = if alive.is_empty() && rng.chance(0.2) { 0 } else { rng.below(22) };
        let new = match pick {
            0 if ctxs.len() < 4 => {
                let c = adv_acontext_new();
                let r = AContext::new();
                let (cid, rcid) = ((*(c as *const AContext)).cid(), r.cid());
                say!("context {}", ctxs.len());
                ctxs.push(Pair { c, r, alive: true, cid, rcid });
                count!("contexts created");
                None
            }
            1 if !alive.is_empty() && rng.chance(0.4) => {
                let k = *rng.pick(&alive);
                say!("free context {}", k);
                compare_contexts(&*(ctxs[k].c as *const AContext), &ctxs[k].r, ev, &ev.text.clone())?;
                adv_acontext_free(ctxs[k].c);
                // ends the mirror too
                let old = std::mem::replace(&mut ctxs[k].r, AContext::new());
                drop(old);
                ctxs[k].alive = false;
                if AContext::from_cid(ctxs[k].cid).is_some() != AContext::from_cid(ctxs[k].rcid).is_some() {
                    bad!("ffi:context", "context can still be found after it was freed: {}", ev.text);
                }
                count!("contexts freed with variables left over");
                None
            }
            2 | 3 if !alive.is_empty() => {
                let k = *rng.pick(&alive);
                say!("v{} = independent of {}", slots.len(), k);
                let c = adv_acontext_new_independent(ctxs[k].c);
                let r = ctxs[k].r.new_indep(0.0);
                count!("independents");
                Some(Slot { c, r, ctx: Some(k) })
            }
            4 | 5 if !alive.is_empty() => {
                // declared by Rust code at another value, with a derivative
                let k = *rng.pick(&alive);
                let (v, d) = (rng.uniform(-3.0, 3.0), rng.uniform(-2.0, 2.0));
                say!("v{} = independent of {} at {} with derivative {}", slots.len(), k, v, d);
                let mut a = ADouble::new(v, d);
                let mut r = ADouble::new(v, d);
                (*(ctxs[k].c as *mut AContext)).set_indep(&mut a);
                ctxs[k].r.set_indep(&mut r);
                count!("independents");
                Some(Slot { c: Box::into_raw(Box::new(a)) as *mut Var, r, ctx: Some(k) })
            }
            6 | 7 => {
                let v = if rng.chance(0.3) { *rng.pick(&special) } else { rng.uniform(-4.0, 4.0) };
                say!("v{} = {}", slots.len(), v);
                count!("constants");
                Some(Slot { c: adv_adouble_from_value(v), r: ADouble::from(v), ctx: None })
            }
            8 => {
                say!("v{} = default", slots.len());
                count!("constants");
                Some(Slot { c: adv_adouble_default(), r: ADouble::from(0.0), ctx: None })
            }
            9 if !live.is_empty() => {
                let i = *rng.pick(&live);
                say!("v{} = copy of v{}", slots.len(), i);
                let s = slots[i].as_ref().unwrap();
                let c = adv_adouble_copy(s.c);
                if c == s.c {
                    bad!("ffi:copy", "a copy is the same object: {}", ev.text);
                }
                count!("copies");
                Some(Slot { c, r: s.r, ctx: s.ctx })
            }
            10 if !live.is_empty() => {
                let i = *rng.pick(&live);
                say!("free v{}", i);
                adv_adouble_free(slots[i].take().unwrap().c);
                count!("variables freed");
                None
            }
            11 if !live.is_empty() && !alive.is_empty() => {
                let i = *rng.pick(&live);
                let s = slots[i].as_ref().unwrap();
                let k = s.ctx.unwrap_or(*rng.pick(&alive));
                if ctxs[k].alive {
                    say!("v{} is a result of {}", i, k);
                    adv_acontext_set_dependent(ctxs[k].c, s.c);
                    ctxs[k].r.set_dep(&s.r);
                    count!("results marked");
                }
                None
            }
            12..=14 if !live.is_empty() => {
                let i = *rng.pick(&live);
                let (name, f, g) = uns[rng.below(6)];
                let s = slots[i].as_ref().unwrap();
                say!("v{} = {} v{}", slots.len(), name, i);
                let before = *see(s.c);
                let mut c = std::mem::MaybeUninit::<*mut Var>::uninit();
                f(s.c, c.as_mut_ptr());
                let c = c.assume_init();
                let r = g(s.r);
                if !same(see(s.c).value(), before.value()) || !same(see(s.c).dvalue(), before.dvalue()) {
                    bad!("ffi:operand", "{} changed its operand: {}", name, ev.text);
                }
                count!("operations");
                let ctx = s.ctx.filter(|k| ctxs[*k].alive);
                Some(Slot { c, r, ctx })
            }
            15..=21 if !live.is_empty() => {
                let i = *rng.pick(&live);
                let j = if rng.chance(0.1) { i } else { *rng.pick(&live) };
                let (a, b) = (slots[i].as_ref().unwrap(), slots[j].as_ref().unwrap());
                match (a.ctx, b.ctx) {
                    (Some(p), Some(q)) if p != q => None,
                    (p, q) => {
                        let (name, f, g) = bins[rng.below(6)];
                        say!("v{} = v{} {} v{}", slots.len(), i, name, j);
                        let before = (*see(a.c), *see(b.c));
                        let mut c = std::mem::MaybeUninit::<*mut Var>::uninit();
                        f(a.c, b.c, c.as_mut_ptr());
                        let c = c.assume_init();
                        let r = g(a.r, b.r);
                        for (x, y) in [(a, before.0), (b, before.1)] {
                            if !same(see(x.c).value(), y.value()) || !same(see(x.c).dvalue(), y.dvalue()) {
                                bad!("ffi:operand", "{} changed an operand: {}", name, ev.text);
                            }
                        }
                        count!("operations");
                        let ctx = p.or(q).filter(|k| ctxs[*k].alive);
                        Some(Slot { c, r, ctx })
                    }
                }
            }
            _ => None,
        };
        if let Some(s) = new {
            let c = *see(s.c);
            let r = s.r;
            slots.push(Some(s));
            if !same(c.value(), r.value()) {
                bad!("ffi:value", "value {:?} instead of {:?}: {}", c.value(), r.value(), ev.text);
            }
            if !same(c.dvalue(), r.dvalue()) {
                bad!("ffi:derivative", "derivative {:?} instead of {:?}: {}", c.dvalue(), r.dvalue(), ev.text);
            }
            count!("values compared");
        }
    }
    // operands still what they were, and still the same recorded variables
    for (i, s) in slots.iter().enumerate() {
        let Some(s) = s else { continue };
        let c = see(s.c);
        if !same(c.value(), s.r.value()) || !same(c.dvalue(), s.r.dvalue()) {
            bad!("ffi:operand", "v{} is {:?} instead of {:?} in the end: {}", i, (c.value(), c.dvalue()), (s.r.value(), s.r.dvalue()), ev.text);
        }
        if let Some(k) = s.ctx.filter(|k| ctxs[*k].alive) {
            adv_acontext_set_dependent(ctxs[k].c, s.c);
            ctxs[k].r.set_dep(&s.r);
        }
    }
    for k in 0..ctxs.len() {
        if ctxs[k].alive {
            compare_contexts(&*(ctxs[k].c as *const AContext), &ctxs[k].r, ev, &ev.text.clone())?;
        }
    }
    Ok(())
}
