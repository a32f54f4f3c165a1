//! The Rust side of the C++ driver: looks into the objects behind the C++ wrapper and runs every step
//! on the Rust interface as well.
use advantage::{AContext, ADouble, DVector, Float, OpCode, Operation, Tape};
use std::cell::Cell;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_long, c_void};

#[derive(Default)]
struct Mirror {
    vars: HashMap<c_long, ADouble>,
    ctxs: HashMap<c_long, AContext>,
    message: Vec<u8>,
}
thread_local! {
    /// of the history this thread is working on
    static M: Cell<*mut Mirror> = const { Cell::new(std::ptr::null_mut()) };
}

fn with<R>(f: impl FnOnce(&mut Mirror) -> R) -> R {
    f(unsafe { &mut *M.with(|m| m.get()) })
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

#[no_mangle]
pub extern "C" fn m_new() -> *mut c_void {
    Box::into_raw(Box::<Mirror>::default()) as *mut c_void
}
#[no_mangle]
pub extern "C" fn m_enter(mirror: *mut c_void) {
    M.with(|m| m.set(mirror as *mut Mirror));
}
/// # Safety
/// `mirror` comes from `m_new`.
#[no_mangle]
pub unsafe extern "C" fn m_drop(mirror: *mut c_void) {
    drop(Box::from_raw(mirror as *mut Mirror));
}
#[no_mangle]
pub extern "C" fn m_reset() {
    with(|m| *m = Mirror::default());
}
#[no_mangle]
pub extern "C" fn m_ctx_new(k: c_long) {
    with(|m| m.ctxs.insert(k, AContext::new()));
}
#[no_mangle]
pub extern "C" fn m_ctx_free(k: c_long) {
    with(|m| m.ctxs.remove(&k));
}
#[no_mangle]
pub extern "C" fn m_indep(k: c_long, dst: c_long, v: f64, d: f64) {
    with(|m| {
        let mut x = ADouble::new(v, d);
        m.ctxs.get_mut(&k).unwrap().set_indep(&mut x);
        m.vars.insert(dst, x);
    });
}
/// What the C++ program's independent variable becomes when it shall start at another point.
/// # Safety
/// `ctx` comes from the C interface.
#[no_mangle]
pub unsafe extern "C" fn probe_indep(ctx: *mut AContext, v: f64, d: f64) -> *mut ADouble {
    let mut x = ADouble::new(v, d);
    (*ctx).set_indep(&mut x);
    Box::into_raw(Box::new(x))
}
#[no_mangle]
pub extern "C" fn m_const(dst: c_long, v: f64) {
    with(|m| m.vars.insert(dst, ADouble::from(v)));
}
#[no_mangle]
pub extern "C" fn m_copy(dst: c_long, src: c_long) {
    with(|m| {
        let x = m.vars[&src];
        m.vars.insert(dst, x);
    });
}
#[no_mangle]
pub extern "C" fn m_bin(op: c_int, dst: c_long, a: c_long, b: c_long) {
    with(|m| {
        let (a, b) = (m.vars[&a], m.vars[&b]);
        let r = match op as u8 {
            b'+' => a + b,
            b'-' => a - b,
            b'*' => a * b,
            b'/' => a / b,
            b'<' => Float::min(a, b),
            _ => Float::max(a, b),
        };
        m.vars.insert(dst, r);
    });
}
#[no_mangle]
pub extern "C" fn m_un(op: c_int, dst: c_long, a: c_long) {
    with(|m| {
        let a = m.vars[&a];
        let r = match op as u8 {
            b's' => a.sin(),
            b'c' => a.cos(),
            b't' => a.tan(),
            b'a' => a.abs(),
            b'e' => a.exp(),
            _ => a.ln(),
        };
        m.vars.insert(dst, r);
    });
}
#[no_mangle]
pub extern "C" fn m_free(a: c_long) {
    with(|m| m.vars.remove(&a));
}
#[no_mangle]
pub extern "C" fn m_dep(k: c_long, a: c_long) {
    with(|m| {
        let x = m.vars[&a];
        m.ctxs.get_mut(&k).unwrap().set_dep(&x);
    });
}
#[no_mangle]
pub extern "C" fn m_message() -> *const c_char {
    with(|m| m.message.as_ptr() as *const c_char)
}

fn answer(m: &mut Mirror, e: Option<String>) -> c_int {
    match e {
        None => 0,
        Some(s) => {
            m.message = s.into_bytes();
            m.message.push(0);
            1
        }
    }
}

/// # Safety
/// `h` is the live variable behind a C++ object.
#[no_mangle]
pub unsafe extern "C" fn m_check_var(k: c_long, h: *const ADouble) -> c_int {
    with(|m| {
        let (c, r) = (*h, m.vars[&k]);
        let e = if !same(c.value(), r.value()) {
            Some(format!("value {:?} instead of {:?}", c.value(), r.value()))
        } else if !same(c.dvalue(), r.dvalue()) {
            Some(format!("derivative {:?} instead of {:?}", c.dvalue(), r.dvalue()))
        } else {
            None
        };
        answer(m, e)
    })
}

fn differs(c: &AContext, r: &AContext) -> Option<String> {
    let (tc, tr) = (c.tape(), r.tape());
    if (tc.num_indeps(), tc.num_deps()) != (tr.num_indeps(), tr.num_deps()) {
        return Some(format!("{} arguments and {} results recorded instead of {} and {}", tc.num_indeps(), tc.num_deps(), tr.num_indeps(), tr.num_deps()));
    }
    let count = |ops: &[Operation]| ops.iter().filter(|o| o.opcode != OpCode::Const).count();
    let (oc, or): (Vec<Operation>, Vec<Operation>) = (tc.ops_iter().collect(), tr.ops_iter().collect());
    if count(&oc) != count(&or) {
        return Some(format!("{} operations recorded instead of {}", count(&oc), count(&or)));
    }
    let (dc, dr) = (tc.deps().to_vec(), tr.deps().to_vec());
    // the same variables marked: equal results are equal in both, and inputs are the same inputs
    let isc = |ops: &[Operation], v: usize| ops.iter().any(|o| o.vid == v && o.opcode == OpCode::Const);
    let mut to = HashMap::new();
    let mut back = HashMap::new();
    for (a, b) in dc.iter().zip(dr.iter()).filter(|p| !isc(&oc, *p.0) || !isc(&or, *p.1)) {
        if *to.entry(*a).or_insert(*b) != *b || *back.entry(*b).or_insert(*a) != *a {
            return Some(format!("results are the variables {:?}, corresponding to {:?}: not the same ones", dc, dr));
        }
    }
    for (a, b) in tc.indeps().iter().zip(tr.indeps().iter()) {
        if *to.entry(*a).or_insert(*b) != *b {
            return Some("a result is another argument than it should be".into());
        }
    }
    let stored = tc.y();
    if stored.iter().zip(tr.y().iter()).any(|(a, b)| !same(*a, *b)) {
        return Some(format!("recorded results {:?} instead of {:?}", stored.as_slice(), tr.y().as_slice()));
    }
    let (mut a, mut b) = (tc.clone(), tr.clone());
    for k in 0..4 {
        let x = DVector::from_fn(tc.num_indeps(), |i, _| ((i * 7 + k * 3 + 1) % 11) as f64 * 0.43 - 1.7);
        if k > 0 {
            a.zero_order(&x);
            b.zero_order(&x);
        }
        let (ya, yb) = (a.y(), b.y());
        if ya.iter().zip(yb.iter()).any(|(p, q)| !same(*p, *q)) {
            return Some(format!("the recording evaluates to {:?} at {:?} instead of {:?}", ya.as_slice(), x.as_slice(), yb.as_slice()));
        }
        let dx = DVector::from_fn(tc.num_indeps(), |i, _| ((i * 5 + k) % 7) as f64 * 0.31 - 0.8);
        let (da, db) = (a.first_order_forward(&dx), b.first_order_forward(&dx));
        if da.iter().zip(db.iter()).any(|(p, q)| !same(*p, *q)) {
            return Some(format!("the recording's derivative along {:?} is {:?} instead of {:?}", dx.as_slice(), da.as_slice(), db.as_slice()));
        }
    }
    None
}

/// # Safety
/// `h` is the live context behind a C++ object.
#[no_mangle]
pub unsafe extern "C" fn m_check_ctx(k: c_long, h: *const AContext) -> c_int {
    with(|m| {
        let e = differs(&*h, &m.ctxs[&k]);
        answer(m, e)
    })
}

/// Can the context still be found?
#[no_mangle]
pub extern "C" fn probe_alive(cid: usize) -> c_int {
    AContext::from_cid(cid).is_some() as c_int
}
/// # Safety
/// `h` is the live context behind a C++ object.
#[no_mangle]
pub unsafe extern "C" fn probe_cid(h: *const AContext) -> usize {
    (*h).cid()
}
