#[macro_use]
mod report;
mod cli;
mod p_anf;
mod p_ctx;
mod p_fn;
mod p_jac;
mod p_mem;
mod p_ref;
mod p_scalar;
mod p_seq;
mod p_tape;
mod p_user;
mod prog;
mod refs;
mod rng;
#[path = "../../conc/src/scen.rs"]
mod scen;
mod util;
use report::*;

const IDS: &[(&str, fn(&Run) -> i32)] = &[
    ("P01", p_scalar::p01),
    ("P02", p_scalar::p02),
    ("P03", p_tape::p03),
    ("P04", p_tape::p04),
    ("P05", p_tape::p05),
    ("P06", p_jac::p06),
    ("P07", p_tape::p07),
    ("P10", p_tape::p10),
    ("P11", p_scalar::p11),
    ("P25", p_jac::p25),
    ("P12", p_anf::p12),
    ("P13", p_anf::p13),
    ("P14", p_anf::p14),
    ("P15", p_anf::p15),
    ("P24", p_scalar::p24),
    ("P20", p_fn::p20),
    ("P27", p_user::p27),
    ("P28", p_mem::p28),
    ("P26", p_ref::p26),
    ("P08", p_ctx::p08),
    ("P09", p_ctx::p09),
    ("P16", p_seq::p16),
    ("P17", p_seq::p17),
    ("P18", p_seq::p18),
];

#[global_allocator]
static ALLOC: p_mem::Counting = p_mem::Counting;

fn main() {
    cli::main(IDS)
}
