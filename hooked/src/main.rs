#![allow(dead_code)]
#[path = "../../harness/src/enumg.rs"]
mod enumg;
#[path = "../../harness/src/fam.rs"]
mod fam;
#[path = "../../harness/src/grammar.rs"]
mod grammar;
#[path = "../../harness/src/interp.rs"]
mod interp;
#[path = "../../harness/src/lexi.rs"]
mod lexi;
#[path = "../../harness/src/p_hist.rs"]
mod p_hist;
#[path = "../../harness/src/run.rs"]
mod run;
#[path = "../../harness/src/refp.rs"]
mod refp;
#[path = "../../harness/src/p_lr.rs"]
mod p_lr;
#[path = "../../harness/src/p_core.rs"]
mod p_core;
#[path = "../../harness/src/p_lex.rs"]
mod p_lex;
#[path = "../../harness/src/p_pred.rs"]
mod p_pred;
#[path = "../../harness/src/reflex.rs"]
mod reflex;
mod conc;
mod formulas;
mod stacks;
use run::*;

fn plans(id: &str, t: Tier) -> Option<Vec<Plan>> {
    antlr_rust::verif::sync::set_hook(vsched::std_hook);
    Some(match id {
        "C17" => stacks::c17(t),
        "C18" => conc::c18(t),
        "C23" => formulas::c23(t),
        _ => return None,
    })
}

fn main() {
    run::main(plans, std::env::args().skip(1).collect())
}
