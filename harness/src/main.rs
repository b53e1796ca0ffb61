mod enumg;
mod fam;
mod grammar;
mod interp;
mod lexi;
mod p_atn;
mod p_comp;
mod p_core;
mod p_ctx;
mod p_dec;
mod p_dfa;
mod p_diag;
mod p_err;
mod p_exp;
mod p_fix;
mod p_gen;
mod p_read;
mod p_hist;
mod p_lex;
mod p_lr;
mod p_names;
mod p_own;
mod p_pred;
mod p_rep;
mod reflex;
mod refp;
mod p_tree;
mod run;
use run::*;

#[global_allocator]
static ALLOC: p_own::Counting = p_own::Counting;

fn plans(id: &str, t: Tier) -> Option<Vec<Plan>> {
    Some(match id {
        "C01" => p_lex::c01(t),
        "C02" => p_lex::c02(t),
        "C03" => p_lex::c03(t),
        "C04" => p_lex::c04(t),
        "C05" => p_core::c05(t),
        "C06" => p_core::c06(t),
        "C07" => p_hist::c07(t),
        "C08" => p_lr::c08(t),
        "C09" => p_pred::c09(t),
        "C10" => p_core::c10(t),
        "C11" => p_core::c11(t),
        "C12" => p_core::c12(t),
        "C13" => p_comp::c13(t),
        "C14" => p_comp::c14(t),
        "C15" => p_comp::c15(t),
        "C16" => p_comp::c16(t),
        "C19" => p_tree::c19(t),
        "C20" => p_tree::c20(t),
        "C21" => p_atn::c21(t),
        "C22" => p_exp::c22(t),
        "C25" => p_rep::c25(t),
        "C26" => p_ctx::c26(t),
        "C27" => p_ctx::c27(t),
        "C28" => p_dec::c28(t),
        "C29" => p_names::c29(t),
        "C30" => p_dfa::c30(t),
        "C31" => p_fix::c31(t),
        "C32" => p_own::c32(t),
        "C33" => p_dec::c33(t),
        "C36" => p_err::c36(t),
        "C35" => p_read::c35(t),
        "C34" => p_gen::c34(t),
        "C24" => p_diag::c24(t),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().map(|s| s == "fam").unwrap_or(false) {
        for l in 0..4 {
            for f in fam::families(l) {
                println!("{} {} {} {:?}", l, f.name, f.gs.len(), f.gs.last().map(|g| g.show()));
            }
        }
        return;
    }
    run::main(plans, a)
}
