//! C01 C03 C11 C12 C13: one-step product.
use crate::onestep::*;
use crate::rep::*;

pub fn run(id: &str, rep: &Rep) -> bool {
    match id {
        "C01" => explore(rep, C_REGS | C_BUS, 0),
        "C02" => crate::alu::c02(rep),
        "C03" => explore(rep, C_CLK, 0),
        "C04" => crate::prog::c04(rep),
        "C05" => crate::prog::c05(rep),
        "C09" => crate::prog::c09(rep),
        "C10" => crate::prog::c10(rep),
        "C14" => crate::debugck::c14(rep),
        "C15" => crate::debugck::c15(rep),
        "C16" => crate::debugck::c16(rep),
        "C18" => crate::api::c18(rep),
        "C20" => crate::api::c20(rep),
        "C19" => crate::helpers::c19(rep),
        "C21" => crate::nopanic::c21(rep),
        "C22" => crate::helpers::c22(rep),
        "C23" => crate::helpers::c23(rep),
        "C31" => crate::ral_io::c31(rep),
        "C32" => crate::ral_io::c32(rep),
        "C30" => crate::ral_ctc::c30(rep),
        "C35" => crate::ral_run::c35(rep),
        "C36" => crate::ral_run::c36(rep),
        "C38" => crate::ral_run::c38(rep),
        "C37" => crate::ral_ctc::c37(rep),
        "C34" => crate::ral_io::c34(rep),
        "C33" => crate::ral_mem::c33(rep),
        "C25" => crate::xcfgck::c25(rep),
        "C26" => crate::xcfgck::c26(rep),
        "C24" => crate::helpers::c24(rep),
        "C17" => crate::serdeck::c17(rep),
        "C06" => crate::seq::c06(rep),
        "C07" => crate::seq::c07(rep),
        "C08" => crate::seq::c08(rep),
        "C11" => { explore(rep, C_TS, 0); if !rep.stopped() { crate::seq::c11(rep) } }
        "C12" => { explore(rep, C_R, 0); if !rep.stopped() { crate::seq::c12(rep) } }
        "C13" => { explore(rep, C_WZ | C_Q | C_YX, 0); if !rep.stopped() { crate::seq::c13(rep) } }
        _ => return false,
    }
    true
}
