pub mod concurrent;
pub mod locality;
pub mod usage;
pub mod crash;
pub mod determinism;
pub mod faults;
pub mod files;
pub mod imports;
pub mod journals;
pub mod merging;
pub mod rules;

use crate::ctx::Ctx;

/// Runs the check of a property; gives its level and the rule by which cases are made.
pub fn run(id: &str, c: &Ctx) -> Option<(String, String)> {
    let (level, rule) = match id {
        "C01" => merging::c01(c),
        "C02" => merging::c02(c),
        "C03" => merging::c03(c),
        "C04" => merging::c04(c),
        "C05" => merging::c05(c),
        "C06" => merging::c06(c),
        "C07" => merging::c07(c),
        "C08" => determinism::c08(c),
        "C09" => rules::c09(c),
        "C10" => rules::c10(c),
        "C11" => rules::c11(c),
        "C12" => imports::c12(c),
        "C13" => imports::c13(c),
        "C14" => imports::c14(c),
        "C15" => imports::c15(c),
        "C22" => imports::c22(c),
        "C23" => imports::c23(c),
        "C24" => imports::c24(c),
        "C25" => imports::c25(c),
        "C16" => journals::c16(c),
        "C17" => journals::c17(c),
        "C18" => journals::c18(c),
        "C19" => faults::c19(c),
        "C20" => crash::c20(c),
        "C21" => journals::c21(c),
        "C26" => merging::c26(c),
        "C27" => files::c27(c),
        "C28" => files::c28(c),
        "C29" => files::c29(c),
        "C30" => concurrent::c30(c),
        "C31" => locality::c31(c),
        "C32" => usage::c32(c),
        _ => return None,
    };
    Some((level.to_string(), rule.to_string()))
}
