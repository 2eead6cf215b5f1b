use crate::core::Unit;
mod big;
mod dec;
mod enc;
mod errs;
mod frame;
pub mod gate;
mod hostile;
mod io;
mod num;
mod same;
pub mod scale;
mod serial;
mod text;
mod value;
pub use io::io_kind;

pub fn units(id: &str, thorough: bool) -> (Vec<Unit>, Vec<String>) {
    let mut b = vec![];
    let u = match id {
        "C01" => dec::c01(thorough, &mut b),
        "C02" => enc::c02(thorough, &mut b),
        "C03" => num::c03(thorough, &mut b),
        "C04" => dec::c04(thorough, &mut b),
        "C05" => enc::c05(thorough, &mut b),
        "C06" => enc::c06(thorough, &mut b),
        "C07" => dec::c07(thorough, &mut b),
        "C08" => enc::c08(thorough, &mut b),
        "C09" => {
            let mut u = dec::c09(thorough, &mut b);
            u.extend(enc::c09(thorough, &mut b));
            u
        }
        "C10" => frame::c10(thorough, &mut b),
        "C11" => frame::c11(thorough, &mut b),
        "C12" => frame::c12(thorough, &mut b),
        "C13" => dec::c13(thorough, &mut b),
        "C14" => {
            let mut u = dec::c14(thorough, &mut b);
            u.extend(enc::c14(thorough, &mut b));
            u.sort_by_key(|u| !u.label.starts_with("settings"));
            u
        }
        "C15" => enc::c15(thorough, &mut b),
        "C16" => io::c16(thorough, &mut b),
        "C17" => io::c17(thorough, &mut b),
        "C18" => io::c18(thorough, &mut b),
        "C19" => io::c19(thorough, &mut b),
        "C20" => io::c20(thorough, &mut b),
        "C21" => num::c21(thorough, &mut b),
        "C22" => hostile::c22(thorough, &mut b),
        "C23" => serial::c23(thorough, &mut b),
        "C24" => errs::c24(thorough, &mut b),
        "C25" => text::c25(thorough, &mut b),
        "C26" => same::c26(thorough, &mut b),
        "C27" => num::c27(thorough, &mut b),
        _ => vec![],
    };
    (u, b)
}

pub fn assumptions(_id: &str) -> Vec<String> {
    vec![
        "the reference semantics in /verif/mc/src (spec, espec and the per-property models) state the property correctly".into(),
        "all nondeterminism of the code under test comes through its arguments (checked: a diverging replay ends the run)".into(),
        "behaviour outside the stated bounds is not covered".into(),
    ]
}
