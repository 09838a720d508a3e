//! advcheck <ID>            run the check of a property (VERIF_SEED, VERIF_TIER)
//! advcheck --replay FILE   run one stored case
mod anf;
mod chains;
mod ctx;
mod defdrive;
mod defs;
mod fw;
mod ir;
mod long;
mod iface;
mod nested;
mod range;
mod seq;
mod sizes;
mod tapes;
mod values;

use fw::{main_with, Run};

fn checks() -> Vec<(&'static str, fn(&mut Run))> {
    vec![
        ("C01", values::c01),
        ("C02", iface::c02),
        ("C03", values::c03),
        ("C04", tapes::c04),
        ("C05", tapes::c05),
        ("C06", tapes::c06),
        ("C07", tapes::c07),
        ("C08", tapes::c08),
        ("C09", anf::c09),
        ("C10", anf::c10),
        ("C11", anf::c11),
        ("C12", anf::c12),
        ("C13", anf::c13),
        ("C14", anf::c14),
        ("C15", chains::c15),
        ("C16", seq::c16),
        ("C17", seq::c17),
        ("C18", seq::c18),
        ("C19", chains::c19),
        ("C20", defdrive::c20),
        ("C21", ctx::c21),
        ("C22", ctx::c22),
        ("C25", tapes::c25),
        ("C26", sizes::c26),
        ("C27", nested::c27),
    ]
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--build-defs") {
        // only to have its dependencies built
        return defdrive::build_only();
    }
    fw::supervise();
    fw::install_panic_hook();
    fw::start_watchdog();
    main_with(checks());
}
