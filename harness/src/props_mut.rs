//! C03–C06, C09, C15: mutants of both languages.
use crate::props_cli::through;
use crate::runner::{Failure, Info, Prop};
use crate::src::Src;
use crate::{mut_sol, mut_vy};

type Case = fn(&mut Src, &mut Info) -> Result<(), Failure>;

fn either(src: &mut Src, info: &mut Info, sol: Case, vy: Case) -> Result<(), Failure> {
    if src.chance(2, 5) {
        vy(src, info)
    } else {
        sol(src, info)
    }
}
/// One case in `SHARE` runs the tool itself.
const SHARE: u64 = 50;

fn c03(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, SHARE) {
        return through(src, info, "C03");
    }
    mut_sol::c03(src, info)
}
fn c04(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, SHARE) {
        return through(src, info, "C04");
    }
    mut_vy::c04(src, info)
}
fn c05(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, SHARE) {
        return through(src, info, "C05");
    }
    either(src, info, mut_sol::c05, mut_vy::c05)
}
fn c06(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, SHARE) {
        return through(src, info, "C06");
    }
    either(src, info, mut_sol::c06, mut_vy::c06)
}
fn c09(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, SHARE) {
        return through(src, info, "C09");
    }
    either(src, info, mut_sol::c09, mut_vy::c09)
}
fn c15(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, SHARE) {
        return through(src, info, "C15");
    }
    either(src, info, mut_sol::c15, mut_vy::c15)
}

fn c20(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, 40) {
        return crate::props_cli::chosen(src, info);
    }
    either(src, info, mut_sol::c20, mut_vy::c20)
}

pub fn props() -> Vec<Prop> {
    let p = |id: &'static str, rule: &'static str, quick: u64, case: Case| Prop { id, rule, quick, thorough: quick * 100, cpu_limit_s: 20, workers: 8, case };
    vec![
        p("C03", "at least one mutant was made", 8000, c03),
        p("C04", "at least one mutant was made", 14000, c04),
        p("C05", "an algorithm with at least two candidates", 16000, c05),
        p("C06", "candidates inside and outside the chosen functions", 16000, c06),
        p("C09", "at least one mutant was made", 12000, c09),
        p("C20", "a candidate that can be changed in two ways, or a choice of algorithms or candidates", 6000, c20),
        p("C15", "at least one mutant was made", 8000, c15),
    ]
}
