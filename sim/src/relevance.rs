//! Which property a violation belongs to.
//!
//! A violation class names what the library got wrong. Some classes are the direct negation of one property
//! (primary). Others count for a property only when the minimised plan still needs what the property is about: a
//! clock step, an update of the zone files, a short read, a second thread, another zone (secondary).
use crate::plan::*;

pub fn primary(prop: &str, class: &str, p: &Plan) -> bool {
    let is = |x: &str| class.starts_with(x);
    let end = |x: &str| (is("crash.") || is("stuck.")) && class.ends_with(x);
    match prop {
        "C01" => (is("conv.") && !is("conv.right") && !is("conv.memo") && p.right == 0) || end(".convert") || end(".convert-now"),
        "C02" => is("inst.") || end(".compare-instants"),
        "C03" => is("conv.") && p.right == 1,
        "C04" => is("conv.memo"),
        "C06" => is("load.") || end(".load"),
        "C09" => is("sec.") || end(".add-seconds"),
        "C10" => is("cal.") || end(".add-calendar-date"),
        "C11" => is("min.") || end(".add-calendar-time"),
        "C12" => is("carry.") || end(".add-calendar-date") || end(".add-calendar-time") || end(".apply-carry"),
        "C13" => is("build.") || is("probe.build") || end(".build") || end("-builder"),
        "C14" => is("eq.") || is("read.") || end(".compare-datetimes") || end(".compare-with-fresh") || end(".read") || end(".clone"),
        "C15" => is("deadlock") || is("notsync"),
        "C16" => is("fd.") || is("fs."),
        "C18" => is("tick.") || end(".convert-instant"),
        "C20" => is("ceq.") || end(".compare-chronologies"),
        "C21" => is("mem."),
        "C22" => is("work.") || is("stuck.") || is("deadlock") || is("crash."),
        "C23" => is("proc.") || is("crash."),
        "C19" => is("dur.") || end(".convert-duration"),
        _ => false,
    }
}
fn loads(p: &Plan, tail: usize) -> usize {
    let _ = tail;
    p.tasks.iter().flatten().filter(|o| o.k == LOAD || o.k == CONV || o.k == CONVNOW || ((o.k == BUILD || o.k == HOLD) && o.a[1] < 0)).count()
}
fn has(p: &Plan, acts: &[i64]) -> bool {
    p.evs.iter().any(|e| acts.contains(&e.act))
}
pub fn is_conv(class: &str) -> bool {
    class.starts_with("conv.") || class.ends_with(".convert") || class.ends_with(".convert-now")
}
/// What the plan, once minimal, must still need for a violation of `class` to count for `prop`.
pub fn secondary(prop: &str, class: &str, p: &Plan) -> bool {
    let world = has(p, &[A_PUBLISH, A_STATE, A_TZDIR, A_PUBALL]);
    match prop {
        "C02" => false,
        "C03" => is_conv(class) && (p.right == 1 || p.now != DEF_NOW),
        "C04" => {
            is_conv(class)
                && !world
                && (has(p, &[A_STEP, A_STALL]) || p.now != DEF_NOW || p.tasks.iter().map(|t| t.len()).sum::<usize>() > 1)
        }
        "C05" => {
            let handle = ["probe.", "build.", "sec.", "cal.", "min.", "carry.", "eq.", "read."].iter().any(|c| class.starts_with(c));
            handle && (!p.evs.is_empty() || loads(p, 0) >= 2)
        }
        "C06" => world || p.tzdir != 0 || p.files.iter().any(|f| f.table != 0 || f.kind != F_GOOD) || (class.contains("@other") && p.tables.len() > 1),
        "C07" => has(p, &[A_ERR, A_STATE]) || p.files.iter().any(|f| f.kind != F_GOOD),
        "C08" => has(p, &[A_EINTR, A_SHORT, A_CHUNK, A_STALL]),
        "C14" => false,
        "C15" => p.tasks.len() > 1,
        "C17" => {
            p.tasks.iter().flatten().any(|o| o.k == LOAD && o.a[1] != 0)
                || p.files.iter().any(|f| f.zone != 0)
                || p.evs.iter().any(|e| (e.act == A_PUBLISH || e.act == A_STATE) && e.a[1] != 0)
        }
        _ => false,
    }
}
/// Whether a minimised plan is within what the property speaks of: a violation that still needs an interrupted or
/// short read belongs to C08, one that still needs a failing call or a damaged file does not belong to the properties
/// of an intact database.
pub fn within(prop: &str, p: &Plan) -> bool {
    let soft = has(p, &[A_EINTR, A_SHORT, A_CHUNK]);
    let hard = has(p, &[A_ERR, A_STATE]) || p.files.iter().any(|f| f.kind != F_GOOD);
    match prop {
        "C08" | "C15" | "C16" | "C21" | "C22" | "C23" => true,
        "C05" | "C06" | "C07" | "C17" => !soft,
        _ => !soft && !hard,
    }
}
