use crate::engine::*;
type Mk = fn(Tier) -> Vec<Space>;
pub const ALL: &[(&str, Mk)] = &[
    ("C01", crate::lex::c01),
    ("C02", crate::lex::c02),
    ("C03", crate::ctl::c03),
    ("C04", crate::ctl::c04),
    ("C05", crate::ctl::c05),
    ("C06", crate::ctl::c06),
    ("C07", crate::ctl::c07),
    ("C08", crate::ctl::c08),
    ("C09", crate::exprs::c09),
    ("C10", crate::exprs::c10),
    ("C11", crate::exprs::c11),
    ("C12", crate::total::c12),
    ("C13", crate::total::c13),
    ("C14", crate::funcs::c14),
    ("C15", crate::funcs::c15),
    ("C16", crate::funcs::c16),
    ("C17", crate::funcs::c17),
    ("C18", crate::funcs::c18),
    ("C19", crate::wrap::c19),
    ("C20", crate::funcs::c20),
    ("C21", crate::json::c21),
    ("C22", crate::funcs::c22),
    ("C23", crate::wrap::c23),
    ("C24", crate::funcs::c24),
    ("C25", crate::files::c25),
    ("C26", crate::files::c26),
    ("C27", crate::files::c27),
    ("C28", crate::files::c28),
    ("C29", crate::hist::c29),
    ("C30", crate::funcs::c30),
    ("C31", crate::ctl::c31),
];
pub fn ids() -> Vec<&'static str> {
    ALL.iter().map(|x| x.0).collect()
}
pub fn spaces(id: &str, t: Tier) -> Option<Vec<Space>> {
    ALL.iter().find(|x| x.0 == id).map(|x| (x.1)(t))
}

pub fn assumptions(id: &str) -> Vec<String> {
    let mut v = vec![
        "rustc, the standard library and the dependencies of templito behave as documented".to_string(),
        "the reference model (written from the documentation; judged by what is observable only) says what is right".to_string(),
        "every case runs with fresh values; the hasher's random keys are the only nondeterminism inside the process, and results must not depend on them".to_string(),
    ];
    match id {
        "C12" | "C13" => v.push("a case that makes no progress for 25 s would never end".to_string()),
        "C25" | "C26" | "C27" => v.push("nobody else changes the scratch folder while a case runs; the kernel's file system follows its documentation".to_string()),
        "C28" => v.push("the operating system's scheduling of the started program is not controlled; the order of blocking reads, writes and closes is, by the program's behaviour".to_string()),
        "C30" => v.push("the random generator is not controlled: each of its answers is checked for membership, and all members of small ranges must turn up among some hundred answers".to_string()),
        _ => {}
    }
    v
}
pub fn explanation(id: &str) -> String {
    let what = match id {
        "C12" => "Each text is given to the real parser under a watchdog; panics, hangs and answers that differ between two readings are violations.",
        "C13" => "Each call runs on the real function; panics and hangs are violations.",
        "C19" => "Each text and width runs through the real function; the result is judged by the conditions that define a wrapping.",
        "C20" => "Each text runs through the real functions; the result is read back by an independent decoder.",
        "C25" | "C26" | "C27" | "C28" => "Each operation runs on the real functions as an unprivileged user in a scratch folder; result and whole tree are compared with a model file system, capability model or process model.",
        "C29" => "Each history runs on the real managers and templates; every step's result is compared with a model that keeps registrations only, and every call of the recording manager with the model's own.",
        "C30" => "Each range runs through the real function repeatedly; each answer must be a member.",
        _ => "Each case is run by the real code and by a reference interpreter; the outcomes must be equal.",
    };
    format!(
        "Every index of every space listed was executed exactly once when 'exhaustive' is true. states = distinct observed outcomes (hash of result and exports), transitions = steps (runs or calls) executed on the real code, traces_validated_against_impl = cases in which the model's outcome was compared with the real one. {}",
        what
    )
}
