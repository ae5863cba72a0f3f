//! C35: an optimised build without assertions behaves like the one the tests run.  check.py builds the harness and the crate with the
//! profile `plain` for this check; the groups and their oracles are those of the other checks.
use crate::explore::*;

fn again(prop: &str, th: bool, wanted: &[&str], gs: Vec<Group>) -> Vec<Group> {
    for w in wanted {
        assert!(gs.iter().any(|g| g.name == *w), "{} has no group {}", prop, w);
    }
    gs.into_iter()
        .filter(|g| th && g.name != "stale-length" || wanted.contains(&g.name))
        .map(|g| {
            let run = g.run;
            Group {
                name: Box::leak(format!("{}-{}", prop, g.name).into_boxed_str()),
                outers: g.outers,
                budget: if th { g.budget } else { g.budget.min(1) },
                run: Box::new(move |x, o| {
                    if cfg!(debug_assertions) {
                        panic!("this check is to be built without debug assertions");
                    }
                    run(x, o)
                }),
            }
        })
        .collect()
}

pub fn c35(th: bool) -> Vec<Group> {
    let no = false;
    let mut g = vec![];
    g.extend(again("C01", th, &["many", "fields", "preamble", "headers", "align", "pieces", "dense"], crate::parse::c01(no)));
    g.extend(again("C02", th, &["adapters", "small", "cut", "repetitive"], crate::parse::c02(no)));
    g.extend(again("C03", th, &["small", "cut", "many"], crate::parse::c03(no)));
    g.extend(again("C04", th, &["every-cut", "every-cut-save", "frameworks"], crate::parse::c04(no)));
    g.extend(again("C05", th, &["long-boundary", "tokens", "split"], crate::parse::c05(no)));
    g.extend(again("C06", th, &["one", "every"], crate::parse::c06(no)));
    g.extend(again("C07", th, &["params", "characters", "long", "order", "malformed"], crate::parse::c07(no)));
    g.extend(again("C08", th, &["programs", "names", "contents", "file-calls"], crate::client::c08(no)));
    g.extend(again("C09", th, &["collections", "read-sizes", "names", "missing", "reuse", "sources"], crate::client::c09(no)));
    g.extend(again("C10", th, &["collections", "lengths", "mock"], crate::client::c10(no)));
    g.extend(again("C11", th, &["one-failure", "kinds"], crate::client::c11(no)));
    g.extend(again("C12", th, &["small", "several", "huge-limits"], crate::saves::c12(no)));
    g.extend(again("C13", th, &["count", "default"], crate::saves::c13(no)));
    g.extend(again("C14", th, &["small", "specials"], crate::saves::c14(no)));
    g.extend(again("C15", th, &["small", "source-big", "dest", "dest-big", "instalments"], crate::saves::c15(no)));
    g.extend(again("C16", th, &["small", "straddle", "kinds"], crate::saves::c16(no)));
    g.extend(again("C17", th, &["names", "existing", "options", "targets", "odd-paths"], crate::saves::c17(no)));
    g.extend(again("C18", th, &["lifetimes", "prefixes", "paths", "trouble"], crate::saves::c18(no)));
    g.extend(again("C19", th, &["many-fields", "three-stages", "counted"], crate::saves::c19(no)));
    g.extend(again("C20", th, &["requests", "parameters", "boundary-characters", "white-space", "pieces"], crate::web::c20(no)));
    g.extend(again("C21", th, &["limits", "malformed", "directories", "not-multipart"], crate::web::c21(no)));
    g.extend(again("C22", th, &["intact", "malformed", "truncated", "borrowed", "results"], crate::more::c22(no)));
    g.extend(again("C23", th, &["writer", "bytewise", "splits"], crate::more::c23(no)));
    g.extend(again("C24", th, &["one", "flush", "field"], crate::more::c24(no)));
    g.extend(again("C25", th, &["fields", "not-post", "announced"], crate::web::c25(no)));
    g.extend(again("C26", th, &["headers", "sending"], crate::more::c26(no)));
    g.extend(again("C27", th, &["conversions", "saves", "kept", "reasons", "readers", "failed"], crate::results::c27(no)));
    g.extend(again("C29", th, &["settings", "counts", "defaults", "opened"], crate::options::c29(no)));
    g.extend(again("C30", th, &["writes", "reads", "declared"], crate::mock::c30(no)));
    g.extend(again("C33", th, &["draws", "taken"], crate::names::c33(no)));
    g.extend(again("C34", th, &["bodies"], crate::release::c34(no)));
    g
}
