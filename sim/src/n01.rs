//! N01: what builder macros build.

use crate::runner::Plan;

pub const PLAN: Plan = Plan {
    property: "N01",
    scenario,
    quick: 20_000,
    thorough: 600_000,
    level: "exploration",
    rule: "126 invocations of the builder macros - each field of each component alone and with others, in each way of writing it: \
           texts read when the program runs, literals, expressions, variables with the name of the field, variants, nested \
           objects, lists, with and without commas - generated from the types of the fields, are given values \
           that come from documents of other producers and from columns of stores, torn and damaged, on simulated hosts in any zone that \
           restart and change zone between invocations. Each gives the component that is built field by field with the same values, or \
           an error if one of them cannot be read, and evaluates each value once. A case is one invocation with its values; \
           distinct by both, non-trivial when a component is built.",
    real: "ikal (builder macros, components, readers of values), chrono, std",
    stub: "where values come from and their damages, host zone, its configuration and database files, clock, process lifetime",
    assumptions: &["the zone database of the host does not fail during an invocation"],
};

#[cfg(not(feature = "macros"))]
fn scenario() {
    crate::ctx::violation("does not compile", "invocations of the builder macros do not compile (see sim/macros)");
}

#[cfg(feature = "macros")]
fn scenario() {
    use crate::doc::Style;
    use crate::host::{self, Host};
    use crate::{c06, ctx, event, tape};

    let mut style = Style::random();
    style.near = true;
    let mut host = Host::in_zone("host", host::random_zone());

    for _ in 0..1 + tape::pick(6) {
        if tape::chance(1, 3) {
            c06::disturb(&mut host);
            host.set_faults(crate::seam::Faults::default());
        }
        let i = tape::pick(ikal_macros::CASES.len());
        let case = &ikal_macros::CASES[i];
        let damaged = tape::chance(1, 3);
        let mut earlier: Vec<(&str, String)> = Vec::new();
        for kind in case.holes {
            let text = match earlier.iter().rfind(|x| x.0 == *kind) {
                Some((_, text)) if tape::chance(1, 6) => text.clone(),
                _ => value(kind, damaged, &style),
            };
            earlier.push((kind, text));
        }
        let texts: Vec<String> = earlier.into_iter().map(|x| x.1).collect();
        event!("{}: {} {i} {:?}", host.name, case.kind, texts.iter().map(|x| x.chars().take(200).collect::<String>()).collect::<Vec<_>>());
        let fingerprint = ctx::fingerprint(&format!("{i}{texts:?}"));
        let holes = ikal_macros::Holes::new(texts);
        match host.run("build", || (case.run)(&holes)) {
            Ok(accepted) => ctx::case(accepted.then_some(fingerprint)),
            Err(message) => ctx::violation("another component", &format!("{} {i}: {message}", case.kind)),
        }
    }
}

/// What a program gets from elsewhere.
#[cfg(feature = "macros")]
fn value(kind: &str, damaged: bool, style: &crate::doc::Style) -> String {
    use crate::doc::{self, Type};
    use crate::{c02, ctx, tape};

    let ty = match kind {
        "date" => Type::Date,
        "datetime" => Type::DateTime,
        "duration" => Type::Duration,
        "geo" => Type::Geo,
        "rule" => Type::Rule,
        "rdate" => Type::RDate,
        "offset" => Type::Offset,
        "rstatus" => Type::RequestStatus,
        "trigger" => Type::Trigger,
        "period" => Type::Periods,
        "text" => return crate::gen_::text(style),
        "number" => return tape::choose(1 << 32).to_string(),
        _ => return doc::render(&doc::generate(kind, style).flat(), 0),
    };
    let text = doc::value_text(ty, style).1;
    if damaged && tape::chance(1, 8) {
        ctx::count("fault: damaged value");
        let other = doc::value_text(ty, style).1;
        return if tape::chance(1, 4) { c02::hostile_value(style) } else { c02::damage(&text, &other) };
    }
    text
}
