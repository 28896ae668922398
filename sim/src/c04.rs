//! C04: a document is accepted whole or not at all.

use crate::doc::{self, Scan, Style, Type};
use crate::host::{self, Host};
use crate::model::{self, Any, Node};
use crate::runner::Plan;
use crate::{c03, ctx, event, tape};

pub const PLAN: Plan = Plan {
    property: "C04",
    scenario,
    quick: 12_000,
    thorough: 400_000,
    level: "exploration",
    rule: "A stored document suffers faults that leave whole lines and characters: lines lost, written twice, swapped, \
           merged, spliced from another document, components moved, values cut, extended or replaced by those of \
           other properties, characters changed. Each damaged document is read by the code under test, and by an \
           independent line-oriented reader: when it is accepted, every line must be in the result, and a document \
           with a line that cannot be read must be refused. A case is one damaged document, distinct by its bytes; \
           non-trivial when the reader had an opinion.",
    real: "ikal (readers of every component kind), chrono, std",
    stub: "store and its faults, host zone and clock",
    assumptions: &["the independent reader has no opinion on what neither the standard nor ikal specifies (bare line endings, leap seconds, unclosed quotes, exotic numbers)"],
};

const TYPES: [Type; 20] = [
    Type::Text,
    Type::TextList,
    Type::Uri,
    Type::DateTime,
    Type::Date,
    Type::DateList,
    Type::Duration,
    Type::U8,
    Type::Priority,
    Type::U32,
    Type::Class,
    Type::Status,
    Type::Transp,
    Type::Geo,
    Type::Rule,
    Type::RequestStatus,
    Type::RDate,
    Type::Periods,
    Type::Offset,
    Type::Trigger,
];

const SUFFIXES: [&str; 24] = [
    "x", " ", "Z", ",", ";", "0", "/", "garbage", "T", "\\", ",x", ";x", ";COUNT=2", "000000", ":", "-", ".5", "\u{e9}", "P", "T00", ";FREQ=", ",,", "\"", "1",
];

fn damage(lines: &mut Vec<String>, other: &[String], style: &Style) {
    let n = lines.len();
    let i = tape::pick(n);

    match tape::choose(18) {
        0 => {
            ctx::count("fault: line lost");
            lines.remove(i);
        }
        1 => {
            ctx::count("fault: line twice");
            let line = lines[i].clone();
            lines.insert(tape::pick(n + 1), line);
        }
        2 => {
            ctx::count("fault: lines swapped");
            lines.swap(i, tape::pick(n));
        }
        3 if n > 1 => {
            ctx::count("fault: lines merged");
            let i = tape::pick(n - 1);
            let next = lines.remove(i + 1);
            lines[i].push_str(&next);
        }
        4 => {
            ctx::count("fault: line from another document");
            lines.insert(i, tape::of(other).clone());
        }
        5..=7 => {
            ctx::count("fault: value replaced");
            if let Some((name, _)) = lines[i].split_once(':').map(|(a, b)| (a.to_string(), b.to_string())) {
                let (_, value) = doc::value_text(TYPES[tape::pick(TYPES.len())], style);
                lines[i] = format!("{name}:{value}");
            }
        }
        8 => {
            ctx::count("fault: line cut");
            let mut at = tape::pick(lines[i].len() + 1);
            while !lines[i].is_char_boundary(at) {
                at -= 1;
            }
            lines[i].truncate(at);
        }
        9 | 10 => {
            ctx::count("fault: bytes after a value");
            let suffix = tape::of(&SUFFIXES);
            lines[i].push_str(suffix);
        }
        11 | 12 => {
            ctx::count("fault: character changed");
            let chars: Vec<char> = lines[i].chars().collect();
            if !chars.is_empty() {
                let at = tape::pick(chars.len());
                let new = ['0', '9', '1', 'A', 'x', '-', ':', ';', ',', '=', '"', ' ', '/', 'T', 'Z', '\\', '\u{e9}', 'P', '+', '.'][tape::pick(20)];
                lines[i] = chars.iter().enumerate().map(|(j, c)| if j == at { new } else { *c }).collect();
            }
        }
        13 => {
            ctx::count("fault: characters lost");
            let chars: Vec<char> = lines[i].chars().collect();
            if !chars.is_empty() {
                let at = tape::pick(chars.len());
                let len = 1 + tape::pick(4);
                lines[i] = chars.iter().enumerate().filter(|(j, _)| *j < at || *j >= at + len).map(|x| *x.1).collect();
            }
        }
        14 => {
            ctx::count("fault: foreign line");
            let line = ["", "garbage", "X-Y", "X-Y:", ":", "X-Y;A:b", "X-Y;A=:b", "X Y:b", "BEGIN:VEVENT", "END:VEVENT", "BEGIN:X-COMP", "END:VALARM", "COLOR;A=\"b\"c:d", "X-Y;A=b;A=c:d", "BEGIN", "END:", "X-Z;A=\"b:c;d,e\":f:g;h", "RRULE:FREQ=DAILY", "BEGIN:VALARM"][tape::pick(19)];
            lines.insert(i, line.to_string());
        }
        15 => {
            // A block moved, or written twice.
            ctx::count("fault: block moved");
            let end = std::cmp::min(n, i + 1 + tape::pick(8));
            let block: Vec<String> = lines[i..end].to_vec();
            if tape::chance(1, 2) {
                lines.drain(i..end);
            }
            let at = tape::pick(lines.len() + 1);
            lines.splice(at..at, block);
        }
        16 => {
            ctx::count("fault: property renamed");
            if let Some(at) = lines[i].find([':', ';']) {
                let rows = doc::table(["VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "STANDARD", "EMAIL"][tape::pick(6)]);
                lines[i] = format!("{}{}", tape::of(rows).0, &lines[i][at..]);
            }
        }
        _ => {
            ctx::count("fault: parameter damaged");
            if let Some(at) = lines[i].find([':', ';']) {
                let param = [";X=1", ";VALUE=PERIOD", ";VALUE=DATE", ";X", ";X=\"a:b\"", ";X=\"a", ";=b", ";X=a\"b", ";CN=a,b", ";X=\"a\"b", ";x=\"\""][tape::pick(11)];
                lines[i].insert_str(at, param);
            }
        }
    }
}

fn scenario() {
    let kind = model::KINDS[tape::pick(model::KINDS.len())];
    let mut style = Style::random();
    style.leap = tape::chance(1, 4);
    style.seconds = tape::chance(1, 8);
    let document = style;
    style.odd = true;
    let lines = doc::generate(kind, &document).flat();
    let other = doc::generate(model::KINDS[tape::pick(model::KINDS.len())], &style).flat();
    let mut reader = Host::in_zone("reader", host::random_zone());
    event!("document:\n{}", lines.join("\n"));

    let mut stores = Vec::new();
    for _ in 0..24 {
        let mut damaged = lines.clone();
        for _ in 0..1 + tape::choose(3) {
            if !damaged.is_empty() {
                damage(&mut damaged, &other, &style);
            }
        }
        let fold = tape::choose(3) * 5;
        stores.push(doc::render(&damaged, fold));
    }

    let results: Vec<Result<Node, String>> = reader.run_within("read", u64::MAX, || {
        stores.iter().map(|x| Any::read(kind, x).map(|x| x.node()).map_err(|e| e.to_string().chars().take(80).collect())).collect()
    });

    for (store, result) in stores.iter().zip(results) {
        let scan = doc::scan(kind, store);
        let opinion = !matches!(scan, Scan::Unknown(_));
        ctx::case(opinion.then(|| ctx::fingerprint(store)));

        match (scan, result) {
            (Scan::Unknown(_), _) => ctx::count("probe: no opinion"),
            (Scan::Rejected(_), Err(_)) => ctx::count("probe: refused"),
            (Scan::Document(_), Err(_)) => ctx::count("probe: refused though well-formed"),
            (Scan::Rejected(reason), Ok(node)) => {
                event!("store:\n{store:?}");
                ctx::violation("unreadable document accepted", &format!("{reason}, and is read as {}", node.text()));
            }
            (Scan::Document(expected), Ok(node)) => {
                ctx::count("probe: accepted");
                if let Some((class, message)) = c03::diff(&expected, &node) {
                    event!("store:\n{store:?}");
                    ctx::violation(&format!("accepted in part: {class}"), &message);
                }
            }
        }
    }
}
