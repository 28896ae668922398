//! C01: a cut document is rejected; a complete one is read whatever follows it.

use crate::doc::{self, Scan, Style};
use crate::host::{self, Host};
use crate::model::{self, Any, Node};
use crate::runner::Plan;
use crate::{ctx, event, tape};

pub const PLAN: Plan = Plan {
    property: "C01",
    scenario,
    quick: 6_000,
    thorough: 120_000,
    level: "fault_enumeration",
    rule: "A writer stores a generated document (any of the 12 kinds, any properties, folded anywhere) on a simulated \
           disk and crashes. Every crash point (each byte of documents of up to 1,500 bytes, each byte around line \
           ends and a sample of the others in longer ones) is enumerated, with what the disk may show there: the cut \
           text, zeros, or the bytes of an older version as long as they do not close the document; then the complete \
           document followed by stale bytes. Every store is read by the code under test on a host in some zone. A \
           case is one store; it is non-trivial when more than the BEGIN line was stored, and distinct by its bytes.",
    real: "ikal (readers of every component kind), chrono, std",
    stub: "disk, crash, host zone and clock",
    assumptions: &["stale bytes after a complete document do not start with a space or a tab (they would unfold)"],
};

/// What a reader does with a store.
#[derive(Clone, Copy, PartialEq)]
enum Expected {
    Rejected,
    /// Read as the whole document.
    Whole,
    /// The closing line is stored, but not its end: either.
    Either,
}

fn hash(bytes: &[u8]) -> u64 {
    bytes.iter().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3))
}

fn scenario() {
    let kind = model::KINDS[tape::pick(model::KINDS.len())];
    let mut style = Style::random();
    style.leap = tape::chance(1, 4);
    let fold = tape::choose(4) * 3;
    let text = doc::render(&doc::generate(kind, &style).flat(), fold);
    let old = doc::render(&doc::generate(kind, &Style::random()).flat(), tape::choose(3));

    let mut reader = Host::in_zone("reader", host::random_zone());
    event!("document ({} bytes):\n{text}", text.len());

    let Scan::Document(whole) = doc::scan(kind, &text) else {
        ctx::harness(&format!("not a document: {:?}", doc::scan(kind, &text)));
    };

    // Where the closing line starts, and where its name is complete.
    let closing = format!("END:{kind}\r\n");
    let closed = text.len();
    let named = closed - 2;

    let mut stores: Vec<(String, Expected)> = Vec::new();
    let bytes = text.as_bytes();
    let all = closed <= 1_500;
    for p in 0..closed {
        let near = bytes[p.saturating_sub(2)..std::cmp::min(p + 3, closed)].contains(&b'\n');
        if !all && !near && !tape::chance(1, 8) {
            continue;
        }
        // As many bytes to read in the longest documents as in those of 6,000 bytes.
        if closed > 6_000 && !tape::chance(1, (closed as u64 / 6_000).pow(2) + 1) {
            continue;
        }
        let expected = if p < named || kind != "VCALENDAR" { Expected::Rejected } else { Expected::Either };
        let cut = String::from_utf8_lossy(&bytes[..p]).into_owned();

        if p % 7 == 3 {
            // The rest of the sector was never written.
            ctx::count("fault: unwritten sector");
            stores.push((format!("{cut}{}", "\0".repeat(512 - p % 512)), expected));
        }
        if p % 5 == 2 && p < named && old.is_char_boundary(std::cmp::min(p, old.len())) {
            // An older version shows behind the crash point; it must not happen to close the document.
            let stale = old.get(p..).unwrap_or_default();
            let stale = stale.split("END:").next().unwrap();
            let stale = stale.strip_suffix("\r\n").unwrap_or(stale);
            let mixed = format!("{cut}{stale}");
            if !stale.is_empty() && !doc::unfold(&mixed).iter().any(|x| x.contains(closing.trim_end())) {
                ctx::count("fault: torn over an older version");
                stores.push((mixed, Expected::Rejected));
            }
        }
        ctx::count("fault: crash while writing");
        stores.push((cut, expected));
    }

    // Complete, then whatever the disk had there.
    stores.push((text.clone(), Expected::Whole));
    let mut tails = vec!["\0".repeat(512), old.clone(), text.clone(), closing.clone(), "\r\n\r\n".to_string(), "BEGIN:".to_string()];
    for _ in 0..4 {
        let at = tape::pick(old.len());
        tails.push(String::from_utf8_lossy(&old.as_bytes()[at..]).into_owned());
        let at = tape::pick(closed);
        tails.push(String::from_utf8_lossy(&bytes[at..]).into_owned());
    }
    for tail in tails {
        if !tail.starts_with([' ', '\t']) {
            ctx::count("fault: stale bytes after the end");
            stores.push((format!("{text}{tail}"), Expected::Whole));
        }
    }

    let read = |store: &str| Any::read(kind, store).map(|x| x.node());
    let results: Vec<Result<Node, String>> = reader.run_within("read", u64::MAX, || {
        stores.iter().map(|(store, _)| read(store).map_err(|e| e.to_string().chars().take(40).collect())).collect()
    });

    let begin = kind.len() + 8;
    for ((store, expected), result) in stores.iter().zip(results) {
        ctx::case((store.len() > begin).then(|| hash(store.as_bytes())));

        match (expected, result) {
            (Expected::Rejected, Ok(node)) => {
                event!("store ({} of {closed} bytes):\n{store:?}", store.len());
                ctx::violation("cut document accepted", &format!("{kind} cut at {} of {closed} bytes is read as {}", store.len(), node.text()));
            }
            (Expected::Rejected | Expected::Either, Err(_)) => (),
            (Expected::Whole, Err(e)) => {
                event!("store ({} of {closed} bytes):\n{store:?}", store.len());
                ctx::violation("complete document rejected", &format!("{kind}: {e}"));
            }
            (Expected::Whole | Expected::Either, Ok(node)) => {
                if let Some((class, message)) = model::diff(&whole, &node) {
                    event!("store ({} of {closed} bytes):\n{store:?}", store.len());
                    ctx::violation(&format!("complete document misread: {class}"), &message);
                }
            }
        }
    }
}
