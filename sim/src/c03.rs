//! C03: any number of store-and-forward hops keeps the document.

use crate::doc::{self, Scan, Style};
use crate::host::{self, Host};
use crate::model::{self, Any, Node};
use crate::runner::Plan;
use crate::seam::Faults;
use crate::tz::Zone;
use crate::{ctx, event, gen_ as typed, tape};

pub const PLAN: Plan = Plan {
    property: "C03",
    scenario,
    quick: 60_000,
    thorough: 500_000,
    level: "exploration",
    rule: "A document - built field by field by a program, with hostile texts and parameters, or received from another \
           producer as text - goes through a chain of relays, each of which reads what is in its store, keeps it or \
           crashes before or while writing (a torn write, found again and refused at the restart, then retried), \
           re-folds it, delivers it twice, and forwards what it wrote to a host in another zone. After every hop, the \
           content is compared with the original, and from the second write on, the bytes with the previous ones. A \
           case is one hop; distinct by the bytes it wrote, non-trivial when the document has at least five \
           properties or components.",
    real: "ikal (readers, writers, typed components), chrono, std",
    stub: "store, transport, crashes, host zones, clocks and zone databases",
    assumptions: &[
        "not representable, hence not generated: sub-second durations, years after 9999, empty or mixed RDATE lists, \
         priorities over 9, alarms whose action is not that of their type, invalid property names",
        "when a host is not in UTC, instants themselves are not compared (C06, C07)",
    ],
};

/// Instants are the matter of C06 and C07.
pub fn without_instants(node: &Node) -> Node {
    let mut node = node.clone();
    for p in &mut node.props {
        if p.value.contains("instant ") {
            p.value = p
                .value
                .split("instant ")
                .enumerate()
                .map(|(i, s)| if i == 0 { s } else { s.trim_start_matches(|c: char| c == '-' || c == '.' || c.is_ascii_digit()) })
                .collect::<Vec<_>>()
                .join("instant");
        }
    }
    node.children = node.children.iter().map(without_instants).collect();
    node
}

fn without_seconds(node: &Node) -> Node {
    let mut node = node.clone();
    for p in &mut node.props {
        if let Some(offset) = p.value.strip_prefix("offset ") {
            let offset: i32 = offset.parse().unwrap();
            p.value = format!("offset {}", offset / 60 * 60);
        }
    }
    node.children = node.children.iter().map(without_seconds).collect();
    node
}

/// The first difference that is not a known one.
pub fn diff(expected: &Node, actual: &Node) -> Option<(&'static str, String)> {
    let diff = model::diff(expected, actual)?;
    if model::diff(&without_seconds(expected), actual).is_none() {
        ctx::finding("KF-3", &diff.1);
        return None;
    }
    Some(diff)
}

fn scenario() {
    let kind = model::KINDS[tape::pick(model::KINDS.len())];
    let mut style = Style::random();
    style.leap = tape::chance(1, 4);
    style.seconds = tape::chance(1, 8);
    // Hosts in UTC, where everything must be kept; or hosts anywhere, with or without instants.
    let mode = tape::pick(3);
    style.utc = mode != 1;
    style.near = mode == 2;
    let zone = || if mode == 0 { Zone::utc() } else { host::random_zone() };

    let mut source = Host::in_zone("source", zone());
    let faulty = tape::chance(1, 3);
    let view = |node: &Node| if mode == 2 { without_instants(node) } else { node.clone() };

    // The original, as a document in a store.
    let (original, mut store) = if tape::chance(1, 3) {
        let text = doc::render(&doc::generate(kind, &style).flat(), tape::choose(4) * 3);
        let Scan::Document(node) = doc::scan(kind, &text) else {
            ctx::harness(&format!("not a document: {text}"));
        };
        event!("received:\n{text}");
        (node, text)
    } else {
        let any = source.run("build", || typed::any(kind, &style));
        let node = source.run("view", || any.node());
        let text = source.run("write", || any.write());
        let text = text.unwrap_or_else(|e| ctx::violation("write failed", &format!("{kind}: {e}")));
        event!("built: {}\nwrote:\n{text}", node.text());
        (node, text)
    };
    let expected = view(&original);

    let mut written: Option<String> = None;
    let hops = 1 + tape::pick(4);
    for hop in 0..hops {
        let mut relay = Host::in_zone(["relay 1", "relay 2", "relay 3", "relay 4"][hop], zone());
        if faulty {
            relay.set_faults(Faults { open: tape::choose(64), read: tape::choose(64), short: tape::choose(256), stat: tape::choose(64), clock: tape::choose(64) });
        }

        let mut attempt = 0;
        let next = loop {
            attempt += 1;
            let read = |relay: &mut Host, store: &str| relay.run("read", || Any::read(kind, store));
            let any = read(&mut relay, &store)
                .unwrap_or_else(|e| ctx::violation("read failed", &format!("hop {hop}: {e}\n{store:?}")));
            let node = relay.run("view", || any.node());
            if let Some((class, message)) = diff(&expected, &view(&node)) {
                event!("hop {hop} reads:\n{store:?}");
                ctx::violation(&format!("changed: {class}"), &message);
            }

            if attempt < 3 && tape::chance(1, 6) {
                ctx::count("fault: crash before writing");
                relay.restart();
                continue;
            }
            let text = relay.run("write", || any.write());
            let text = text.unwrap_or_else(|e| ctx::violation("write failed", &format!("hop {hop}: {e}")));

            if attempt < 3 && tape::chance(1, 6) {
                ctx::count("fault: torn write");
                let cut = tape::pick(text.len() - 2);
                let torn = String::from_utf8_lossy(&text.as_bytes()[..cut]).into_owned();
                relay.restart();
                if !torn.contains("\r\n") || !torn.ends_with(&format!("END:{kind}")) {
                    if let Ok(any) = read(&mut relay, &torn) {
                        let node = relay.run("view", || any.node());
                        ctx::violation("torn write accepted", &format!("{torn:?} is read as {}", node.text()));
                    }
                }
                continue;
            }
            break text;
        };

        if hop == 0 {
            let (before, after) = (doc::lost_params(&store), doc::lost_params(&next));
            if before > after {
                ctx::finding("KF-4", &format!("{} parameters of dates, triggers or periods are lost:\n{store}", before - after));
            }
        }
        let nodes = original.size();
        ctx::case((nodes >= 5).then(|| ctx::fingerprint(&next)));

        // Instants move when hosts are not in UTC (KF-1): so do the bytes.
        if let Some(previous) = &written {
            if mode != 2 && *previous != next {
                event!("before:\n{previous}\nafter:\n{next}");
                ctx::violation("bytes changed", &format!("hop {hop} did not write the bytes it was given"));
            }
        }
        written = Some(next.clone());

        if tape::chance(1, 4) {
            ctx::count("fault: folded again by the transport");
            let lines = doc::unfold(&next);
            store = doc::render(&lines[..lines.len() - 1], 1 + tape::choose(40));
        } else {
            store = next;
        }
        if tape::chance(1, 6) {
            ctx::count("fault: delivered twice");
            store = format!("{store}{store}");
        }
    }
}
