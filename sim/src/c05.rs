//! C05: written documents are well-formed, and folding never changes what is read.

use crate::doc::{self, Scan, Style, Type};
use crate::host::{self, Host};
use crate::model::{self, Any};
use crate::runner::Plan;
use crate::{c03, ctx, event, gen_ as typed, tape};

pub const PLAN: Plan = Plan {
    property: "C05",
    scenario,
    quick: 30_000,
    thorough: 900_000,
    level: "exploration",
    rule: "A program on a simulated host builds a document field by field with hostile texts and parameters, and writes \
           it. An independent strict reader checks every octet of the result, and must recover exactly the content \
           that was built. A transport then folds the same lines at other places, several times, in chunks of which \
           some are sent again, and a reader on another host must read the same document each time. A case is one \
           written or re-folded document, distinct by its bytes; non-trivial when at least one line is folded or one \
           value needs escaping or quoting.",
    real: "ikal (writers, readers, typed components), chrono, std",
    stub: "transport, host zones and clocks",
    assumptions: &["a written line has at most 76 octets: the line folding of ikal puts 75 after the leading space"],
};

/// What is wrong with the octets of a document.
fn malformed(kind: &str, text: &str) -> Option<String> {
    if !text.ends_with("\r\n") {
        return Some("does not end with a line break".to_string());
    }
    for line in text[..text.len() - 2].split("\r\n") {
        if line.contains(['\r', '\n']) {
            return Some(format!("bare line break in {line:?}"));
        }
        if line.len() > 76 {
            return Some(format!("line of {} octets: {line:?}", line.len()));
        }
        if line.is_empty() {
            return Some("empty line".to_string());
        }
    }

    let mut stack: Vec<String> = Vec::new();
    let lines = doc::unfold(text);
    for line in &lines[..lines.len() - 1] {
        if let Some(kind) = line.strip_prefix("BEGIN:") {
            stack.push(kind.to_string());
        } else if let Some(kind) = line.strip_prefix("END:") {
            if stack.pop().as_deref() != Some(kind) {
                return Some(format!("unbalanced END:{kind}"));
            }
        } else if let Some(e) = malformed_line(stack.last().map_or(kind, String::as_str), line) {
            return Some(e);
        }
    }
    (!stack.is_empty()).then(|| format!("not closed: {stack:?}"))
}

/// RFC 5545, 3.1, strictly.
fn malformed_line(kind: &str, line: &str) -> Option<String> {
    let name_end = line.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-')).unwrap_or(line.len());
    if name_end == 0 {
        return Some(format!("no name in {line:?}"));
    }
    let name = &line[..name_end];
    let mut rest = &line[name_end..];
    while let Some(param) = rest.strip_prefix(';') {
        let Some((key, value)) = param.split_once('=') else {
            return Some(format!("parameter in {line:?}"));
        };
        if key.is_empty() || !key.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
            return Some(format!("parameter name in {line:?}"));
        }
        let end = if let Some(quoted) = value.strip_prefix('"') {
            match quoted.find('"') {
                Some(end) => end + 2,
                None => return Some(format!("quote in {line:?}")),
            }
        } else {
            let end = value.find([';', ':', ',', '"']).unwrap_or(value.len());
            if value[end..].starts_with([',', '"']) {
                return Some(format!("parameter not quoted in {line:?}"));
            }
            end
        };
        rest = &value[end..];
    }
    let Some(value) = rest.strip_prefix(':') else {
        return Some(format!("no value in {line:?}"));
    };

    let rows = if kind == "VALARM" { ["AUDIO", "DISPLAY", "EMAIL"].iter().flat_map(|x| doc::table(x)).collect() } else { doc::table(kind).iter().collect::<Vec<_>>() };
    let ty = rows.iter().find(|x| x.0 == name).map_or(Type::Raw, |x| x.1);
    let mut chars = value.chars();
    let bare: &[char] = match ty {
        Type::Text => &[',', ';'],
        Type::TextList => &[';'],
        _ => return None,
    };
    while let Some(c) = chars.next() {
        if c == '\\' && !matches!(chars.next(), Some('\\' | ';' | ',' | 'n' | 'N')) {
            return Some(format!("backslash not escaped in {line:?}"));
        }
        if bare.contains(&c) {
            return Some(format!("{c:?} not escaped in {line:?}"));
        }
    }
    None
}

fn scenario() {
    let kind = model::KINDS[tape::pick(model::KINDS.len())];
    let mut style = Style::random();
    style.leap = tape::chance(1, 4);
    style.seconds = tape::chance(1, 8);
    let mut writer = Host::in_zone("writer", host::random_zone());

    let any = writer.run("build", || typed::any(kind, &style));
    let built = writer.run("view", || any.node());
    event!("built: {}", built.text());
    let text = writer.run("write", || any.write());
    let text = text.unwrap_or_else(|e| ctx::violation("write failed", &e.to_string()));
    event!("wrote:\n{text}");

    let hard = |text: &str| text.contains(['\\', '"']) || text.contains("\r\n ") || text.contains("\r\n\t");
    ctx::case(hard(&text).then(|| ctx::fingerprint(&text)));

    if let Some(e) = malformed(kind, &text) {
        ctx::violation("malformed", &e);
    }
    let expected = c03::without_instants(&built);
    match doc::scan(kind, &text) {
        Scan::Document(node) => {
            if let Some((class, message)) = model::diff(&expected, &c03::without_instants(&node)) {
                ctx::violation(&format!("another reader recovers something else: {class}"), &message);
            }
        }
        Scan::Rejected(e) => ctx::violation("another reader refuses it", &e),
        Scan::Unknown(_) => ctx::count("probe: the strict reader has no opinion"),
    }

    // What the reader gives for the lines as written, then folded in other ways.
    let mut reader = Host::in_zone("reader", host::random_zone());
    let reference = reader.run("read", || Any::read(kind, &text).map(|x| x.node()));
    let reference = reference.unwrap_or_else(|e| ctx::violation("written document refused", &e.to_string()));
    if let Some((class, message)) = c03::diff(&expected, &c03::without_instants(&reference)) {
        ctx::violation(&format!("read as something else: {class}"), &message);
    }

    let lines = doc::unfold(&text);
    for _ in 0..1 + tape::choose(4) {
        ctx::count("fault: folded elsewhere");
        let every = [0, 1, 4, 20, 100, 200][tape::pick(6)];
        let folded = doc::render(&lines[..lines.len() - 1], every);
        let folded = transport(&folded);
        ctx::case(hard(&folded).then(|| ctx::fingerprint(&folded)));
        match reader.run("read", || Any::read(kind, &folded).map(|x| x.node())) {
            Err(e) => {
                event!("folded:\n{folded:?}");
                ctx::violation("refused once folded elsewhere", &e.to_string());
            }
            Ok(node) => {
                if let Some((class, message)) = model::diff(&reference, &node) {
                    event!("folded:\n{folded:?}");
                    ctx::violation(&format!("folding changes what is read: {class}"), &message);
                }
            }
        }
    }
}

/// Chunks cut anywhere, reordered and sent again, put back together by their offset.
fn transport(text: &str) -> String {
    let bytes = text.as_bytes();
    let mut chunks = Vec::new();
    let mut at = 0;
    while at < bytes.len() {
        let n = std::cmp::min(bytes.len() - at, 1 + tape::pick(700));
        chunks.push((at, &bytes[at..at + n]));
        at += n;
    }
    if tape::chance(1, 2) {
        let i = tape::pick(chunks.len());
        let again = chunks[i];
        ctx::count("fault: chunk sent again");
        chunks.push(again);
    }
    let n = chunks.len();
    for _ in 0..tape::choose(4) {
        ctx::count("fault: chunks reordered");
        chunks.swap(tape::pick(n), tape::pick(n));
    }
    let mut received = vec![0; bytes.len()];
    for (at, chunk) in chunks {
        received[at..at + chunk.len()].copy_from_slice(chunk);
    }
    String::from_utf8(received).unwrap()
}
