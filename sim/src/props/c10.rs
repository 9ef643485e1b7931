//! C10: damaged and hostile bytes end in data or a located error, in bounded
//! work and memory, and every way of reading agrees about which.

use super::util::*;
use super::Prop;
use crate::asked::{self, Ask, Asked};
use crate::alloc;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{lock, shared, ReadStats, SimReader};
use crate::model::{Model, ReadPlan, Reader};
use crate::targets::{draw_target, failure, get, outcome, Failure, Outcome, Target};
use serde::de::{DeserializeSeed, IgnoredAny};
use serde::Deserialize;
use serde_yaml::{Deserializer, Value};
use std::cell::Cell;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C10",
    run,
    leaks: true,
    quick_runs: 50_000,
    rule: "one run = one input, either a good stream after storage damage (torn, flipped, lost, duplicated, zeroed, \
           reordered blocks, stray YAML tokens) or a hostile one (alias bombs, self-references, deep nesting, endless \
           documents, oversized tokens, token soup), read as a stream through a fragmenting reader and from memory, \
           into a generic, a typed and an ignoring consumer that count callbacks and live bytes; non-trivial = \
           damaged or hostile; distinct = digest of the event sequence",
    state_measure: "hash of (input kind, error message class, position of the damage, consumer)",
    real: REAL,
    stub: &["io::Read implementation (SimReader)", "storage (damage injection)", "global allocator (counts, then forwards to the system's)"],
    assumptions: &[
        "work is bounded by the library's own rule: at most 100 alias jumps per event of the document, each replaying at most the document",
        "an undecodable or forbidden byte may be reported up to one parser block (16 KiB) ahead of its document",
    ],
};

#[derive(Debug)]
struct Input {
    bytes: Vec<u8>,
    what: &'static str,
    /// Most visitor callbacks one document may legally cause.
    work: u64,
    /// Nesting that must still be readable / must be refused.
    must_read: bool,
    must_fail: bool,
    /// Documents that end before the damage.
    intact: Vec<Model>,
}

const FLAT: u64 = 30_000_000;

fn run() {
    let input = draw();
    ctx::nontrivial();
    ctx::note(|| format!("{}: {}", input.what, clip(&input.bytes)));
    ctx::ev("input", ctx::hash_bytes(&input.bytes), input.bytes.len() as u64);
    let data = Arc::new(input.bytes.clone());
    let limit = 40.max(input.intact.len() + 1);

    // 1. The ignoring consumer: what the loader itself makes of it.
    let ((loaded, ended), peak) = alloc::peak(|| {
        let mut out = Vec::with_capacity(limit);
        let mut n = 0usize;
        let mut failures = 0;
        for d in Deserializer::from_slice(&data) {
            n += 1;
            let r = IgnoredAny::deserialize(d).err().map(|e| failure(&e));
            // A stream that has failed goes on failing, by design.
            if r.as_ref().map_or(false, |f| !f.display.contains("unknown anchor")) {
                failures += 1;
            }
            if out.len() < limit {
                out.push(r);
            }
            if failures == 3 {
                return (out, false);
            }
            if n > data.len() + 2 {
                ctx::violate("endless", || format!("more than {n} documents in {} bytes", data.len()));
                break;
            }
        }
        let ended = n == out.len();
        (out, ended)
    });
    check!(
        peak <= 200_000 + 1200 * data.len() as i64,
        "memory",
        "ignoring {} bytes ({}) took {peak} bytes of memory",
        data.len(),
        input.what
    );
    if ctx::violated() {
        return;
    }
    for f in loaded.iter().flatten() {
        located(&input, f);
    }
    // A syntax error ends the stream.
    for (i, f) in loaded.iter().enumerate() {
        if let Some(f) = f {
            check!(
                !loaded[i + 1..].iter().any(Option::is_none) || f.display.contains("unknown anchor"),
                "after-error",
                "document {i} ends with {:?}, yet a later document was read",
                f.display
            );
        }
    }

    // 2. A generic consumer that counts, through a fragmenting reader.
    let stats = shared(ReadStats::default());
    let rdr = SimReader::new(Arc::clone(&data), chop(), None, &stats);
    let mut generic: Vec<Result<Model, Failure>> = Vec::new();
    let mut it = Deserializer::from_reader(rdr);
    for (i, d) in it.by_ref().take(loaded.len()).enumerate() {
        let r = Reader::new(ReadPlan {
            budget: input.work,
            // The bytes of a reader are gone by the time the caller looks.
            input: Some((0, 0)),
            ..ReadPlan::default()
        });
        let c = r.c.clone();
        let res = r.deserialize(d);
        check!(
            !c.over_budget.get(),
            "work",
            "document {i} ({}): more than {} callbacks for {} bytes",
            input.what,
            input.work,
            data.len()
        );
        if ctx::violated() {
            return;
        }
        generic.push(res.map_err(|e| failure(&e)));
    }
    let more = it.next().is_some();
    check!(!(ended && more), "count", "a reader gives more than the {} documents of the same bytes in memory", loaded.len());
    drop(it);
    check!(lock(&stats).drops == 1, "drops", "the reader was dropped {} times", lock(&stats).drops);
    check!(
        generic.len() == loaded.len(),
        "count",
        "{} documents through a reader, {} from the same bytes in memory",
        generic.len(),
        loaded.len()
    );
    for (i, (g, l)) in generic.iter().zip(&loaded).enumerate() {
        match (g, l) {
            (Ok(_), Some(l)) => ctx::violate("invented", || {
                format!("document {i} cannot be loaded ({:?}) but was read as data", l.display)
            }),
            (Err(g), Some(l)) => check!(
                g == l || limits(g),
                "differs",
                "document {i}: the error is {:?} for one consumer and {:?} for another",
                g,
                l
            ),
            (Err(g), None) => {
                check!(
                    limits(g),
                    "spurious-error",
                    "document {i} is well-formed, yet a consumer that takes anything was told {:?}",
                    g.display
                );
                located(&input, g);
            }
            (Ok(_), None) => {}
        }
    }
    for (i, want) in input.intact.iter().enumerate() {
        match generic.get(i) {
            Some(Ok(m)) if m == want => {}
            other => ctx::violate("collateral", || {
                format!(
                    "document {i} ends before the damage; it was {:.200}, it reads {:.200}",
                    format!("{want:?}"),
                    format!("{other:?}")
                )
            }),
        }
    }
    if input.must_read {
        check!(
            generic.iter().all(Result::is_ok),
            "refused",
            "{}: a document within the limits was refused: {:?}",
            input.what,
            generic.iter().find(|g| g.is_err())
        );
    }
    if input.must_fail {
        check!(
            generic.iter().any(Result::is_err),
            "unlimited",
            "{}: a document beyond every limit was accepted",
            input.what
        );
    }
    if ctx::violated() {
        return;
    }

    // The same from memory; what it borrows lies in that memory.
    if input.work <= 5_000_000 || input.work == FLAT && data.len() < 5_000 {
        let at = data.as_ptr() as usize;
        for (i, d) in Deserializer::from_slice(&data).take(loaded.len()).enumerate() {
            let r = Reader::new(ReadPlan {
                input: Some((at, at + data.len())),
                ..ReadPlan::default()
            });
            let res = r.deserialize(d).map_err(|e| failure(&e));
            check!(
                Some(&res) == generic.get(i),
                "differs",
                "document {i}: {:.200} from memory, {:.200} through a reader",
                format!("{res:?}"),
                format!("{:?}", generic.get(i))
            );
        }
    }
    if ctx::violated() {
        return;
    }

    // 3. Value and a typed consumer.
    let (values, peak) = alloc::peak(|| {
        Deserializer::from_slice(&data)
            .take(loaded.len())
            .map(|d| Value::deserialize(d).map_err(|e| failure(&e)))
            .collect::<Vec<Result<Value, Failure>>>()
    });
    check!(
        peak <= 1_000_000 + 2000 * data.len() as i64 + (input.work.min(3_000_000) * 1000) as i64,
        "memory",
        "reading {} bytes ({}) into Values took {peak} bytes of memory",
        data.len(),
        input.what
    );
    for (i, v) in values.iter().enumerate() {
        match (v, generic.get(i)) {
            (Ok(v), Some(Ok(m))) => check!(
                Model::from_value(v) == *m || Model::from_value(v) == one_bang_less(m),
                "content",
                "document {i}: as a Value {:.200}, through a visitor {:.200}",
                format!("{:?}", Model::from_value(v)),
                format!("{m:?}")
            ),
            (Ok(v), other) => ctx::violate("content", || {
                format!("document {i}: as a Value {v:?}, through a visitor {other:?}")
            }),
            (Err(f), _) => located(&input, f),
        }
    }
    let target = draw_target();
    if input.work <= 5_000_000 || !matches!(target, Target::VecModel | Target::MapModel | Target::OptModel | Target::Tuple) {
        typed(&input, target, &data, loaded.len());
    }
    if !ctx::violated() {
        again(&values, target);
    }
    if !ctx::violated() {
        ask(&data, &generic, &values);
    }
    for f in loaded.iter().flatten().chain(generic.iter().filter_map(|g| g.as_ref().err())) {
        let class: String = f.display.split(" at line").next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).collect();
        ctx::state(ctx::fold(ctx::hash_bytes(class.as_bytes()), ctx::hash_bytes(input.what.as_bytes())));
    }
}

/// What a consumer that takes anything may be told before, or instead of, the
/// end of the document's events.
fn limits(f: &Failure) -> bool {
    ["recursion limit exceeded", "repetition limit exceeded", "invalid value: string"]
        .iter()
        .any(|m| f.display.contains(m))
}

fn kind_of(m: &Model) -> u64 {
    match m {
        Model::Null => 0,
        Model::Bool(_) => 1,
        Model::Int(neg, n) => 2 + *neg as u64 + (*n > u64::MAX as u128) as u64 * 2,
        Model::Float(_) => 6,
        _ => 7,
    }
}

fn reader_error(f: &Failure) -> bool {
    // The scanner, too, speaks of UTF-8 ("found an incorrect trailing UTF-8
    // octet", of a %xx in a tag), and knows where it is.
    let said = |m: &str| f.display.contains(m);
    said("control characters are not allowed") || (said("UTF-8") && (said("invalid ") || said("incomplete ")) && !said("found an incorrect"))
}

fn typed(input: &Input, target: Target, data: &Arc<Vec<u8>>, n: usize) {
    let text = std::str::from_utf8(data).ok();
    // As one document through each entry point.
    let a = get(target, Deserializer::from_slice(data));
    let stats = shared(ReadStats::default());
    let b = get(target, Deserializer::from_reader(SimReader::new(Arc::clone(data), chop(), None, &stats)));
    check!(a == b, "differs", "{target:?}: from_slice gives {}, from_reader {}", a.brief(), b.brief());
    if let Some(t) = text {
        let c = get(target, Deserializer::from_str(t));
        check!(a == c, "differs", "{target:?}: from_slice gives {}, from_str {}", a.brief(), c.brief());
    }
    // As the first document of a stream.
    if let Some(d) = Deserializer::from_slice(data).next() {
        match get(target, d) {
            Outcome::Ok(first) if n == 1 => {
                check!(a == Outcome::Ok(first.clone()), "differs", "{target:?}: the only document of the stream gives {first:.300}, from_slice {}", a.brief())
            }
            Outcome::Ok(_) => {}
            first => check!(a == first, "differs", "{target:?}: the first document of the stream gives {}, from_slice {}", first.brief(), a.brief()),
        }
    }
    if let Outcome::Err(f) = &a {
        located(input, f);
    }
    check!(
        !a.is_ok() || n <= 1,
        "more-documents",
        "{target:?}: {n} documents were read as a single one: {}",
        a.brief()
    );
    ctx::state(ctx::fold(a.is_ok() as u64, target as u64));
}

/// Asks for one scalar of a document as some type: what it was for a consumer
/// that takes anything decides what it may be now.
fn ask(data: &[u8], generic: &[Result<Model, Failure>], values: &[Result<Value, Failure>]) {
    let tags = data.contains(&b'!');
    for (i, g) in generic.iter().enumerate().take(4) {
        let Ok(m) = g else { continue };
        if m.count() > 1000 {
            continue;
        }
        let n = asked::scalars(m);
        if n == 0 {
            continue;
        }
        for _ in 0..2 {
            let (at, kind) = (gen::idx(n), *gen::one(&asked::ASKS));
            let from_value = matches!(values.get(i), Some(Ok(_))) && gen::chance(1, 3);
            let mut nth = at;
            let one = asked::scalar(m, &mut nth).unwrap();
            let mut want = asked::expect(one, kind, from_value, tags);
            if kind == Ask::Newtype && m.depth() > 100 {
                // A newtype counts as a level of nesting.
                want = None;
            }
            let seen = Cell::new(0);
            let asked = Asked {
                m,
                seen: &seen,
                at,
                ask: kind,
            };
            let got = if from_value {
                let v = values[i].as_ref().unwrap();
                if gen::chance(1, 2) {
                    asked.deserialize(v.clone())
                } else {
                    asked.deserialize(v)
                }
            } else {
                asked.deserialize(Deserializer::from_slice(data).nth(i).unwrap())
            };
            ctx::ev("ask", kind as u64, got.is_ok() as u64);
            ctx::state(ctx::fold(kind as u64 * 8 + from_value as u64, kind_of(one)));
            let got = got.ok();
            match (want, &got) {
                (None, _) => {}
                (Some(None), None) => {}
                (Some(None), Some(_)) => {
                    let mut nth = at;
                    let now = asked::scalar(got.as_ref().unwrap(), &mut nth);
                    ctx::violate("typed", || {
                        format!("document {i}: a scalar that is {one:?} to a generic consumer was accepted as {kind:?}: {now:?} (from a Value: {from_value})")
                    })
                }
                (Some(Some(_)), None) => ctx::violate("typed", || {
                    format!("document {i}: a scalar that is {one:?} to a generic consumer was refused as {kind:?} (from a Value: {from_value})")
                }),
                (Some(Some(_)), Some(now)) => check!(
                    now == m,
                    "typed",
                    "document {i}: asking for the scalar {one:?} as {kind:?} (from a Value: {from_value}) gives {:.300} instead of {:.300}",
                    format!("{now:?}"),
                    format!("{m:?}")
                ),
            }
            if ctx::violated() {
                return;
            }
        }
    }
}

/// What could be read can be written and read again.
fn again(values: &[Result<Value, Failure>], _target: Target) {
    for v in values.iter().take(3).flatten() {
        let m = Model::from_value(v);
        if m.count() > 20_000 {
            continue;
        }
        // libyaml writes the characters , [ ] of a tag as they are, where its
        // own scanner does not take them.
        let mut plain = m.clone();
        if flow_tags(&mut plain) {
            let Some(p) = plain.to_value() else { continue };
            rewritten(&p, &plain, "");
            if !ctx::violated() {
                ctx::probe("flow-indicator-in-tag");
                rewritten(v, &m, " (a tag contains one of , [ ] and nothing else is wrong)");
            }
        } else {
            rewritten(v, &m, "");
        }
    }
}

fn rewritten(v: &Value, m: &Model, why: &str) {
    match serde_yaml::to_string(v) {
        Ok(s) => {
            let back = outcome(serde_yaml::from_str::<Model>(&s));
            check!(
                back == Outcome::Ok(format!("{m:?}")),
                "rewrite",
                "a Value that was read is written as {:.300} and comes back as {} instead of {:.300}{why}",
                s,
                back.brief(),
                format!("{m:?}")
            );
        }
        Err(e) => ctx::violate("rewrite", || format!("a Value that was read cannot be written: {e}: {v:?}{why}")),
    }
}

/// The same content for a `Tag`, to which one leading `!` means nothing
/// (`!%21x` reaches a visitor as `!x`).
fn one_bang_less(m: &Model) -> Model {
    match m {
        Model::Tagged(t, v) => Model::Tagged(t.strip_prefix('!').unwrap_or(t).to_owned(), Box::new(one_bang_less(v))),
        Model::Seq(v) => Model::Seq(v.iter().map(one_bang_less).collect()),
        Model::Map(v) => Model::Map(v.iter().map(|(k, v)| (one_bang_less(k), one_bang_less(v))).collect()),
        m => m.clone(),
    }
}

/// Takes the flow indicators out of all tags; true when there were any.
fn flow_tags(m: &mut Model) -> bool {
    match m {
        Model::Tagged(t, v) => {
            let other = t.replace(',', "~1~").replace('[', "~2~").replace(']', "~3~");
            let found = other != *t;
            *t = other;
            flow_tags(v) | found
        }
        Model::Seq(v) => v.iter_mut().fold(false, |f, x| flow_tags(x) | f),
        Model::Map(v) => v.iter_mut().fold(false, |f, (k, x)| flow_tags(k) | flow_tags(x) | f),
        _ => false,
    }
}

/// An error's location lies inside the input, and its line and column are
/// those of its byte index (the end of the input counts as a fresh line).
fn located(input: &Input, f: &Failure) {
    if reader_error(f) {
        // libyaml knows no line and column yet, only the offset.
        check!(f.location.is_none(), "location", "{:?} claims to be at {:?}", f.display, f.location);
        undecodable(&input.bytes, f);
        return;
    }
    // What the scanner, the parser and the loader refuse is somewhere; so is
    // a value of the wrong kind.
    let somewhere = [
        "while scanning",
        "while parsing a ",
        "did not find expected",
        "not allowed in this context",
        "recursion limit exceeded",
        "unknown anchor",
        "invalid type",
        "missing field",
    ];
    let Some((index, line, column)) = f.location else {
        check!(
            f.display == "EOF while parsing a value" || !somewhere.iter().any(|s| f.display.contains(s)),
            "location",
            "{:?} is located nowhere",
            f.display
        );
        return;
    };
    check!(
        index <= input.bytes.len(),
        "location",
        "{:?} is located at byte {index} of {}",
        f.display,
        input.bytes.len()
    );
    if index > input.bytes.len() {
        return;
    }
    let (l, c) = position(&input.bytes[..index]);
    check!(
        (line, column) == (l, c) || (index == input.bytes.len() && (line, column) == (l + 1, 1)),
        "location",
        "{:?} is located at byte {index}, which is line {l} column {c}, not {line}:{column}",
        f.display
    );
    if (line, column) != (1, 1) {
        let want = format!("at line {line} column {column}");
        check!(f.display.contains(&want), "location", "{:?} does not say {want:?}", f.display);
    }
}

/// The offset of what cannot be decoded is that of the first such byte, or of
/// the one that spoils a sequence begun up to three bytes earlier.
fn undecodable(b: &[u8], f: &Failure) {
    let at = f.display.rsplit(" at position ").next().and_then(|n| n.parse::<usize>().ok());
    // The very start is not named.
    let at = at.unwrap_or(0);
    let fine = |c: char| matches!(c, '\t' | '\n' | '\r' | ' '..='~' | '\u{85}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}');
    let mut first = b.len();
    let mut i = 0;
    while i < b.len() {
        let (n, ok) = match std::str::from_utf8(&b[i..(i + 4).min(b.len())]) {
            Ok(s) => s.chars().next().map_or((1, true), |c| (c.len_utf8(), fine(c) || (i == 0 && c == '\u{feff}'))),
            Err(e) if e.valid_up_to() > 0 => {
                let s = std::str::from_utf8(&b[i..i + e.valid_up_to()]).unwrap();
                let c = s.chars().next().unwrap();
                (c.len_utf8(), fine(c))
            }
            Err(_) => (1, false),
        };
        if !ok {
            first = i;
            break;
        }
        i += n;
    }
    check!(
        (first..first + 4).contains(&at) && at <= b.len(),
        "location",
        "{:?} although the first byte that cannot be read is at {first} of {}",
        f.display,
        b.len()
    );
}

/// Line and column (from 1) after these bytes, as YAML counts line breaks.
pub fn position(b: &[u8]) -> (usize, usize) {
    let s = String::from_utf8_lossy(b);
    let (mut line, mut col) = (1, 1);
    let mut prev = ' ';
    for c in s.chars() {
        match c {
            '\n' if prev == '\r' => {}
            '\r' | '\n' | '\u{85}' | '\u{2028}' | '\u{2029}' => {
                line += 1;
                col = 1;
            }
            _ => col += 1,
        }
        prev = c;
    }
    (line, col)
}

fn hostile(bytes: Vec<u8>, what: &'static str, nodes: u64) -> Input {
    Input {
        bytes,
        what,
        work: (3 * nodes * (100 * nodes + 1) + 1000).min(FLAT),
        must_read: false,
        must_fail: false,
        intact: Vec::new(),
    }
}

fn draw() -> Input {
    match gen::weighted(&[12, 8, 1, 4, 1, 1, 2, 2, 2, 3, 6]) {
        0 => {
            let mut st = stream(4, false);
            damage(&mut st.bytes);
            hostile(st.bytes, "damaged stream", FLAT)
        }
        1 => behind(),
        2 => bomb(),
        3 => selfish(),
        4 => nested(),
        5 => {
            ctx::fault("hostile:many-documents");
            let n = gen::range(1, 3000) as usize;
            let unit = *gen::one(&["---\n", "--- a\n", "---\n...\n", "--- &a b\n--- *a\n", "---\n%YAML 1.1\n", "%YAML 1.1\n---\n"]);
            hostile(unit.repeat(n).into_bytes(), "many documents", 20)
        }
        6 => oversized(),
        7 => quadratic(),
        8 => wide(),
        9 => numbers(),
        _ => soup(),
    }
}

/// Damage behind the end of some documents.
fn behind() -> Input {
    ctx::fault("damage:behind-documents");
    let good = gen::list(1, 4, |_| crate::text::draw_text(true));
    let mut s = String::new();
    for t in &good {
        s.push_str("---\n");
        s.push_str(&t.body);
        if gen::chance(1, 4) {
            s.push_str("...\n");
        }
    }
    s.push_str("---\n");
    let mut tail = stream(2, false).bytes;
    damage(&mut tail);
    // Bytes that cannot be decoded are reported a block ahead.
    let tail: String = String::from_utf8_lossy(&tail)
        .chars()
        .filter(|c| matches!(c, '\t' | '\n' | '\r' | ' '..='~' | '\u{85}' | '\u{a0}'..='\u{fffd}'))
        .collect();
    s.push_str(&tail);
    Input {
        intact: good.into_iter().map(|t| t.model).collect(),
        ..hostile(s.into_bytes(), "damage behind good documents", FLAT)
    }
}

fn bomb() -> Input {
    ctx::fault("hostile:alias-bomb");
    let levels = gen::range(2, 14) as usize;
    let width = gen::range(2, 12) as usize;
    let flow = gen::chance(1, 2);
    let style = gen::pick(3);
    let mut s = String::new();
    let mut nodes = 4u64;
    for l in 0..levels {
        let item = |i: usize| {
            if l == 0 {
                "x".to_string()
            } else if style == 1 {
                format!("k{i}: *a{}", l - 1)
            } else {
                format!("*a{}", l - 1)
            }
        };
        let items: Vec<String> = (0..width).map(item).collect();
        let map = style == 1 && l > 0;
        nodes += (if map { 2 } else { 1 }) * width as u64 + 3;
        if flow || map {
            let (o, c) = if map { ('{', '}') } else { ('[', ']') };
            s.push_str(&format!("l{l}: &a{l} {o}{}{c}\n", items.join(", ")));
        } else {
            s.push_str(&format!("l{l}: &a{l}\n"));
            for i in items {
                s.push_str(&format!("- {i}\n"));
            }
        }
    }
    let expansion = (width as f64).powi(levels as i32);
    if gen::chance(1, 4) {
        // As keys.
        s.push_str(&format!("? *a{}\n: 1\n", levels - 1));
        nodes += 2;
    }
    let mut i = hostile(s.into_bytes(), "alias bomb", nodes);
    // Far beyond what the limit allows.
    i.must_fail = expansion > 1e6 * nodes as f64;
    // Well below it: at most 100 jumps per event.
    let jumps: f64 = (1..levels as i32).map(|l| (1..=l).map(|k| (width as f64).powi(k)).sum::<f64>()).sum();
    i.must_read = jumps + expansion < 40.0 * nodes as f64;
    i
}

fn selfish() -> Input {
    ctx::fault("hostile:self-reference");
    let s = *gen::one(&[
        "&a [*a]",
        "&a {k: *a}",
        "&a {*a : 1}",
        "&a [&b [*a, *b], *b]",
        "&a [&b {k: [*b, *a]}]",
        "k: &a\n  - l: &b\n    - *a\n    - *b\n",
        "&a [[[[*a, *a, *a, *a]]]]",
        "&a [1, !T [*a]]",
        "&a !T [*a]",
        "&a !T {x: *a, y: *a}",
        "- &a [*a, *a]\n- &a [*a]\n- *a\n",
        "&a {<<: *a}",
        "&a {<<: [*a, *a]}",
    ]);
    let pre = *gen::one(&["", "---\n", "# c\n", "--- "]);
    let mut i = hostile(format!("{pre}{s}").into_bytes(), "self-reference", 20);
    i.must_fail = true;
    i
}

/// Nesting that nobody wrote: each anchor is a little deeper than the one it
/// contains.
fn chained() -> Input {
    ctx::fault("hostile:nested-aliases");
    let d = *gen::one(&[1usize, 2, 5, 20, 60, 100]);
    let depth = *gen::one(&[20usize, 60, 100, 118, 200, 300, 1000]);
    let k = (depth / d).max(1);
    let (open, close): (&str, &str) = *gen::one(&[("[", "]"), ("{k: ", "}"), ("[1, ", "]"), ("!t [", "]"), ("{k: 1, l: ", "}")]);
    let mut s = String::new();
    for i in 0..k {
        let inner = if i == 0 { "x".to_string() } else { format!("*a{} ", i - 1) };
        s.push_str(&format!("- &a{i} {}{inner}{}\n", open.repeat(d), close.repeat(d)));
    }
    let mut i = hostile(s.into_bytes(), "nested aliases", FLAT);
    i.must_read = 1 + k * d <= 120;
    i.must_fail = 1 + k * d > 150;
    i
}

fn nested() -> Input {
    if gen::chance(1, 3) {
        return chained();
    }
    ctx::fault("hostile:deep-nesting");
    let n = *gen::one(&[100usize, 60, 128, 126, 127, 129, 130, 200, 1000, 3000, 9000]) ;
    let (open, close, mid): (&str, &str, &str) = *gen::one(&[
        ("[", "]", ""),
        ("[", "]", "1"),
        ("{a: ", "}", "1"),
        ("- ", "", "x"),
        ("? ", "", "x"),
        ("[[1],", "]", "1"),
        ("!t [", "]", "1"),
        ("{? ", "}", "x"),
        ("[k: ", "]", "x"),
        ("- - ", "", "x"),
    ]);
    let per = match open {
        "[k: " => 2,
        "- - " => 2,
        "[[1]," => 1,
        _ => 1,
    };
    let whole = gen::chance(3, 4);
    let mut s = open.repeat(n);
    s.push_str(mid);
    if whole {
        s.push_str(&close.repeat(n));
    }
    let mut i = hostile(s.into_bytes(), "deep nesting", FLAT);
    i.must_read = whole && n * per <= 120;
    i.must_fail = n >= 1000;
    i
}

fn oversized() -> Input {
    ctx::fault("hostile:oversized-token");
    let n = *gen::one(&[1000usize, 1023, 1024, 1025, 1030, 8192, 16_383, 16_384, 16_385, 40_000, 150_000]) + gen::idx(3);
    let fill = |c: &str| c.chars().cycle().take(n).collect::<String>();
    let s = match gen::pick(10) {
        0 => fill("ab "),
        1 => format!("'{}'", fill("it''s ")),
        2 => format!("\"{}\"", fill("\\n")),
        3 => format!("&{} x", fill("a")),
        4 => format!("!{} x", fill("t")),
        5 => format!("# {}\nx", fill("#c")),
        6 => format!("{}: 1", fill("k")),
        7 => format!("|\n {}", fill("l ")),
        8 => format!("k:{}v\n", fill(" ")),
        _ => format!("- {}\n", fill("é")),
    };
    hostile(s.into_bytes(), "oversized token", 100)
}

fn quadratic() -> Input {
    ctx::fault("hostile:repeated-alias");
    // (now and then more uses than sixteen bits can count)
    let many = gen::chance(1, 25);
    let a = gen::range(1, if many { 3 } else { 150 }) as usize;
    let b = if many { *gen::one(&[11_000usize, 66_000]) } else { gen::range(1, 150) as usize };
    let s = format!("- &a [{}]\n- [{}]\n", vec!["x"; a].join(", "), vec!["*a"; b].join(", "));
    let mut i = hostile(s.into_bytes(), "repeated alias", (a + b + 8) as u64);
    i.must_read = true;
    i
}

/// Many small things next to each other, none of them deep.
fn wide() -> Input {
    ctx::fault("hostile:wide");
    let n = gen::range(1, 400) as usize;
    let unit = *gen::one(&[
        "? [a, #]\n: v\n", "? {a: #}\n: v\n", "? - #\n: - v\n", "[#]: v\n", "{#: a}: v\n", "? !t [#]\n: v\n", "k#: [a]\n", "k#: {a: [b]}\n", "k#: !t [x]\n", "k#: &a [x]\n", "k#: !t x\n",
        "- [a]\n", "- {a: b}\n", "- !t [a]\n", "- !t {a: b}\n", "- - - a\n", "- ? [a]\n  : b\n", "- &a [x]\n- *a\n", "- &a {x: 1}\n- [*a, *a]\n", "- [a, [b, [c]]]\n", "- |\n  text\n", "- !t\n", "-\n", "k#:\n",
    ]);
    let s: String = (0..n).map(|i| unit.replace('#', &i.to_string())).collect();
    let mut i = hostile(s.into_bytes(), "wide document", FLAT);
    i.must_read = true;
    i
}

/// Numbers, near-numbers and other words, as they are or with a tag.
fn numbers() -> Input {
    ctx::fault("hostile:near-numbers");
    let mut s = String::new();
    let mut intact = Vec::new();
    for _ in 0..gen::range(1, 4) {
        let mut ms = Vec::new();
        s.push_str("---\n");
        for (t, m) in gen::list(1, 6, |_| match gen::pick(6) {
            0 => {
                let n = (gen::full() as u128) << 64 | gen::full() as u128;
                let t = format!("{}{}", gen::one(&["", "-", "+"]), n >> gen::pick(64));
                (t.clone(), crate::text::resolve(&t))
            }
            1 => {
                let (t, _) = crate::text::notation();
                (format!("'{t}'"), Model::Str(t))
            }
            _ => crate::text::notation(),
        }) {
            s.push_str(&format!("- {t}\n"));
            ms.push(m);
        }
        intact.push(Model::Seq(ms));
    }
    Input {
        intact,
        must_read: true,
        ..hostile(s.into_bytes(), "numbers", FLAT)
    }
}

fn soup() -> Input {
    ctx::fault("hostile:token-soup");
    let mut s: Vec<u8> = Vec::new();
    for t in gen::list(1, 40, |_| {
        *gen::one(&[
            "&a ", "*a ", "&b ", "*b", "!t ", "!!int ", "!!null ", "!!float ", "!!bool ", "!!str ", "!", "!! ", "!<x> ", "- ", "-", "? ", ": ", ":", ", ", ",", "[", "]", "{", "}", "|\n",
            "|2\n", "|+\n", ">-\n", ">9\n", "'", "\"", "''", "#", " # c\n", "%YAML 1.1\n", "%TAG ! tag:x,2000:\n", "%TAG !e! x\n", "!e!t ", "---\n", "--- ", "...\n", "\n", "\n\n",
            "\t", " ", "  ", "    ", "<<: ", "<<: *a\n", "\u{feff}", "\u{85}", "\u{2028}", "\\", "~", "@", "`", "\r", "\r\n", "a", "b: ", "k: v\n", "x y", "1", "-1", "0x", "1e9", ".inf", "null", "true",
            "\"\\x", "\"\\u12", "\\\n", "é", "🦀", "\0", "\u{7f}", "a:\n  ", "- a\n", "  - b\n", "{a: b}", "[c]", "\"q\"", "'s'", "!t {", "&a [", "*", "&", "!a%20b ", "!a%c3%a9 ", "!%21 ", "!<!x> ", "!<!> ", "!<tag:yaml.org,2002:int> ", "!x:y ", "!%00 ", "!%7b ", "!%2c ", "!a%5bb ", "!<!a]> ", "!!%21 ", "!a!b ", "!<!a b> ",
        ])
    }) {
        s.extend_from_slice(t.as_bytes());
    }
    if gen::chance(1, 10) {
        let i = gen::idx(s.len() + 1);
        s.insert(i, gen::pick(256) as u8);
    }
    hostile(s, "token soup", FLAT)
}
