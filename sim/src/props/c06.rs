//! C06: documents of one stream are independent of each other and of the
//! order in which the caller pulls, reads, abandons and drops them.

use super::util::*;
use super::Prop;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{shared, ReadStats, SimReader};
use crate::model::{self, Model, ReadPlan};
use crate::targets::{draw_target, Consume, Outcome, Target};
use crate::text;
use serde_yaml::Deserializer;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C06",
    run,
    leaks: true,
    quick_runs: 100_000,
    rule: "one run = 1..2 streams of 1..8 documents (good ones with anchors and redefinitions, and bad ones: unknown \
           or foreign aliases, deep nesting, alias bombs, duplicate keys, bad tags, possibly one syntax error) opened \
           by from_str, from_slice or a fragmenting reader, and a drawn history of pulling, reading (21 types, \
           selective, failing and short-stopping visitors), dropping in any order, interleaved between the streams; \
           non-trivial = a fault, a bad document or an out-of-order read; distinct = digest of the event sequence",
    state_measure: "hash of (document kind, consumer, outcome)",
    real: REAL,
    stub: &["io::Read implementation (SimReader)"],
    assumptions: &[
        "the reference for one document is the same document alone, padded with comments so that it sits at the same \
         position, and for good documents additionally the generator's own model",
        "documents hold only characters YAML permits: the parser validates characters in blocks ahead of the document \
         it is working on, so an invalid one is reported early",
    ],
};

#[derive(Clone, Debug)]
struct Piece {
    text: String,
    model: Option<Model>,
    kind: &'static str,
    syntax: bool,
}

fn bad_body() -> (&'static str, String) {
    let pre = gen::one(&["", "x: 1\n", "x: &a [1, 2]\n", "x: {y: z}\n"]).to_string();
    // (the bombs are the dearest to read)
    match gen::weighted(&[4, 4, 4, 1, 4, 4, 4, 4]) {
        0 => ("unknown-anchor", format!("{pre}k: *nope\nmore: [1, 2]\nrest: {{a: b}}\n")),
        1 => ("unknown-anchor", format!("- 1\n- {}*nope{}\n- *a\n- {{b: *nope}}\n- end\n", gen::one(&["", "[", "{k: "]), "")
            .replace("[*nope", "[*nope ]").replace("{k: *nope", "{k: *nope }")),
        2 => {
            let n = gen::range(100, 300) as usize;
            ("deep", format!("{}{}\n", "[".repeat(n), "]".repeat(n)))
        }
        3 => {
            let mut s = String::from("a: &a [x, x, x, x, x, x, x, x, x]\n");
            for (p, q) in [("a", "b"), ("b", "c"), ("c", "d"), ("d", "e"), ("e", "f")] {
                s.push_str(&format!("{q}: &{q} [*{p} , *{p} , *{p} , *{p} , *{p} , *{p} , *{p} , *{p} , *{p} ]\n"));
            }
            ("alias-bomb", s)
        }
        4 => ("duplicate-key", "k: 1\nj: 2\nk: 3\n".to_string()),
        5 => ("bad-tag", format!("{pre}v: !!int notanumber\n")),
        6 => ("self-alias", "&a [1, *a ]\n".to_string()),
        _ => ("foreign-alias", format!("v: *{}\nw: 1\n", gen::one(&["a", "b", "anchor1", "x-y", "A"]))),
    }
}

fn syntax_body() -> String {
    gen::one(&[
        "[a, b\n",
        "k: 'unclosed\n",
        "k: \"unclosed\n",
        "a: b: c\n",
        "- a\n b\n- c: @\n",
        "@at\n",
        "{a: b\n",
        "k: [}\n",
        "- &a\n  &b x\n",
        "k: |x\n  a\n",
        "%bad\n- [\n",
        "\t- x\n",
        "k: !<unclosed v\n",
        "- \"\\z\"\n",
    ])
    .to_string()
}

fn piece(first: bool) -> Piece {
    gen::span(|| {
        let mut p = match gen::weighted(&[6, 3, 1, 1]) {
            0 => {
                let t = text::draw_text(true);
                Piece {
                    text: t.body,
                    model: Some(t.model),
                    kind: "good",
                    syntax: false,
                }
            }
            1 => {
                let (kind, text) = bad_body();
                Piece {
                    text,
                    model: None,
                    kind,
                    syntax: false,
                }
            }
            2 => Piece {
                text: String::new(),
                model: Some(Model::Null),
                kind: "empty",
                syntax: false,
            },
            _ => {
                let d = crate::node::Doc::draw();
                let text = in_memory(std::slice::from_ref(&d)).unwrap_or_default();
                let text = String::from_utf8(text).unwrap_or_default();
                Piece {
                    model: Some(d.model()),
                    text,
                    kind: "serialized",
                    syntax: false,
                }
            }
        };
        let mut t = String::new();
        // A first document may go without its marker.
        if !(first && !p.text.is_empty() && gen::chance(1, 3)) {
            t.push_str("---\n");
        }
        t.push_str(&p.text);
        match gen::pick(8) {
            5 => t.push_str("...\n"),
            6 => t.push_str("...\n# between documents\n"),
            7 => t.push_str("...\n\n"),
            _ => {}
        }
        p.text = t;
        p
    })
}

/// The text as a comment of exactly the same shape.
fn comment(s: &str) -> String {
    let mut out = String::new();
    let mut first = true;
    for c in s.chars() {
        if matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}') {
            out.push(c);
            first = true;
        } else {
            for _ in 0..c.len_utf8() {
                out.push(if first { '#' } else { 'x' });
                first = false;
            }
        }
    }
    out
}

struct Held<'a> {
    doc: Option<Deserializer<'a>>,
    index: usize,
}

struct Open<'a> {
    pieces: &'a [Piece],
    it: Option<Deserializer<'a>>,
    pulled: usize,
    held: Vec<Held<'a>>,
    ended: bool,
}

fn consume() -> Consume {
    match gen::pick(8) {
        0 | 1 => Consume::Typed(Target::Model),
        2 => Consume::Custom(ReadPlan {
            skips: (0..1 + gen::idx(6)).map(|_| gen::chance(1, 2)).collect(),
            ..ReadPlan::default()
        }),
        3 => Consume::Custom(ReadPlan {
            fail_at: Some(gen::small(30)),
            ..ReadPlan::default()
        }),
        4 => Consume::Custom(ReadPlan {
            stop_short: Some((gen::small(4), gen::small(3))),
            ..ReadPlan::default()
        }),
        _ => Consume::Typed(draw_target()),
    }
}

fn run() {
    let n = 1 + gen::idx(2);
    let mut streams = Vec::new();
    for _ in 0..n {
        let mut ps: Vec<Piece> = gen::list(1, 8, |i| piece(i == 0));
        if gen::chance(1, 400) && ps[0].text.len() < 400 {
            // More documents than a byte can count. (Near the front, since
            // the reference reads each behind all that precede it.)
            let n = if gen::chance(1, 2) {
                gen::range(10, 300) as usize
            } else {
                // (as many as it can count, altogether)
                *gen::one(&[256, 128, 64, 256]) - ps.len()
            };
            let at = 1;
            let many = (0..n).map(|i| {
                let m = Model::Int(false, i as u128);
                Piece {
                    text: match i % 3 {
                        0 => format!("---\n- &a {i}\n- *a\n"),
                        1 => format!("--- !T {i}\n...\n"),
                        _ => format!("--- {i}\n"),
                    },
                    model: Some(match i % 3 {
                        0 => Model::Seq(vec![m.clone(), m]),
                        1 => Model::Tagged("T".into(), Box::new(m)),
                        _ => m,
                    }),
                    kind: "one-of-many",
                    syntax: false,
                }
            });
            ps.splice(at..at, many);
        }
        if gen::chance(1, 6) {
            let at = 1 + gen::idx(ps.len());
            ps.insert(
                at,
                Piece {
                    text: format!("---\n{}", syntax_body()),
                    model: None,
                    kind: "syntax-error",
                    syntax: true,
                },
            );
        }
        streams.push(ps);
    }
    let texts: Vec<String> = streams.iter().map(|ps| ps.iter().map(|p| p.text.as_str()).collect()).collect();
    for (i, t) in texts.iter().enumerate() {
        ctx::note(|| format!("stream {i}: {}", clip(t.as_bytes())));
    }
    if streams.iter().flatten().any(|p| p.kind != "good" && p.kind != "serialized") {
        ctx::nontrivial();
    }
    let stats = shared(ReadStats::default());
    let mut open: Vec<Open> = Vec::new();
    for (ps, t) in streams.iter().zip(&texts) {
        let it = match gen::pick(3) {
            0 => Deserializer::from_str(t),
            1 => Deserializer::from_slice(t.as_bytes()),
            _ => Deserializer::from_reader(SimReader::new(Arc::new(t.clone().into_bytes()), chop(), None, &stats)),
        };
        open.push(Open {
            pieces: ps,
            it: Some(it),
            pulled: 0,
            held: Vec::new(),
            ended: false,
        });
    }
    for _ in 0..60 {
        if ctx::violated() || open.iter().all(|o| o.it.is_none() && o.held.is_empty()) {
            break;
        }
        let s = gen::idx(open.len());
        gen::span(|| step(&mut open[s], s));
    }
    // Whatever is left is read in order.
    for (s, o) in open.iter_mut().enumerate() {
        while o.it.is_some() && !o.ended && !ctx::violated() {
            pull(o, s);
        }
        while !o.held.is_empty() && !ctx::violated() {
            read(o, s, 0, Consume::Typed(Target::Model));
        }
    }
    drop(open);
    // The whole stream as if it were one document.
    if gen::chance(1, 3) && !ctx::violated() {
        let (ps, t) = (&streams[0], &texts[0]);
        let c = consume();
        let got = c.run(Deserializer::from_str(t));
        if ps.len() > 1 {
            check!(!got.is_ok(), "one-document", "a stream of {} documents deserialized as one: {}", ps.len(), got.brief());
        } else {
            // (a lone document without its marker is the same document)
            let want = alone(&ps[0..1], &c);
            check!(
                got == want,
                "one-document",
                "the only document read directly gives {}, through the iterator {}",
                got.brief(),
                want.brief()
            );
        }
    }
}

fn alone(pieces: &[Piece], c: &Consume) -> Outcome {
    let (last, before) = pieces.split_last().unwrap();
    let mut t: String = before.iter().map(|p| comment(&p.text)).collect();
    t.push_str(&last.text);
    let r = match Deserializer::from_str(&t).next() {
        Some(d) => c.run(d),
        None => Outcome::Ok("nothing".into()),
    };
    r
}

fn step(o: &mut Open, s: usize) {
    match gen::weighted(&[4, 4, 1, 1]) {
        0 => pull(o, s),
        1 => {
            if !o.held.is_empty() {
                let i = if gen::chance(1, 2) { gen::idx(o.held.len()) } else { 0 };
                if i > 0 {
                    ctx::fault("history:out-of-order-read");
                }
                let c = consume();
                read(o, s, i, c);
            }
        }
        2 => {
            if !o.held.is_empty() {
                let i = gen::idx(o.held.len());
                ctx::fault("history:abandon-document");
                o.held.remove(i);
            }
        }
        _ => {
            // Only sometimes, so that most histories see the whole stream.
            if o.pulled > 0 && gen::chance(1, 8) {
                ctx::fault("history:drop-stream");
                if let (Some(it), true) = (o.it.take(), gen::chance(1, 2)) {
                    let got = consume().run(it);
                    check!(!got.is_ok(), "iterator-as-document", "an iterator in use deserialized as a document: {}", got.brief());
                }
            }
        }
    }
}

fn pull(o: &mut Open, s: usize) {
    let Some(it) = &mut o.it else { return };
    match it.next() {
        Some(d) => {
            let broken = o.pieces.iter().take(o.pulled).any(|p| p.syntax);
            if broken {
                // Everything after a syntax error is an error.
                o.ended = true;
                let got = consume().run(d);
                check!(!got.is_ok(), "after-syntax-error", "stream {s}: data after a syntax error: {}", got.brief());
                return;
            }
            if o.pulled >= o.pieces.len() {
                ctx::violate("extra-document", || {
                    format!("stream {s}: a document after the last of {}: {}", o.pieces.len(), Consume::Typed(Target::Model).run(d).brief())
                });
                return;
            }
            ctx::ev("pull", s as u64, o.pulled as u64);
            o.held.push(Held {
                doc: Some(d),
                index: o.pulled,
            });
            o.pulled += 1;
        }
        None => {
            o.ended = true;
            check!(
                o.pulled == o.pieces.len() || o.pieces.iter().any(|p| p.syntax),
                "lost-document",
                "stream {s}: the iterator ended after {} of {} documents",
                o.pulled,
                o.pieces.len()
            );
        }
    }
}

fn read(o: &mut Open, s: usize, i: usize, c: Consume) {
    let mut h = o.held.remove(i);
    let p = &o.pieces[h.index];
    if gen::chance(1, 8) {
        for _ in 0..2 {
            check!(
                h.doc.as_mut().unwrap().next().is_none(),
                "document-as-iterator",
                "stream {s} document {} ({}) has documents of its own",
                h.index,
                p.kind
            );
        }
    }
    let got = c.run(h.doc.take().unwrap());
    ctx::ev("read-document", s as u64, h.index as u64);
    ctx::note(|| format!("stream {s} document {} ({}) as {c:?}: {}", h.index, p.kind, got.brief()));
    ctx::probe(p.kind);
    if p.syntax {
        check!(!got.is_ok(), "syntax-error", "a document with a syntax error is {}", got.brief());
        return;
    }
    let want = match (&p.model, &c) {
        // (what these say is known without reading them once more)
        (Some(m), Consume::Typed(Target::Model)) if p.kind == "one-of-many" => Outcome::Ok(format!("{m:?}")),
        _ => alone(&o.pieces[..=h.index], &c),
    };
    ctx::state(ctx::fold(got.hash(), ctx::hash_bytes(format!("{}{c:?}", p.kind).as_bytes())));
    check!(
        got == want,
        "differs",
        "stream {s} document {} ({}), {c:?}: in the stream {}, alone {}",
        h.index,
        p.kind,
        got.brief(),
        want.brief()
    );
    let expected = match (&p.model, &c) {
        (Some(m), Consume::Typed(Target::Model)) => Some(m.clone()),
        (Some(m), Consume::Custom(r)) if r.fail_at.is_none() && r.stop_short.is_none() => {
            Some(model::project(m, &r.skips, &mut 0))
        }
        _ => None,
    };
    if let Some(m) = expected {
        let m = Outcome::Ok(format!("{m:?}"));
        check!(
            got == m,
            "content",
            "stream {s} document {} ({}), {c:?}: got {}, the text says {}",
            h.index,
            p.kind,
            got.brief(),
            m.brief()
        );
    }
    if p.kind == "unknown-anchor" || p.kind == "foreign-alias" {
        check!(!got.is_ok(), "unknown-anchor", "document {} with an alias to nothing is {}", h.index, got.brief());
    }
}
