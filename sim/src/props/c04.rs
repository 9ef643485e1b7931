//! C04: fragmented and interrupted reads never change the result.

use super::util::*;
use super::Prop;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{lock, shared, ReadStats, SimReader};
use crate::targets::{draw_target, from_slice, get, Outcome};
use serde_yaml::Deserializer;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C04",
    run,
    leaks: false,
    quick_runs: 200_000,
    rule: "one run = one byte stream (hand-written text with anchors, serializer output, records, UTF-16, damaged \
           bytes) read through a reader whose fragmentation and EINTR pattern the tape decides, as one document \
           (from_reader) or as a stream of documents, into one of 21 target types; non-trivial = at least one short \
           read or EINTR; distinct = digest of the event sequence",
    state_measure: "hash of (outcomes, target)",
    real: REAL,
    stub: &["io::Read implementation (SimReader)"],
    assumptions: &["Deserializer::from_slice over the whole input is the fault-free reference"],
};

/// Plain words somewhere in a text of any size, for which no copies are
/// needed: given in memory, they can be had as `&str`.
fn in_place() {
    let words: Vec<String> = gen::list(1, 12, |i| {
        let w = *gen::one(&["word", "two words", "é中🦀", "x", "a:b", "it's", "long-"]);
        if w == "long-" { w.repeat(1 + gen::idx(3000)) } else { format!("{w}{i}") }
    });
    let mut s = String::new();
    let n = *gen::one(&[0usize, 10, 1000, 16_384, 65_536, 131_072, 1 << 20]);
    let pad = gen::one(&["# a comment\n", "\n", "# é\r\n"]);
    let n = n + gen::idx(40);
    while s.len() + pad.len() <= n {
        s.push_str(pad);
    }
    let mut at = Vec::new();
    for w in &words {
        s.push_str("- ");
        match gen::pick(3) {
            0 => {
                let q = w.replace('\'', "");
                s.push('"');
                at.push((s.len(), q.clone()));
                s.push_str(&q);
                s.push('"');
            }
            1 => {
                let q = w.replace('\'', "");
                s.push('\'');
                at.push((s.len(), q.clone()));
                s.push_str(&q);
                s.push('\'');
            }
            _ => {
                at.push((s.len(), w.clone()));
                s.push_str(w);
            }
        }
        s.push('\n');
    }
    ctx::note(|| format!("{} words behind {n} bytes: {}", words.len(), clip(&s.as_bytes()[s.len().saturating_sub(500)..])));
    let slice = gen::chance(1, 2);
    let r: Result<Vec<&str>, _> =
        if slice { serde_yaml::from_slice(s.as_bytes()) } else { serde_yaml::from_str(&s) };
    match r {
        Ok(v) => {
            check!(v.len() == at.len(), "in-place", "{} of {} words were read", v.len(), at.len());
            for (w, (i, want)) in v.iter().zip(&at) {
                let found = (w.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
                check!(w == want && found == *i, "in-place", "the word at {i} is {want:.50}, read as {w:.50} at {found}");
            }
        }
        Err(e) => ctx::violate("in-place", || format!("words cannot be read as &str: {e}")),
    }
    // (a reader's bytes are gone by then)
    let stats = shared(ReadStats::default());
    let rdr = SimReader::new(Arc::new(s.clone().into_bytes()), chop(), None, &stats);
    let r: Result<Vec<String>, _> = serde_yaml::from_reader(rdr);
    let want: Vec<&String> = at.iter().map(|a| &a.1).collect();
    match r {
        Ok(v) => check!(v.iter().eq(want), "in-place", "through a reader the words are different"),
        Err(e) => ctx::violate("in-place", || format!("words cannot be read through a reader: {e}")),
    }
}

fn run() {
    if gen::chance(1, 150) {
        return in_place();
    }
    let mut st = stream(4, true);
    if gen::chance(1, 12) {
        // Larger than any internal buffer.
        let n = *gen::one(&[3000usize, 20_000, 60_000, 200_000]);
        let mut big = Vec::new();
        while big.len() < n {
            big.extend_from_slice(b"- some filler text to pass the buffers\n");
        }
        if gen::chance(1, 2) {
            big.extend_from_slice(b"- [\n");
        }
        st.bytes = big;
        st.models = None;
    }
    let target = draw_target();
    let data = Arc::new(st.bytes.clone());
    ctx::note(|| format!("{} into {target:?}: {}", st.what, clip(&data)));
    let whole = gen::chance(1, 2);
    let plan = chop();
    ctx::note(|| format!("reader {plan:?}, single document: {whole}"));
    let stats = shared(ReadStats::default());
    let rdr = SimReader::new(Arc::clone(&data), plan, None, &stats);
    let (got, want) = if whole {
        let want = from_slice(target, &data);
        let got = get(target, Deserializer::from_reader(rdr));
        (vec![got], vec![want])
    } else {
        let want = outcomes(target, Deserializer::from_slice(&data), 12);
        let got = outcomes(target, Deserializer::from_reader(rdr), 12);
        (got, want)
    };
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(i), want.get(i));
        check!(
            g == w,
            "differs",
            "document {i}: the fragmented reader gives {}, the whole input gives {}",
            g.map_or("nothing".into(), Outcome::brief),
            w.map_or("nothing".into(), Outcome::brief)
        );
    }
    for w in &want {
        ctx::state(ctx::fold(w.hash(), target as u64));
    }
    if let Some(models) = &st.models {
        if target == crate::targets::Target::Model && !whole {
            for (m, g) in models.iter().zip(&got) {
                check!(
                    *g == Outcome::Ok(format!("{m:?}")),
                    "content",
                    "the stream's document is {m:?}, read as {}",
                    g.brief()
                );
            }
        }
    }
    let s = lock(&stats);
    check!(s.eof <= 3, "spinning", "the reader was polled {} times after its end", s.eof);
    check!(
        s.calls == s.data_calls + s.eintr + s.eof + s.empty_bufs && s.empty_bufs <= 3,
        "spinning",
        "read calls: {s:?}"
    );
    check!(s.drops == 1, "drops", "the reader was dropped {} times", s.drops);
}
