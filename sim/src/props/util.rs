use crate::ctx;
use crate::io::{lock, shared, Shared, SimWriter, Sink, WritePlan};
use crate::model::{Model, Reader, ReadPlan};
use crate::node::{Doc, SerPlan};
use crate::targets::{failure, Failure};
use serde::de::DeserializeSeed;
use serde_yaml::{Deserializer, Serializer};

pub const REAL: &[&str] = &[
    "serde_yaml (all of /repo/src, unmodified, rebuilt from the working tree)",
    "unsafe-libyaml emitter, scanner and parser",
    "serde, indexmap, itoa, ryu, std::io",
];

pub const NO_SER_FAULT: fn() -> SerPlan = || SerPlan::default();

/// Reads every document of `bytes` with the reference visitor.
pub fn read_all(bytes: &[u8], limit: usize) -> Result<Vec<Model>, (usize, Failure)> {
    let mut out = Vec::new();
    for d in Deserializer::from_slice(bytes) {
        match Reader::new(ReadPlan::default()).deserialize(d) {
            Ok(m) => out.push(m),
            Err(e) => return Err((out.len(), failure(&e))),
        }
        if out.len() > limit {
            break;
        }
    }
    Ok(out)
}

pub fn clip(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut t: String = s.chars().take(400).collect();
    if t.len() < s.len() {
        t.push_str(&format!("... ({} bytes)", b.len()));
    }
    format!("{t:?}")
}

pub fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

pub fn docs(min: usize, max: usize) -> Vec<Doc> {
    Doc::several(min, max)
}

pub fn note_docs(docs: &[Doc]) {
    for (i, d) in docs.iter().enumerate() {
        ctx::note(|| {
            let s: String = format!("{:?}", d).chars().take(600).collect();
            format!("document {i}: {s}")
        });
    }
}

/// The same documents through one serializer into memory.
pub fn in_memory(docs: &[Doc]) -> Result<Vec<u8>, Failure> {
    let mut out = Vec::new();
    {
        let mut ser = Serializer::new(&mut out);
        for d in docs {
            if let Err(e) = d.serialize(&SerPlan::default(), &mut ser) {
                return Err(failure(&e));
            }
        }
    }
    Ok(out)
}

pub fn writer(plan: WritePlan) -> (SimWriter, Shared<Sink>) {
    let sink = shared(Sink::default());
    (SimWriter::new(1, plan, &sink), sink)
}

pub fn sink_bytes(s: &Shared<Sink>) -> Vec<u8> {
    lock(s).bytes.clone()
}

use crate::gen;
use crate::io::{Chop, ErrSpec, Fault, FaultKind};
use crate::node::DocSer;
use crate::text;
use std::io::Write;

/// Writers of different sizes and alignments: `into_inner` must give back
/// exactly what went in.
pub struct Thin(pub SimWriter);
#[repr(align(64))]
pub struct Aligned(pub SimWriter, pub [u8; 100]);
pub struct Fat(pub [u64; 300], pub SimWriter, pub String);

macro_rules! delegate {
    ($t:ty, $f:tt) => {
        impl Write for $t {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                self.$f.write(b)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                self.$f.flush()
            }
        }
    };
}
delegate!(Thin, 0);
delegate!(Aligned, 0);
delegate!(Fat, 1);

pub trait Wrap: Write + Sized {
    fn wrap(w: SimWriter) -> Self;
    /// The inner writer, if everything around it is intact.
    fn unwrap(self) -> Option<SimWriter>;
}
impl Wrap for SimWriter {
    fn wrap(w: SimWriter) -> Self {
        w
    }
    fn unwrap(self) -> Option<SimWriter> {
        Some(self)
    }
}
impl Wrap for Thin {
    fn wrap(w: SimWriter) -> Self {
        Thin(w)
    }
    fn unwrap(self) -> Option<SimWriter> {
        Some(self.0)
    }
}
impl Wrap for Aligned {
    fn wrap(w: SimWriter) -> Self {
        Aligned(w, [0x5a; 100])
    }
    fn unwrap(self) -> Option<SimWriter> {
        let ok = self.1.iter().all(|b| *b == 0x5a) && (&self as *const Self as usize) % 64 == 0;
        ok.then(|| self.0)
    }
}
impl Wrap for Fat {
    fn wrap(w: SimWriter) -> Self {
        let mut a = [0u64; 300];
        for (i, x) in a.iter_mut().enumerate() {
            *x = i as u64 * 7919;
        }
        Fat(a, w, "tail of the fat writer".to_string())
    }
    fn unwrap(self) -> Option<SimWriter> {
        let ok = self.0.iter().enumerate().all(|(i, x)| *x == i as u64 * 7919) && self.2 == "tail of the fat writer";
        ok.then(|| self.1)
    }
}

/// An offset in `0..=len`, biased to both ends and to buffer boundaries.
pub fn offset(len: usize) -> usize {
    let o = match gen::pick(5) {
        0 => gen::idx(len + 1),
        1 => gen::idx(len.min(8) + 1),
        2 => len - gen::idx(len.min(8) + 1),
        3 => {
            let k = *gen::one(&[16384usize, 8192, 4096, 32768, 64, 128]);
            (k + gen::idx(5)).saturating_sub(2)
        }
        _ => gen::idx(len + 1),
    };
    o.min(len)
}

/// An I/O error at some byte of a stream of `len` bytes.
pub fn io_fault(len: usize, zero_ok: bool) -> (Fault, Option<ErrSpec>) {
    let at = offset(len);
    let sticky = gen::chance(1, 2);
    if zero_ok && gen::chance(1, 6) {
        return (
            Fault {
                at,
                kind: FaultKind::Zero,
                sticky,
            },
            None,
        );
    }
    let e = ErrSpec::draw();
    (
        Fault {
            at,
            kind: FaultKind::Err(e.clone()),
            sticky,
        },
        Some(e),
    )
}

/// Does `e` carry the injected write error (`None`: a zero-length write)?
pub fn carries(spec: &Option<ErrSpec>, e: &serde_yaml::Error) -> Result<(), String> {
    match spec {
        Some(s) => s.matches(e),
        None => {
            let want = "failed to write whole buffer";
            if e.to_string().contains(want) {
                Ok(())
            } else {
                Err(format!("message {:?} does not carry {want:?}", e.to_string()))
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Stream {
    pub bytes: Vec<u8>,
    pub what: &'static str,
    /// Set when every document is known to be good.
    pub models: Option<Vec<Model>>,
}

/// A byte stream holding `n` documents in whatever notation.
pub fn stream(max_docs: usize, allow_bad: bool) -> Stream {
    let what = gen::weighted(&[4, 3, 2, if allow_bad { 3 } else { 0 }, 1]);
    match what {
        0 => {
            let ts = gen::list(1, max_docs, |_| text::draw_text(true));
            let mut s = String::new();
            if ts.len() > 1 || gen::chance(1, 2) {
                for t in &ts {
                    s.push_str("---\n");
                    s.push_str(&t.body);
                    if gen::chance(1, 5) {
                        s.push_str("...\n");
                    }
                }
            } else {
                s.push_str(&ts[0].body);
            }
            Stream {
                bytes: s.into_bytes(),
                what: "hand-written text",
                models: Some(ts.into_iter().map(|t| t.model).collect()),
            }
        }
        1 => {
            let d = docs(1, max_docs);
            let bytes = in_memory(&d).unwrap_or_default();
            Stream {
                bytes,
                what: "serializer output",
                models: Some(d.iter().map(Doc::model).collect()),
            }
        }
        2 => {
            let r = crate::targets::rec(1);
            let mut out = Vec::new();
            let _ = serde_yaml::to_writer(&mut out, &r);
            Stream {
                bytes: out,
                what: "record",
                models: None,
            }
        }
        3 => {
            let mut s = stream(max_docs, false);
            damage(&mut s.bytes);
            Stream {
                models: None,
                what: "damaged",
                ..s
            }
        }
        _ => {
            let text = stream(max_docs, false);
            let s = String::from_utf8_lossy(&text.bytes).into_owned();
            let le = gen::chance(1, 2);
            let mut b = if le { vec![0xff, 0xfe] } else { vec![0xfe, 0xff] };
            for u in s.encode_utf16() {
                b.extend(if le { u.to_le_bytes() } else { u.to_be_bytes() });
            }
            Stream {
                bytes: b,
                what: "UTF-16",
                models: None,
            }
        }
    }
}

/// What storage and networks do to bytes.
pub fn damage(b: &mut Vec<u8>) {
    let n = gen::range(1, 3);
    for _ in 0..n {
        if b.is_empty() {
            return;
        }
        let len = b.len();
        gen::span(|| match gen::pick(8) {
            0 => {
                ctx::fault("damage:torn");
                b.truncate(offset(len));
            }
            1 => {
                ctx::fault("damage:bit-flip");
                let i = gen::idx(len);
                b[i] ^= 1 << gen::pick(8);
            }
            2 => {
                ctx::fault("damage:lost-block");
                let a = gen::idx(len);
                let e = (a + 1 + gen::idx(64)).min(len);
                b.drain(a..e);
            }
            3 => {
                ctx::fault("damage:duplicated-block");
                let a = gen::idx(len);
                let e = (a + 1 + gen::idx(64)).min(len);
                let part = b[a..e].to_vec();
                let times = gen::range(1, 3);
                for _ in 0..times {
                    let at = gen::idx(b.len() + 1);
                    b.splice(at..at, part.clone());
                }
            }
            4 => {
                ctx::fault("damage:zeroed-block");
                let a = gen::idx(len);
                let e = (a + 1 + gen::idx(32)).min(len);
                b[a..e].fill(0);
            }
            5 => {
                ctx::fault("damage:garbage-byte");
                let i = gen::idx(len + 1);
                b.insert(i, gen::pick(256) as u8);
            }
            6 => {
                ctx::fault("damage:yaml-noise");
                let i = gen::idx(len + 1);
                let t = *gen::one(&[
                    "&a ", "*a ", "*zz", "!t ", "!!int ", "!!", "- ", "? ", ": ", ", ", "[", "]", "{", "}", "|\n", ">-\n", "'", "\"",
                    "#", "%YAML 1.1\n", "%TAG ! x\n", "---\n", "...\n", "\n", "\t", "  ", "<<: ", "\u{feff}", "\u{85}", "\\", "~", "@", "`",
                    "--- ", "\r", "\r\n", "!<x> ", "*", "&",
                ]);
                b.splice(i..i, t.bytes());
            }
            _ => {
                ctx::fault("damage:reordered-blocks");
                let a = gen::idx(len);
                let part = b.split_off(a);
                b.splice(0..0, part);
            }
        });
    }
}

/// All documents of a stream under one target, at most `limit`.
pub fn outcomes(t: crate::targets::Target, it: Deserializer, limit: usize) -> Vec<crate::targets::Outcome> {
    let mut out = Vec::new();
    for d in it.take(limit) {
        out.push(crate::targets::get(t, d));
    }
    out
}

pub fn doc_lens(docs: &[Doc]) -> Vec<usize> {
    (1..=docs.len()).map(|n| in_memory(&docs[..n]).map_or(0, |b| b.len())).collect()
}

pub fn ser_one<W: Write>(d: &Doc, w: W) -> Result<(), serde_yaml::Error> {
    serde_yaml::to_writer(w, &DocSer(d, &SerPlan::default()))
}

pub fn chop() -> Chop {
    Chop::draw(true)
}
