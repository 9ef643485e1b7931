//! YAML text generator: random documents in many notations, with anchors and
//! aliases, together with the model a reader must obtain. Aliases mean the
//! most recent node that was given the anchor's name.

use crate::ctx;
use crate::gen;
use crate::model::{self, Model};

#[derive(Clone, Debug)]
enum Kind {
    Alias(usize),
    Scalar(String, Model),
    /// Literal or folded block scalar: header and content lines.
    Block(char, Vec<String>),
    Seq(Vec<Y>, bool),
    Map(Vec<(Y, Y)>, bool),
}

#[derive(Clone, Debug)]
struct Y {
    anchor: Option<usize>,
    /// As written, without the first `!`.
    tag: Option<&'static str>,
    kind: Kind,
}

const NAMES: [&str; 5] = ["a", "b", "anchor1", "x-y", "A"];

struct Env {
    /// name -> id of the most recent node with that anchor
    latest: [Option<usize>; NAMES.len()],
    /// id -> finished model
    done: Vec<Option<Model>>,
    budget: usize,
    allow_alias: bool,
}

#[derive(Clone, Debug)]
pub struct Text {
    pub body: String,
    pub model: Model,
    pub aliases: usize,
}

/// What a plain scalar means: the YAML 1.2 core schema, plus 0b, with leading
/// zeros making a string.
pub fn resolve(s: &str) -> Model {
    let text = || Model::Str(s.to_string());
    match s {
        "" | "~" | "null" | "Null" | "NULL" => return Model::Null,
        "true" | "True" | "TRUE" => return Model::Bool(true),
        "false" | "False" | "FALSE" => return Model::Bool(false),
        ".inf" | ".Inf" | ".INF" | "+.inf" | "+.Inf" | "+.INF" => return model::float(f64::INFINITY),
        "-.inf" | "-.Inf" | "-.INF" => return model::float(f64::NEG_INFINITY),
        ".nan" | ".NaN" | ".NAN" => return model::float(f64::NAN),
        _ => {}
    }
    let (negative, body) = match s.as_bytes()[0] {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let b = body.as_bytes();
    let (radix, digits) = match (b.first(), b.get(1)) {
        (Some(b'0'), Some(b'x')) => (16u32, &b[2..]),
        (Some(b'0'), Some(b'o')) => (8, &b[2..]),
        (Some(b'0'), Some(b'b')) => (2, &b[2..]),
        _ => (10, b),
    };
    if !digits.is_empty() && digits.iter().all(|c| (*c as char).is_digit(radix)) {
        if radix == 10 && digits.len() > 1 && digits[0] == b'0' {
            return text();
        }
        let mut n = Some(0u128);
        for c in digits {
            let d = (*c as char).to_digit(radix).unwrap() as u128;
            n = n.and_then(|n| n.checked_mul(radix as u128)).and_then(|n| n.checked_add(d));
        }
        match n {
            Some(0) => return Model::Int(false, 0),
            Some(n) if !negative || n <= 1 << 127 => return Model::Int(negative, n),
            _ if radix != 10 => return text(),
            _ => {}
        }
    }
    // A decimal fraction.
    let count = |from: usize| b[from..].iter().take_while(|c| c.is_ascii_digit()).count();
    let whole = count(0);
    let mut at = whole;
    let mut fraction = 0;
    if b.get(at) == Some(&b'.') {
        fraction = count(at + 1);
        at += 1 + fraction;
    }
    if whole + fraction == 0 {
        return text();
    }
    if matches!(b.get(at), Some(b'e' | b'E')) {
        at += 1;
        if matches!(b.get(at), Some(b'+' | b'-')) {
            at += 1;
        }
        let exponent = count(at);
        if exponent == 0 {
            return text();
        }
        at += exponent;
    }
    if at != b.len() {
        return text();
    }
    let f: f64 = body.parse().unwrap_or(f64::INFINITY);
    if f.is_finite() {
        model::float(if negative { -f } else { f })
    } else {
        text()
    }
}

/// A plain scalar that is a number, nearly a number, or another word with a
/// meaning.
pub fn notation() -> (String, Model) {
    let s: String = match gen::pick(4) {
        0 => gen::one(&[
            "0", "-0", "+0", "+1", "-1", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
            "0xFFFFFFFFFFFFFFFF", "-0x8000000000000000", "0o1777777777777777777777", "1.5", "-1.5", "+1.5", "1.", ".5", "-.5", "1e3", "1E-3", "1.5e+3", "1e400", "-1e-400", ".", ".inf", "-.inf",
            "+.inf", ".nan", ".NaN", "-.nan", "inf", "nan", "-inf", "Infinity", "007", "-007", "+08", "00", "0.0", "-0.0", "00.5", "0x", "0o8", "0b2", "0b102", "0X1F", "0x1g", "+0x1F", "-0x1f", "-0o17",
            "+0b11", "-0b11", "0x+1", "0x-1", "0b-1", "0o+7", "+-1", "-+1", "--1", "++1", "+-0x1", "-0x-1", "+.5", "+-.5", "1_000", "0x1_0", "1,5", "12e", "e12", "1e+", "0x1.8", "1e5.5", "NULL", "nULL", "nuLL",
            "True", "tRUE", "yes", "No", "on", "Off", "y", "N", "~", "~~", "null1", "truer", "2001-12-14", "12:30:45", "1.2.3", "0.1", "123456789.123456789", "1e22", "1e23", "4.35", "0.30000000000000004",
            "5e-324", "1.7976931348623157e308", "9007199254740993", "9007199254740993.0",
        ])
        .to_string(),
        1 => {
            let n = gen::full() >> gen::pick(64);
            let sign = *gen::one(&["", "-", "+"]);
            match gen::pick(4) {
                0 => format!("{sign}{n}"),
                1 => format!("{sign}0x{n:x}"),
                2 => format!("{sign}0o{n:o}"),
                _ => format!("{sign}0b{n:b}"),
            }
        }
        2 => {
            let f = f64::from_bits(gen::full());
            if gen::chance(1, 2) {
                format!("{f:e}")
            } else {
                format!("{}", f as f32)
            }
        }
        _ => gen::list(1, 5, |_| {
            *gen::one(&["1", "0", "-", "+", ".", "0x", "0o", "0b", "e", "E", "9", "7", "F", "_", ".inf", ".nan", "inf", "null", "true", "~", "x", "00", "é"])
        })
        .concat(),
    };
    let m = resolve(&s);
    let wide = match &m {
        Model::Int(neg, n) => *n > if *neg { 1 << 63 } else { u64::MAX as u128 },
        _ => false,
    };
    if wide || s.is_empty() || s == "-" || s.starts_with("---") || s.starts_with("...") {
        return ("w".into(), Model::Str("w".into()));
    }
    (s, m)
}

fn scalar_y() -> (String, Model) {
    match gen::weighted(&[4, 3, 1, 1, 1, 2, 2, 1, 3]) {
        8 => {
            let (s, m) = notation();
            if s.contains(',') {
                return ("w".into(), Model::Str("w".into()));
            }
            (s, m)
        }
        0 => {
            let n = gen::pick(1000) as i128 - 100;
            (n.to_string(), model::int(n))
        }
        1 => {
            let w = *gen::one(&["foo", "bar baz", "a/b", "x.y.z", "hello-world", "é", "日本", "1.2.3", "v:w", "a#b", "q?"]);
            (w.to_string(), Model::Str(w.to_string()))
        }
        2 => {
            let w = *gen::one(&["true", "True", "TRUE", "false", "False"]);
            (w.to_string(), Model::Bool(w.to_lowercase() == "true"))
        }
        3 => (gen::one(&["null", "~", "Null"]).to_string(), Model::Null),
        4 => {
            let f = gen::pick(4000) as f64 / 16.0 + 0.03125;
            (format!("{f}"), model::float(f))
        }
        5 => {
            let s = *gen::one(&["it's", "", "a: b", "# no", "null", "[1]", "12", "&x", "*y", "é🦀"]);
            (format!("'{}'", s.replace('\'', "''")), Model::Str(s.to_string()))
        }
        6 => {
            let (t, s) = *gen::one(&[
                ("\"a\\nb\"", "a\nb"),
                ("\"tab\\t\"", "tab\t"),
                ("\"\\u00e9\"", "é"),
                ("\"\\x41\"", "A"),
                ("\"q\\\"q\"", "q\"q"),
                ("\"- : # ,\"", "- : # ,"),
                ("\"\\U0001F980\"", "🦀"),
                ("\"\"", ""),
                ("\"\\0\"", "\0"),
            ]);
            (t.to_string(), Model::Str(s.to_string()))
        }
        _ => {
            let n = gen::pick(255);
            match gen::pick(3) {
                0 => (format!("0x{n:x}"), model::int(n as i128)),
                1 => (format!("0o{n:o}"), model::int(n as i128)),
                _ => (format!("0b{n:b}"), model::int(n as i128)),
            }
        }
    }
}

/// A core tag that can stand before this scalar, and what it makes of it.
fn core_tag(text: &str, m: &Model) -> Option<(&'static str, Model)> {
    let bare = match m {
        Model::Str(s) => s.clone(),
        _ => text.to_string(),
    };
    let plain = !text.starts_with(['"', '\'']);
    let quoted_as = resolve(if bare.is_empty() { "''" } else { &bare });
    match (&quoted_as, gen::pick(3)) {
        (_, 0) => Some(("!str", Model::Str(bare))),
        (Model::Int(..), 1) => Some(("!int", quoted_as)),
        (Model::Float(_), 1) => Some(("!float", quoted_as)),
        (Model::Bool(_), _) => Some(("!bool", quoted_as)),
        (Model::Null, _) if plain || bare != "" => Some(("!null", quoted_as)),
        _ => None,
    }
}

fn draw(env: &mut Env, depth: usize, flow: bool, tag_ok: bool) -> (Y, Model) {
    env.budget = env.budget.saturating_sub(1);
    if env.allow_alias && gen::chance(1, 4) {
        let live: Vec<usize> = (0..NAMES.len())
            .filter(|n| env.latest[*n].map_or(false, |id| env.done[id].is_some()))
            .collect();
        if !live.is_empty() {
            let n = live[gen::idx(live.len())];
            let m = env.done[env.latest[n].unwrap()].clone().unwrap();
            if m.count() < 300 {
                ctx::probe("text:alias");
                return (
                    Y {
                        anchor: None,
                        tag: None,
                        kind: Kind::Alias(n),
                    },
                    m,
                );
            }
        }
    }
    let mut id = None;
    let anchor = if env.allow_alias && gen::chance(1, 3) {
        let n = gen::idx(NAMES.len());
        if env.latest[n].is_some() {
            ctx::probe("text:anchor-redefined");
        }
        env.done.push(None);
        id = Some(env.done.len() - 1);
        env.latest[n] = id;
        Some(n)
    } else {
        None
    };
    let tag = if tag_ok && gen::chance(1, 10) {
        Some(*gen::one(&["Tag", "t2"]))
    } else {
        None
    };
    let mut core_tagged = None;
    let collection = depth > 0 && env.budget > 0 && gen::chance(1, 2);
    let (kind, m) = if !collection {
        if !flow && gen::chance(1, 8) {
            let lines: Vec<String> = gen::list(1, 3, |_| gen::one(&["text", "more text here", "k: v", "- x"]).to_string());
            let c = *gen::one(&['|', '>', '-']);
            let s = match c {
                '|' => lines.join("\n") + "\n",
                '-' => lines.join("\n"),
                _ => lines.join(" ") + "\n",
            };
            (Kind::Block(c, lines), Model::Str(s))
        } else {
            let (t, m) = scalar_y();
            // A tagged plain scalar is still resolved, a tagged quoted one is
            // a string: the same as without the tag.
            let core = if tag.is_none() && gen::chance(1, 10) { core_tag(&t, &m) } else { None };
            match core {
                Some((core, m)) => {
                    core_tagged = Some(core);
                    (Kind::Scalar(t, m.clone()), m)
                }
                None => (Kind::Scalar(t, m.clone()), m),
            }
        }
    } else {
        let inner_flow = flow || gen::chance(1, 3);
        if gen::chance(1, 2) {
            let mut ms = Vec::new();
            let v = gen::list(0, 4, |_| {
                let (y, m) = draw(env, depth - 1, inner_flow, true);
                ms.push(m);
                y
            });
            (Kind::Seq(v, inner_flow), Model::Seq(ms))
        } else {
            let mut ms = Vec::new();
            let v = gen::list(0, 4, |i| {
                let key = match gen::pick(4) {
                    0 => (format!("k{i}"), Model::Str(format!("k{i}"))),
                    1 => (format!("'q {i}'"), Model::Str(format!("q {i}"))),
                    2 => (format!("{}", 100 + i), model::int(100 + i as i128)),
                    _ => (format!("\"d{i}\""), Model::Str(format!("d{i}"))),
                };
                let ky = Y {
                    anchor: None,
                    tag: None,
                    kind: Kind::Scalar(key.0, key.1.clone()),
                };
                let (y, m) = draw(env, depth - 1, inner_flow, true);
                ms.push((key.1, m));
                (ky, y)
            });
            (Kind::Map(v, inner_flow), Model::Map(ms))
        }
    };
    let m = match tag {
        Some(t) => Model::Tagged(t.to_string(), Box::new(m)),
        None => m,
    };
    if let Some(id) = id {
        env.done[id] = Some(m.clone());
    }
    let tag = tag.or(core_tagged);
    (Y { anchor, tag, kind }, m)
}

fn props(y: &Y) -> String {
    let mut p = String::new();
    if let Some(a) = y.anchor {
        p.push_str(&format!("&{} ", NAMES[a]));
    }
    if let Some(t) = y.tag {
        p.push_str(&format!("!{t} "));
    }
    p
}

fn render_flow(y: &Y, out: &mut String) {
    out.push_str(&props(y));
    match &y.kind {
        Kind::Alias(n) => {
            out.push_str(&format!("*{} ", NAMES[*n]));
        }
        Kind::Scalar(t, _) => {
            // "v:w" and friends are fine in flow context as well.
            out.push_str(t);
        }
        Kind::Block(..) => unreachable!(),
        Kind::Seq(v, _) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                render_flow(x, out);
            }
            out.push(']');
        }
        Kind::Map(v, _) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                render_flow(k, out);
                out.push_str(": ");
                render_flow(x, out);
            }
            out.push('}');
        }
    }
}

fn noise(out: &mut String, indent: usize) {
    match gen::pick(16) {
        14 => out.push_str(&format!("{:indent$}# comment: with - stuff & *more\n", "")),
        15 => out.push('\n'),
        _ => {}
    }
}

/// Renders after "key:" or "-" (or at the root, where `lead` is empty).
fn render(y: &Y, indent: usize, lead: &str, out: &mut String) {
    let p = props(y);
    match &y.kind {
        Kind::Alias(n) => out.push_str(&format!("{lead}*{}\n", NAMES[*n])),
        Kind::Scalar(t, _) => out.push_str(&format!("{lead}{p}{t}\n")),
        Kind::Block(c, lines) => {
            let header = match c {
                '|' => "|",
                '>' => ">",
                _ => "|-",
            };
            out.push_str(&format!("{lead}{p}{header}\n"));
            for l in lines {
                out.push_str(&format!("{:w$}{l}\n", "", w = indent.max(1) + 1));
            }
        }
        Kind::Seq(v, flow) if *flow || v.is_empty() => {
            out.push_str(lead);
            render_flow(y, out);
            out.push('\n');
        }
        Kind::Map(v, flow) if *flow || v.is_empty() => {
            out.push_str(lead);
            render_flow(y, out);
            out.push('\n');
        }
        Kind::Seq(v, _) => {
            if !(lead.is_empty() && p.is_empty()) {
                out.push_str(&format!("{lead}{}\n", p.trim_end()));
            }
            for x in v {
                noise(out, indent);
                out.push_str(&format!("{:indent$}-", ""));
                render(x, indent + 2, " ", out);
            }
        }
        Kind::Map(v, _) => {
            if !(lead.is_empty() && p.is_empty()) {
                out.push_str(&format!("{lead}{}\n", p.trim_end()));
            }
            for (k, x) in v {
                noise(out, indent);
                let mut ks = String::new();
                render_flow(k, &mut ks);
                out.push_str(&format!("{:indent$}{ks}:", ""));
                render(x, indent + 2, " ", out);
            }
        }
    }
}

fn count_aliases(y: &Y) -> usize {
    match &y.kind {
        Kind::Alias(_) => 1,
        Kind::Seq(v, _) => v.iter().map(count_aliases).sum(),
        Kind::Map(v, _) => v.iter().map(|(k, x)| count_aliases(k) + count_aliases(x)).sum(),
        _ => 0,
    }
}

/// More anchors than a byte can count, each used, then defined anew and used
/// again.
fn many_anchors() -> Text {
    let n = gen::range(20, 350) as usize;
    let k = gen::range(1, 40) as usize;
    let mut body = String::new();
    let mut items = Vec::new();
    let mut aliases = 0;
    for round in 0..1 + gen::idx(2) {
        let node = |i: usize| (i * 2 + round, if i % 4 == 3 { "[" } else { "" });
        let model = |i: usize| {
            let m = Model::Int(false, (i * 2 + round) as u128);
            if i % 4 == 3 {
                Model::Seq(vec![m])
            } else {
                m
            }
        };
        for i in 0..n {
            let (v, open) = node(i);
            body.push_str(&format!("- &k{i} {open}{v}{}\n", if open.is_empty() { "" } else { "]" }));
            items.push(model(i));
        }
        for j in 0..n {
            let i = (j * k) % n;
            body.push_str(&format!("- *k{i}\n"));
            items.push(model(i));
            aliases += 1;
        }
    }
    Text {
        body,
        model: Model::Seq(items),
        aliases,
    }
}

/// One document body (without `---`), ending in a newline.
pub fn draw_text(allow_alias: bool) -> Text {
    gen::span(|| {
        if allow_alias && gen::chance(1, 600) {
            return many_anchors();
        }
        let mut env = Env {
            latest: [None; NAMES.len()],
            done: Vec::new(),
            budget: 40,
            allow_alias,
        };
        let depth = gen::range(0, 4) as usize;
        let (y, model) = draw(&mut env, depth, false, true);
        let mut body = String::new();
        let lead = "";
        render(&y, 0, lead, &mut body);
        Text {
            body,
            model,
            aliases: count_aliases(&y),
        }
    })
}
