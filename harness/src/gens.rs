//! Generators of values, documents, queries, updates and pipelines.
use crate::src::Src;
use polodb_core::bson::oid::ObjectId;
use polodb_core::bson::spec::BinarySubtype;
use polodb_core::bson::{doc, Binary, Bson, DateTime, Decimal128, Document, JavaScriptCodeWithScope, Regex, Timestamp};

pub const STRINGS: &[&str] = &["a", "", "b", "ab", "abc", "B", "Ab", "é", "日本", "a b", "a.b", "10", "z\n", "x\ny", "aa", "aB", "x\ny\nab", "a\0", "a\0b", "\0", "a\0\u{2}b", "\u{10ffff}", "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789"];
pub const DATES: &[i64] = &[0, 1, -1, 1_000, 1_001, 1_700_000_000_000, 1_700_000_000_001, 1_700_000_000_999, -86_400_000, 1 << 33, (1 << 33) + 1];

pub fn string(s: &mut Src) -> String {
    if s.below(400) == 399 {
        return long_string(s);
    }
    s.pick(STRINGS).to_string()
}
/// Long strings which are alike but for their end.
pub fn long_string(s: &mut Src) -> String {
    let n = match s.weighted(&[6, 4, 1]) {
        0 => *s.pick(&[31, 63, 64, 126, 127, 128, 129, 253, 254, 255, 256, 257]),
        1 => *s.pick(&[511, 512, 1022, 1023, 1024, 1025, 4095, 4096, 4097]),
        _ => *s.pick(&[16_384, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537]),
    };
    format!("{}{}", s.pick(&["x", "x", "x", "y"]).repeat(n), s.pick(&["", "a", "b", "ab"]))
}
/// The size of a large collection or batch.
pub fn large(s: &mut Src) -> usize {
    match s.weighted(&[5, 5, 2, 1]) {
        0 => *s.pick(&[64, 65, 100, 101, 128, 129]),
        1 => *s.pick(&[255, 256, 257, 300, 512, 513]),
        2 => *s.pick(&[999, 1000, 1001, 1023, 1024, 1025]),
        _ => *s.pick(&[2000, 2048, 2049, 4096, 4097]),
    }
}
/// Many documents, made of a few.
pub fn batch(s: &mut Src, n: usize, mut mk: impl FnMut(&mut Src) -> Document) -> Vec<Document> {
    let base: Vec<Document> = (0..12).map(|_| mk(s)).collect();
    (0..n)
        .map(|i| {
            let mut d = base[(i * 7 + i / 12) % 12].clone();
            d.insert("serial", i as i32);
            d
        })
        .collect()
}
/// How many operands of an array operator, now and then very many.
fn many_operands(s: &mut Src) -> usize {
    if s.below(250) == 249 {
        *s.pick(&[16, 17, 64, 100, 127, 128, 129, 254, 255, 256, 257, 300, 600])
    } else {
        0
    }
}
pub fn oid(s: &mut Src) -> ObjectId {
    let b = s.below(6) as u8;
    match s.weighted(&[6, 1, 1, 1]) {
        0 => ObjectId::from_bytes([b, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, b]),
        // alike but for one byte
        1 => ObjectId::from_bytes([1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, b]),
        2 => ObjectId::from_bytes([1, 0, 0, 0, b, 0, 0, 0, 0, 0, 1, 1]),
        _ => ObjectId::from_bytes([1, 0, 0, 0, 0, 0, 0, 0xff - b, 0, 0, 1, 1]),
    }
}
pub fn small_double(s: &mut Src) -> f64 {
    match s.range(-4, 9) {
        9 => -0.0,
        i => i as f64 / 2.0,
    }
}
/// A value with a defined order against every other such value.
pub fn scalar(s: &mut Src) -> Bson {
    match s.weighted(&[30, 12, 14, 14, 6, 6, 6, 5, 4, 3]) {
        0 => Bson::Int32(s.range(0, 5) as i32),
        1 => Bson::Int64(s.range(-1, 5)),
        2 => {
            let d = small_double(s);
            Bson::Double(d)
        }
        3 => Bson::String(string(s)),
        4 => Bson::Boolean(s.below(2) == 1),
        5 => Bson::Null,
        6 => Bson::DateTime(DateTime::from_millis(*s.pick(DATES))),
        7 => Bson::ObjectId(oid(s)),
        8 => edge_num(s),
        _ => Bson::Undefined,
    }
}
/// Integers and floats at the limit of what floats can tell apart.
pub fn close_num(s: &mut Src) -> Bson {
    let base = *s.pick(&[1i64 << 53, 1 << 53, 1 << 53, 1 << 60, -(1 << 53), i64::MAX - 5, i64::MIN + 5]);
    let i = base + s.range(-5, 5);
    if s.below(3) == 0 { Bson::Double(i as f64) } else { Bson::Int64(i) }
}
fn edge_num(s: &mut Src) -> Bson {
    match s.below(20) {
        16 | 17 => close_num(s),
        18 => Bson::Double(*s.pick(&[f64::INFINITY, f64::NEG_INFINITY, 9007199254740992.0, 9223372036854775808.0, -9223372036854775808.0])),
        0 => Bson::Int32(i32::MAX),
        1 => Bson::Int32(i32::MIN),
        2 => Bson::Int64(i64::MAX),
        3 => Bson::Int64(i64::MIN),
        4 => Bson::Int64(1 << 33),
        5 => Bson::Int32(-3),
        // one beside the other, and with equal low bits
        6 => Bson::Int64((1 << 33) + 1),
        7 => Bson::Int64((1 << 32) + 2),
        8 => Bson::Int64(i32::MAX as i64 + 1),
        9 => Bson::Int64(i32::MIN as i64 - 1),
        10 => Bson::Int64(i64::MAX - 1),
        11 => Bson::Double(8589934592.5),
        12 => Bson::Double(1e300),
        13 => Bson::Double(-1e300),
        14 => Bson::Double(0.1),
        _ => Bson::Double(-1e-7),
    }
}
/// Any BSON value.
pub fn wild(s: &mut Src, depth: usize) -> Bson {
    let n = if depth == 0 { 13 } else { 15 };
    match s.below(n) {
        0 => scalar(s),
        1 => Bson::String(any_string(s)),
        2 => Bson::Double(f64::from_bits(s.bits())),
        3 => Bson::Int64(s.bits() as i64),
        4 => Bson::Binary(Binary {
            subtype: *s.pick(&[BinarySubtype::Generic, BinarySubtype::Uuid, BinarySubtype::Md5, BinarySubtype::UserDefined(200)]),
            bytes: (0..s.below(20)).map(|i| (i * 37) as u8).collect(),
        }),
        5 => Bson::Timestamp(Timestamp { time: s.below(1 << 32) as u32, increment: s.below(100) as u32 }),
        6 => Bson::Symbol(string(s)),
        7 => Bson::RegularExpression(Regex { pattern: s.pick(&["^a", "b$", "a.c", ""]).to_string(), options: s.pick(&["", "i", "im"]).to_string() }),
        8 => Bson::JavaScriptCode(string(s)),
        9 => Bson::JavaScriptCodeWithScope(JavaScriptCodeWithScope { code: string(s), scope: doc! {"x": s.below(3) as i32} }),
        10 => Bson::Decimal128(Decimal128::from_bytes({
            let mut b = [0u8; 16];
            b[0] = s.below(256) as u8;
            b[14] = 0x40;
            b[15] = 0x30;
            b
        })),
        11 => Bson::MinKey,
        12 => Bson::MaxKey,
        13 => {
            let mut a = vec![];
            while s.more(a.len(), 8, 2) {
                a.push(wild(s, depth - 1));
            }
            Bson::Array(a)
        }
        _ => {
            let mut d = Document::new();
            while s.more(d.len(), 8, 2) {
                let k = any_key(s);
                let v = wild(s, depth - 1);
                d.insert(k, v);
            }
            Bson::Document(d)
        }
    }
}
pub fn any_string(s: &mut Src) -> String {
    let mut out = String::new();
    while s.more(out.chars().count(), 40, 5) {
        out.push(*s.pick(&['a', 'b', 'Z', '0', ' ', '\0', '\n', '.', '$', '"', '\\', 'é', '世', '😀', '\u{7f}', '\u{fffd}']));
    }
    out
}
/// A field name which does not begin with `$`.
pub fn any_key(s: &mut Src) -> String {
    match s.below(4) {
        0 => s.pick(&["a", "b", "c", "k1", "k2", "k3"]).to_string(),
        1 => format!("f{}", s.below(50)),
        2 => s.pick(&["", "a.b", "a$b", "é", "with space", "_ID", "0", "世界", "_id2", "type", "length"]).to_string(),
        _ => {
            let t = any_string(s).replace('\0', "");
            if t.starts_with('$') { format!("k{}", t) } else { t }
        }
    }
}

pub fn int_array(s: &mut Src) -> Bson {
    let mut a = vec![];
    while s.more(a.len(), 6, 2) {
        a.push(match s.weighted(&[6, 2, 2, 1]) {
            0 => Bson::Int32(s.range(0, 4) as i32),
            1 => scalar(s),
            2 => Bson::String(string(s)),
            _ => Bson::Array(vec![Bson::Int32(s.range(0, 2) as i32)]),
        });
    }
    Bson::Array(a)
}

/// The paths which queries use.
pub const PATHS: &[&str] = &["a", "b", "s", "t", "d.x", "d.y", "d.z.w", "m", "e"];

/// A document for the query properties (without `_id`).
pub fn qdoc(s: &mut Src) -> Document {
    let mut d = Document::new();
    if s.chance(85) {
        d.insert("a", scalar(s));
    }
    if s.chance(80) {
        d.insert("b", Bson::Int32(s.range(0, 3) as i32));
    }
    if s.chance(70) {
        d.insert("s", string(s));
    }
    if s.chance(60) {
        d.insert("t", int_array(s));
    }
    if s.chance(60) {
        let mut z = Document::new();
        if s.chance(70) {
            z.insert("w", scalar(s));
        }
        let mut e = Document::new();
        if s.chance(80) {
            e.insert("x", scalar(s));
        }
        if s.chance(50) {
            e.insert("y", string(s));
        }
        if s.chance(50) {
            e.insert("z", if s.chance(70) { Bson::Document(z) } else { scalar(s) });
        }
        d.insert("d", e);
    }
    if s.chance(40) {
        d.insert(
            "m",
            match s.below(8) {
                0 => Bson::Symbol(string(s)),
                1 => Bson::Timestamp(Timestamp { time: s.below(3) as u32, increment: 0 }),
                2 => Bson::Binary(Binary { subtype: BinarySubtype::Generic, bytes: vec![s.below(3) as u8] }),
                3 => Bson::RegularExpression(Regex { pattern: "a".into(), options: "".into() }),
                4 => Bson::JavaScriptCode("x".into()),
                5 => int_array(s),
                6 => Bson::Document(doc! {"p": s.range(0, 2) as i32}),
                _ => Bson::MinKey,
            },
        );
    }
    if s.chance(15) {
        d.insert("e", doc! {});
    }
    if s.chance(2) {
        let n = *s.pick(&[4, 8, 16, 32, 33, 64, 90]);
        let mut v = scalar(s);
        for _ in 0..n {
            v = Bson::Document(doc! {"p": v});
        }
        d.insert("p", v);
    }
    d
}

/// The path to the innermost value of a deep document, or near it.
fn deep_path(s: &mut Src, docs: &[Document]) -> Option<String> {
    let mut v = docs.iter().find_map(|d| d.get("p"))?;
    let mut n = 1;
    while let Bson::Document(d) = v {
        v = d.get("p")?;
        n += 1;
    }
    let n = match s.weighted(&[6, 1, 1, 1]) {
        0 => n,
        1 => n + 1,
        2 => n - 1,
        _ => 1 + s.idx(n),
    };
    Some(vec!["p"; n.max(1)].join("."))
}

fn all_values(docs: &[Document], out: &mut Vec<Bson>, path: &str) {
    for d in docs {
        if let Some(v) = crate::model::field(d, path) {
            out.push(v);
        }
    }
}

pub fn is_scalar(v: &Bson) -> bool {
    matches!(
        v,
        Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) | Bson::String(_) | Bson::Boolean(_) | Bson::Null | Bson::DateTime(_) | Bson::ObjectId(_) | Bson::Undefined
    )
}

/// An operand of a comparison, often a value which occurs in the documents.
pub fn operand(s: &mut Src, docs: &[Document], path: &str) -> Bson {
    if s.chance(65) {
        let mut vs = vec![];
        all_values(docs, &mut vs, path);
        vs.retain(is_scalar);
        if !vs.is_empty() {
            let v = s.pick(&vs).clone();
            // the same number in another type
            if s.chance(15) {
                if let Bson::Int32(i) = v {
                    return if s.chance(50) { Bson::Int64(i as i64) } else { Bson::Double(i as f64) };
                }
            }
            return v;
        }
    }
    scalar(s)
}

pub fn candidate(s: &mut Src, docs: &[Document], path: &str) -> Bson {
    match s.weighted(&[6, 3, 1, 1, 1, 2]) {
        0 => operand(s, docs, path),
        1 => {
            // an element or the whole of an array, or a sub-document
            let vs: Vec<Bson> = docs.iter().filter_map(|d| d.get(path.split('.').next().unwrap())).cloned().collect();
            if vs.is_empty() {
                return scalar(s);
            }
            let v = s.pick(&vs).clone();
            match v {
                Bson::Array(a) if !a.is_empty() && s.chance(70) => s.pick(&a).clone(),
                Bson::Document(d) if d.keys().next().map_or(false, |k| k.starts_with('$')) => Bson::Null,
                v => v,
            }
        }
        2 => int_array(s),
        3 => Bson::Document(doc! {"x": scalar(s)}),
        4 => Bson::RegularExpression(regex(s)),
        _ => match operand(s, docs, path) {
            Bson::String(x) => Bson::Symbol(x),
            Bson::Int32(i) => Bson::Double(i as f64),
            Bson::Double(d) if d.fract() == 0.0 => Bson::Int64(d as i64),
            v => v,
        },
    }
}

pub fn regex(s: &mut Src) -> Regex {
    Regex {
        pattern: s.pick(&["a", "^a", "b$", "^ab?$", "^$", ".", "[A-Z]", "(?:é|日)", "a.*b", "^y", "^x.y$", "\\d+", "a b", "^[^a]*$", "x.y", "^AB$", "a|^b", "y$", "a b # c"]).to_string(),
        options: match s.weighted(&[6, 2, 2, 2, 1, 6]) {
            k @ 0..=4 => ["", "i", "m", "s", "x"][k].to_string(),
            _ => {
                // several options in any order
                let mut o = String::new();
                let mut left = vec!['i', 'm', 's', 'x'];
                let n = 2 + s.idx(3);
                while o.len() < n {
                    let i = s.idx(left.len());
                    o.push(left.remove(i));
                }
                o
            }
        },
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ops {
    Compare,
    Member,
    All,
}

/// One operator document entry for a path.
pub fn op_entry(s: &mut Src, docs: &[Document], path: &str, ops: Ops, depth: usize) -> (String, Bson) {
    const CMP: &[&str] = &["$eq", "$ne", "$gt", "$gte", "$lt", "$lte"];
    let member = match ops {
        Ops::Compare => false,
        Ops::Member => true,
        Ops::All => s.chance(45),
    };
    // now and then many levels
    if depth > 0 && s.chance(if depth > 2 { 80 } else { 20 }) {
        let mut d = Document::new();
        let n = s.weighted(&[0, 6, 3, 1]);
        for _ in 0..n {
            let (k, v) = op_entry(s, docs, path, ops, depth - 1);
            d.insert(k, v);
        }
        return ("$not".into(), Bson::Document(d));
    }
    if !member {
        return (s.pick(CMP).to_string(), operand(s, docs, path));
    }
    match s.weighted(&[5, 4, 4, 3, if path == "t" { 6 } else { 0 }]) {
        k @ 0..=2 => {
            let mut a = vec![];
            while s.more(a.len(), 5, 2) {
                a.push(candidate(s, docs, path));
            }
            // very many candidates, in any place among them those above
            let n = many_operands(s);
            if n > 0 && k != 2 {
                let at = s.idx(n);
                let mut b: Vec<Bson> = (0..n).map(|i| if i % 3 == 0 { Bson::String(format!("no{}", i)) } else { Bson::Int32(1000 + i as i32) }).collect();
                b.splice(at..at, a);
                a = b;
            } else if n > 0 && !a.is_empty() {
                a = (0..n).map(|i| a[i % a.len()].clone()).collect();
            }
            (["$in", "$nin", "$all"][k].into(), Bson::Array(a))
        }
        3 => ("$regex".into(), Bson::RegularExpression(regex(s))),
        _ => ("$size".into(), Bson::Int64(s.range(0, 4))),
    }
}

/// A condition on one field.
pub fn condition(s: &mut Src, docs: &[Document], ops: Ops) -> (String, Bson) {
    let p = match ops {
        Ops::Member => *s.pick(&["t", "s", "a", "m", "d", "d.x", "d.z.w", "b", "e", "nope"]),
        _ => *s.pick(&["a", "b", "s", "t", "d.x", "d.y", "d.z.w", "d", "m", "e", "nope", "d.z", "a.x", "_id", "_id"]),
    };
    let deep = if docs.iter().any(|d| d.contains_key("p")) && s.chance(25) { deep_path(s, docs) } else { None };
    let p = deep.as_deref().unwrap_or(p);
    if ops != Ops::Member && s.chance(35) {
        if p == "_id" && !docs.is_empty() {
            // (a literal _id is compared with its type: see matches_top)
            return (p.into(), s.pick(docs).get("_id").unwrap().clone());
        }
        return (p.into(), operand(s, docs, p));
    }
    let mut d = Document::new();
    let n = 1 + s.weighted(&[6, 3, 1]);
    for _ in 0..n {
        let depth = if s.chance(15) { 6 } else { 2 };
        let (k, v) = op_entry(s, docs, p, ops, depth);
        d.insert(k, v);
    }
    (p.into(), Bson::Document(d))
}

/// A query: a conjunction of conditions and logical operators.
pub fn query(s: &mut Src, docs: &[Document], ops: Ops, depth: usize) -> Document {
    let mut q = Document::new();
    let n = s.weighted(&[1, 6, 4, 2]);
    for _ in 0..n {
        if depth > 0 && s.chance(30) {
            let name = if s.chance(55) { "$or" } else { "$and" };
            let mut a = vec![];
            while s.more(a.len(), 4, 3) {
                a.push(Bson::Document(query(s, docs, ops, depth - 1)));
            }
            let n = many_operands(s);
            if n > 0 {
                let at = s.idx(n);
                let mut b: Vec<Bson> = (0..n)
                    .map(|i| {
                        let v = Bson::Int32(1000 + i as i32);
                        // conditions which change nothing
                        Bson::Document(match (name, i % 2) {
                            ("$or", 0) => doc! {"a": v},
                            ("$or", _) => doc! {"d.x": {"$gt": v, "$lt": 0}},
                            (_, 0) => doc! {"_id": {"$ne": format!("no{}", i)}},
                            _ => doc! {"a": {"$nin": [v]}},
                        })
                    })
                    .collect();
                b.splice(at..at, a);
                a = b;
            }
            q.insert(name, a);
        } else {
            let (k, v) = condition(s, docs, ops);
            q.insert(k, v);
        }
    }
    q
}

/// The documents which the operators of the query can evaluate without an error.
/// (`$size` only on arrays; comparisons with the operand's own type only if it has an order.)
pub fn small_id(s: &mut Src) -> Bson {
    match s.weighted(&[12, 4, 2, 2, 1, 1]) {
        0 => Bson::Int32(s.range(0, 15) as i32),
        1 => Bson::String(if s.below(150) == 149 { long_string(s) } else { s.pick(&["a", "b", "ab", "", "é", "zz", "a\0", "a\0b"]).to_string() }),
        2 => Bson::Int64(s.range(0, 5)),
        3 => Bson::ObjectId(oid(s)),
        4 => Bson::Double(small_double(s) + 0.25),
        _ => match s.below(6) {
            0 => Bson::Boolean(true),
            1 => Bson::DateTime(DateTime::from_millis(*s.pick(DATES))),
            2 => Bson::Timestamp(Timestamp { time: s.below(3) as u32, increment: s.below(3) as u32 }),
            3 => Bson::Symbol(s.pick(&["a", "b"]).to_string()),
            4 => Bson::Boolean(false),
            _ => Bson::Undefined,
        },
    }
}

pub const UFIELDS: &[&str] = &["n", "a", "t", "x", "y", "s"];

/// A document for the update properties: n is a number, t an array.
pub fn udoc(s: &mut Src) -> Document {
    let mut d = Document::new();
    if s.chance(80) {
        d.insert("n", number(s));
    }
    if s.chance(60) {
        d.insert("a", scalar(s));
    }
    if s.chance(60) {
        d.insert("t", int_array(s));
    }
    if s.chance(50) {
        d.insert("x", s.range(0, 3) as i32);
    }
    if s.chance(40) {
        d.insert("s", string(s));
    }
    if s.chance(20) {
        d.insert("d", doc! {"x": s.range(0, 3) as i32, "y": "k"});
    }
    d
}

pub fn number(s: &mut Src) -> Bson {
    match s.weighted(&[8, 3, 3, 1]) {
        0 => Bson::Int32(s.range(-3, 9) as i32),
        1 => Bson::Int64(s.range(-3, 9)),
        2 => Bson::Double(small_double(s) + 0.25),
        _ => match s.below(8) {
            0 => Bson::Int32(i32::MAX),
            1 => Bson::Int32(i32::MIN),
            2 => Bson::Int64(i64::MAX),
            3 => Bson::Int64(i64::MIN),
            4 => Bson::Int64(i32::MAX as i64 + 1),
            5 => Bson::Int32(65_536),
            6 => Bson::Int64(1 << 40),
            _ => Bson::Double(1e300),
        },
    }
}

/// An update document. `hard` adds operators which some documents reject.
pub fn update(s: &mut Src, hard: bool) -> Document {
    let mut u = Document::new();
    let n = 1 + s.weighted(&[6, 3, 1]);
    for _ in 0..n {
        let kind = s.weighted(&[6, 3, 5, 2, 2, 2, 3, 3, 2]);
        let name = ["$set", "$unset", "$inc", "$mul", "$min", "$max", "$push", "$pop", "$rename"][kind];
        let mut d = Document::new();
        let m = s.weighted(&[1, 10, 4]);
        for _ in 0..m {
            let k = if hard && s.chance(25) {
                s.pick(&["a", "n", "t", "s", "nope", "d"]).to_string()
            } else {
                match name {
                    "$inc" | "$mul" => s.pick(&["n", "x", "fresh"]).to_string(),
                    "$push" | "$pop" => s.pick(&["t", "newarr"]).to_string(),
                    "$min" | "$max" => s.pick(&["n", "a", "x"]).to_string(),
                    "$rename" => s.pick(&["a", "x", "s", "gone"]).to_string(),
                    _ => s.pick(&["a", "x", "n", "s", "y", "d.x"]).to_string(),
                }
            };
            let v = match name {
                "$inc" | "$mul" => if hard && s.chance(10) { scalar(s) } else { number(s) },
                "$min" | "$max" => if s.chance(70) { number(s) } else { scalar(s) },
                "$push" => match s.below(4) {
                    0 => scalar(s),
                    1 => int_array(s),
                    2 => Bson::Document(doc! {"q": 1}),
                    _ => Bson::Int32(7),
                },
                "$pop" => s.pick(&[Bson::Int32(1), Bson::Int32(-1), Bson::Int64(1), Bson::Int64(-1)]).clone(),
                "$rename" => Bson::String(s.pick(&["y", "r1", "a", "x"]).to_string()),
                "$unset" => Bson::String("".into()),
                _ => match s.below(5) {
                    0 => int_array(s),
                    1 => Bson::Document(doc! {"x": s.range(0, 3) as i32}),
                    2 => number(s),
                    _ => scalar(s),
                },
            };
            d.insert(k, v);
        }
        if hard && s.chance(4) {
            d.insert("_id", 1);
        }
        u.insert(name, d);
    }
    u
}

/// A simple query over the fields of `udoc`, and sometimes `_id`.
pub fn uquery(s: &mut Src, docs: &[Document]) -> Document {
    match s.weighted(&[3, 3, 4, 3, 2, 2]) {
        0 => doc! {},
        1 => {
            if !docs.is_empty() && s.chance(85) {
                doc! {"_id": s.pick(docs).get("_id").unwrap().clone()}
            } else {
                doc! {"_id": small_id(s)}
            }
        }
        2 => doc! {"x": s.range(0, 3) as i32},
        3 => {
            let v = operand(s, docs, "n");
            let o = *s.pick(&["$gt", "$lte", "$ne", "$eq"]);
            doc! {"n": {o: v}}
        }
        4 => {
            let v = operand(s, docs, "a");
            doc! {"$or": [{"a": v}, {"x": s.range(0, 3) as i32}]}
        }
        _ => {
            let mut a = vec![];
            while s.more(a.len(), 4, 3) {
                a.push(if docs.is_empty() { small_id(s) } else { s.pick(docs).get("_id").unwrap().clone() });
            }
            doc! {"_id": {"$in": a}}
        }
    }
}
