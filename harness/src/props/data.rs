//! Values as they are stored, the namespace of collections, and robustness.
use crate::gens::{self, Ops};
use crate::model::*;
use crate::runner::Case;
use crate::src::Src;
use crate::sys::*;
use polodb_core::bson::{self, doc, Bson, Document};
use polodb_core::options::UpdateOptions;
use polodb_core::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

type R<T> = std::result::Result<T, String>;

// ------------------------------------------------------------------ C15

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Kind {
    Unit,
    One(i64),
    Two(String, bool),
    Named { x: i32, y: Option<String> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Inner {
    title: String,
    tags: Vec<String>,
    score: f64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Rec {
    #[serde(rename = "_id")]
    id: i64,
    name: String,
    big: i64,
    small: i32,
    flag: bool,
    opt: Option<i32>,
    #[serde(skip_serializing_if = "Option::is_none")]
    skipped: Option<String>,
    list: Vec<i32>,
    inner: Inner,
    inners: Vec<Inner>,
    kind: Kind,
    kinds: Vec<Kind>,
    map: BTreeMap<String, i64>,
    tuple: (i32, String),
    when: bson::DateTime,
    oid: bson::oid::ObjectId,
    unit: (),
    pair: Option<(i32, i32)>,
}

fn text(s: &mut Src) -> String {
    if s.chance(50) { gens::any_string(s) } else { gens::string(s) }
}

fn inner(s: &mut Src) -> Inner {
    Inner { title: text(s), tags: (0..s.below(4)).map(|_| text(s)).collect(), score: s.range(-1000, 1000) as f64 / 8.0 }
}

fn kind(s: &mut Src) -> Kind {
    match s.below(4) {
        0 => Kind::Unit,
        1 => Kind::One(s.bits() as i64),
        2 => Kind::Two(text(s), s.chance(50)),
        _ => Kind::Named { x: s.range(-5, 5) as i32, y: if s.chance(50) { Some(text(s)) } else { None } },
    }
}

fn rec(s: &mut Src, id: i64) -> Rec {
    Rec {
        id,
        name: text(s),
        big: s.bits() as i64,
        small: s.bits() as i32,
        flag: s.chance(50),
        opt: if s.chance(50) { Some(s.range(-9, 9) as i32) } else { None },
        skipped: if s.chance(50) { Some(text(s)) } else { None },
        list: (0..s.below(6)).map(|i| i as i32 - 2).collect(),
        inner: inner(s),
        inners: (0..s.below(3)).map(|_| inner(s)).collect(),
        kind: kind(s),
        kinds: (0..s.below(3)).map(|_| kind(s)).collect(),
        map: (0..s.below(4)).map(|i| (format!("k{}", i), s.range(-3, 3))).collect(),
        tuple: (s.range(0, 9) as i32, text(s)),
        when: bson::DateTime::from_millis(s.range(-1_000_000_000_000, 4_000_000_000_000)),
        oid: gens::oid(s),
        unit: (),
        pair: if s.chance(50) { Some((1, s.range(0, 9) as i32)) } else { None },
    }
}

/// A document of any BSON values, sometimes large or deep.
fn any_doc(s: &mut Src, classes: &mut Vec<&'static str>, thorough: bool) -> Document {
    let mut d = Document::new();
    while s.more(d.len(), 14, 6) {
        let k = gens::any_key(s);
        if k == "_id" {
            continue;
        }
        let v = gens::wild(s, 3);
        d.insert(k, v);
    }
    match s.weighted(&[30, 2, 2, 2]) {
        1 => {
            let n = *s.pick(if thorough { &[4096usize, 70_000, 1 << 20, 5 << 20] } else { &[4096usize, 33_000, 70_000, 1 << 20] }) + s.idx(3);
            if s.chance(50) {
                d.insert("large", "ab\u{e9}".repeat(n / 4));
            } else {
                d.insert("large", Bson::Binary(bson::Binary { subtype: bson::spec::BinarySubtype::Generic, bytes: (0..n).map(|i| (i * 7 + i / 251) as u8).collect() }));
            }
            classes.push("large");
        }
        2 => {
            let mut v = Bson::Int32(1);
            let n = 5 + s.idx(35);
            for i in 0..n {
                v = if i % 3 == 0 { Bson::Array(vec![v, Bson::Null]) } else { Bson::Document(doc! {"n": v}) };
            }
            d.insert("deep", v);
            classes.push("deep");
        }
        3 => {
            let n = s.idx(400);
            for i in 0..n {
                d.insert(format!("field{:03}", i * 7 % 400), i as i32);
            }
            classes.push("wide");
        }
        _ => {}
    }
    d
}

fn exact(what: &str, got: &Document, want: &Document) -> R<()> {
    if doc_bytes(got) != doc_bytes(want) {
        let cut = |d: &Document| d.to_string().chars().take(1500).collect::<String>();
        return Err(format!("{}: got {}, expected {}", what, cut(got), cut(want)));
    }
    Ok(())
}

pub fn c15(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut db = Some(open(&path)?);
    let thorough = case.thorough;
    let mut want: Vec<Document> = vec![];
    let n = 1 + case.s.idx(6);
    let mut types = BTreeSet::new();
    for i in 0..n {
        let mut cl = vec![];
        let mut d = any_doc(&mut case.s, &mut cl, thorough);
        for c in cl {
            case.class(c);
        }
        // the place of the id among the fields is kept as well
        let id = match case.s.weighted(&[6, 2, 1]) {
            0 => Bson::Int32(i as i32),
            1 => Bson::String(format!("k{}", i)),
            _ => Bson::DateTime(bson::DateTime::from_millis(i as i64)),
        };
        if case.s.chance(50) {
            d.insert("_id", id);
        } else {
            let mut o = doc! {"_id": id};
            o.extend(d);
            d = o;
        }
        for v in d.values() {
            types.insert(v.element_type() as u8);
        }
        case.log(format!("insert {}", d.to_string().chars().take(500).collect::<String>()));
        want.push(d);
    }
    let batch = case.s.chance(50);
    {
        let c = db.as_ref().unwrap().collection::<Document>("docs");
        if batch {
            c.insert_many(want.iter()).map_err(|e| format!("mismatch: insert_many failed with {}", e))?;
        } else {
            for d in &want {
                c.insert_one(d).map_err(|e| format!("mismatch: insert_one failed with {}", e))?;
            }
        }
    }
    let verify = |db: &Database, want: &[Document]| -> R<()> {
        let c = db.collection::<Document>("docs");
        let all_docs = all(c.find(doc! {}).run()).map_err(|e| format!("mismatch: find failed with {}", e))?;
        if all_docs.len() != want.len() {
            return Err(format!("mismatch: {} documents, expected {}", all_docs.len(), want.len()));
        }
        for w in want {
            let id = w.get("_id").unwrap();
            let g = all_docs.iter().find(|d| d.get("_id") == Some(id)).ok_or(format!("mismatch: no document {}", id))?;
            exact("mismatch: find", g, w)?;
            let g = c.find_one(doc! {"_id": id.clone()}).map_err(|e| format!("mismatch: find_one failed with {}", e))?.ok_or(format!("mismatch: nothing found for {}", id))?;
            exact("mismatch: find_one by _id", &g, w)?;
        }
        let g = all(c.aggregate(vec![doc! {"$sort": {"none": 1}}]).run()).map_err(|e| format!("mismatch: aggregate failed with {}", e))?;
        if g.len() != want.len() {
            return Err(format!("mismatch: aggregate returned {} documents, expected {}", g.len(), want.len()));
        }
        for (a, b) in g.iter().zip(all_docs.iter()) {
            exact("mismatch: aggregate", a, b)?;
        }
        Ok(())
    };
    verify(db.as_ref().unwrap(), &want)?;
    // an update of another field leaves the rest as it is
    if case.s.chance(60) {
        let i = case.s.idx(want.len());
        let v = gens::wild(&mut case.s, 2);
        // in place if it is there already, at the end otherwise
        let key = if case.s.chance(30) {
            let ks: Vec<String> = want[i].keys().filter(|k| *k != "_id" && !k.contains('.')).cloned().collect();
            if ks.is_empty() { "added".to_string() } else { case.s.pick(&ks).clone() }
        } else {
            "added".to_string()
        };
        let id = want[i].get("_id").unwrap().clone();
        case.log(format!("$set {} of {}", key, id));
        want[i].insert(key.clone(), v.clone());
        let c = db.as_ref().unwrap().collection::<Document>("docs");
        let r = c.update_one(doc! {"_id": id}, doc! {"$set": {key: v}}).map_err(|e| format!("mismatch: update failed with {}", e))?;
        if r.matched_count != 1 || r.modified_count != 1 {
            return Err(format!("mismatch: update counted {:?}", (r.matched_count, r.modified_count)));
        }
        verify(db.as_ref().unwrap(), &want)?;
        case.class("updated");
    }
    // typed collections
    let mut recs = vec![];
    if case.s.chance(70) {
        let n = 1 + case.s.below(3);
        for i in 0..n {
            recs.push(rec(&mut case.s, i as i64));
        }
        case.log(format!("typed {:?}", recs.first()));
        let c = db.as_ref().unwrap().collection::<Rec>("recs");
        if batch {
            c.insert_many(recs.iter()).map_err(|e| format!("mismatch: typed insert_many failed with {}", e))?;
        } else {
            for r in &recs {
                c.insert_one(r).map_err(|e| format!("mismatch: typed insert_one failed with {}", e))?;
            }
        }
        case.class("typed");
    }
    let verify_typed = |db: &Database| -> R<()> {
        let c = db.collection::<Rec>("recs");
        let mut got = all(c.find(doc! {}).run()).map_err(|e| format!("mismatch: typed find failed with {}", e))?;
        got.sort_by_key(|r| r.id);
        if got != recs {
            return Err(format!("mismatch: typed records {:?}, expected {:?}", got, recs));
        }
        for r in &recs {
            if c.find_one(doc! {"_id": r.id}).map_err(|e| format!("mismatch: typed find_one failed with {}", e))?.as_ref() != Some(r) {
                return Err(format!("mismatch: typed find_one of {}", r.id));
            }
        }
        Ok(())
    };
    verify_typed(db.as_ref().unwrap())?;
    drop(db.take());
    let db = open(&path)?;
    verify(&db, &want).map_err(|e| format!("{} (after reopening)", e))?;
    verify_typed(&db).map_err(|e| format!("{} (after reopening)", e))?;
    for t in &types {
        case.class(&format!("type {:#04x}", t));
    }
    case.nontrivial = types.len() >= 4;
    Ok(())
}

// ------------------------------------------------------------------ C16

const NAMES: &[&str] = &[
    "a", "aa", "ab", "a b", "A", "b", "é", "日本", "a-1", "a_1", "_", "0", "a\u{1}", "a\u{2}b", "\u{2}a", "a:b", "a/b", "I", "TABLE_META", "😀", " ", "a ", "users", "users2", "user",
];
const BAD: &[&str] = &["$a", "a$", "$I", "$TABLE_META", "a.b", ".", "..", "a\nb", "\t", "a\rb", "a\0b", "\0", ""];

fn long(n: usize) -> String {
    "n".repeat(n)
}

pub fn c16(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut db = Some(open(&path)?);
    let mut m = MDb::default();
    let k = 3 + case.s.idx(6);
    let mut names: Vec<String> = vec![];
    while names.len() < k {
        let n = match case.s.weighted(&[12, 2, 1]) {
            0 => case.s.pick(NAMES).to_string(),
            1 => {
                // a prefix or an extension of another
                match names.last() {
                    Some(x) if case.s.chance(50) => format!("{}{}", x, case.s.pick(&["a", "\u{1}", " ", "0", "\u{7f}"])),
                    Some(x) => x.chars().take(x.chars().count().max(2) - 1).collect(),
                    None => "x".into(),
                }
            }
            _ => long(*case.s.pick(&[64, 200, 255, 1000])),
        };
        if !names.contains(&n) && !n.is_empty() {
            names.push(n);
        } else if names.len() >= NAMES.len() {
            break;
        } else {
            let n = format!("x{}", names.len());
            names.push(n);
        }
    }
    let (mut created, mut dropped, mut rejected) = (0, 0, 0);
    if case.s.below(80) == 79 {
        // very many collections
        for i in 0..*case.s.pick(&[16, 33, 64, 100, 129]) {
            let c = format!("many{}", i);
            db.as_ref().unwrap().create_collection(&c).map_err(|e| format!("mismatch: create_collection({:?}) failed with {}", c, e))?;
            m.colls.insert(c.clone(), MColl::default());
            if i % 5 == 0 {
                run(case, &mut m, db.as_ref().unwrap(), &c, Op::InsertMany(vec![doc! {"_id": 1, "of": c.clone()}]))?;
            }
        }
        names.extend(["many0".to_string(), "many1".to_string(), "many10".to_string()]);
        case.class("very many collections");
    }
    let mut n = 0;
    while case.s.more(n, 50, 30) {
        n += 1;
        let dbr = db.as_ref().unwrap();
        let c = case.s.pick(&names).clone();
        match case.s.weighted(&[8, 10, 4, 4, 3, 3, 5, 2]) {
            0 => {
                let r = dbr.create_collection(&c);
                case.log(format!("create {:?} -> {}", c, r.is_ok()));
                match (r, m.colls.contains_key(&c)) {
                    (Ok(()), false) => {
                        m.colls.insert(c, MColl::default());
                        created += 1;
                    }
                    (Err(e), true) if variant(&e) == "CollectionAlreadyExits" => rejected += 1,
                    (r, ex) => return Err(format!("mismatch: create_collection({:?}) of an {} collection: {:?}", c, if ex { "existing" } else { "absent" }, r.map_err(|e| e.to_string()))),
                }
            }
            1 => {
                let ids: Vec<Bson> = (0..1 + case.s.idx(3)).map(|_| gens::small_id(&mut case.s)).collect();
                let ds: Vec<Document> = ids.into_iter().map(|i| doc! {"_id": i, "of": c.clone(), "k": case.s.range(0, 2) as i32}).collect();
                run(case, &mut m, dbr, &c, Op::InsertMany(ds))?;
            }
            2 => {
                if m.colls.contains_key(&c) {
                    dropped += 1;
                }
                run(case, &mut m, dbr, &c, Op::DropColl)?;
            }
            3 => {
                run(case, &mut m, dbr, &c, Op::Delete { q: doc! {}, many: true })?;
            }
            4 => {
                let u = doc! {"$set": {"k": 1}};
                run(case, &mut m, dbr, &c, Op::Update { q: doc! {}, u, many: true, upsert: false })?;
            }
            5 => {
                let unique = case.s.chance(30);
                run(case, &mut m, dbr, &c, Op::CreateIndex { key: "k".into(), unique, name: None })?;
            }
            6 => {
                let b = case.s.pick(BAD).to_string();
                let col = Col::A(dbr.collection(&b));
                let (what, r): (&str, bool) = match case.s.below(7) {
                    0 => ("create_collection", dbr.create_collection(&b).is_ok()),
                    1 => ("insert_one", on!(&col, c => c.insert_one(doc! {"_id": 1})).is_ok()),
                    2 => ("insert_many", on!(&col, c => c.insert_many(vec![doc! {"_id": 1}])).is_ok()),
                    3 => ("create_index", on!(&col, c => c.create_index(index_model("k", false, &None))).is_ok()),
                    4 => ("upsert", on!(&col, c => c.update_one_with_options(doc! {"_id": 1}, doc! {"$set": {"a": 1}}, UpdateOptions::builder().upsert(true).build())).is_ok()),
                    5 => {
                        // reads and deletes of such a name may fail, and find nothing
                        let v = find_docs(&col, &doc! {}).map(|v| v.len()).unwrap_or(0);
                        let _ = on!(&col, c => c.delete_many(doc! {}));
                        let _ = on!(&col, c => c.drop());
                        ("find", v > 0)
                    }
                    _ => {
                        let t = dbr.start_transaction().map_err(|e| e.to_string())?;
                        let r = t.collection::<Document>(&b).insert_one(doc! {"_id": 1}).is_ok();
                        ("insert_one in a transaction", r)
                    }
                };
                case.log(format!("{} on {:?} -> {}", what, b, r));
                if r {
                    return Err(format!("mismatch: {} on a collection named {:?} succeeded", what, b));
                }
                rejected += 1;
            }
            _ => {
                case.log("reopen".into());
                drop(db.take());
                db = Some(open(&path)?);
            }
        }
        let dbr = db.as_ref().unwrap();
        let mut got = dbr.list_collection_names().map_err(|e| format!("mismatch: list_collection_names failed with {}", e))?;
        got.sort();
        let want: Vec<String> = m.colls.keys().cloned().collect();
        if got != want {
            return Err(format!("mismatch: names {:?}, expected {:?}", got, want));
        }
        if n % 4 == 0 {
            check_state(dbr, &m)?;
        }
    }
    check_state(db.as_ref().unwrap(), &m)?;
    drop(db.take());
    let db = open(&path)?;
    check_state(&db, &m)?;
    for (n, c) in &m.colls {
        check_lookups(&Col::A(db.collection(n)), n, c, &[Bson::Int32(0), Bson::Int32(1)])?;
    }
    case.nontrivial = created > 0 && dropped > 0 && rejected > 0;
    Ok(())
}

fn run(case: &mut Case, m: &mut MDb, db: &Database, c: &str, op: Op) -> R<()> {
    let col = Col::A(db.collection(c));
    let d = exec(&col, c, m, &op);
    case.log(format!("{:?}: {} -> {}", c, format!("{:?}", op).chars().take(200).collect::<String>(), d.as_ref().map_or("MISMATCH".into(), |d| format!("{}", d.ok))));
    d.map(|_| ())
}

// ------------------------------------------------------------------ C18

const OPS: &[&str] = &[
    "$eq", "$ne", "$gt", "$gte", "$lt", "$lte", "$in", "$nin", "$all", "$size", "$regex", "$not", "$and", "$or", "$nor", "$exists", "$set", "$unset", "$inc", "$mul", "$min", "$max", "$push", "$pop", "$rename",
    "$match", "$sort", "$skip", "$limit", "$count", "$group", "$addFields", "$sum", "$abs", "$options", "$", "$$", "",
];

pub fn junk_key(s: &mut Src) -> String {
    match s.weighted(&[6, 8, 2]) {
        0 => s.pick(&["a", "b", "s", "t", "d", "d.x", "_id", "k", "m", "n", "e.e", "a.b.c", ".", "a.", ".a", "a..b"]).to_string(),
        1 => s.pick(OPS).to_string(),
        _ => gens::any_key(s),
    }
}

pub fn junk(s: &mut Src, depth: usize) -> Bson {
    match s.weighted(&[if depth > 0 { 8 } else { 0 }, if depth > 0 { 4 } else { 0 }, 6, 3, 3]) {
        0 => Bson::Document(junk_doc(s, depth - 1)),
        1 => {
            let mut a = vec![];
            while s.more(a.len(), 4, 2) {
                a.push(junk(s, depth - 1));
            }
            Bson::Array(a)
        }
        2 => gens::scalar(s),
        3 => gens::wild(s, 1),
        _ => match s.below(12) {
            0 => Bson::String(format!("${}", s.pick(&["a", "", "$", "d.x"]))),
            1 => Bson::Int64(i64::MIN),
            2 => Bson::Int64(i64::MAX),
            3 => Bson::Int32(i32::MIN),
            4 => Bson::Double(f64::NAN),
            5 => Bson::Double(f64::INFINITY),
            6 => Bson::Double(-0.0),
            7 => Bson::RegularExpression(bson::Regex { pattern: s.pick(&["(", "[", "a{1000000}", "*", "\\", "(?P<x"]).to_string(), options: s.pick(&["", "zz", "i"]).to_string() }),
            8 => Bson::Array(vec![]),
            9 => Bson::Document(doc! {}),
            10 => Bson::Int32(-1),
            _ => Bson::String("$".into()),
        },
    }
}

pub fn junk_doc(s: &mut Src, depth: usize) -> Document {
    let mut d = Document::new();
    while s.more(d.len(), 5, 2) {
        let k = junk_key(s);
        let v = junk(s, depth);
        d.insert(k, v);
    }
    d
}

/// Replaces some part of a well-formed document by junk.
pub fn mutate(s: &mut Src, d: &Document, depth: usize) -> Document {
    let mut out = Document::new();
    let hit = s.idx(d.len() + 1);
    for (i, (k, v)) in d.iter().enumerate() {
        let (mut k, mut v) = (k.clone(), v.clone());
        if i == hit {
            match s.below(4) {
                0 => k = junk_key(s),
                1 => v = junk(s, 2),
                2 => {
                    v = match v {
                        Bson::Document(x) if depth > 0 => Bson::Document(mutate(s, &x, depth - 1)),
                        Bson::Array(mut a) if !a.is_empty() => {
                            let i = s.idx(a.len());
                            a[i] = match &a[i] {
                                Bson::Document(x) if depth > 0 => Bson::Document(mutate(s, x, depth - 1)),
                                _ => junk(s, 2),
                            };
                            Bson::Array(a)
                        }
                        _ => junk(s, 1),
                    }
                }
                _ => {
                    v = Bson::Array(vec![v]);
                }
            }
        }
        out.insert(k, v);
    }
    if hit == d.len() {
        let k = junk_key(s);
        let v = junk(s, 2);
        out.insert(k, v);
    }
    out
}

pub fn junk_query(s: &mut Src, docs: &[Document]) -> Document {
    match s.weighted(&[4, 6, 2]) {
        0 => junk_doc(s, 3),
        1 => {
            let q = gens::query(s, docs, Ops::All, 2);
            mutate(s, &q, 3)
        }
        _ => gens::query(s, docs, Ops::All, 2),
    }
}

pub fn junk_update(s: &mut Src) -> Document {
    match s.weighted(&[3, 6, 2]) {
        0 => junk_doc(s, 3),
        1 => {
            let u = gens::update(s, true);
            mutate(s, &u, 2)
        }
        _ => gens::update(s, true),
    }
}

pub fn junk_stage(s: &mut Src, docs: &[Document]) -> Document {
    match s.weighted(&[4, 4, 2]) {
        0 => {
            let k = s.pick(&["$match", "$sort", "$skip", "$limit", "$count", "$group", "$unset", "$addFields", "$sum", "$project"]).to_string();
            let v = junk(s, 3);
            let mut d = Document::new();
            d.insert(k, v);
            d
        }
        1 => {
            let x = match s.below(8) {
                0 => doc! {"$match": gens::query(s, docs, Ops::All, 1)},
                1 => doc! {"$sort": {"a": 1, "b": -1}},
                2 => doc! {"$skip": 1},
                3 => doc! {"$limit": 3},
                4 => doc! {"$count": "n"},
                5 => doc! {"$group": {"_id": Bson::Null, "n": {"$sum": 1}}},
                6 => doc! {"$unset": ["a", "b"]},
                _ => doc! {"$addFields": {"z": {"$abs": "$a"}, "y": "$b"}},
            };
            if s.chance(70) { mutate(s, &x, 3) } else { x }
        }
        _ => junk_doc(s, 3),
    }
}

type Snap = BTreeMap<String, Vec<Vec<u8>>>;

fn snapshot(db: &Database) -> R<Snap> {
    let mut out = Snap::new();
    for n in db.list_collection_names().map_err(|e| format!("broken: list_collection_names failed with {}", e))? {
        let c = Col::A(db.collection(&n));
        let v = find_docs(&c, &doc! {}).map_err(|e| format!("broken: find in {:?} failed with {}", n, e))?;
        let cnt = on!(&c, x => x.count_documents()).map_err(|e| format!("broken: count of {:?} failed with {}", n, e))?;
        if cnt as usize != v.len() {
            return Err(format!("broken: {} documents counted in {:?}, {} found", cnt, n, v.len()));
        }
        let mut ids = HashMap::new();
        for d in &v {
            let id = d.get("_id").ok_or(format!("broken: a document without _id in {:?}: {}", n, d))?;
            if ids.insert(id_key(id), ()).is_some() {
                return Err(format!("broken: two documents with _id {} in {:?}", id, n));
            }
        }
        out.insert(n, v.iter().map(doc_bytes).collect());
    }
    Ok(out)
}

fn drain(r: Result<ClientCursor<Document>>) -> R<Option<usize>> {
    let mut cur = match r {
        Ok(c) => c,
        Err(_) => return Ok(None),
    };
    let mut n = 0;
    let mut errs = 0;
    for _ in 0..200 {
        match cur.next() {
            None => return Ok(Some(n)),
            Some(Ok(_)) => n += 1,
            Some(Err(_)) => {
                errs += 1;
                if errs > 3 {
                    return Ok(None);
                }
            }
        }
    }
    Err("endless: a cursor returned more than 200 documents of a small collection".into())
}

pub fn c18(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut db = Some(open(&path)?);
    let (mut errors, mut oks) = (0, 0);
    let mut docs = vec![];
    for i in 0..2 + case.s.idx(6) {
        let mut d = if case.s.chance(60) { gens::qdoc(&mut case.s) } else { gens::udoc(&mut case.s) };
        if case.s.chance(20) {
            let w = gens::wild(&mut case.s, 2);
            d.insert("a", w);
        }
        d.insert("_id", i as i32);
        docs.push(d);
    }
    {
        let c = db.as_ref().unwrap().collection::<Document>("c");
        c.insert_many(docs.iter()).map_err(|e| format!("setup: {}", e))?;
        for d in &docs {
            case.log(format!("document {}", d));
        }
        if case.s.chance(40) {
            case.log("create_index b".into());
            let _ = c.create_index(index_model("b", false, &None));
        }
    }
    let mut n = 0;
    while case.s.more(n, 40, 24) {
        n += 1;
        let dbr = db.as_ref().unwrap();
        let before = snapshot(dbr)?;
        let name = if case.s.chance(92) { "c".to_string() } else { case.s.pick(&["other", "", "$x", "a.b"]).to_string() };
        let mut tx = None;
        let intxn = case.s.chance(12);
        let col: Col = if intxn {
            let t = dbr.start_transaction().map_err(|e| format!("broken: start_transaction failed with {}", e))?;
            let c = Col::T(t.collection(&name));
            tx = Some(t);
            c
        } else {
            Col::A(dbr.collection(&name))
        };
        let s = &mut case.s;
        // Some(true): it may have changed something
        let (line, ok, writes): (String, bool, bool) = match s.weighted(&[10, 4, 8, 8, 4, 3, 3, 1, 2]) {
            0 => {
                let q = junk_query(s, &docs);
                let so = if s.chance(30) { Some(if s.chance(50) { junk_doc(s, 2) } else { doc! {"a": 1} }) } else { None };
                let (sk, li) = (s.bits() >> s.below(64), s.bits() >> s.below(64));
                let (usk, uli) = (s.chance(20), s.chance(20));
                let line = format!("find {} sort {:?} skip {:?} limit {:?}", q, so, usk.then_some(sk), uli.then_some(li));
                let r = on!(&col, c => {
                    let mut b = c.find(q);
                    if let Some(x) = so { b = b.sort(x); }
                    if usk { b = b.skip(sk); }
                    if uli { b = b.limit(li); }
                    b.run()
                });
                (line, drain(r)?.is_some(), false)
            }
            1 => {
                let q = junk_query(s, &docs);
                let line = format!("find_one {}", q);
                (line, on!(&col, c => c.find_one(q)).is_ok(), false)
            }
            2 => {
                let mut p = vec![];
                while s.more(p.len(), 5, 2) {
                    p.push(junk_stage(s, &docs));
                }
                let line = format!("aggregate {:?}", p);
                (line, drain(on!(&col, c => c.aggregate(p).run()))?.is_some(), false)
            }
            3 => {
                let (q, u) = (if s.chance(60) { gens::uquery(s, &docs) } else { junk_query(s, &docs) }, junk_update(s));
                let (many, up) = (s.chance(50), s.chance(30));
                let line = format!("update {} {} many {} upsert {}", q, u, many, up);
                let o = UpdateOptions::builder().upsert(up).build();
                let r = on!(&col, c => if many { c.update_many_with_options(q, u, o) } else { c.update_one_with_options(q, u, o) });
                (line, r.is_ok(), true)
            }
            4 => {
                let q = junk_query(s, &docs);
                let many = s.chance(30);
                let line = format!("delete {} many {}", q, many);
                let r = on!(&col, c => if many { c.delete_many(q) } else { c.delete_one(q) });
                (line, r.is_ok(), true)
            }
            5 => {
                let mut d = junk_doc(s, 3);
                if s.chance(30) {
                    d.insert("_id", junk(s, 1));
                }
                let line = format!("insert_one {}", d);
                (line, on!(&col, c => c.insert_one(d)).is_ok(), true)
            }
            6 => {
                let keys = if s.chance(50) { junk_doc(s, 1) } else { doc! {junk_key(s): 1} };
                let o = if s.chance(50) { None } else { Some(IndexOptions { name: if s.chance(50) { Some(junk_key(s)) } else { None }, unique: if s.chance(50) { Some(s.chance(50)) } else { None } }) };
                let line = format!("create_index {} {:?}", keys, o.as_ref().map(|o| (o.name.clone(), o.unique)));
                (line, on!(&col, c => c.create_index(IndexModel { keys, options: o })).is_ok(), true)
            }
            7 => {
                let k = junk_key(s);
                let line = format!("drop_index {:?}", k);
                (line, on!(&col, c => c.drop_index(k)).is_ok(), true)
            }
            _ => {
                let line = "count".to_string();
                (line, on!(&col, c => c.count_documents()).is_ok(), false)
            }
        };
        case.log(format!("{:?}{}: {} -> {}", name, if intxn { " txn" } else { "" }, line, if ok { "ok" } else { "err" }));
        let kind: String = line.split(' ').next().unwrap().to_string();
        case.class(&format!("{}: {}", kind, if ok { "ok" } else { "err" }));
        drop(col);
        drop(tx);
        if ok { oks += 1 } else { errors += 1 }
        let after = snapshot(dbr)?;
        if (!ok || !writes) && after != before {
            return Err(format!("changed: {} {} and changed the database", line, if ok { "is a read" } else { "failed" }));
        }
        if case.s.chance(3) {
            case.log("reopen".into());
            drop(db.take());
            db = Some(open(&path)?);
            if snapshot(db.as_ref().unwrap())? != after {
                return Err("changed: reopening changed the database".into());
            }
        }
    }
    // it still works
    let dbr = db.as_ref().unwrap();
    let c = dbr.collection::<Document>("fresh");
    c.insert_one(doc! {"_id": 1, "v": 1}).map_err(|e| format!("broken: insert failed with {}", e))?;
    let r = c.update_one(doc! {"_id": 1}, doc! {"$inc": {"v": 1}}).map_err(|e| format!("broken: update failed with {}", e))?;
    if r.modified_count != 1 || c.find_one(doc! {"v": 2}).map_err(|e| format!("broken: {}", e))?.is_none() {
        return Err("broken: an update has no effect".into());
    }
    // every document of the collection can be found by its id and deleted
    let col = Col::A(dbr.collection("c"));
    for d in find_docs(&col, &doc! {}).map_err(|e| format!("broken: {}", e))? {
        let id = d.get("_id").unwrap().clone();
        let f = find_docs(&col, &doc! {"_id": id.clone()}).map_err(|e| format!("broken: find by _id {} failed with {}", id, e))?;
        if f.len() != 1 {
            return Err(format!("broken: {} documents found by _id {}", f.len(), id));
        }
    }
    let last = snapshot(dbr)?;
    drop(db.take());
    let db = open(&path)?;
    if snapshot(&db)? != last {
        return Err("changed: reopening changed the database".into());
    }
    case.nontrivial = errors >= 2 && oks >= 2;
    Ok(())
}
