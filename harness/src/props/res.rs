//! C26: work which leaves nothing behind in the database leaves nothing behind in the process.
use super::data::{junk_doc, junk_key, junk_query, junk_stage, junk_update};
use crate::gens;
use crate::runner::Case;
use crate::src::Src;
use crate::sys::*;
use polodb_core::bson::{doc, Document};
use polodb_core::options::UpdateOptions;
use polodb_core::*;
use std::path::Path;

type R<T> = std::result::Result<T, String>;

#[derive(Clone, Debug)]
enum Do {
    /// How many documents are read before the cursor is dropped.
    Find(Document, Option<Document>, Option<u64>, Option<u64>, usize),
    Aggregate(Vec<Document>, usize),
    FindOne(Document),
    Count,
    Update(Document, Document, bool, bool),
    Delete(Document, bool),
    Insert(Vec<Document>),
    InsertOne(Document),
    CreateIndex(Document, Option<String>, bool),
    DropIndex(String),
    DropColl,
    CreateColl,
}

#[derive(Clone, Debug)]
enum Unit {
    Auto(String, Do),
    /// How it ends: commit, rollback, dropped. With a cursor which is dropped after the end.
    Txn(Vec<(String, Do)>, u8, bool),
    Names,
    Handles(usize),
    SecondOpen,
}

fn take(cur: Result<ClientCursor<Document>>, n: usize) -> bool {
    match cur {
        Err(_) => false,
        Ok(mut c) => {
            for _ in 0..n {
                match c.next() {
                    None => return true,
                    Some(Err(_)) => return false,
                    Some(Ok(_)) => {}
                }
            }
            true
        }
    }
}

fn go(db: &Database, col: &Col, name: &str, d: &Do) -> bool {
    match d {
        Do::Find(q, so, sk, li, n) => take(
            on!(col, c => {
                let mut b = c.find(q.clone());
                if let Some(x) = so { b = b.sort(x.clone()); }
                if let Some(x) = sk { b = b.skip(*x); }
                if let Some(x) = li { b = b.limit(*x); }
                b.run()
            }),
            *n,
        ),
        Do::Aggregate(p, n) => take(on!(col, c => c.aggregate(p.clone()).run()), *n),
        Do::FindOne(q) => on!(col, c => c.find_one(q.clone())).is_ok(),
        Do::Count => on!(col, c => c.count_documents()).is_ok(),
        Do::Update(q, u, many, up) => {
            let o = UpdateOptions::builder().upsert(*up).build();
            on!(col, c => if *many { c.update_many_with_options(q.clone(), u.clone(), o) } else { c.update_one_with_options(q.clone(), u.clone(), o) }).is_ok()
        }
        Do::Delete(q, many) => on!(col, c => if *many { c.delete_many(q.clone()) } else { c.delete_one(q.clone()) }).is_ok(),
        Do::Insert(ds) => on!(col, c => c.insert_many(ds)).is_ok(),
        Do::InsertOne(x) => on!(col, c => c.insert_one(x)).is_ok(),
        Do::CreateIndex(keys, name, unique) => {
            let o = IndexOptions { name: name.clone(), unique: unique.then_some(true) };
            on!(col, c => c.create_index(IndexModel { keys: keys.clone(), options: Some(o) })).is_ok()
        }
        Do::DropIndex(k) => on!(col, c => c.drop_index(k.clone())).is_ok(),
        Do::DropColl => on!(col, c => c.drop()).is_ok(),
        Do::CreateColl => match col {
            Col::A(_) => db.create_collection(name).is_ok(),
            Col::T(_) => false,
        },
    }
}

fn gen_do(s: &mut Src, docs: &[Document], reads: bool) -> Do {
    let some_query = |s: &mut Src| if s.chance(70) { gens::query(s, docs, gens::Ops::All, 2) } else { junk_query(s, docs) };
    let kind = if reads { s.weighted(&[10, 6, 3, 1]) } else { s.weighted(&[8, 4, 3, 1, 6, 4, 3, 4, 2, 1, 1, 1]) };
    match kind {
        0 => {
            let q = some_query(s);
            let so = if s.chance(30) { Some(if s.chance(20) { junk_doc(s, 1) } else { doc! {"a": 1} }) } else { None };
            let (sk, li) = (s.below(4), s.below(5));
            let (usk, uli) = (s.chance(20), s.chance(20));
            Do::Find(q, so, usk.then_some(sk), uli.then_some(li), s.idx(6))
        }
        1 => {
            let mut p = vec![];
            while s.more(p.len(), 4, 2) {
                p.push(junk_stage(s, docs));
            }
            if s.chance(50) {
                p.insert(0, doc! {"$match": some_query(s)});
            }
            Do::Aggregate(p, s.idx(6))
        }
        2 => Do::FindOne(some_query(s)),
        3 => Do::Count,
        4 => {
            let q = some_query(s);
            let u = if s.chance(60) { gens::update(s, false) } else { junk_update(s) };
            Do::Update(q, u, s.chance(50), s.chance(30))
        }
        5 => Do::Delete(some_query(s), s.chance(50)),
        6 => {
            let mut ds = vec![];
            while s.more(ds.len(), 12, 4) {
                ds.push(new_doc(s));
            }
            Do::Insert(ds)
        }
        7 => Do::InsertOne(new_doc(s)),
        8 => {
            let k = s.pick(&["a", "b", "c", "x.y"]).to_string();
            let keys = if s.chance(70) { doc! {k: 1} } else { junk_doc(s, 1) };
            let name = if s.chance(20) { Some(junk_key(s)) } else { None };
            Do::CreateIndex(keys, name, s.chance(50))
        }
        9 => Do::DropIndex(s.pick(&["a_1", "b_1", "none"]).to_string()),
        10 => Do::DropColl,
        _ => Do::CreateColl,
    }
}

fn new_doc(s: &mut Src) -> Document {
    let mut d = if s.chance(70) { gens::qdoc(s) } else { junk_doc(s, 2) };
    if s.chance(60) {
        d.insert("_id", s.idx(14) as i32);
    }
    d
}

/// Runs the units; counts: failed operations, transactions without commit, cursors left early or failed.
fn round(db: &Database, path: &Path, us: &[Unit], n: &mut [u64; 3]) -> R<()> {
    let mut fail = |ok: bool, d: &Do, n: &mut [u64; 3]| {
        if !ok {
            n[0] += 1;
        }
        if matches!(d, Do::Find(..) | Do::Aggregate(..)) {
            n[2] += 1;
        }
    };
    for u in us {
        match u {
            Unit::Auto(name, d) => {
                let ok = go(db, &Col::A(db.collection(name)), name, d);
                fail(ok, d, n);
            }
            Unit::Txn(ds, end, cursor) => {
                let t = db.start_transaction().map_err(|e| format!("broken: start_transaction failed with {}", e))?;
                for (name, d) in ds {
                    let ok = go(db, &Col::T(t.collection(name)), name, d);
                    fail(ok, d, n);
                }
                let mut cur = None;
                if *cursor {
                    if let Ok(mut c) = t.collection::<Document>("c").find(doc! {}).run() {
                        c.next();
                        cur = Some(c);
                    }
                }
                match end {
                    0 => {
                        let _ = t.commit();
                    }
                    1 => {
                        n[1] += 1;
                        let _ = t.rollback();
                    }
                    _ => n[1] += 1,
                }
                drop(t);
                drop(cur);
            }
            Unit::Names => {
                db.list_collection_names().map_err(|e| format!("broken: list_collection_names failed with {}", e))?;
            }
            Unit::Handles(k) => {
                let v: Vec<_> = (0..*k).map(|i| db.collection::<Document>(&format!("h{}", i))).collect();
                drop(v);
            }
            Unit::SecondOpen => {
                if Database::open_path(path).is_ok() {
                    return Err("broken: a database was opened twice at the same time".into());
                }
                n[0] += 1;
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
struct Use {
    memory: i64,
    files: i64,
    threads: i64,
}

fn usage() -> Use {
    let count = |p: &str| std::fs::read_dir(p).map(|d| d.count() as i64).unwrap_or(0);
    let m = unsafe { libc::mallinfo2() };
    Use { memory: (m.uordblks + m.hblkhd) as i64, files: count("/proc/self/fd"), threads: count("/proc/self/task") }
}

/// Runs `rounds` rounds four times; what grew in each of them, memory by at least `least` bytes per round.
fn grows(rounds: usize, least: i64, run: &mut dyn FnMut() -> R<()>) -> R<Option<String>> {
    let mut all = vec![usage()];
    for _ in 0..4 {
        for _ in 0..rounds {
            run()?;
        }
        all.push(usage());
    }
    let check = |f: fn(&Use) -> i64, least: i64| {
        let d: Vec<i64> = all.windows(2).map(|w| f(&w[1]) - f(&w[0])).collect();
        d.iter().all(|x| *x >= least).then_some(d)
    };
    let n = rounds as i64;
    for (what, d) in [("bytes of memory", check(|u| u.memory, n * least)), ("open files", check(|u| u.files, n)), ("threads", check(|u| u.threads, n))] {
        if let Some(d) = d {
            return Ok(Some(format!("{}, {:?} in {} rounds each", what, d, rounds)));
        }
    }
    Ok(None)
}

pub fn c26(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut docs = vec![];
    for i in 0..2 + case.s.idx(8) {
        let mut d = gens::qdoc(&mut case.s);
        d.insert("_id", i as i32);
        docs.push(d);
    }
    let ix: Vec<(&str, bool)> = (0..case.s.idx(3)).map(|_| (*case.s.pick(&["a", "b", "c"]), case.s.chance(30))).collect();
    let reopen = case.s.chance(12);
    let flushed = case.s.chance(50);
    let mut units = vec![];
    while case.s.more(units.len(), 12, 6) || units.is_empty() {
        let s = &mut case.s;
        let name = |s: &mut Src| if s.chance(85) { "c".to_string() } else { s.pick(&["d", "none", "", "a$b"]).to_string() };
        let u = match s.weighted(&[12, 8, 1, 1, 1]) {
            0 => Unit::Auto(name(s), gen_do(s, &docs, false)),
            1 => {
                let end = s.weighted(&[3, 4, 3]) as u8;
                let mut ds = vec![];
                while s.more(ds.len(), 6, 3) {
                    // what is committed grows the tables in memory
                    ds.push((name(s), gen_do(s, &docs, end == 0 && !reopen)));
                }
                Unit::Txn(ds, end, s.chance(20))
            }
            2 => Unit::Names,
            3 => Unit::Handles(1 + s.idx(5)),
            _ => Unit::SecondOpen,
        };
        units.push(u);
    }
    let fill = |db: &Database| -> R<()> {
        let c = db.collection::<Document>("c");
        c.insert_many(docs.iter()).map_err(|e| format!("setup: {}", e))?;
        db.collection::<Document>("d").insert_one(doc! {"_id": 1, "a": 1}).map_err(|e| format!("setup: {}", e))?;
        for (k, u) in &ix {
            let _ = c.create_index(index_model(k, *u, &None));
        }
        Ok(())
    };
    let mut db = open(&path)?;
    fill(&db)?;
    if flushed {
        drop(db);
        db = open(&path)?;
    }
    let mut n = [0u64; 3];
    if !reopen {
        // outside of transactions only what changes nothing
        units.retain(|u| match u {
            Unit::Auto(name, d) => match d {
                Do::Find(..) | Do::Aggregate(..) | Do::FindOne(..) | Do::Count => true,
                Do::CreateColl => matches!(name.as_str(), "c" | "d" | "" | "a$b"),
                d => {
                    let ok = db.start_transaction().map(|t| {
                        let ok = go(&db, &Col::T(t.collection(name)), name, d);
                        let _ = t.rollback();
                        ok
                    });
                    !ok.unwrap_or(true)
                }
            },
            _ => true,
        });
    }
    for u in &units {
        case.log(format!("{}: {:?}", if reopen { "each time" } else { "again and again" }, u));
    }
    case.class(if reopen { "opened and closed" } else { "open" });
    let found;
    if reopen {
        drop(db);
        let mut run = || -> R<()> {
            let db = open(&path)?;
            round(&db, &path, &units, &mut n)?;
            drop(db);
            Ok(())
        };
        for _ in 0..6 {
            run()?;
        }
        found = match grows(3, 64, &mut run)? {
            None => None,
            Some(_) => grows(16, 64, &mut run)?,
        };
    } else {
        let mut run = || round(&db, &path, &units, &mut n);
        for _ in 0..20 {
            run()?;
        }
        found = match grows(12, 16, &mut run)? {
            None => None,
            Some(_) => match grows(60, 16, &mut run)? {
                None => None,
                Some(_) => grows(200, 16, &mut run)?,
            },
        };
    }
    if n[0] > 0 {
        case.class("operations failed");
    }
    if n[1] > 0 {
        case.class("transactions were not committed");
    }
    if n[2] > 0 {
        case.class("cursors were dropped");
    }
    case.nontrivial = n.iter().filter(|x| **x > 0).count() >= 2;
    match found {
        Some(f) => Err(format!("leak: the process has more and more {}", f)),
        None => Ok(()),
    }
}
