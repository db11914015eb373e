//! Damaged files: what is read back is right, or an error.
use crate::model::*;
use crate::runner::Case;
use crate::src::Src;
use crate::sys::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::*;
use std::path::Path;

type R<T> = std::result::Result<T, String>;

const COLLS: [&str; 2] = ["c", "cc"];

fn payload(s: &mut Src) -> String {
    let n = [3usize, 60, 300, 1500][s.weighted(&[2, 4, 4, 1])];
    // not too compressible
    let mut x = s.below(1 << 16) + 1;
    (0..n)
        .map(|_| {
            x = crate::src::mix(x);
            (b'a' + (x % 26) as u8) as char
        })
        .collect()
}

fn new_doc(s: &mut Src, id: i32) -> Document {
    doc! {"_id": id, "k": s.range(0, 4) as i32, "u": format!("u{}", id), "p": payload(s)}
}

fn some_id(s: &mut Src, next: i32) -> i32 {
    s.below(next.max(1) as u64 + 2) as i32
}

/// Writes before the damage: enough of them for several blocks and files.
fn fill(s: &mut Src, next: &mut i32, first: bool) -> Op {
    match s.weighted(&[if first { 20 } else { 6 }, 4, 3, 2, 1]) {
        0 => {
            let n = 1 + s.below(40);
            Op::InsertMany(
                (0..n)
                    .map(|_| {
                        *next += 1;
                        new_doc(s, *next)
                    })
                    .collect(),
            )
        }
        1 => Op::Update { q: doc! {"k": s.range(0, 4) as i32}, u: doc! {"$inc": {"n": 1}, "$set": {"p": payload(s)}}, many: true, upsert: false },
        2 => Op::Delete { q: doc! {"_id": some_id(s, *next)}, many: false },
        3 => Op::Update { q: doc! {"_id": some_id(s, *next)}, u: doc! {"$set": {"k": s.range(0, 4) as i32}}, many: false, upsert: false },
        _ => match s.below(3) {
            0 => Op::CreateIndex { key: "k".into(), unique: false, name: None },
            1 => Op::CreateIndex { key: "u".into(), unique: true, name: None },
            _ => Op::DropIndex("k_1".into()),
        },
    }
}

/// Operations on the damaged database whose effect is known without reading it back.
fn use_it(s: &mut Src, next: &mut i32) -> Op {
    let all = FindOp { q: doc! {}, sort: None, skip: None, limit: None };
    match s.weighted(&[6, 6, 8, 4, 3, 4, 4, 4, 3, 2, 2, 1]) {
        0 => Op::Find(all),
        1 => Op::Find(FindOp { q: doc! {"k": s.range(0, 4) as i32}, ..all }),
        2 => Op::Find(FindOp { q: doc! {"_id": some_id(s, *next)}, ..all }),
        3 => Op::Find(FindOp { q: doc! {"u": format!("u{}", some_id(s, *next))}, ..all }),
        4 => Op::Count,
        5 => Op::Aggregate { m: Some(doc! {"k": {"$gte": s.range(0, 4) as i32}}), stages: vec![doc! {"$count": "n"}] },
        6 => {
            // maybe a duplicate
            let id = if s.chance(50) {
                some_id(s, *next)
            } else {
                *next += 1;
                *next
            };
            let mut d = new_doc(s, id);
            if s.chance(40) {
                d.insert("u", format!("u{}", some_id(s, *next)));
            }
            Op::InsertOne(d)
        }
        7 => Op::Update { q: doc! {"_id": some_id(s, *next)}, u: doc! {"$inc": {"n": 1}, "$set": {"k": s.range(0, 4) as i32}}, many: false, upsert: false },
        8 => Op::Update { q: doc! {"k": s.range(0, 4) as i32}, u: doc! {"$inc": {"n": 10}}, many: true, upsert: false },
        9 => Op::Delete { q: if s.chance(70) { doc! {"_id": some_id(s, *next)} } else { doc! {"k": s.range(0, 4) as i32} }, many: true },
        10 => match s.below(3) {
            0 => Op::CreateIndex { key: "k".into(), unique: false, name: None },
            1 => Op::CreateIndex { key: "u".into(), unique: true, name: None },
            _ => Op::DropIndex("k_1".into()),
        },
        _ => {
            if s.chance(50) {
                Op::DropColl
            } else {
                Op::Delete { q: doc! {}, many: true }
            }
        }
    }
}

fn reported(e: &str) -> bool {
    ["Corruption", "IO error", "RocksDB", "RocksDb", "not an sstable", "Bad table"].iter().any(|x| e.contains(x))
}

fn damage(case: &mut Case, p: &Path) -> R<usize> {
    let mut files: Vec<(String, std::path::PathBuf)> = vec![];
    for e in std::fs::read_dir(p).map_err(|e| format!("harness: {}", e))?.flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if n.ends_with(".sst") {
            files.push((n, e.path()));
        }
    }
    files.sort();
    let mut done = 0;
    while !files.is_empty() && (done == 0 || case.s.chance(25)) && done < 6 {
        let i = case.s.idx(files.len());
        let (n, f) = &files.remove(i);
        let mut b = std::fs::read(f).map_err(|e| format!("harness: {}", e))?;
        if b.is_empty() {
            done += 1;
            continue;
        }
        let at = match case.s.weighted(&[8, 2, 2]) {
            0 => case.s.idx(b.len()),
            1 => case.s.idx(b.len().min(256)),
            _ => b.len() - 1 - case.s.idx(b.len().min(600)),
        };
        let what;
        // not the footer, which says which checksum the blocks have, if any, and not the
        // index of the blocks about the file, whose damage meets an assertion of RocksDB
        let body = b.len().saturating_sub(200);
        let at = at.min(body.saturating_sub(1));
        match case.s.weighted(&[10, 4, 4, 1]) {
            0 => {
                let bit = case.s.below(8);
                b[at] ^= 1 << bit;
                what = format!("flip bit {} of byte {}", bit, at);
            }
            1 => {
                let n = 1 + case.s.idx(600);
                let end = (at + n).min(body);
                let at = at.min(end);
                b[at..end].fill(0);
                what = format!("zero bytes {}..{}", at, end);
            }
            2 => {
                let n = 1 + case.s.idx(64);
                let end = (at + n).min(body);
                let at = at.min(end);
                let mut x = case.s.below(1 << 20);
                for y in &mut b[at..end] {
                    x = crate::src::mix(x);
                    *y = x as u8;
                }
                what = format!("garbage in bytes {}..{}", at, end);
            }
            _ => {
                b.truncate(at);
                what = format!("truncate to {}", at);
            }
        }
        case.log(format!("damage {} ({} bytes): {}", n, std::fs::metadata(f).map(|m| m.len()).unwrap_or(0), what));
        case.class(&format!("damage: {}", what.split(' ').next().unwrap_or("")));
        std::fs::write(f, b).map_err(|e| format!("harness: {}", e))?;
        done += 1;
    }
    Ok(done)
}

struct Seen {
    reported: usize,
    right: usize,
}

fn on_damaged(case: &mut Case, db: &Database, m: &mut MDb, c: &str, op: &Op, seen: &mut Seen) -> R<()> {
    let read = matches!(op, Op::Find(_) | Op::Count | Op::Aggregate { .. });
    let before = if read { None } else { Some(m.clone()) };
    let col = Col::A(db.collection(c));
    match exec(&col, c, m, op) {
        Ok(d) => {
            case.log(format!("{}: {:?} -> ok {} n={} {:?}", c, op, d.ok, d.n, d.err));
            seen.right += d.ok as usize;
            Ok(())
        }
        Err(e) if reported(&e) => {
            case.log(format!("{}: {:?} -> reported", c, op));
            if let Some(b) = before {
                *m = b;
            }
            seen.reported += 1;
            Ok(())
        }
        Err(e) => Err(e),
    }
}

/// Everything read back is right or reported.
fn check_all(case: &mut Case, db: &Database, m: &mut MDb, seen: &mut Seen) -> R<()> {
    match db.list_collection_names() {
        Ok(mut names) => {
            names.sort();
            let want: Vec<String> = m.colls.keys().cloned().collect();
            if names != want {
                return Err(format!("state: collections {:?}, expected {:?}", names, want));
            }
        }
        Err(e) if reported(&format!("{:?} {}", e, e)) => seen.reported += 1,
        Err(e) => return Err(format!("state: list_collection_names failed with {}", e)),
    }
    let names: Vec<String> = m.colls.keys().cloned().collect();
    for c in names {
        let all = FindOp { q: doc! {}, sort: None, skip: None, limit: None };
        on_damaged(case, db, m, &c, &Op::Find(all.clone()), seen)?;
        on_damaged(case, db, m, &c, &Op::Count, seen)?;
        for k in 0..5 {
            on_damaged(case, db, m, &c, &Op::Find(FindOp { q: doc! {"k": k}, ..all.clone() }), seen)?;
        }
        let ids: Vec<Bson> = m.colls[&c].docs.values().map(|d| d.get("_id").unwrap().clone()).collect();
        let step = 1 + ids.len() / 25;
        let from = case.s.idx(step);
        for id in ids.into_iter().skip(from).step_by(step) {
            on_damaged(case, db, m, &c, &Op::Find(FindOp { q: doc! {"_id": id}, ..all.clone() }), seen)?;
        }
    }
    Ok(())
}

pub fn c23(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut m = MDb::default();
    let mut next = 0;
    let sessions = 1 + case.s.weighted(&[5, 4, 2]);
    for i in 0..sessions {
        let db = open(&path)?;
        let mut n = 0;
        while n == 0 || case.s.more(n, 12, 5) {
            n += 1;
            let c = COLLS[case.s.weighted(&[3, 1])];
            let op = fill(&mut case.s, &mut next, i == 0);
            let col = Col::A(db.collection(c));
            let d = exec(&col, c, &mut m, &op)?;
            let short: String = format!("{:?}", op).chars().take(120).collect();
            case.log(format!("{}: {} -> ok {} n={}", c, short, d.ok, d.n));
        }
        drop(db);
        case.log("close".into());
    }
    if damage(case, &path)? == 0 {
        return Ok(());
    }
    let mut seen = Seen { reported: 0, right: 0 };
    for _ in 0..2 {
        let db = match Database::open_path(&path) {
            Ok(db) => db,
            Err(e) => {
                case.log(format!("open -> {}", e));
                case.class("open reports the damage");
                case.nontrivial = seen.right > 0 && seen.reported > 0;
                return Ok(());
            }
        };
        let mut n = 0;
        while case.s.more(n, 30, 12) {
            n += 1;
            let c = COLLS[case.s.weighted(&[3, 1])];
            let op = use_it(&mut case.s, &mut next);
            on_damaged(case, &db, &mut m, c, &op, &mut seen)?;
        }
        check_all(case, &db, &mut m, &mut seen)?;
        case.log("reopen".into());
    }
    case.class(if seen.reported == 0 {
        "damage not met"
    } else if seen.right == 0 {
        "every operation reports"
    } else {
        "some operations report, others are right"
    });
    case.nontrivial = seen.reported > 0 && seen.right > 0;
    Ok(())
}
