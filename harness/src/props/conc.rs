//! Several threads on one database, and cursors which stay open while others write.
use crate::model::*;
use crate::runner::Case;
use crate::src::Src;
use crate::sys::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::options::UpdateOptions;
use polodb_core::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::time::Duration;

type R<T> = std::result::Result<T, String>;

// ------------------------------------------------------------------ C17: the operations

const COLLS: [&str; 2] = ["a", "b"];

#[derive(Clone, Debug)]
enum Act {
    Ins(Vec<(String, Option<i32>)>, bool),
    InsGen(Option<i32>),
    InsGenMany(usize),
    Inc(String),
    IncMany(i32),
    SetU(String, i32),
    UnsetU(String),
    Del(String),
    Upsert(String, i32),
    DropColl,
    Create(bool),
    DropIx(bool),
    All,
    Count,
    One(String),
    ByU(i32),
    ByN(i32),
    Page,
}

#[derive(Clone, Debug)]
enum Step {
    Auto(usize, Act),
    /// The writes of a transaction, the pause (in units of 100 microseconds) after each, how it ends.
    Txn(Vec<(usize, Act, u64)>, u64),
}

/// What was observed. `Fail` says only that the operation had no effect.
#[derive(Clone, Debug, PartialEq)]
enum Obs {
    Ok(u64),
    Dup,
    Docs(BTreeMap<String, MDoc>),
    Id(String),
    Ids(Vec<String>),
    Fail(String),
    /// A transaction found no document: it may appear before the transaction ends.
    Nothing,
    Txn(Vec<Obs>),
    RolledBack,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct MDoc {
    n: i32,
    u: Option<i32>,
    g: i32,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct MC {
    docs: BTreeMap<String, MDoc>,
    unique: bool,
    by_n: bool,
}

type State = [MC; 2];

fn id_of(b: &Bson) -> String {
    match b {
        Bson::String(s) => s.clone(),
        Bson::ObjectId(o) => format!("oid-{}", o),
        x => format!("{:?}", x),
    }
}

fn mdoc(d: &Document) -> R<(String, MDoc)> {
    let n = d.get_i32("n").map_err(|_| format!("invariant: a document without n: {}", d))?;
    let g = d.get_i32("g").map_err(|_| format!("invariant: a document without g: {}", d))?;
    Ok((id_of(d.get("_id").unwrap_or(&Bson::Null)), MDoc { n, u: d.get_i32("u").ok(), g }))
}

fn to_docs(v: Vec<Document>) -> R<Obs> {
    let n = v.len();
    let m: BTreeMap<String, MDoc> = v.iter().map(mdoc).collect::<R<_>>()?;
    if m.len() != n {
        return Err(format!("invariant: a result has a document twice: {:?}", v));
    }
    Ok(Obs::Docs(m))
}

fn new_doc(id: &str, u: Option<i32>, g: i32) -> Document {
    let mut d = doc! {"_id": id, "n": 0, "g": g};
    if let Some(u) = u {
        d.insert("u", u);
    }
    d
}

fn lock_wait(e: &Error) -> bool {
    let s = format!("{:?} {}", e, e);
    s.contains("TimedOut") || s.contains("imed out") || s.contains("imeout") || s.contains("Deadlock") || s.contains("eadlock")
}

/// Runs the action. Err: a result which is wrong in any order.
fn run(col: &Col, a: &Act, in_txn: bool, slow: u64) -> R<Obs> {
    let fail = |e: Error| -> R<Obs> {
        match variant(&e).as_str() {
            "DuplicateKey" => Ok(Obs::Dup),
            v if lock_wait(&e) || (in_txn && v == "WriteConflict") => Ok(Obs::Fail(v.to_string())),
            v => Err(format!("mismatch: {:?} failed with {} ({})", a, v, e)),
        }
    };
    let many = |x: Result<ClientCursor<Document>>| -> R<Obs> {
        let mut out = vec![];
        let cur = match x {
            Ok(c) => c,
            Err(e) => return fail(e),
        };
        for d in cur {
            match d {
                Ok(d) => out.push(d),
                Err(e) => return fail(e),
            }
            if slow > 0 {
                std::thread::sleep(Duration::from_micros(slow * 50));
            }
        }
        to_docs(out)
    };
    let upd = |x: Result<results::UpdateResult>| match x {
        Ok(r) if r.matched_count < r.modified_count => Err(format!("mismatch: {:?} matched {} and modified {}", a, r.matched_count, r.modified_count)),
        Ok(r) if r.matched_count == 0 && in_txn && !matches!(a, Act::Upsert(..)) => Ok(Obs::Nothing),
        Ok(r) => Ok(Obs::Ok(r.matched_count)),
        Err(e) => fail(e),
    };
    match a {
        Act::Ins(v, batch) => {
            let ds: Vec<Document> = v.iter().map(|(i, u)| new_doc(i, *u, 0)).collect();
            let r = if *batch { on!(col, c => c.insert_many(&ds)).map(|_| ()) } else { on!(col, c => c.insert_one(&ds[0])).map(|_| ()) };
            match r {
                Ok(()) => Ok(Obs::Ok(0)),
                Err(e) => fail(e),
            }
        }
        Act::InsGen(u) => {
            let mut d = new_doc("", *u, 0);
            d.remove("_id");
            match on!(col, c => c.insert_one(&d)) {
                Ok(r) => Ok(Obs::Id(id_of(&r.inserted_id))),
                Err(e) => fail(e),
            }
        }
        Act::InsGenMany(n) => {
            let mut d = new_doc("", None, 0);
            d.remove("_id");
            match on!(col, c => c.insert_many(&vec![d; *n])) {
                Ok(r) => Ok(Obs::Ids((0..*n).filter_map(|i| r.inserted_ids.get(&i)).map(id_of).collect())),
                Err(e) => fail(e),
            }
        }
        Act::Inc(id) => upd(on!(col, c => c.update_one(doc! {"_id": id}, doc! {"$inc": {"n": 1}}))),
        Act::IncMany(g) => upd(on!(col, c => c.update_many(doc! {"g": *g}, doc! {"$inc": {"n": 1}}))),
        Act::SetU(id, u) => upd(on!(col, c => c.update_one(doc! {"_id": id}, doc! {"$set": {"u": *u}}))),
        Act::UnsetU(id) => upd(on!(col, c => c.update_many(doc! {"_id": id}, doc! {"$unset": {"u": ""}}))),
        Act::Del(id) => match on!(col, c => c.delete_one(doc! {"_id": id})) {
            Ok(r) if r.deleted_count == 0 && in_txn => Ok(Obs::Nothing),
            Ok(r) => Ok(Obs::Ok(r.deleted_count)),
            Err(e) => fail(e),
        },
        Act::Upsert(id, n) => upd(on!(col, c => c.update_one_with_options(
            doc! {"_id": id},
            doc! {"$set": {"n": *n, "g": 0}},
            UpdateOptions::builder().upsert(true).build()
        ))),
        Act::DropColl => match on!(col, c => c.drop()) {
            Ok(()) => Ok(Obs::Ok(0)),
            Err(e) => fail(e),
        },
        Act::Create(unique) => match on!(col, c => c.create_index(index_model(if *unique { "u" } else { "n" }, *unique, &None))) {
            Ok(()) => Ok(Obs::Ok(0)),
            Err(e) => fail(e),
        },
        Act::DropIx(unique) => match on!(col, c => c.drop_index(if *unique { "u_1" } else { "n_1" })) {
            Ok(()) => Ok(Obs::Ok(0)),
            Err(e) => fail(e),
        },
        Act::All => many(on!(col, c => c.find(doc! {}).run())),
        Act::Count => match on!(col, c => c.count_documents()) {
            Ok(n) => Ok(Obs::Ok(n)),
            Err(e) => fail(e),
        },
        Act::One(id) => many(on!(col, c => c.find(doc! {"_id": id}).run())),
        Act::ByU(u) => many(on!(col, c => c.find(doc! {"u": *u}).run())),
        Act::ByN(n) => many(on!(col, c => c.find(doc! {"n": *n}).run())),
        Act::Page => many(on!(col, c => c.aggregate([doc! {"$match": {"g": 0}}, doc! {"$sort": {"n": 1}}]).run())),
    }
}

/// The state after the action, if it can give this result in this state.
fn step(s: &MC, a: &Act, o: &Obs) -> Option<MC> {
    if matches!(o, Obs::Fail(_) | Obs::Nothing) {
        return Some(s.clone());
    }
    let taken = |u: Option<i32>, but: &str| s.unique && u.is_some() && s.docs.iter().any(|(k, d)| k != but && d.u == u);
    let docs = |p: &dyn Fn(&String, &MDoc) -> bool| -> BTreeMap<String, MDoc> { s.docs.iter().filter(|(k, d)| p(k, d)).map(|(k, d)| (k.clone(), d.clone())).collect() };
    let seen = |m: BTreeMap<String, MDoc>| if *o == Obs::Docs(m) { Some(s.clone()) } else { None };
    match a {
        Act::Ins(v, _) => {
            let mut t = s.clone();
            let mut dup = false;
            for (id, u) in v {
                dup |= t.docs.contains_key(id) || (t.unique && u.is_some() && t.docs.values().any(|d| d.u == *u));
                t.docs.insert(id.clone(), MDoc { n: 0, u: *u, g: 0 });
            }
            match (o, dup) {
                (Obs::Dup, true) => Some(s.clone()),
                (Obs::Ok(_), false) => Some(t),
                _ => None,
            }
        }
        Act::InsGen(u) => match (o, taken(*u, "")) {
            (Obs::Dup, true) => Some(s.clone()),
            (Obs::Id(id), false) if !s.docs.contains_key(id) => {
                let mut t = s.clone();
                t.docs.insert(id.clone(), MDoc { n: 0, u: *u, g: 0 });
                Some(t)
            }
            _ => None,
        },
        Act::InsGenMany(n) => match o {
            Obs::Ids(ids) if ids.len() == *n => {
                let mut t = s.clone();
                for id in ids {
                    if t.docs.insert(id.clone(), MDoc { n: 0, u: None, g: 0 }).is_some() {
                        return None;
                    }
                }
                Some(t)
            }
            _ => None,
        },
        Act::Inc(id) => match (o, s.docs.get(id)) {
            (Obs::Ok(0), None) => Some(s.clone()),
            (Obs::Ok(1), Some(_)) => {
                let mut t = s.clone();
                t.docs.get_mut(id).unwrap().n += 1;
                Some(t)
            }
            _ => None,
        },
        Act::IncMany(g) => {
            let n = s.docs.values().filter(|d| d.g == *g).count() as u64;
            if *o != Obs::Ok(n) {
                return None;
            }
            let mut t = s.clone();
            t.docs.values_mut().filter(|d| d.g == *g).for_each(|d| d.n += 1);
            Some(t)
        }
        Act::SetU(id, u) => match (o, s.docs.contains_key(id), taken(Some(*u), id)) {
            (Obs::Ok(0), false, _) => Some(s.clone()),
            (Obs::Dup, true, true) => Some(s.clone()),
            (Obs::Ok(1), true, false) => {
                let mut t = s.clone();
                t.docs.get_mut(id).unwrap().u = Some(*u);
                Some(t)
            }
            _ => None,
        },
        Act::UnsetU(id) => match (o, s.docs.contains_key(id)) {
            (Obs::Ok(0), false) => Some(s.clone()),
            (Obs::Ok(1), true) => {
                let mut t = s.clone();
                t.docs.get_mut(id).unwrap().u = None;
                Some(t)
            }
            _ => None,
        },
        Act::Del(id) => match (o, s.docs.contains_key(id)) {
            (Obs::Ok(0), false) => Some(s.clone()),
            (Obs::Ok(1), true) => {
                let mut t = s.clone();
                t.docs.remove(id);
                Some(t)
            }
            _ => None,
        },
        Act::Upsert(id, n) => match (o, s.docs.get(id)) {
            // two upserts at once: one of them may find the document of the other
            (Obs::Dup, _) => Some(s.clone()),
            (Obs::Ok(1), Some(_)) => {
                let mut t = s.clone();
                let d = t.docs.get_mut(id).unwrap();
                d.n = *n;
                d.g = 0;
                Some(t)
            }
            (Obs::Ok(0), None) => {
                let mut t = s.clone();
                t.docs.insert(id.clone(), MDoc { n: *n, u: None, g: 0 });
                Some(t)
            }
            _ => None,
        },
        Act::DropColl => Some(MC::default()),
        Act::Create(true) => {
            let us: Vec<i32> = s.docs.values().filter_map(|d| d.u).collect();
            let dup = !s.unique && us.iter().collect::<BTreeSet<_>>().len() != us.len();
            match (o, dup) {
                (Obs::Dup, true) => Some(s.clone()),
                (Obs::Ok(_), false) => Some(MC { unique: true, ..s.clone() }),
                _ => None,
            }
        }
        Act::Create(false) => Some(MC { by_n: true, ..s.clone() }),
        Act::DropIx(true) => Some(MC { unique: false, ..s.clone() }),
        Act::DropIx(false) => Some(MC { by_n: false, ..s.clone() }),
        Act::All => seen(s.docs.clone()),
        Act::Count => {
            if *o == Obs::Ok(s.docs.len() as u64) {
                Some(s.clone())
            } else {
                None
            }
        }
        Act::One(id) => seen(docs(&|k, _| k == id)),
        Act::ByU(u) => seen(docs(&|_, d| d.u == Some(*u))),
        Act::ByN(n) => seen(docs(&|_, d| d.n == *n)),
        Act::Page => seen(docs(&|_, d| d.g == 0)),
    }
}

struct Ev {
    who: usize,
    step: Step,
    obs: Obs,
    start: u64,
    end: u64,
}

fn apply(s: &State, e: &Ev) -> Option<State> {
    match (&e.step, &e.obs) {
        (Step::Auto(c, a), o) => {
            let mut t = s.clone();
            t[*c] = step(&s[*c], a, o)?;
            Some(t)
        }
        (Step::Txn(..), Obs::RolledBack) => Some(s.clone()),
        (Step::Txn(v, _), Obs::Txn(os)) => {
            let mut t = s.clone();
            for ((c, a, _), o) in v.iter().zip(os) {
                t[*c] = step(&t[*c], a, o)?;
            }
            Some(t)
        }
        _ => None,
    }
}

/// Searches an order of the events, compatible with their times, which explains every result.
fn explain(evs: &[Ev], init: &State) -> std::result::Result<(), String> {
    use std::hash::{Hash, Hasher};
    let n = evs.len();
    assert!(n <= 128);
    let mut memo: std::collections::HashSet<(u128, u64)> = Default::default();
    let mut best = 0u128;
    let mut budget = 3_000_000u64;
    let mut stack: Vec<(u128, State)> = vec![(0, init.clone())];
    while let Some((done, st)) = stack.pop() {
        if done.count_ones() as usize == n {
            return Ok(());
        }
        if done.count_ones() > best.count_ones() {
            best = done;
        }
        budget = budget.saturating_sub(1);
        if budget == 0 {
            return Ok(()); // not decided
        }
        // what may come next: it began before every other one which is left had ended
        let first_end = (0..n).filter(|i| done >> i & 1 == 0).map(|i| evs[i].end).min().unwrap();
        for i in (0..n).rev() {
            if done >> i & 1 == 1 || evs[i].start > first_end {
                continue;
            }
            if let Some(t) = apply(&st, &evs[i]) {
                let d2 = done | 1 << i;
                let mut h = std::collections::hash_map::DefaultHasher::new();
                t.hash(&mut h);
                if memo.insert((d2, h.finish())) {
                    stack.push((d2, t));
                }
            }
        }
    }
    let stuck: Vec<String> = (0..n).filter(|i| best >> i & 1 == 0).take(4).map(|i| show_ev(&evs[i])).collect();
    Err(format!("not serial: no order of the operations explains the results; at most {} of {}, then one of [{}]", best.count_ones(), n, stuck.join(" | ")))
}

fn show_ev(e: &Ev) -> String {
    format!("[{:>6}-{:>6}] thread {}: {:?} -> {:?}", e.start, e.end, e.who, e.step, e.obs)
}

fn gen_id(s: &mut Src) -> String {
    format!("d{}", s.below(5))
}

fn gen_write(s: &mut Src, fresh: &mut u32) -> Act {
    match s.weighted(&[6, 3, 2, 6, 5, 3, 4, 2, 2]) {
        0 => Act::Ins(vec![(gen_id(s), if s.chance(50) { Some(s.below(3) as i32) } else { None })], false),
        1 => {
            let mut v = vec![];
            while v.is_empty() || s.more(v.len(), 5, 3) {
                let id = if s.chance(60) {
                    *fresh += 1;
                    format!("f{}", fresh)
                } else {
                    gen_id(s)
                };
                v.push((id, if s.chance(30) { Some(s.below(3) as i32) } else { None }));
            }
            Act::Ins(v, true)
        }
        2 => {
            if s.chance(40) {
                Act::InsGenMany(1 + s.idx(6))
            } else {
                Act::InsGen(if s.chance(50) { Some(s.below(3) as i32) } else { None })
            }
        }
        3 => Act::Inc(if s.chance(40) { format!("g{}", s.below(2)) } else { gen_id(s) }),
        4 => Act::IncMany(1),
        5 => Act::SetU(if s.chance(40) { format!("g{}", s.below(2)) } else { gen_id(s) }, s.below(3) as i32),
        6 => Act::Del(gen_id(s)),
        7 => Act::UnsetU(gen_id(s)),
        _ => Act::Upsert(gen_id(s), 100 + s.below(3) as i32),
    }
}

fn gen_read(s: &mut Src) -> Act {
    match s.weighted(&[5, 3, 2, 4, 3, 2]) {
        0 => Act::All,
        1 => Act::Count,
        2 => Act::One(gen_id(s)),
        3 => Act::ByU(s.below(3) as i32),
        4 => Act::ByN(s.below(4) as i32),
        _ => Act::Page,
    }
}

fn gen_ddl(s: &mut Src) -> Act {
    match s.weighted(&[4, 4, 2, 2, 1]) {
        0 => Act::Create(true),
        1 => Act::Create(false),
        2 => Act::DropIx(true),
        3 => Act::DropIx(false),
        _ => Act::DropColl,
    }
}

/// What the threads of a case do.
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// Anything, with transactions: a lock may be held for long.
    Any,
    /// No transactions: nothing can hold a lock for long.
    Auto,
    /// Collections come and go.
    Create,
    /// Many inserts without an id.
    Burst,
}

fn gen_step(s: &mut Src, mode: Mode, one: bool, fresh: &mut u32) -> Step {
    let coll = |s: &mut Src| if one { 0 } else { s.weighted(&[3, 1]) };
    let w = match mode {
        Mode::Any => [12, 7, 2, 5, 0, 0],
        Mode::Auto => [12, 6, 3, 0, 0, 0],
        Mode::Create => [10, 3, 1, 0, 6, 0],
        Mode::Burst => [2, 1, 0, 0, 0, 12],
    };
    match s.weighted(&w) {
        4 => Step::Auto(coll(s), if s.chance(60) { Act::DropColl } else { gen_ddl(s) }),
        5 => Step::Auto(coll(s), Act::InsGenMany(1 + s.idx(20))),
        0 => Step::Auto(coll(s), gen_write(s, fresh)),
        1 => Step::Auto(coll(s), gen_read(s)),
        2 => Step::Auto(coll(s), gen_ddl(s)),
        _ => {
            let mut v = vec![];
            while v.is_empty() || s.more(v.len(), 4, 3) {
                let pause = [0, 0, 3, 10, 40][s.idx(5)];
                v.push((coll(s), gen_write(s, fresh), pause));
            }
            Step::Txn(v, s.weighted(&[6, 1, 1]) as u64)
        }
    }
}

fn thread(db: Arc<Database>, who: usize, steps: Vec<(Step, u64)>, clock: Arc<AtomicU64>, start: Arc<Barrier>) -> R<Vec<Ev>> {
    let mut evs = vec![];
    start.wait();
    for (st, wait) in steps {
        if wait > 0 {
            std::thread::sleep(Duration::from_micros(wait * 30));
        }
        let t0 = clock.fetch_add(1, Ordering::SeqCst);
        let obs = match &st {
            Step::Auto(c, a) => run(&Col::A(db.collection(COLLS[*c])), a, false, wait),
            Step::Txn(v, end) => (|| {
                let t = db.start_transaction().map_err(|e| format!("start_transaction: {}", e))?;
                let mut os = vec![];
                for (c, a, pause) in v {
                    let o = run(&Col::T(t.collection(COLLS[*c])), a, true, 0)?;
                    let failed = matches!(o, Obs::Dup | Obs::Fail(_));
                    os.push(o);
                    if failed {
                        t.rollback().map_err(|e| format!("mismatch: rollback failed with {}", e))?;
                        return Ok(Obs::RolledBack);
                    }
                    if *pause > 0 {
                        std::thread::sleep(Duration::from_micros(pause * 100));
                    }
                }
                match end {
                    0 => {
                        t.commit().map_err(|e| format!("mismatch: commit failed with {}", e))?;
                        Ok(Obs::Txn(os))
                    }
                    1 => {
                        t.rollback().map_err(|e| format!("mismatch: rollback failed with {}", e))?;
                        Ok(Obs::RolledBack)
                    }
                    _ => Ok(Obs::RolledBack),
                }
            })(),
        }?;
        let t1 = clock.fetch_add(1, Ordering::SeqCst);
        evs.push(Ev { who, step: st, obs, start: t0, end: t1 });
    }
    Ok(evs)
}

struct Plan {
    setup: Vec<Step>,
    seed: bool,
    lists: Vec<Vec<(Step, u64)>>,
}

/// Runs the plan on a new database. The events in order, and what was wrong at once.
fn play(path: &std::path::Path, plan: &Plan, state: &mut State) -> R<(Vec<Ev>, Option<String>)> {
    let db = Arc::new(open(path)?);
    let clock = Arc::new(AtomicU64::new(0));
    let mut evs: Vec<Ev> = vec![];
    if plan.seed {
        // documents which stay for the updates of many
        let ds: Vec<Document> = (0..2).map(|i| new_doc(&format!("g{}", i), None, 1)).collect();
        db.collection::<Document>("a").insert_many(&ds).map_err(|e| format!("harness: {}", e))?;
        for i in 0..2 {
            state[0].docs.insert(format!("g{}", i), MDoc { n: 0, u: None, g: 1 });
        }
    }
    evs.extend(thread(db.clone(), 99, plan.setup.iter().map(|s| (s.clone(), 0)).collect(), clock.clone(), Arc::new(Barrier::new(1)))?);
    let bar = Arc::new(Barrier::new(plan.lists.len()));
    let hs: Vec<_> = plan
        .lists
        .clone()
        .into_iter()
        .enumerate()
        .map(|(i, v)| {
            let (db, clock, bar) = (db.clone(), clock.clone(), bar.clone());
            std::thread::spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| thread(db, i, v, clock, bar))))
        })
        .collect();
    let mut err = None;
    for h in hs {
        match h.join() {
            Ok(Ok(Ok(v))) => evs.extend(v),
            Ok(Ok(Err(e))) => err = Some(e),
            _ => err = Some(format!("panic: {}", crate::runner::take_panic())),
        }
    }
    // what is there at the end
    let mut fin = vec![];
    for c in 0..2 {
        for a in [Act::All, Act::Count, Act::ByU(0), Act::ByU(1), Act::ByU(2), Act::ByN(0), Act::ByN(1), Act::ByN(2)] {
            fin.push((Step::Auto(c, a), 0));
        }
    }
    if err.is_none() {
        evs.extend(thread(db.clone(), 98, fin.clone(), clock.clone(), Arc::new(Barrier::new(1)))?);
    }
    drop(Arc::try_unwrap(db).map_err(|_| "harness: the database is in use".to_string())?);
    if err.is_none() {
        let db = Arc::new(open(path)?);
        evs.extend(thread(db.clone(), 97, fin, clock.clone(), Arc::new(Barrier::new(1)))?);
        drop(Arc::try_unwrap(db).map_err(|_| "harness: the database is in use".to_string())?);
    }
    evs.sort_by_key(|e| e.start);
    Ok((evs, err))
}

/// The disk takes a sync in good time, so that nobody waits long for a lock because of it.
fn disk_is_fast(dir: &std::path::Path) -> bool {
    use std::io::Write;
    let t = std::time::Instant::now();
    let ok = std::fs::File::create(dir.join("probe")).and_then(|mut f| {
        for _ in 0..20 {
            f.write_all(&[0; 100])?;
            f.sync_all()?;
        }
        Ok(())
    });
    ok.is_ok() && t.elapsed() < Duration::from_millis(500)
}

pub fn c17(case: &mut Case) -> R<()> {
    let mut fresh = 0;
    let mode = [Mode::Any, Mode::Auto, Mode::Create, Mode::Burst][case.s.weighted(&[12, 4, 3, 2])];
    let one = case.s.chance(60);
    let mut plan = Plan { setup: vec![], seed: case.s.chance(85), lists: vec![] };
    if plan.seed {
        for _ in 0..case.s.below(4) {
            plan.setup.push(Step::Auto(0, Act::Ins(vec![(gen_id(&mut case.s), Some(case.s.below(3) as i32))], false)));
        }
    }
    if case.s.chance(50) {
        plan.setup.push(Step::Auto(0, Act::Create(true)));
    }
    if case.s.chance(40) {
        plan.setup.push(Step::Auto(0, Act::Create(false)));
    }
    let (n, most) = match mode {
        Mode::Any | Mode::Auto => (2 + case.s.weighted(&[5, 4, 2]), 9),
        Mode::Create => (2 + case.s.idx(5), 9),
        Mode::Burst => (3 + case.s.idx(6), 9),
    };
    for _ in 0..n {
        let mut v = vec![];
        while v.is_empty() || case.s.more(v.len(), most, 6) {
            let w = [0, 0, 0, 1, 4][case.s.idx(5)];
            v.push((gen_step(&mut case.s, mode, one, &mut fresh), w));
        }
        plan.lists.push(v);
    }
    let mut state: State = Default::default();
    let (evs, err) = play(&case.dir.join("db"), &plan, &mut state)?;
    for e in &evs {
        case.log(show_ev(e));
    }
    if let Some(e) = err {
        return Err(e);
    }
    let waited = |evs: &[Ev]| evs.iter().any(|e| matches!(e.obs, Obs::Fail(_)));
    if mode != Mode::Any && waited(&evs) {
        // every operation ends by itself: a wait of a second is a deadlock, or the disk is slow
        let mut again = 0;
        for i in 0..30 {
            let p = case.dir.join(format!("again{}", i));
            let (evs, err) = play(&p, &plan, &mut Default::default())?;
            if let Some(e) = err {
                return Err(e);
            }
            let _ = std::fs::remove_dir_all(&p);
            again += (waited(&evs) && disk_is_fast(&case.dir)) as u32;
            if again == 2 {
                return Err("deadlock: operations outside of transactions waited for each other until they failed, in 3 runs".into());
            }
        }
    }
    // which overlapped
    let (mut over, mut both) = (0, 0);
    for (i, a) in evs.iter().enumerate() {
        for b in &evs[i + 1..] {
            if a.who != b.who && b.start < a.end {
                over += 1;
                let w = |e: &Ev| !matches!(&e.step, Step::Auto(_, Act::All | Act::Count | Act::One(_) | Act::ByU(_) | Act::ByN(_) | Act::Page));
                if w(a) && w(b) {
                    both += 1;
                }
            }
        }
        match &a.obs {
            Obs::Dup => case.class("a duplicate was rejected"),
            Obs::Fail(_) => case.class("a lock wait ended with an error"),
            Obs::Txn(_) => case.class("a transaction committed"),
            Obs::RolledBack => case.class("a transaction rolled back"),
            _ => {}
        }
    }
    let ids: Vec<&String> = evs
        .iter()
        .flat_map(|e| match &e.obs {
            Obs::Id(i) => vec![i],
            Obs::Ids(v) => v.iter().collect(),
            _ => vec![],
        })
        .collect();
    if ids.iter().collect::<BTreeSet<_>>().len() != ids.len() {
        return Err("invariant: an id was generated twice".into());
    }
    explain(&evs, &state)?;
    case.nontrivial = over >= 3 && both >= 1;
    Ok(())
}

// ------------------------------------------------------------------ C24

struct Open {
    what: String,
    want: Vec<Document>,
    cur: ClientCursor<Document>,
    got: usize,
    others: usize,
}

impl Open {
    /// Reads up to `n` documents. True at the end.
    fn read(&mut self, n: usize) -> R<bool> {
        for _ in 0..n {
            let more = self.cur.advance().map_err(|e| format!("mismatch: a cursor failed with {} after {} of {} documents, {} writes after {}", e, self.got, self.want.len(), self.others, self.what))?;
            if !more {
                if self.got != self.want.len() {
                    return Err(format!("mismatch: a cursor ended after {} of {} documents, {} writes after {}", self.got, self.want.len(), self.others, self.what));
                }
                return Ok(true);
            }
            let d = self.cur.deserialize_current().map_err(|e| format!("mismatch: a cursor failed with {}", e))?;
            match self.want.get(self.got) {
                Some(w) if doc_bytes(w) == doc_bytes(&d) => self.got += 1,
                w => return Err(format!("mismatch: document {} of a cursor is {}, expected {:?}, {} writes after {}", self.got, d, w.map(|w| w.to_string()), self.others, self.what)),
            }
        }
        Ok(false)
    }
}

/// A cursor of a transaction: it reads what others commit meanwhile, or not, but
/// returns every document which nobody touched, once.
struct TOpen {
    what: String,
    want: BTreeMap<IdKey, Document>,
    touched: BTreeSet<IdKey>,
    got: BTreeSet<IdKey>,
    cur: ClientCursor<Document>,
    txn: Transaction,
    /// What the transaction inserted.
    mine: Vec<Document>,
    ended: bool,
}

impl TOpen {
    fn read(&mut self, n: usize) -> R<bool> {
        for _ in 0..n {
            let more = match self.cur.advance() {
                Ok(b) => b,
                // the transaction of the cursor is over
                Err(_) if self.ended => return Ok(true),
                Err(e) => return Err(format!("mismatch: a cursor of a transaction failed with {}: {}", e, self.what)),
            };
            if !more {
                for (k, d) in &self.want {
                    if !self.touched.contains(k) && !self.got.contains(k) {
                        return Err(format!("mismatch: a cursor of a transaction lost {}, which nobody touched: {}", d, self.what));
                    }
                }
                return Ok(true);
            }
            let d = self.cur.deserialize_current().map_err(|e| format!("mismatch: a cursor failed with {}", e))?;
            let k = id_key(d.get("_id").unwrap_or(&Bson::Null));
            if self.touched.contains(&k) {
                continue;
            }
            if self.want.get(&k).map(doc_bytes) != Some(doc_bytes(&d)) || !self.got.insert(k) {
                return Err(format!("mismatch: a cursor of a transaction returned {}, not expected or twice: {}", d, self.what));
            }
        }
        Ok(false)
    }
}

/// Ends a transaction. Its cursors, if they are kept, may not go on as if nothing had happened.
fn end_of(case: &mut Case, o: &mut TOpen, m: &mut MDb, c: &str, commit: bool) -> R<bool> {
    if o.ended {
        return Ok(false);
    }
    o.ended = true;
    case.log(format!("{} of the transaction of cursor: {}", if commit { "commit" } else { "rollback" }, o.what));
    let r = if commit { o.txn.commit() } else { o.txn.rollback() };
    r.map_err(|e| format!("mismatch: the end of a transaction failed with {}", e))?;
    if !commit {
        // a cursor of which nothing was read finds what is there now
        o.touched.extend(o.mine.iter().map(|d| id_key(d.get("_id").unwrap())));
    }
    if !commit || o.mine.is_empty() {
        return Ok(false);
    }
    let mc = m.colls.get_mut(c).ok_or("harness: no collection")?;
    for d in o.mine.drain(..) {
        mc.docs.insert(id_key(d.get("_id").unwrap()), d);
    }
    Ok(true)
}

pub fn c24(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut db = Some(open(&path)?);
    let mut m = MDb::default();
    let g = super::hist::IxGen::new(&mut case.s);
    let c = "c";
    let (mut held, mut drained) = (0, 0);
    let mut cursors: Vec<Open> = vec![];
    let mut tcursors: Vec<TOpen> = vec![];
    if case.s.chance(70) {
        let op = Op::CreateIndex { key: case.s.pick(&["k", "u", "d.x"]).to_string(), unique: case.s.chance(25), name: None };
        super::hist::run_op(case, db.as_ref().unwrap(), &mut m, c, &op)?;
    }
    if case.s.chance(80) {
        let mut ds: Vec<Document> = if case.s.below(150) == 149 {
            case.class("a large collection");
            g.big(&mut case.s, 0)
        } else {
            let n = 2 + case.s.below(20);
            (0..n).map(|_| super::hist::with_id_of(&mut case.s, g)).collect()
        };
        // often several documents with one value
        let clump = case.s.pick(&["k", "u", "d"]).to_string();
        let v = if clump == "d" { Bson::Document(doc! {"x": g.val(&mut case.s)}) } else { g.val(&mut case.s) };
        for d in &mut ds {
            if case.s.chance(45) {
                d.insert(clump.clone(), v.clone());
            }
        }
        super::hist::run_op(case, db.as_ref().unwrap(), &mut m, c, &Op::InsertMany(ds))?;
    }
    let mut n = 0;
    let mut serial = 0;
    while case.s.more(n, 50, 30) {
        n += 1;
        let dbr = db.as_ref().unwrap();
        match case.s.weighted(&[20, 10, if cursors.is_empty() { 0 } else { 12 }, 1, 3, if tcursors.is_empty() { 0 } else { 6 }]) {
            4 => {
                if tcursors.len() >= 2 {
                    continue;
                }
                let docs: Vec<Document> = m.colls.get(c).map(|c| c.docs.values().cloned().collect()).unwrap_or_default();
                let q = if case.s.chance(50) && !docs.is_empty() {
                    let p = *case.s.pick(&["k", "u", "d.x"]);
                    match field(case.s.pick(&docs), p).filter(crate::gens::is_scalar) {
                        Some(v) => doc! {p: v},
                        None => doc! {},
                    }
                } else {
                    g.query(&mut case.s, &docs)
                };
                let t = dbr.start_transaction().map_err(|e| format!("start_transaction: {}", e))?;
                let what = format!("find {} in a transaction", q);
                let col = t.collection::<Document>(c);
                let mut mine = vec![];
                if m.colls.contains_key(c) && case.s.chance(50) {
                    for _ in 0..1 + case.s.idx(12) {
                        serial += 1;
                        let d = doc! {"_id": format!("{}-{}", case.s.pick(&["", "t", "~"]), serial), "own": "x".repeat(case.s.idx(3) * 300)};
                        case.log(format!("in the transaction: insert {}", d.get("_id").unwrap()));
                        col.insert_one(d.clone()).map_err(|e| format!("mismatch: an insert in a transaction failed with {}", e))?;
                        mine.push(d);
                    }
                }
                let want = all(col.find(q.clone()).run()).map_err(|e| format!("mismatch: {} failed with {}", what, e))?;
                let want: BTreeMap<IdKey, Document> = want.into_iter().map(|d| (id_key(d.get("_id").unwrap_or(&Bson::Null)), d)).collect();
                case.log(format!("open cursor: {} -> {} documents", what, want.len()));
                let cur = col.find(q).run().map_err(|e| format!("mismatch: {} failed with {}", what, e))?;
                let mut o = TOpen { what, want, touched: BTreeSet::new(), got: BTreeSet::new(), cur, txn: t, mine, ended: false };
                let k = case.s.idx(3);
                if !o.read(k)? {
                    tcursors.push(o);
                }
            }
            5 => {
                let i = case.s.idx(tcursors.len());
                if case.s.chance(30) {
                    let commit = case.s.chance(60);
                    let new: Vec<IdKey> = tcursors[i].mine.iter().map(|d| id_key(d.get("_id").unwrap())).collect();
                    if end_of(case, &mut tcursors[i], &mut m, c, commit)? {
                        tcursors.iter_mut().enumerate().filter(|(j, _)| *j != i).for_each(|(_, o)| o.touched.extend(new.iter().cloned()));
                        cursors.iter_mut().for_each(|c| c.others += 1);
                    }
                    case.class("cursor after the end of its transaction");
                    if case.s.chance(50) {
                        continue;
                    }
                } else if case.s.chance(20) && !tcursors[i].ended && !tcursors[i].mine.is_empty() {
                    // a write beside the cursor
                    let o = &mut tcursors[i];
                    for _ in 0..1 + case.s.idx(12) {
                        serial += 1;
                        let d = doc! {"_id": format!("{}-{}", case.s.pick(&["", "t", "~"]), serial), "own": "y".repeat(case.s.idx(3) * 300)};
                        case.log(format!("in the transaction: insert {}", d.get("_id").unwrap()));
                        o.txn.collection::<Document>(c).insert_one(d.clone()).map_err(|e| format!("mismatch: an insert in a transaction failed with {}", e))?;
                        o.touched.insert(id_key(d.get("_id").unwrap()));
                        o.mine.push(d);
                    }
                }
                let k = if case.s.chance(40) { usize::MAX } else { 1 + case.s.idx(3) };
                case.log(format!("read {} of cursor: {}", k.min(999), tcursors[i].what));
                if tcursors[i].read(k)? {
                    case.class(if tcursors[i].touched.is_empty() { "cursor of a transaction" } else { "cursor of a transaction beside writes" });
                    tcursors.remove(i);
                }
            }
            0 => {
                let wanted: Vec<Bson> = cursors.iter().flat_map(|o| o.want.iter().skip(o.got)).chain(tcursors.iter().flat_map(|o| o.want.values())).filter_map(|d| d.get("_id").cloned()).collect();
                let op = if !wanted.is_empty() && case.s.chance(35) {
                    // one of the documents ahead
                    let q = doc! {"_id": case.s.pick(&wanted).clone()};
                    if case.s.chance(60) {
                        Op::Delete { q, many: false }
                    } else {
                        Op::Update { q, u: g.update(&mut case.s), many: false, upsert: false }
                    }
                } else {
                    super::hist::ix_op(&mut case.s, g, &m, c, 25)
                };
                if matches!(op, Op::CreateIndex { .. }) {
                    // it waits for the transactions which write
                    for o in tcursors.iter_mut().filter(|o| !o.mine.is_empty()) {
                        end_of(case, o, &mut m, c, false)?;
                    }
                }
                if matches!(op, Op::DropIndex(_) | Op::DropColl) {
                    // an index which a transaction uses but does not lock: no cursors of it
                    for mut o in tcursors.drain(..) {
                        o.read(usize::MAX)?;
                    }
                }
                let before = if tcursors.is_empty() { None } else { m.colls.get(c).map(|c| c.docs.clone()) };
                let d = super::hist::run_op(case, dbr, &mut m, c, &op)?;
                if let (Some(b), Some(mc)) = (before, m.colls.get(c)) {
                    let ids: BTreeSet<&IdKey> = b.keys().chain(mc.docs.keys()).collect();
                    for k in ids.into_iter().filter(|k| b.get(*k) != mc.docs.get(*k)) {
                        tcursors.iter_mut().for_each(|o| {
                            o.touched.insert(k.clone());
                        });
                    }
                }
                if d.changed {
                    cursors.iter_mut().for_each(|c| c.others += 1);
                }
            }
            1 => {
                if cursors.len() >= 4 {
                    continue;
                }
                let docs: Vec<Document> = m.colls.get(c).map(|c| c.docs.values().cloned().collect()).unwrap_or_default();
                let q = if case.s.chance(25) { doc! {} } else { g.query(&mut case.s, &docs) };
                let col = dbr.collection::<Document>(c);
                let sort = if case.s.chance(25) { Some(doc! {"v": *case.s.pick(&[1, -1])}) } else { None };
                let (skip, limit) = (if case.s.chance(15) { Some(case.s.below(3)) } else { None }, if case.s.chance(15) { Some(1 + case.s.below(8)) } else { None });
                let agg = case.s.chance(25);
                let open = || -> Result<ClientCursor<Document>> {
                    if agg {
                        let mut p = vec![doc! {"$match": q.clone()}];
                        if let Some(s) = &sort {
                            p.push(doc! {"$sort": s.clone()});
                        }
                        if let Some(s) = skip {
                            p.push(doc! {"$skip": s as i64});
                        }
                        if let Some(s) = limit {
                            p.push(doc! {"$limit": s as i64});
                        }
                        return col.aggregate(p).run();
                    }
                    let mut f = col.find(q.clone());
                    if let Some(s) = &sort {
                        f = f.sort(s.clone());
                    }
                    if let Some(s) = skip {
                        f = f.skip(s);
                    }
                    if let Some(s) = limit {
                        f = f.limit(s);
                    }
                    f.run()
                };
                // the cursor reads what the query finds now
                let what = format!("{} {} sort {:?} skip {:?} limit {:?}", if agg { "aggregate" } else { "find" }, q, sort, skip, limit);
                let want = all(open()).map_err(|e| format!("mismatch: {} failed with {}", what, e))?;
                case.log(format!("open cursor: {} -> {} documents", what, want.len()));
                let cur = open().map_err(|e| format!("mismatch: {} failed with {}", what, e))?;
                let mut o = Open { what, want, cur, got: 0, others: 0 };
                if case.s.chance(50) {
                    let k = 1 + case.s.idx(3);
                    if o.read(k)? {
                        continue;
                    }
                }
                cursors.push(o);
            }
            2 => {
                let i = case.s.idx(cursors.len());
                let k = if case.s.chance(40) { usize::MAX } else { 1 + case.s.idx(4) };
                let o = &mut cursors[i];
                case.log(format!("read {} of cursor: {}", k.min(999), o.what));
                let (before, others) = (o.got, o.others);
                let end = o.read(k)?;
                if others > 0 && o.got > before {
                    held += 1;
                }
                if end {
                    drained += 1;
                    case.class(if others > 0 { "read to its end after writes" } else { "read to its end" });
                    cursors.remove(i);
                }
            }
            _ => {
                // the rest of the cursors, then a new session
                for mut o in tcursors.drain(..) {
                    o.read(usize::MAX)?;
                }
                for mut o in cursors.drain(..) {
                    o.read(usize::MAX)?;
                }
                case.log("reopen".into());
                drop(db.take());
                db = Some(super::super::sys::open(&path)?);
            }
        }
    }
    for mut o in cursors.drain(..) {
        let others = o.others;
        let before = o.got;
        o.read(usize::MAX)?;
        drained += 1;
        if others > 0 && o.got > before {
            held += 1;
        }
    }
    for mut o in tcursors.drain(..) {
        o.read(usize::MAX)?;
    }
    check_state(db.as_ref().unwrap(), &m)?;
    case.nontrivial = held >= 2 && drained >= 2;
    Ok(())
}
