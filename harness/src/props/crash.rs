//! C02: crashes, power loss and I/O errors at any call which changes a file.
use crate::gens;
use crate::model::*;
use crate::runner::Case;
use crate::src::Src;
use crate::sys::*;
use polodb_core::bson::{self, doc, Bson, Document};
use polodb_core::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

type R<T> = std::result::Result<T, String>;

const CHUNK: usize = 31;
const AUTO: &[&str] = &["a", "b"];
const ALL: &[&str] = &["a", "b", "t", "u"];
const TXN: &[&str] = &["t", "u"];

// ------------------------------------------------------------ the model as a file

fn model_doc(m: &MDb) -> Document {
    let mut colls = vec![];
    for (n, c) in &m.colls {
        let ix: Vec<Bson> = c.indexes.iter().map(|(k, i)| Bson::Document(doc! {"name": k, "key": &i.key, "unique": i.unique})).collect();
        let ds: Vec<Bson> = c.docs.values().cloned().map(Bson::Document).collect();
        colls.push(Bson::Document(doc! {"name": n, "docs": ds, "indexes": ix}));
    }
    doc! {"colls": colls}
}

fn model_of(d: &Document) -> MDb {
    let mut m = MDb::default();
    for c in d.get_array("colls").unwrap() {
        let c = c.as_document().unwrap();
        let mut mc = MColl::default();
        for x in c.get_array("docs").unwrap() {
            let x = x.as_document().unwrap().clone();
            mc.docs.insert(id_key(x.get("_id").unwrap()), x);
        }
        for x in c.get_array("indexes").unwrap() {
            let x = x.as_document().unwrap();
            mc.indexes.insert(x.get_str("name").unwrap().into(), MIndex { key: x.get_str("key").unwrap().into(), unique: x.get_bool("unique").unwrap() });
        }
        m.colls.insert(c.get_str("name").unwrap().into(), mc);
    }
    m
}

// ------------------------------------------------------------ the workload

struct Work {
    path: PathBuf,
    db: Option<Database>,
    txn: Option<Transaction>,
    /// what is committed
    m: MDb,
    /// what the transaction sees
    over: MDb,
    what: String,
}

impl Drop for Work {
    fn drop(&mut self) {
        self.txn = None;
        self.db = None;
    }
}

fn doc_with_id(s: &mut Src) -> Document {
    let id = match s.below(4) {
        3 => gens::small_id(s),
        _ => Bson::Int32(s.range(0, 40) as i32),
    };
    let big = s.below(24) == 23;
    let mut d = doc! {"_id": id, "k": s.range(0, 12) as i32};
    d.extend(gens::udoc(s));
    if big {
        let n = [500usize, 5_000, 40_000, 120_000][s.idx(4)];
        d.insert("big", "x".repeat(n + s.idx(9)));
    }
    d
}

fn pick_query(s: &mut Src, docs: &[Document]) -> Document {
    match s.below(4) {
        0 if !docs.is_empty() => doc! {"_id": s.pick(docs).get("_id").unwrap().clone()},
        1 => doc! {"k": {"$gte": s.range(0, 12) as i32}},
        2 => doc! {"k": s.range(0, 12) as i32},
        _ => doc! {},
    }
}

fn gen_op(s: &mut Src, m: &MDb, c: &str) -> Op {
    let docs: Vec<Document> = m.colls.get(c).map(|c| c.docs.values().cloned().collect()).unwrap_or_default();
    match s.weighted(&[8, 6, 8, 4, 3, 2, 1, 1, 1]) {
        0 => Op::InsertOne(doc_with_id(s)),
        1 => {
            let n = 2 + if s.below(5) == 4 { 40 } else { s.idx(6) };
            let base = s.range(0, 60) as i32;
            // mostly new ids; sometimes one of them is there already
            Op::InsertMany((0..n).map(|i| doc! {"_id": base * 50 + i as i32, "k": (i as i32 + base) % 13, "n": i as i32, "s": "some text"}).collect())
        }
        2 => {
            let u = match s.below(5) {
                0 => doc! {"$inc": {"n": 1}},
                1 => doc! {"$set": {"k": s.range(0, 12) as i32}},
                2 => doc! {"$push": {"t": 1}},
                3 => doc! {"$unset": {"k": ""}},
                _ => gens::update(s, false),
            };
            Op::Update { q: pick_query(s, &docs), u, many: s.chance(60), upsert: false }
        }
        3 => Op::Delete { q: pick_query(s, &docs), many: s.chance(50) },
        4 => {
            let id = s.range(0, 45) as i32;
            Op::Update { q: doc! {"_id": id}, u: doc! {"$set": {"k": s.range(0, 12) as i32, "up": true}}, many: s.chance(50), upsert: true }
        }
        5 => Op::CreateIndex { key: s.pick(&["k", "x"]).to_string(), unique: s.chance(30), name: None },
        6 => Op::DropIndex(s.pick(&["k_1", "x_1"]).to_string()),
        7 => Op::DropColl,
        _ => Op::Delete { q: doc! {}, many: true },
    }
}

/// What a transaction changed is in its own collections.
fn merge(m: &mut MDb, over: &MDb) {
    for c in TXN {
        match over.colls.get(*c) {
            Some(x) => {
                m.colls.insert(c.to_string(), x.clone());
            }
            None => {
                m.colls.remove(*c);
            }
        }
    }
}

impl Work {
    fn step(&mut self, s: &mut Src) -> R<()> {
        let open_txn = self.txn.is_some();
        let w = if open_txn { [10, 14, 0, 5, 2, 0, 0] } else { [30, 0, 5, 0, 0, 2, 2] };
        match s.weighted(&w) {
            0 => {
                let c = if open_txn { *s.pick(AUTO) } else { *s.pick(ALL) };
                let op = gen_op(s, &self.m, c);
                self.what = format!("{}: {}", c, short(&op));
                let col = Col::A(self.db.as_ref().unwrap().collection(c));
                exec(&col, c, &mut self.m, &op).map(|_| ())
            }
            1 => {
                let c = *s.pick(TXN);
                // a failed operation may leave a part of its changes in the transaction
                let op = match gen_op(s, &self.over, c) {
                    Op::DropColl => Op::Count,
                    op => op,
                };
                self.what = format!("txn {}: {}", c, short(&op));
                let col = Col::T(self.txn.as_ref().unwrap().collection(c));
                let before = self.over.clone();
                let d = exec(&col, c, &mut self.over, &op)?;
                if !d.ok {
                    self.over = before;
                    self.what += " failed: rollback";
                    self.txn.take().unwrap().rollback().map_err(|e| format!("mismatch: rollback failed with {}", e))?;
                }
                Ok(())
            }
            2 => {
                self.what = "begin".into();
                self.txn = Some(self.db.as_ref().unwrap().start_transaction().map_err(|e| format!("mismatch: begin failed with {}", e))?);
                self.over = self.m.clone();
                Ok(())
            }
            3 => {
                self.what = "commit".into();
                let t = self.txn.take().unwrap();
                let r = t.commit().map_err(|e| format!("mismatch: commit failed with {}", e));
                if r.is_ok() {
                    merge(&mut self.m, &self.over);
                }
                r
            }
            4 => {
                self.what = "rollback".into();
                self.txn.take().unwrap().rollback().map_err(|e| format!("mismatch: rollback failed with {}", e))
            }
            5 => {
                let c = *s.pick(ALL);
                self.what = format!("create collection {}", c);
                let r = self.db.as_ref().unwrap().create_collection(c);
                match (r, self.m.colls.contains_key(c)) {
                    (Ok(()), false) => {
                        self.m.colls.insert(c.into(), MColl::default());
                        Ok(())
                    }
                    (Err(e), true) if variant(&e) == "CollectionAlreadyExits" => Ok(()),
                    (r, _) => Err(format!("mismatch: create_collection {:?}", r.map_err(|e| e.to_string()))),
                }
            }
            _ => {
                self.what = "reopen".into();
                drop(self.db.take());
                self.db = Some(open(&self.path)?);
                Ok(())
            }
        }
    }
}

fn short(op: &Op) -> String {
    format!("{:?}", op).chars().take(400).collect()
}

// ------------------------------------------------------------ the child

#[derive(Clone, Copy)]
struct Shim {
    events: extern "C" fn() -> i64,
    fired: extern "C" fn() -> i32,
    end: extern "C" fn(i32),
}

fn shim() -> Option<Shim> {
    unsafe {
        let g = |n: &str| {
            let c = std::ffi::CString::new(n).unwrap();
            libc::dlsym(libc::RTLD_DEFAULT, c.as_ptr())
        };
        let (a, b, c) = (g("pt_shim_events"), g("pt_shim_fired"), g("pt_shim_end"));
        if a.is_null() || b.is_null() || c.is_null() {
            return None;
        }
        Some(Shim { events: std::mem::transmute(a), fired: std::mem::transmute(b), end: std::mem::transmute(c) })
    }
}

/// pt crashchild DIR CHOICES MODEL ACKS STATES CLOSE
pub fn child(a: &[String]) -> ! {
    let sh = shim().unwrap_or_else(|| std::process::exit(70));
    let choices: Vec<Vec<u64>> = serde_json::from_str(&std::fs::read_to_string(&a[1]).expect("choices")).expect("choices");
    let m = model_of(&bson::from_slice::<Document>(&std::fs::read(&a[2]).expect("model")).expect("model"));
    let mut acks = std::fs::OpenOptions::new().create(true).append(true).open(&a[3]).expect("acks");
    let mut states = if a[4] == "-" { None } else { Some(std::fs::OpenOptions::new().create(true).append(true).open(&a[4]).expect("states")) };
    let close = a[5] == "close";
    let sticky = std::env::var("PT_SHIM_MODE").map_or(false, |m| m.parse::<u64>().map_or(false, |m| m >= 5));
    let mut last = Document::new();
    let mut unit = 0;
    let mut report = |m: &MDb, what: &str, states: &mut Option<std::fs::File>, acks: &mut std::fs::File| {
        if let Some(f) = states {
            let md = model_doc(m);
            let mut d = doc! {"unit": unit, "events": (sh.events)(), "what": what};
            if md != last {
                d.insert("m", md.clone());
                last = md;
            }
            f.write_all(&bson::to_vec(&d).unwrap()).unwrap();
        }
        acks.write_all(format!("ok {}\n", unit).as_bytes()).unwrap();
        unit += 1;
    };
    let end = |acks: &mut std::fs::File, line: String, code: i32| -> ! {
        let _ = acks.write_all(format!("{}\n", line.replace('\n', " ")).as_bytes());
        (sh.end)(code);
        std::process::exit(code)
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let path = PathBuf::from(&a[0]);
        let db = match Database::open_path(&path) {
            Ok(db) => db,
            Err(e) if (sh.fired)() != 0 => end(&mut acks, format!("fault open: {}", e), 78),
            Err(e) => end(&mut acks, format!("mismatch open: {}", e), 79),
        };
        report(&m, "open", &mut states, &mut acks);
        let mut w = Work { path, db: Some(db), txn: None, m, over: MDb::default(), what: String::new() };
        for c in choices {
            let mut s = Src::replay(c);
            let before = w.m.clone();
            if let Err(e) = w.step(&mut s) {
                if (sh.fired)() != 0 {
                    // an I/O error was reported: what was not committed is not seen
                    // (known finding used-after-io-error: not used again after a single error)
                    if let Some(db) = w.db.as_ref() {
                        if !w.what.starts_with("reopen") && (sticky || a[5] == "use") {
                            if let Err(x) = check_state(db, &before) {
                                if x.contains("expected") {
                                    end(&mut acks, format!("mismatch after the fault in {} ({}): {}", w.what, e, x), 79);
                                }
                            }
                        }
                    }
                    end(&mut acks, format!("fault {}: {}", w.what, e), 78);
                }
                end(&mut acks, format!("mismatch {}: {}", w.what, e), 79);
            }
            report(&w.m, &w.what, &mut states, &mut acks);
        }
        w.txn = None;
        if close {
            drop(w.db.take());
        }
        report(&w.m, "close", &mut states, &mut acks);
        end(&mut acks, "done".into(), 0)
    }));
    let _ = r;
    let msg = crate::runner::take_panic();
    end(&mut acks, format!("panic {}", msg), 80)
}

// ------------------------------------------------------------ the parent

struct Run {
    code: Option<i32>,
    acks: Vec<String>,
}

#[allow(clippy::too_many_arguments)]
fn run_child(case_dir: &Path, dir: &Path, states: Option<&Path>, at: i64, mode: u64, close: &str) -> R<Run> {
    let acks = case_dir.join("acks");
    let _ = std::fs::remove_file(&acks);
    let so = std::env::var("PT_SHIM").map_err(|_| "harness: PT_SHIM is not set".to_string())?;
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("crashchild")
        .arg(dir)
        .arg(case_dir.join("choices"))
        .arg(case_dir.join("model"))
        .arg(&acks)
        .arg(states.map(|p| p.to_path_buf()).unwrap_or_else(|| "-".into()))
        .arg(close)
        .env("LD_PRELOAD", so)
        .env("PT_SHIM_DIR", dir)
        .env("PT_SHIM_REPORT", case_dir.join("report"))
        .env("PT_SHIM_AT", at.to_string())
        .env("PT_SHIM_MODE", mode.to_string())
        .env_remove("PT_LOG")
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(case_dir.join("stderr")).map_err(|e| format!("harness: {}", e))?)
        .spawn()
        .map_err(|e| format!("harness: {}", e))?;
    let t0 = Instant::now();
    let code = loop {
        if let Some(st) = child.try_wait().map_err(|e| format!("harness: {}", e))? {
            use std::os::unix::process::ExitStatusExt;
            if let Some(sig) = st.signal() {
                let e = std::fs::read_to_string(case_dir.join("stderr")).unwrap_or_default();
                // RocksDB is built with assertions and fails some of them after an I/O error: a crash like others
                let asserted = sig == libc::SIGABRT && mode >= 3 && e.contains("rocksdb::") && e.contains("Assertion");
                if sig != libc::SIGKILL && !asserted {
                    return Err(format!("crash: the process ended by signal {} ({} event {}): {}", sig, MODES[mode as usize], at, e.chars().take(300).collect::<String>().replace('\n', " ")));
                }
            }
            break st.code();
        }
        if t0.elapsed() > Duration::from_secs(40) {
            // RocksDB may wait for space: the end of the process is a crash like others
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let acks = std::fs::read_to_string(&acks).unwrap_or_default().lines().map(|l| l.to_string()).collect();
    Ok(Run { code, acks })
}

fn copy_dir(from: &Path, to: &Path) -> R<()> {
    std::fs::create_dir_all(to).map_err(|e| format!("harness: {}", e))?;
    for e in std::fs::read_dir(from).map_err(|e| format!("harness: {}", e))?.flatten() {
        std::fs::copy(e.path(), to.join(e.file_name())).map_err(|e| format!("harness: {}", e))?;
    }
    Ok(())
}

/// The known finding torn-first-record: RocksDB keeps a log of which only a
/// part of the first record was written, and later refuses what comes after it.
/// Such a log is cut to nothing.
fn no_torn_first(dir: &Path) -> R<usize> {
    let mut n = 0;
    for p in std::fs::read_dir(dir).map_err(|e| format!("harness: {}", e))?.flatten().map(|e| e.path()) {
        if p.extension().map_or(false, |e| e == "log") {
            let b = std::fs::read(&p).map_err(|e| format!("harness: {}", e))?;
            if !b.is_empty() && !first_record(&b) {
                std::fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_len(0)).map_err(|e| format!("harness: {}", e))?;
                n += 1;
            }
        }
    }
    Ok(n)
}

/// Whether the log begins with a record which is complete.
fn first_record(b: &[u8]) -> bool {
    let mut at = 0;
    loop {
        // a block is 32768 bytes; less than 7 at its end are padding
        let left = 32768 - at % 32768;
        if left < 7 {
            at += left;
        }
        if at + 7 > b.len() {
            return false;
        }
        let len = b[at + 4] as usize | (b[at + 5] as usize) << 8;
        let ty = b[at + 6];
        if at + 7 + len > b.len() || !(1..=4).contains(&ty) {
            return false;
        }
        let crc = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
        if crc32c(&b[at + 6..at + 7 + len]).rotate_right(15).wrapping_add(0xa282_ead8) != crc {
            return false;
        }
        match ty {
            1 | 4 => return true,
            _ => at += 7 + len,
        }
    }
}

fn crc32c(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
        }
    }
    !c
}

/// The reproduction of that finding: true when the database cannot be opened.
pub fn known_torn_first(dir: &Path) -> bool {
    let (a, b) = (dir.join("a"), dir.join("b"));
    let put = |p: &Path, i: i32| -> R<()> {
        let db = open(p)?;
        let r = db.collection::<Document>("c").insert_one(doc! {"_id": i}).map_err(|e| e.to_string());
        drop(db);
        r.map(|_| ())
    };
    let r = (|| -> R<bool> {
        put(&a, 1)?;
        put(&a, 2)?;
        {
            let db = open(&a)?;
            db.collection::<Document>("c").insert_one(doc! {"_id": 3}).map_err(|e| e.to_string())?;
            copy_dir(&a, &b)?;
        }
        let mut logs: Vec<PathBuf> = std::fs::read_dir(&b).unwrap().flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "log")).collect();
        logs.sort();
        std::fs::OpenOptions::new().write(true).open(logs.last().unwrap()).and_then(|f| f.set_len(20)).map_err(|e| e.to_string())?;
        drop(open(&b)?);
        let ok = open(&b).and_then(|db| db.collection::<Document>("c").count_documents().map_err(|e| e.to_string())) == Ok(2);
        Ok(!ok)
    })();
    r.unwrap_or(false)
}

/// The known finding used-after-io-error: true when an insert which failed by
/// an I/O error, after which the database was read, appears between two reopenings.
pub fn known_used_after(dir: &Path) -> bool {
    let _ = std::fs::create_dir_all(dir);
    let _ = std::fs::write(dir.join("choices"), serde_json::to_string(&vec![vec![0u64; CHUNK]]).unwrap());
    let _ = std::fs::write(dir.join("model"), bson::to_vec(&model_doc(&MDb::default())).unwrap());
    let count = |p: &Path| open(p).and_then(|db| db.collection::<Document>("a").count_documents().map_err(|e| e.to_string()));
    for (at, mode) in (0..4).flat_map(|_| (30..60).flat_map(|at| [(at, 4), (at, 3)])) {
        let p = dir.join(format!("db{}", at));
        let r = run_child(dir, &p, None, at, mode, "use");
        let failed = r.map_or(false, |r| r.code == Some(78) && r.acks.len() == 2);
        let hit = failed && count(&p) == Ok(0) && { let _ = count(&p); count(&p) == Ok(1) };
        let _ = std::fs::remove_dir_all(&p);
        if hit {
            return true;
        }
    }
    false
}

/// Cuts the files back to what was synced and some of the rest.
fn lose_power(s: &mut Src, dir: &Path, report: &Path) -> R<usize> {
    use std::os::unix::fs::MetadataExt;
    let mut synced: BTreeMap<(u64, u64), u64> = BTreeMap::new();
    for l in std::fs::read_to_string(report).unwrap_or_default().lines() {
        let v: Vec<u64> = l.split(' ').filter_map(|x| x.parse().ok()).collect();
        if v.len() == 3 && !l.starts_with('#') {
            synced.insert((v[0], v[1]), v[2]);
        }
    }
    let mut names: Vec<PathBuf> = std::fs::read_dir(dir).map_err(|e| format!("harness: {}", e))?.flatten().map(|e| e.path()).collect();
    names.sort();
    let mut cut = 0;
    for p in names {
        let md = std::fs::metadata(&p).map_err(|e| format!("harness: {}", e))?;
        if p.file_name().map_or(false, |n| n.to_string_lossy().starts_with("LOG")) {
            continue;
        }
        if let Some(&n) = synced.get(&(md.dev(), md.ino())) {
            if md.len() > n {
                let rest = md.len() - n;
                let f = std::fs::OpenOptions::new().write(true).open(&p).map_err(|e| format!("harness: {}", e))?;
                let wal = p.extension().map_or(false, |e| e == "log");
                let keep = match s.weighted(&[4, 2, 2, if wal { 2 } else { 0 }]) {
                    0 => 0,
                    1 => rest.min(s.below(64)),
                    2 => s.below(rest + 1),
                    _ => {
                        // its length reached the disk, its content did not
                        use std::os::unix::fs::FileExt;
                        let from = s.below(rest);
                        let v = if s.chance(50) { 0u8 } else { 0xa5 };
                        f.write_all_at(&vec![v; (rest - from) as usize], n + from).map_err(|e| format!("harness: {}", e))?;
                        rest
                    }
                };
                f.set_len(n + keep).map_err(|e| format!("harness: {}", e))?;
                cut += 1;
            }
        }
    }
    Ok(cut)
}

const MODES: &[&str] = &["before", "after", "half of", "EIO at", "ENOSPC at", "EIO from", "ENOSPC from"];

pub fn c02(case: &mut Case) -> R<()> {
    let dir = case.dir.join("db");
    let mut m = MDb::default();
    let sessions = 1 + case.s.weighted(&[5, 3, 1]);
    let (mut hits, mut changed_units) = (0, 0);
    for session in 0..sessions {
        // the workload
        let mut chunks: Vec<Vec<u64>> = vec![];
        let max = if case.thorough { 40 } else { 20 };
        while case.s.more(chunks.len(), max, 12) {
            chunks.push((0..CHUNK).map(|_| case.s.below(1 << 20)).collect());
        }
        let close = if case.s.chance(60) { "close" } else { "exit" };
        std::fs::write(case.dir.join("choices"), serde_json::to_string(&chunks).unwrap()).map_err(|e| format!("harness: {}", e))?;
        std::fs::write(case.dir.join("model"), bson::to_vec(&model_doc(&m)).unwrap()).map_err(|e| format!("harness: {}", e))?;
        // without any fault
        let twin = case.dir.join("twin");
        if dir.exists() {
            copy_dir(&dir, &twin)?;
        }
        let sf = case.dir.join("states");
        let _ = std::fs::remove_file(&sf);
        let r = run_child(&case.dir, &twin, Some(&sf), -1, 0, close)?;
        let _ = std::fs::remove_dir_all(&twin);
        let mut units: Vec<(i64, String, MDb)> = vec![];
        let mut rd = std::io::Cursor::new(std::fs::read(&sf).map_err(|e| format!("harness: {}", e))?);
        let mut cur = m.clone();
        while (rd.position() as usize) < rd.get_ref().len() {
            let d = Document::from_reader(&mut rd).map_err(|e| format!("harness: states {}", e))?;
            if let Ok(x) = d.get_document("m") {
                cur = model_of(x);
            }
            units.push((d.get_i64("events").unwrap(), d.get_str("what").unwrap().to_string(), cur.clone()));
        }
        if r.code != Some(0) {
            for (i, x) in units.iter().enumerate() {
                case.log(format!("session {}, unit {} (to event {}): {}", session, i, x.0, x.1));
            }
            let last = r.acks.last().cloned().unwrap_or_default();
            if last.starts_with("mismatch") || last.starts_with("panic") {
                return Err(format!("{} (without any fault)", last));
            }
            return Err(format!("harness: the run without faults ended with {:?}: {}", r.code, last));
        }
        // the event at which it happens: the unit first, then the event in it
        let busy: Vec<usize> = (0..units.len()).filter(|i| units[*i].0 > if *i > 0 { units[i - 1].0 } else { 0 }).collect();
        if busy.is_empty() {
            continue;
        }
        let u = *case.s.pick(&busy);
        let lo = if u > 0 { units[u - 1].0 } else { 0 };
        let at = lo + case.s.below((units[u].0 - lo) as u64) as i64;
        let mode = case.s.weighted(&[5, 5, 4, 2, 2, 1, 1]) as u64;
        let power = case.s.chance(60);
        for (i, x) in units.iter().enumerate() {
            case.log(format!("session {}, unit {} (to event {}): {}", session, i, x.0, x.1));
        }
        let _ = std::fs::remove_file(case.dir.join("report"));
        let r = run_child(&case.dir, &dir, None, at, mode, close)?;
        let rep = std::fs::read_to_string(case.dir.join("report")).unwrap_or_default();
        let head = rep.lines().next().unwrap_or("").to_string();
        let acked = r.acks.iter().filter(|l| l.starts_with("ok ")).count();
        let last = r.acks.last().cloned().unwrap_or_default();
        case.log(format!("session {}: {} event {} in unit {}; the process ended with {:?} ({}), {} units acknowledged, last line '{}', power loss {}", session, MODES[mode as usize], at, u, r.code, head, acked, last, power));
        if r.code == Some(79) || r.code == Some(80) {
            return Err(format!("{} ({} event {})", last, MODES[mode as usize], at));
        }
        if !matches!(r.code, Some(0) | Some(77) | Some(78) | None) {
            return Err(format!("crash: the process ended with {:?} ({} event {})", r.code, MODES[mode as usize], at));
        }
        case.class(&format!("{} the event: exit {:?}", MODES[mode as usize], r.code));
        case.class(&format!("unit: {}", units[u].1.split([' ', '{', '(']).take(2).collect::<Vec<_>>().join(" ")));
        if r.code == Some(77) {
            hits += 1;
            case.class(&format!("event: {}", head.split(" event").next().unwrap_or("").trim_start_matches("# ")));
        }
        if power && r.code.is_some() {
            let n = lose_power(&mut case.s, &dir, &case.dir.join("report"))?;
            if n > 0 {
                case.class("power loss cut files");
            }
        }
        if no_torn_first(&dir)? > 0 {
            case.class("excluded: a log with a torn first record");
        }
        let _ = std::fs::remove_file(case.dir.join("report"));
        // what may be there
        let a = if acked == 0 { m.clone() } else { units[acked - 1].2.clone() };
        let b = units.get(acked).map(|x| x.2.clone()).unwrap_or_else(|| a.clone());
        if a != m || a != b {
            changed_units += 1;
        }
        if a != b {
            case.class("in-flight change");
        }
        let what = format!("after {} event {} in unit {} '{}' of session {}, {} units acknowledged", MODES[mode as usize], at, u, units[u].1, session, acked);
        if let Ok(k) = std::env::var("PT_KEEP") {
            let _ = copy_dir(&dir, &Path::new(&k).join(format!("s{}", session)));
        }
        let db = open(&dir).map_err(|e| { if let Ok(k) = std::env::var("PT_KEEP") { let _ = copy_dir(&dir, Path::new(&k)); } format!("recovery: {} {}", e, what) })?;
        m = match check_state(&db, &a) {
            Ok(()) if a == b => a.clone(),
            Ok(()) => match check_state(&db, &b) {
                // they differ in indexes
                Ok(()) => {
                    let mut x = a.clone();
                    for (n, c) in &b.colls {
                        let y = x.colls.entry(n.clone()).or_default();
                        for (i, ix) in &c.indexes {
                            y.indexes.entry(i.clone()).or_insert(ix.clone());
                        }
                    }
                    x
                }
                Err(_) => {
                    case.class("not applied");
                    a.clone()
                }
            },
            Err(ea) => match check_state(&db, &b) {
                Ok(()) => {
                    case.class("applied");
                    b.clone()
                }
                Err(eb) => {
                    return Err(format!("recovery: {} {}{}", ea.chars().take(600).collect::<String>(), what, if a == b { String::new() } else { format!("; or {}", eb.chars().take(300).collect::<String>()) }));
                }
            },
        };
        for (n, c) in &m.colls {
            check_lookups(&Col::A(db.collection(n)), n, c, &[Bson::Int32(0), Bson::Int32(5)]).map_err(|e| format!("recovery: {} {}", e, what))?;
        }
        // an index of which it is not known whether it is there
        let mut unsure = vec![];
        for (n, c) in &mut m.colls {
            let mut names: Vec<String> = c.indexes.keys().cloned().collect();
            names.retain(|i| a.colls.get(n).and_then(|c| c.indexes.get(i)) != b.colls.get(n).and_then(|c| c.indexes.get(i)));
            for i in names {
                c.indexes.remove(&i);
                unsure.push((n.clone(), i));
            }
        }
        for (n, i) in unsure {
            db.collection::<Document>(&n).drop_index(&i).map_err(|e| format!("recovery: drop_index failed with {} {}", e, what))?;
            case.class("index in flight");
        }
        // it goes on
        let mut w = Work { path: dir.clone(), db: Some(db), txn: None, m: m.clone(), over: MDb::default(), what: String::new() };
        let n = case.s.below(5);
        for _ in 0..n {
            let c: Vec<u64> = (0..CHUNK).map(|_| case.s.below(1 << 20)).collect();
            let r = w.step(&mut Src::replay(c));
            case.log(format!("afterwards: {}", w.what));
            r.map_err(|e| format!("recovery: {} {}", e, what))?;
        }
        w.txn = None;
        check_state(w.db.as_ref().unwrap(), &w.m).map_err(|e| format!("recovery: {} {}", e, what))?;
        m = w.m.clone();
        drop(w);
    }
    let db = open(&dir).map_err(|e| { if let Ok(k) = std::env::var("PT_KEEP") { let _ = copy_dir(&dir, Path::new(&k)); } e })?;
    check_state(&db, &m).map_err(|e| format!("recovery: {} at the end", e))?;
    for (n, c) in &m.colls {
        check_lookups(&Col::A(db.collection(n)), n, c, &[Bson::Int32(0)]).map_err(|e| format!("recovery: {} at the end", e))?;
    }
    case.nontrivial = hits > 0 && changed_units > 0;
    Ok(())
}
