//! C21: the Python binding, driven in an interpreter of its own.
//!
//! The oracle is the library itself: each call is also made on a second database by
//! direct calls ("twin"), with the values a Python value stands for.
use crate::gens::*;
use crate::model::doc_bytes;
use crate::runner::Case;
use crate::src::Src;
use crate::sys::*;
use polodb_core::bson::oid::ObjectId;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::*;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

type R<T> = std::result::Result<T, String>;

struct Py {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}

static PY: Mutex<Option<Py>> = Mutex::new(None);

fn start() -> R<Py> {
    let module = PathBuf::from(std::env::var_os("PT_PYTHON_MODULE").ok_or("harness: PT_PYTHON_MODULE is not set")?);
    let driver = PathBuf::from(std::env::var_os("PT_VERIF").unwrap_or_default()).join("harness/py/driver.py");
    let python = std::env::var_os("PYO3_PYTHON").unwrap_or_else(|| "python3".into());
    let mut child = Command::new(python)
        .arg(driver)
        .env("PYTHONPATH", module)
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("PYTHONIOENCODING", "utf-8")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(if std::env::var_os("PT_LIVE").is_some() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .map_err(|e| format!("harness: cannot start Python: {}", e))?;
    let tx = child.stdin.take().unwrap();
    let rx = BufReader::new(child.stdout.take().unwrap());
    Ok(Py { child, tx, rx })
}

impl Py {
    fn ask(&mut self, q: &Value) -> R<Value> {
        let mut line = q.to_string();
        line.push('\n');
        let mut got = String::new();
        let w = self.tx.write_all(line.as_bytes()).and_then(|_| self.tx.flush());
        let r = self.rx.read_line(&mut got);
        if w.is_err() || r.is_err() || got.is_empty() {
            let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
            return Err(format!("crash: the interpreter ended with {} at {}", st, line.chars().take(400).collect::<String>()));
        }
        serde_json::from_str(&got).map_err(|e| format!("harness: {} in {}", e, got))
    }
}

impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn f64_text(f: f64) -> String {
    if f.is_nan() { "nan".into() } else { format!("{:016x}", f.to_bits()) }
}

/// How the driver describes the Python value of a BSON value. None: not specified.
fn shown(b: &Bson) -> Option<Value> {
    Some(match b {
        Bson::Null | Bson::Undefined => json!(["N"]),
        Bson::Boolean(x) => json!(["B", x]),
        Bson::Int32(x) => json!(["I", x.to_string()]),
        Bson::Int64(x) => json!(["I", x.to_string()]),
        Bson::Double(x) => json!(["F", f64_text(*x)]),
        Bson::String(x) | Bson::Symbol(x) | Bson::JavaScriptCode(x) => json!(["S", x]),
        Bson::ObjectId(x) => json!(["S", x.to_hex()]),
        Bson::Timestamp(x) => json!(["T", [["I", x.time.to_string()], ["I", x.increment.to_string()]]]),
        Bson::Binary(x) => json!(["Y", x.bytes.iter().map(|b| format!("{:02x}", b)).collect::<String>()]),
        Bson::DateTime(x) => json!(["DT", (x.timestamp_millis() as i128 * 1000).to_string()]),
        Bson::RegularExpression(x) => json!(["R", x.pattern]),
        Bson::Array(a) => json!(["L", a.iter().map(shown).collect::<Option<Vec<_>>>()?]),
        Bson::Document(d) => shown_doc(d)?,
        _ => return None,
    })
}

fn shown_doc(d: &Document) -> Option<Value> {
    let mut v = vec![];
    for (k, x) in d {
        v.push(json!([k, shown(x)?]));
    }
    Some(json!(["D", v]))
}

/// The same value as Python would give it to the binding.
fn pythonic(b: &Bson) -> Bson {
    match b {
        Bson::Int32(x) => Bson::Int64(*x as i64),
        Bson::Double(x) if x.is_nan() => Bson::Double(f64::NAN),
        Bson::Null | Bson::Boolean(_) | Bson::Int64(_) | Bson::Double(_) | Bson::String(_) => b.clone(),
        Bson::Array(a) => Bson::Array(a.iter().map(pythonic).collect()),
        Bson::Document(d) => Bson::Document(pythonic_doc(d)),
        Bson::ObjectId(x) => Bson::String(x.to_hex()),
        Bson::DateTime(x) => Bson::Int64(x.timestamp_millis()),
        Bson::RegularExpression(x) => Bson::String(x.pattern.clone()),
        Bson::Binary(_) => Bson::Null,
        _ => Bson::Boolean(true),
    }
}

fn pythonic_doc(d: &Document) -> Document {
    d.iter().map(|(k, v)| (k.clone(), pythonic(v))).collect()
}

/// What the driver makes the argument from.
fn arg(b: &Bson) -> Value {
    shown(b).expect("a value of Python")
}

/// A document for Python. Also the reason why it can't be stored, if so.
fn py_doc(s: &mut Src, bad_pct: u64) -> (Value, Document, Option<&'static str>) {
    let mut d = if s.chance(60) {
        udoc(s)
    } else {
        let mut d = Document::new();
        while s.more(d.len(), 8, 3) {
            let k = any_key(s);
            if k != "_id" {
                let v = wild(s, 2);
                d.insert(k, v);
            }
        }
        d
    };
    d = pythonic_doc(&d);
    if s.chance(25) {
        let f = match s.below(4) {
            0 | 1 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 5e-324, 1.0, 1e22, 9007199254740993.0, 0.0, 4294967296.0, f64::MAX, f64::MIN_POSITIVE, 0.1]),
            // whole numbers of any size
            2 => s.range(-9, 9) as f64 * 10f64.powi(s.range(0, 18) as i32),
            _ => s.range(-99, 99) as f64 / *s.pick(&[2.0, 4.0, 10.0, 3.0, 1e9, 1e-9]),
        };
        d.insert("f", f);
    }
    if s.chance(15) {
        d.insert("big", *s.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, 1 << 31, -(1 << 31) - 1, 1 << 53, (1 << 53) + 1, 0]));
    }
    if s.chance(5) {
        let n = *s.pick(&[10usize, 20, 30]);
        let mut v = Bson::Null;
        for i in 0..n {
            v = if i % 3 == 0 { Bson::Array(vec![v]) } else { Bson::Document(doc! {"n": v}) };
        }
        d.insert("deep", v);
    }
    let mut j = shown_doc(&d).unwrap();
    if s.chance(10) {
        j[0] = json!("OD");
    }
    let mut bad = None;
    if s.chance(bad_pct) {
        let (what, v) = match s.below(14) {
            0 => ("an int beyond 64 bits", json!(["I", "9223372036854775808"])),
            1 => ("an int beyond 64 bits", json!(["I", "-9223372036854775809"])),
            2 => ("an int beyond 64 bits", json!(["I", "18446744073709551615"])),
            3 => ("an int beyond 64 bits", json!(["I", "100000000000000000000000000000000000000000"])),
            4 => ("object()", json!(["X", "object"])),
            5 => ("a set", json!(["X", "set"])),
            6 => ("a complex number", json!(["X", "complex"])),
            7 => ("a string with a surrogate", json!(["X", "surrogate"])),
            8 => ("a key which is no string", json!(["X", if s.chance(50) { "key" } else { "nonekey" }])),
            9 => ("a key with a surrogate", json!(["X", "bigkey"])),
            10 => ("a type", json!(["X", if s.chance(50) { "type" } else { "function" }])),
            11 => ("a list in itself", json!(["X", if s.chance(50) { "loop" } else { "dictloop" }])),
            12 => ("5000 levels", json!(["X", "deep"])),
            _ => ("a namespace", json!(["X", "namespace"])),
        };
        bad = Some(what);
        let v = match s.below(3) {
            0 => v,
            1 => json!(["L", [["I", "1"], v]]),
            _ => json!(["D", [["p", v]]]),
        };
        let l = j[1].as_array_mut().unwrap();
        let at = s.idx(l.len() + 1);
        l.insert(at, json!(["bad", v]));
    }
    (j, d, bad)
}

struct W {
    py: Py,
    twin: Option<Database>,
    stored: usize,
    found: usize,
    raised: usize,
    bad: usize,
}

const NAMES: &[&str] = &["c", "things", "other one"];

/// The reply of the driver: the value, or the name of the exception.
fn ask(case: &mut Case, w: &mut W, q: Value) -> R<std::result::Result<Value, String>> {
    let cut = |v: &Value| v.to_string().chars().take(1000).collect::<String>();
    let r = w.py.ask(&q)?;
    case.log(format!("{} -> {}", cut(&q), cut(&r)));
    if let Some(e) = r.get("err").and_then(|e| e.as_str()) {
        if r["exception"] != json!(true) {
            return Err(format!("exception: {} raised {}: {}", cut(&q), e, r["msg"]));
        }
        w.raised += 1;
        return Ok(Err(format!("{}: {}", e, r["msg"])));
    }
    Ok(Ok(r["ok"].clone()))
}

/// Compares the reply with the result of the library. `None`: not specified.
fn judge(what: &str, got: std::result::Result<Value, String>, want: std::result::Result<Option<Value>, String>) -> R<()> {
    match (got, want) {
        (Ok(_), Ok(None)) | (Err(_), Err(_)) => Ok(()),
        (Ok(g), Ok(Some(v))) => {
            if g != v {
                let cut = |v: &Value| v.to_string().chars().take(1500).collect::<String>();
                return Err(format!("mismatch: {} returned {}, expected {}", what, cut(&g), cut(&v)));
            }
            Ok(())
        }
        (Ok(g), Err(e)) => Err(format!("mismatch: {} returned {}, but the library reports {}", what, g.to_string().chars().take(600).collect::<String>(), e)),
        (Err(e), Ok(_)) => Err(format!("mismatch: {} raised {}, but the library succeeds", what, e)),
    }
}

fn docs_shown(docs: &[Document]) -> Option<Value> {
    Some(json!(["L", docs.iter().map(shown_doc).collect::<Option<Vec<_>>>()?]))
}

fn text(e: Error) -> String {
    e.to_string().chars().take(200).collect()
}

pub fn c21(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let twin_path = case.dir.join("twin");
    // the library prepares both databases
    let mut docs_first = vec![];
    {
        let a = open(&path)?;
        let b = open(&twin_path)?;
        for name in &NAMES[..1 + case.s.idx(2)] {
            let mut docs = vec![];
            let n = case.s.idx(6);
            for i in 0..n {
                let mut d = doc! {"_id": if case.s.chance(70) { Bson::Int64(i as i64) } else { Bson::ObjectId(ObjectId::from_bytes([i as u8 + 1; 12])) }};
                for (k, v) in udoc(&mut case.s) {
                    d.insert(k, v);
                }
                if case.s.chance(40) {
                    let k = any_key(&mut case.s);
                    if k != "_id" {
                        let v = wild(&mut case.s, 2);
                        d.insert(k, readable(&v));
                    }
                }
                docs.push(d);
            }
            let ix = match case.s.below(4) {
                0 => Some(false),
                1 => Some(true),
                _ => None,
            };
            for db in [&a, &b] {
                let c = db.collection::<Document>(name);
                db.create_collection(name).map_err(|e| format!("harness: {}", e))?;
                if let Some(u) = ix {
                    c.create_index(index_model(if u { "u" } else { "x" }, u, &None)).map_err(|e| format!("harness: {}", e))?;
                }
                if !docs.is_empty() {
                    c.insert_many(docs.clone()).map_err(|e| format!("harness: {}", e))?;
                }
            }
            docs_first.extend(docs);
        }
        if !docs_first.is_empty() {
            case.class("documents of the library");
        }
    }
    let mut guard = PY.lock().map_err(|_| "harness: lock")?;
    let py = match guard.take() {
        Some(p) => p,
        None => start()?,
    };
    let mut w = W { py, twin: None, stored: 0, found: 0, raised: 0, bad: 0 };
    let r = inner(case, &mut w, &path, &twin_path);
    let W { py, stored, found, raised, bad, .. } = w;
    if r.is_ok() {
        *guard = Some(py);
    }
    r?;
    if stored >= 3 && found >= 2 && raised >= 1 {
        case.nontrivial = true;
    }
    if bad > 0 {
        case.class("values Python cannot store");
    }
    Ok(())
}

/// Dates within the years of Python and valid patterns only.
fn readable(b: &Bson) -> Bson {
    match b {
        Bson::DateTime(d) => Bson::DateTime(polodb_core::bson::DateTime::from_millis(d.timestamp_millis().clamp(-62_000_000_000_000, 250_000_000_000_000))),
        Bson::Array(a) => Bson::Array(a.iter().map(readable).collect()),
        Bson::Document(d) => Bson::Document(d.iter().map(|(k, v)| (k.clone(), readable(v))).collect()),
        Bson::RegularExpression(_) | Bson::Decimal128(_) => b.clone(),
        _ => b.clone(),
    }
}

fn open_both(case: &mut Case, w: &mut W, path: &std::path::Path, twin: &std::path::Path) -> R<()> {
    let how = *case.s.pick(&["plain", "with"]);
    let r = ask(case, w, json!({"op": "open", "path": path.to_str().unwrap(), "how": how}))?;
    if let Err(e) = r {
        return Err(format!("mismatch: opening the database ({}) raised {}", how, e));
    }
    w.twin = Some(open(twin)?);
    Ok(())
}

/// Closes both and compares what is in them.
fn close_both(case: &mut Case, w: &mut W, path: &std::path::Path, twin: &std::path::Path) -> R<()> {
    ask(case, w, json!({"op": "close"}))?.map_err(|e| format!("mismatch: closing raised {}", e))?;
    w.twin = None;
    let a = open(path)?;
    let b = open(twin)?;
    let list = |d: &Database| {
        d.list_collection_names().map(|mut v| {
            v.sort();
            v
        })
    };
    let (x, y) = (list(&a).map_err(text)?, list(&b).map_err(text)?);
    if x != y {
        return Err(format!("mismatch: the collections are {:?}, expected {:?}", x, y));
    }
    for n in x {
        let docs = |d: &Database| all(d.collection::<Document>(&n).find(doc! {}).run()).map_err(text);
        let (p, q) = (docs(&a)?, docs(&b)?);
        let bytes = |v: &[Document]| v.iter().map(doc_bytes).collect::<Vec<_>>();
        if bytes(&p) != bytes(&q) {
            let cut = |v: &[Document]| format!("{:?}", v).chars().take(1500).collect::<String>();
            return Err(format!("mismatch: {} contains {}, expected {}", n, cut(&p), cut(&q)));
        }
        for key in ["x", "u"] {
            for v in [Bson::Int64(0), Bson::Int64(1), Bson::Int32(2)] {
                let f = |d: &Database| all(d.collection::<Document>(&n).find(doc! {key: v.clone()}).run()).map_err(text);
                let (p, q) = (f(&a)?, f(&b)?);
                if bytes(&p) != bytes(&q) {
                    return Err(format!("mismatch: {} by {}={} has {:?}, expected {:?}", n, key, v, p, q));
                }
            }
        }
    }
    Ok(())
}

fn inner(case: &mut Case, w: &mut W, path: &std::path::Path, twin: &std::path::Path) -> R<()> {
    open_both(case, w, path, twin)?;
    let mut open_colls: Vec<(String, String)> = vec![];
    let mut next = 100i64;
    let steps = 10 + case.s.idx(30);
    for _ in 0..steps {
        step(case, w, path, twin, &mut open_colls, &mut next)?;
    }
    if case.s.chance(20) && !open_colls.is_empty() {
        // a collection whose database is gone
        ask(case, w, json!({"op": "close", "all": false}))?.map_err(|e| format!("mismatch: closing raised {}", e))?;
        let (h, _) = open_colls[0].clone();
        for q in [json!({"op": "len", "coll": h}), json!({"op": "find", "coll": h, "args": [["D", []]]}), json!({"op": "insert_one", "coll": h, "args": [["D", []]]})] {
            if ask(case, w, q)?.is_ok() {
                return Err("mismatch: a collection of a closed database still answers".into());
            }
        }
        case.class("used after the end of the database");
    }
    close_both(case, w, path, twin)
}

fn step(case: &mut Case, w: &mut W, path: &std::path::Path, twin: &std::path::Path, colls: &mut Vec<(String, String)>, next: &mut i64) -> R<()> {
    let op = if colls.is_empty() { 0 } else { case.s.weighted(&[3, 9, 6, 8, 5, 5, 5, 3, 3, 3, 4, 2, 1, 2]) };
    match op {
        0 => {
            let name = match case.s.weighted(&[12, 1, 1]) {
                0 => case.s.pick(NAMES).to_string(),
                1 => case.s.pick(&["", "a$b", "a.b", "a\nb", "a\0b"]).to_string(),
                _ => format!("n{}", case.s.below(3)),
            };
            let how = *case.s.pick(&["item", "method", "attr"]);
            let db = w.twin.as_ref().unwrap();
            let there = db.list_collection_names().map_err(text)?.contains(&name);
            let want = if there { Ok(None) } else { db.create_collection(&name).map(|_| None).map_err(text) };
            let h = format!("h{}", colls.len());
            let ok = want.is_ok();
            let got = ask(case, w, json!({"op": "coll", "name": name, "how": how, "as": h}))?;
            judge(&format!("opening the collection {:?}", name), got, want)?;
            if ok {
                colls.push((h, name));
            }
            return Ok(());
        }
        12 => {
            close_both(case, w, path, twin)?;
            colls.clear();
            case.class("reopened");
            return open_both(case, w, path, twin);
        }
        11 => {
            let mut names = w.twin.as_ref().unwrap().list_collection_names().map_err(text)?;
            names.sort();
            let got = ask(case, w, json!({"op": "names"}))?.map(|v| {
                let mut l: Vec<String> = v[1].as_array().map(|a| a.iter().map(|x| x[1].as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
                l.sort();
                json!(l)
            });
            return judge("list_collection_names", got, Ok(Some(json!(names))));
        }
        _ => {}
    }
    let (h, name) = case.s.pick(colls).clone();
    let col = w.twin.as_ref().unwrap().collection::<Document>(&name);
    let docs = all(col.find(doc! {}).run()).map_err(text)?;
    let bad_pct = 8;
    // an argument which Python cannot turn into BSON
    let spoil = |case: &mut Case, d: &Document| -> (Value, bool) {
        let mut j = shown_doc(d).unwrap();
        if case.s.chance(3) {
            j[1].as_array_mut().unwrap().push(json!(["zz", ["X", "object"]]));
            return (j, true);
        }
        (j, false)
    };
    match op {
        1 => {
            let (mut j, mut d, bad) = py_doc(&mut case.s, bad_pct);
            let own = case.s.chance(40);
            if own {
                let id = match case.s.below(8) {
                    0 => docs.first().map(|d| pythonic(d.get("_id").unwrap())).unwrap_or(Bson::Int64(1)),
                    1 => Bson::String(string(&mut case.s)),
                    2 => Bson::Array(vec![]),
                    3 => Bson::Double(1.5),
                    4 => Bson::Boolean(true),
                    _ => {
                        *next += 1;
                        Bson::Int64(*next)
                    }
                };
                d.insert("_id", id.clone());
                j[1].as_array_mut().unwrap().push(json!(["_id", arg(&id)]));
            }
            if case.s.chance(30) {
                let u = Bson::Int64(case.s.range(0, 3));
                d.insert("u", u.clone());
                j[1].as_array_mut().unwrap().push(json!(["u", arg(&u)]));
            }
            let got = ask(case, w, json!({"op": "insert_one", "coll": h, "args": [j], "frozen": true}))?;
            if let Some(b) = bad {
                w.bad += 1;
                return judge("insert_one", got, Err(format!("{} can't be stored", b)));
            }
            let generated = generated_id(&got, &d);
            if let Some(id) = generated {
                d.insert("_id", id);
            }
            let want = col.insert_one(d.clone()).map_err(text);
            if want.is_ok() {
                w.stored += 1;
            }
            judge("insert_one", got, want.map(|r| shown(&r.inserted_id).map(|v| json!(["D", [["inserted_id", v]]]))))
        }
        2 => {
            let n = case.s.idx(5);
            let mut js = vec![];
            let mut ds = vec![];
            let mut bad = None;
            for _ in 0..n {
                let (mut j, mut d, b) = py_doc(&mut case.s, 3);
                bad = bad.or(b);
                if case.s.chance(60) {
                    let id = if case.s.chance(10) { Bson::Int64(*next) } else { *next += 1; Bson::Int64(*next) };
                    d.insert("_id", id.clone());
                    j[1].as_array_mut().unwrap().push(json!(["_id", arg(&id)]));
                }
                js.push(j);
                ds.push(d);
            }
            let got = ask(case, w, json!({"op": "insert_many", "coll": h, "args": [["L", js]], "frozen": true}))?;
            if let Some(b) = bad {
                w.bad += 1;
                return judge("insert_many", got, Err(format!("{} can't be stored", b)));
            }
            // by number
            let mut list: Vec<(i64, Value)> = vec![];
            if let Ok(g) = &got {
                for kv in g[1].as_array().cloned().unwrap_or_default() {
                    let k = kv[0].as_str().unwrap_or("").strip_prefix("int:").and_then(|k| k.parse().ok()).unwrap_or(-1);
                    list.push((k, kv[1].clone()));
                }
                list.sort_by_key(|x| x.0);
                for (i, v) in &list {
                    if let Some(d) = ds.get_mut(*i as usize) {
                        if !d.contains_key("_id") {
                            let id = oid_of(v).ok_or(format!("mismatch: insert_many returned the generated id {}", v))?;
                            d.insert("_id", id);
                        }
                    }
                }
            }
            let want = col.insert_many(ds.clone()).map_err(text);
            if want.is_ok() {
                w.stored += n;
            }
            let got = got.map(|_| json!(list));
            judge("insert_many", got, want.map(|r| {
                let mut l: Vec<(i64, Value)> = r.inserted_ids.iter().map(|(k, v)| (*k as i64, shown(v).unwrap_or(Value::Null))).collect();
                l.sort_by_key(|x| x.0);
                Some(json!(l))
            }))
        }
        3 | 4 => {
            let q = pythonic_doc(&match case.s.below(3) {
                0 => uquery(&mut case.s, &docs),
                1 => doc! {},
                _ => query(&mut case.s, &docs, Ops::All, 1),
            });
            let (j, bad) = spoil(case, &q);
            let one = op == 4;
            let got = ask(case, w, json!({"op": if one { "find_one" } else { "find" }, "coll": h, "args": [j]}))?;
            if bad {
                return judge("find", got, Err("object()".into()));
            }
            if one {
                let want = col.find_one(q).map_err(text);
                if matches!(want, Ok(Some(_))) {
                    w.found += 1;
                }
                return judge("find_one", got, want.map(|d| match d {
                    None => Some(json!(["N"])),
                    Some(d) => shown_doc(&d),
                }));
            }
            let want = all(col.find(q).run()).map_err(text);
            if want.as_ref().map(|v| !v.is_empty()).unwrap_or(false) {
                w.found += 1;
            }
            judge("find", got, want.map(|v| docs_shown(&v)))
        }
        5 | 6 => {
            let q = pythonic_doc(&uquery(&mut case.s, &docs));
            let mut u = pythonic_doc(&update(&mut case.s, true));
            if case.s.chance(10) {
                u.insert("$set", doc! {"u": case.s.range(0, 3)});
            }
            let (j, bad) = spoil(case, &u);
            let many = op == 6;
            let got = ask(case, w, json!({"op": if many { "update_many" } else { "update_one" }, "coll": h, "args": [arg(&Bson::Document(q.clone())), j], "frozen": true}))?;
            if bad {
                return judge("update", got, Err("object()".into()));
            }
            let want = if many { col.update_many(q, u) } else { col.update_one(q, u) }.map_err(text);
            if want.as_ref().map(|r| r.modified_count > 0).unwrap_or(false) {
                w.stored += 1;
            }
            judge("update", got, want.map(|r| Some(json!(["D", [["matched_count", ["I", r.matched_count.to_string()]], ["modified_count", ["I", r.modified_count.to_string()]]]]))))
        }
        7 | 8 => {
            let q = pythonic_doc(&uquery(&mut case.s, &docs));
            let (j, bad) = spoil(case, &q);
            let many = op == 8 && (!q.is_empty() || case.s.chance(20));
            let got = ask(case, w, json!({"op": if many { "delete_many" } else { "delete_one" }, "coll": h, "args": [j]}))?;
            if bad {
                return judge("delete", got, Err("object()".into()));
            }
            let want = if many { col.delete_many(q) } else { col.delete_one(q) }.map_err(text);
            judge("delete", got, want.map(|r| Some(json!(["D", [["deleted_count", ["I", r.deleted_count.to_string()]]]]))))
        }
        9 => {
            let got = ask(case, w, json!({"op": "len", "coll": h}))?;
            let want = col.count_documents().map_err(text);
            judge("len", got, want.map(|n| Some(json!(["I", n.to_string()]))))
        }
        10 => {
            let mut stages = vec![];
            while case.s.more(stages.len(), 4, 2) {
                stages.push(match case.s.below(9) {
                    0 => doc! {"$match": pythonic_doc(&uquery(&mut case.s, &docs))},
                    1 => doc! {"$sort": {*case.s.pick(&["x", "n", "_id"]): *case.s.pick(&[1i64, -1])}},
                    2 => doc! {"$skip": case.s.range(0, 3)},
                    3 => doc! {"$limit": case.s.range(0, 4)},
                    4 => doc! {"$count": "total"},
                    5 => doc! {"$addFields": {"z": {"$abs": "$n"}}},
                    6 => doc! {"$unset": "a"},
                    7 => doc! {"$group": {"_id": "all", "number": {"$sum": 1i64}}},
                    _ => doc! {"$nothing": 1i64},
                });
            }
            let j: Vec<Value> = stages.iter().map(|d| shown_doc(d).unwrap()).collect();
            let got = ask(case, w, json!({"op": "aggregate", "coll": h, "args": [["L", j]]}))?;
            let want = all(col.aggregate(stages).run()).map_err(text);
            judge("aggregate", got, want.map(|v| docs_shown(&v)))
        }
        _ => {
            let got = ask(case, w, json!({"op": "name", "coll": h}))?;
            judge("name", got, Ok(Some(json!(["S", name]))))
        }
    }
}

fn oid_of(v: &Value) -> Option<Bson> {
    if v[0] != "S" {
        return None;
    }
    v[1].as_str().and_then(|x| ObjectId::parse_str(x).ok()).map(Bson::ObjectId)
}

/// The id which the binding says it has generated.
fn generated_id(got: &std::result::Result<Value, String>, d: &Document) -> Option<Bson> {
    if d.contains_key("_id") {
        return None;
    }
    let g = got.as_ref().ok()?;
    oid_of(&g[1][0][1])
}
