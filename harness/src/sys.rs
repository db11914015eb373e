//! Executes operations on the database and on the model, and compares them.
use crate::model::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::options::UpdateOptions;
use polodb_core::*;
use std::collections::BTreeMap;
use std::path::Path;

pub enum Col {
    A(Collection<Document>),
    T(TransactionalCollection<Document>),
}

macro_rules! on {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            $crate::sys::Col::A($x) => $e,
            $crate::sys::Col::T($x) => $e,
        }
    };
}
pub(crate) use on;

#[derive(Clone, Debug)]
pub struct FindOp {
    pub q: Document,
    pub sort: Option<Document>,
    pub skip: Option<u64>,
    pub limit: Option<u64>,
}

#[derive(Clone, Debug)]
pub enum Op {
    InsertOne(Document),
    InsertMany(Vec<Document>),
    Find(FindOp),
    FindOne(Document),
    Count,
    Update { q: Document, u: Document, many: bool, upsert: bool },
    Delete { q: Document, many: bool },
    CreateIndex { key: String, unique: bool, name: Option<String> },
    DropIndex(String),
    DropColl,
    Aggregate { m: Option<Document>, stages: Vec<Document> },
}

pub fn variant(e: &Error) -> String {
    let s = format!("{:?}", e);
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

pub fn all<T: serde::de::DeserializeOwned + Send + Sync + Unpin>(cur: Result<ClientCursor<T>>) -> Result<Vec<T>> {
    let mut out = vec![];
    for x in cur? {
        out.push(x?);
        if out.len() > 200_000 {
            panic!("a cursor returned more than 200000 documents");
        }
    }
    Ok(out)
}

pub fn find_docs(col: &Col, q: &Document) -> Result<Vec<Document>> {
    on!(col, c => all(c.find(q.clone()).run()))
}

pub fn run_find(col: &Col, f: &FindOp) -> Result<Vec<Document>> {
    on!(col, c => {
        let mut b = c.find(f.q.clone());
        if let Some(s) = &f.sort { b = b.sort(s.clone()); }
        if let Some(s) = f.skip { b = b.skip(s); }
        if let Some(s) = f.limit { b = b.limit(s); }
        all(b.run())
    })
}

pub fn run_aggregate(col: &Col, p: Vec<Document>) -> Result<Vec<Document>> {
    on!(col, c => all(c.aggregate(p).run()))
}

fn show(docs: &[Document]) -> String {
    let mut v: Vec<String> = docs.iter().map(|d| norm(d).to_string()).collect();
    v.sort();
    v.join(", ")
}

pub fn same_bag(what: &str, got: &[Document], want: &[Document]) -> std::result::Result<(), String> {
    if bag(got) != bag(want) {
        return Err(format!("{}: got [{}], expected [{}]", what, show(got), show(want)));
    }
    Ok(())
}

/// Whether the sort meets two values which have no order.
pub fn unordered(docs: &[Document], spec: &Document) -> bool {
    spec.keys().any(|k| {
        let vs: Vec<&Bson> = docs.iter().filter_map(|d| d.get(k)).filter(|v| !crate::gens::is_scalar(v)).collect();
        vs.iter().enumerate().any(|(i, a)| vs[..i].iter().any(|b| cmp(a, b).is_none()))
    })
}

/// The result of an operation on the model and on the database.
pub struct Done {
    pub ok: bool,
    pub changed: bool,
    /// How many documents were returned, matched or inserted.
    pub n: usize,
    pub err: Option<String>,
}

fn done(n: usize, changed: bool) -> Done {
    Done { ok: true, changed, n, err: None }
}
fn failed(e: &Error) -> Done {
    Done { ok: false, changed: false, n: 0, err: Some(variant(e)) }
}

pub fn index_name(key: &str, name: &Option<String>) -> String {
    match name {
        Some(n) => n.clone(),
        None => format!("{}_1", key.replace('.', "_")),
    }
}

pub fn index_model(key: &str, unique: bool, name: &Option<String>) -> IndexModel {
    let mut keys = Document::new();
    keys.insert(key, 1);
    IndexModel {
        keys,
        options: if unique || name.is_some() {
            Some(IndexOptions { name: name.clone(), unique: if unique { Some(true) } else { None } })
        } else {
            None
        },
    }
}

fn insert_model(m: &mut MColl, doc: &Document, id: Bson) -> std::result::Result<(), Bad> {
    let mut d = doc.clone();
    d.insert("_id", id.clone());
    if !valid_key(&id) {
        return Err(Bad::Key);
    }
    let k = id_key(&id);
    if m.docs.contains_key(&k) {
        return Err(Bad::Duplicate);
    }
    // the documents which are there satisfy the indexes already
    for ix in m.indexes.values() {
        if let Some(v) = field(&d, &ix.key) {
            if !valid_key(&v) {
                return Err(Bad::Key);
            }
            let v = ix_key(&v);
            if ix.unique && m.docs.values().any(|o| field(o, &ix.key).map_or(false, |x| ix_key(&x) == v)) {
                return Err(Bad::Duplicate);
            }
        }
    }
    m.docs.insert(k, d);
    Ok(())
}

fn want_err(what: &str, r: &Error, bad: &Bad) -> std::result::Result<(), String> {
    let v = variant(r);
    if *bad == Bad::Duplicate && v != "DuplicateKey" {
        return Err(format!("{}: a duplicate key was reported as {}", what, v));
    }
    Ok(())
}

fn has_id(d: &Document) -> Option<Bson> {
    match d.get("_id") {
        None | Some(Bson::Null) => None,
        Some(v) => Some(v.clone()),
    }
}

/// Executes `op` on the collection and checks its result against the model,
/// which it changes when the operation succeeds.
pub fn exec(col: &Col, name: &str, db: &mut MDb, op: &Op) -> std::result::Result<Done, String> {
    let what = |x: &str| format!("{} of {:?} on '{}'", x, op, name);
    match op {
        Op::InsertOne(d) => {
            let r = on!(col, c => c.insert_one(d));
            let mut m = db.colls.get(name).cloned().unwrap_or_default();
            match r {
                Ok(res) => {
                    let id = res.inserted_id;
                    check_id("", d, &id).map_err(|e| what(&format!("{}result", e)))?;
                    if let Err(b) = insert_model(&mut m, d, id) {
                        return Err(what(&format!("mismatch: the insert succeeded, expected {:?}; result", b)));
                    }
                    db.colls.insert(name.into(), m);
                    Ok(done(1, true))
                }
                Err(e) => {
                    let id = has_id(d).unwrap_or(Bson::ObjectId(bson::oid::ObjectId::new()));
                    match insert_model(&mut m, d, id) {
                        Ok(()) => Err(what(&format!("mismatch: the insert failed with {}; result", e))),
                        Err(b) => {
                            want_err(&what("result"), &e, &b)?;
                            Ok(failed(&e))
                        }
                    }
                }
            }
        }
        Op::InsertMany(ds) => {
            let r = on!(col, c => c.insert_many(ds));
            let mut m = db.colls.get(name).cloned().unwrap_or_default();
            match r {
                Ok(res) => {
                    if res.inserted_ids.len() != ds.len() {
                        return Err(what(&format!("mismatch: {} ids for {} documents; result", res.inserted_ids.len(), ds.len())));
                    }
                    for (i, d) in ds.iter().enumerate() {
                        let id = res.inserted_ids.get(&i).cloned().ok_or_else(|| what(&format!("mismatch: no id for document {}; result", i)))?;
                        check_id("", d, &id).map_err(|e| what(&format!("{}result", e)))?;
                        if let Err(b) = insert_model(&mut m, d, id) {
                            return Err(what(&format!("mismatch: the insert succeeded, expected {:?} for document {}; result", b, i)));
                        }
                    }
                    db.colls.insert(name.into(), m);
                    Ok(done(ds.len(), true))
                }
                Err(e) => {
                    let mut bad = None;
                    for d in ds {
                        let id = has_id(d).unwrap_or(Bson::ObjectId(bson::oid::ObjectId::new()));
                        if let Err(b) = insert_model(&mut m, d, id) {
                            bad = Some(b);
                            break;
                        }
                    }
                    match bad {
                        None => Err(what(&format!("mismatch: the insert failed with {}; result", e))),
                        Some(b) => {
                            want_err(&what("result"), &e, &b)?;
                            Ok(failed(&e))
                        }
                    }
                }
            }
        }
        Op::Find(f) => {
            if let (Some(m), Some(sp)) = (db.colls.get(name), &f.sort) {
                if unordered(&m.find(&f.q), sp) {
                    return Ok(match run_find(col, f) {
                        Ok(v) => done(v.len(), false),
                        Err(e) => failed(&e),
                    });
                }
            }
            let got = run_find(col, f).map_err(|e| what(&format!("mismatch: failed with {}; result", e)))?;
            let want = db.colls.get(name).map(|m| m.find(&f.q)).unwrap_or_default();
            if f.sort.is_none() && f.skip.is_none() && f.limit.is_none() {
                same_bag(&what("mismatch: result"), &got, &want)?;
                return Ok(done(got.len(), false));
            }
            // the order of the same query without sort, skip and limit
            let base = find_docs(col, &f.q).map_err(|e| what(&format!("mismatch: plain find failed with {}; result", e)))?;
            same_bag(&what("mismatch: plain result"), &base, &want)?;
            let mut exp = base;
            if let Some(s) = &f.sort {
                sort_docs(&mut exp, s);
            }
            let exp: Vec<Document> = exp
                .into_iter()
                .skip(f.skip.unwrap_or(0).min(1 << 40) as usize)
                .take(f.limit.unwrap_or(1 << 40).min(1 << 40) as usize)
                .collect();
            same_list(&what("mismatch: result"), &got, &exp)?;
            Ok(done(got.len(), false))
        }
        Op::FindOne(q) => {
            let got = on!(col, c => c.find_one(q.clone())).map_err(|e| what(&format!("mismatch: failed with {}; result", e)))?;
            let want = db.colls.get(name).map(|m| m.find(q)).unwrap_or_default();
            match got {
                None if want.is_empty() => Ok(done(0, false)),
                Some(d) if want.iter().any(|w| doc_bytes(&norm(w)) == doc_bytes(&norm(&d))) => Ok(done(1, false)),
                g => Err(what(&format!("mismatch: got {:?}, expected one of [{}]; result", g, show(&want)))),
            }
        }
        Op::Count => {
            let got = on!(col, c => c.count_documents()).map_err(|e| what(&format!("mismatch: failed with {}; result", e)))?;
            let want = db.colls.get(name).map(|m| m.docs.len()).unwrap_or(0);
            if got != want as u64 {
                return Err(what(&format!("mismatch: counted {}, expected {}; result", got, want)));
            }
            Ok(done(want, false))
        }
        Op::Update { q, u, many, upsert } => {
            let r = on!(col, c => match (*many, *upsert) {
                (true, false) => c.update_many(q.clone(), u.clone()),
                (false, false) => c.update_one(q.clone(), u.clone()),
                (true, true) => c.update_many_with_options(q.clone(), u.clone(), UpdateOptions::builder().upsert(true).build()),
                (false, true) => c.update_one_with_options(q.clone(), u.clone(), UpdateOptions::builder().upsert(true).build()),
            });
            exec_update(col, name, db, q, u, *many, *upsert, r, &what)
        }
        Op::Delete { q, many } => {
            let r = on!(col, c => if *many { c.delete_many(q.clone()) } else { c.delete_one(q.clone()) });
            let got = r.map_err(|e| what(&format!("mismatch: failed with {}; result", e)))?.deleted_count as usize;
            let m = match db.colls.get_mut(name) {
                None => {
                    return if got == 0 { Ok(done(0, false)) } else { Err(what(&format!("mismatch: deleted {} from nothing; result", got))) };
                }
                Some(m) => m,
            };
            let hits: Vec<IdKey> = m.docs.iter().filter(|(_, d)| matches_top(d, q)).map(|(k, _)| k.clone()).collect();
            let want = if *many { hits.len() } else { hits.len().min(1) };
            if got != want {
                return Err(what(&format!("mismatch: deleted_count {}, expected {}; result", got, want)));
            }
            if *many || hits.len() <= 1 {
                for k in &hits {
                    m.docs.remove(k);
                }
            } else {
                let now = find_docs(col, &doc! {}).map_err(|e| what(&format!("mismatch: reading back failed with {}; result", e)))?;
                let present: std::collections::BTreeSet<IdKey> = now.iter().filter_map(|d| d.get("_id")).map(id_key).collect();
                let gone: Vec<&IdKey> = hits.iter().filter(|k| !present.contains(*k)).collect();
                if gone.len() != 1 {
                    return Err(what(&format!("mismatch: {} of the matching documents are gone; result", gone.len())));
                }
                let k = gone[0].clone();
                m.docs.remove(&k);
            }
            Ok(done(got, got > 0))
        }
        Op::CreateIndex { key, unique, name: iname } => {
            let n = index_name(key, iname);
            let mut m = db.colls.get(name).cloned().unwrap_or_default();
            let ix = MIndex { key: key.clone(), unique: *unique };
            let want = match m.indexes.get(&n) {
                Some(old) if *old == ix => Ok(()),
                Some(_) => Err(Bad::Key),
                None => check_index(&ix, &m.docs),
            };
            let r = on!(col, c => c.create_index(index_model(key, *unique, iname)));
            match (r, want) {
                (Ok(()), Ok(())) => {
                    m.indexes.insert(n, ix);
                    db.colls.insert(name.into(), m);
                    Ok(done(0, true))
                }
                (Err(e), Err(b)) => {
                    want_err(&what("result"), &e, &b)?;
                    Ok(failed(&e))
                }
                (Ok(()), Err(b)) => Err(what(&format!("mismatch: succeeded, expected {:?}; result", b))),
                (Err(e), Ok(())) => Err(what(&format!("mismatch: failed with {}; result", e))),
            }
        }
        Op::DropIndex(n) => {
            on!(col, c => c.drop_index(n)).map_err(|e| what(&format!("mismatch: failed with {}; result", e)))?;
            let mut changed = false;
            if let Some(m) = db.colls.get_mut(name) {
                changed = m.indexes.remove(n).is_some();
            }
            Ok(done(0, changed))
        }
        Op::DropColl => {
            on!(col, c => c.drop()).map_err(|e| what(&format!("mismatch: failed with {}; result", e)))?;
            let changed = db.colls.remove(name).is_some();
            Ok(done(0, changed))
        }
        Op::Aggregate { m: q, stages } => {
            let mut p: Vec<Document> = q.iter().map(|q| doc! {"$match": q.clone()}).collect();
            p.extend(stages.iter().cloned());
            if db.colls.contains_key(name) {
                let base = find_docs(col, &q.clone().unwrap_or_default()).map_err(|e| what(&format!("mismatch: plain find failed with {}; result", e)))?;
                let no_order = stages.iter().enumerate().any(|(i, s)| match s.get_document("$sort") {
                    Ok(sp) => unordered(&pipeline(base.clone(), &stages[..i]), sp),
                    Err(_) => false,
                });
                if no_order {
                    return Ok(match run_aggregate(col, p) {
                        Ok(v) => done(v.len(), false),
                        Err(e) => failed(&e),
                    });
                }
            }
            let got = run_aggregate(col, p).map_err(|e| what(&format!("mismatch: failed with {}; result", e)))?;
            let (base, want) = match db.colls.get(name) {
                None => (vec![], vec![]),
                Some(m) => {
                    let q = q.clone().unwrap_or_default();
                    let base = find_docs(col, &q).map_err(|e| what(&format!("mismatch: plain find failed with {}; result", e)))?;
                    same_bag(&what("mismatch: plain find"), &base, &m.find(&q))?;
                    (base.clone(), pipeline(base, stages))
                }
            };
            same_list(&what(&format!("mismatch: on {} input documents, result", base.len())), &got, &want)?;
            Ok(done(got.len(), false))
        }
    }
}

pub fn same_list(what: &str, got: &[Document], want: &[Document]) -> std::result::Result<(), String> {
    let a: Vec<Vec<u8>> = got.iter().map(|d| doc_bytes(&norm(d))).collect();
    let b: Vec<Vec<u8>> = want.iter().map(|d| doc_bytes(&norm(d))).collect();
    if a != b {
        let f = |v: &[Document]| v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(", ");
        return Err(format!("{}: got [{}], expected [{}]", what, f(got), f(want)));
    }
    Ok(())
}

fn check_id(what: &str, d: &Document, id: &Bson) -> std::result::Result<(), String> {
    match has_id(d) {
        Some(v) if id_key(&v) == id_key(id) => Ok(()),
        None if matches!(id, Bson::ObjectId(_)) => Ok(()),
        _ => Err(format!("mismatch: inserted_id {:?} for {}; {}", id, d, what)),
    }
}

/// Whether an update in some order of the documents meets a duplicate on its way.
fn may_collide(m: &MColl, olds: &BTreeMap<IdKey, Document>, news: &BTreeMap<IdKey, Document>) -> bool {
    for ix in m.indexes.values().filter(|ix| ix.unique) {
        let mut there: BTreeMap<_, Vec<&IdKey>> = BTreeMap::new();
        for (k, o) in olds {
            if let Some(v) = field(o, &ix.key) {
                there.entry(ix_key(&v)).or_default().push(k);
            }
        }
        for (k, n) in news {
            if let Some(v) = field(n, &ix.key) {
                if there.get(&ix_key(&v)).map_or(false, |ks| ks.iter().any(|k2| *k2 != k)) {
                    return true;
                }
            }
        }
    }
    false
}

#[allow(clippy::too_many_arguments)]
fn exec_update(
    col: &Col,
    name: &str,
    db: &mut MDb,
    q: &Document,
    u: &Document,
    many: bool,
    upsert: bool,
    r: Result<results::UpdateResult>,
    what: &dyn Fn(&str) -> String,
) -> std::result::Result<Done, String> {
    let m = db.colls.get(name).cloned();
    let hits: Vec<IdKey> = m.iter().flat_map(|m| m.docs.iter()).filter(|(_, d)| matches_top(d, q)).map(|(k, _)| k.clone()).collect();
    if m.is_some() {
        if let Err(b) = validate_update(u) {
            return match r {
                Err(e) => Ok(failed(&e)),
                Ok(_) => Err(what(&format!("mismatch: succeeded, expected {:?}; result", b))),
            };
        }
    }
    if hits.is_empty() {
        // nothing matches: maybe an upsert
        let set = u.get("$set");
        if upsert && set.is_some() {
            let mut d = q.clone();
            let mut bad = None;
            match set {
                Some(Bson::Document(s)) => {
                    for (k, v) in s {
                        if k.contains('$') || k.contains('.') || matches!(v, Bson::Document(_)) {
                            bad = Some(Bad::Upsert);
                        }
                        d.insert(k.clone(), v.clone());
                    }
                }
                _ => bad = Some(Bad::Upsert),
            }
            let mut mm = m.clone().unwrap_or_default();
            if bad.is_none() {
                if has_id(&d).is_some() {
                    let id = d.get("_id").unwrap().clone();
                    bad = insert_model(&mut mm, &d, id).err();
                } else {
                    // the id is generated: check the rest, then read it back
                    let mut probe = mm.clone();
                    bad = insert_model(&mut probe, &d, Bson::ObjectId(bson::oid::ObjectId::new())).err();
                }
            }
            return match (r, bad) {
                (Err(e), Some(b)) => {
                    want_err(&what("result"), &e, &b)?;
                    Ok(failed(&e))
                }
                (Ok(_), Some(b)) => Err(what(&format!("mismatch: the upsert succeeded, expected {:?}; result", b))),
                (Err(e), None) => Err(what(&format!("mismatch: the upsert failed with {}; result", e))),
                (Ok(res), None) => {
                    if res.matched_count != 0 || res.modified_count != 0 {
                        return Err(what(&format!("mismatch: counts {:?} of an upsert; result", (res.matched_count, res.modified_count))));
                    }
                    if has_id(&d).is_none() {
                        let now = find_docs(col, &doc! {}).map_err(|e| what(&format!("mismatch: reading back failed with {}; result", e)))?;
                        let new: Vec<&Document> = now
                            .iter()
                            .filter(|x| !mm.docs.contains_key(&id_key(x.get("_id").unwrap_or(&Bson::Null))))
                            .collect();
                        if new.len() != 1 || !matches!(new[0].get("_id"), Some(Bson::ObjectId(_))) {
                            return Err(what(&format!("mismatch: {} new documents after an upsert; result", new.len())));
                        }
                        let id = new[0].get("_id").unwrap().clone();
                        insert_model(&mut mm, &d, id).map_err(|b| what(&format!("mismatch: upsert {:?}; result", b)))?;
                    }
                    db.colls.insert(name.into(), mm);
                    Ok(Done { ok: true, changed: true, n: 0, err: None })
                }
            };
        }
        return match r {
            Ok(res) if res.matched_count == 0 && res.modified_count == 0 => Ok(done(0, false)),
            Ok(res) => Err(what(&format!("mismatch: counts {:?}, expected 0; result", (res.matched_count, res.modified_count)))),
            Err(e) => Err(what(&format!("mismatch: failed with {}; result", e))),
        };
    }
    let m = m.unwrap();
    // one set of documents to update per allowed choice
    let choices: Vec<Vec<IdKey>> = if many { vec![hits.clone()] } else { hits.iter().map(|k| vec![k.clone()]).collect() };
    let mut allowed_err: Option<Bad> = None;
    let mut must: Vec<(BTreeMap<IdKey, Document>, u64)> = vec![];
    for ch in &choices {
        let mut docs = m.docs.clone();
        let mut olds = BTreeMap::new();
        let mut news = BTreeMap::new();
        let mut modified = 0;
        let mut bad = None;
        for k in ch {
            match apply_update(&m.docs[k], u) {
                Ok((d, md)) => {
                    modified += md as u64;
                    olds.insert(k.clone(), m.docs[k].clone());
                    news.insert(k.clone(), d.clone());
                    docs.insert(k.clone(), d);
                }
                Err(b) => bad = Some(b),
            }
        }
        if bad.is_none() {
            bad = m.check_indexes(&docs).err();
        }
        match bad {
            Some(b) => {
                // several reasons may apply at once
                allowed_err = Some(match allowed_err {
                    Some(_) => Bad::Apply,
                    None => if b == Bad::Duplicate && ch.len() > 1 { Bad::Apply } else { b },
                })
            }
            None => {
                if may_collide(&m, &olds, &news) {
                    allowed_err.get_or_insert(Bad::Duplicate);
                }
                must.push((docs, modified));
            }
        }
    }
    match r {
        Err(e) => match allowed_err {
            Some(b) => {
                if must.is_empty() {
                    want_err(&what("result"), &e, &b)?;
                }
                Ok(failed(&e))
            }
            None => Err(what(&format!("mismatch: failed with {}; result", e))),
        },
        Ok(res) => {
            if must.is_empty() {
                return Err(what(&format!("mismatch: succeeded, expected {:?}; result", allowed_err)));
            }
            let want = choices[0].len() as u64;
            if res.matched_count != want {
                return Err(what(&format!("mismatch: matched_count {}, expected {}; result", res.matched_count, want)));
            }
            must.retain(|(_, md)| *md == res.modified_count);
            if must.is_empty() {
                return Err(what(&format!("mismatch: modified_count {}; result", res.modified_count)));
            }
            let pick = if must.len() == 1 {
                must.pop().unwrap().0
            } else {
                let now = find_docs(col, &doc! {}).map_err(|e| what(&format!("mismatch: reading back failed with {}; result", e)))?;
                let now = bag(&now);
                match must.into_iter().find(|(d, _)| bag(&d.values().cloned().collect::<Vec<_>>()) == now) {
                    Some((d, _)) => d,
                    None => return Err(what("mismatch: no single document was updated as specified; result")),
                }
            };
            let n = want as usize;
            db.colls.get_mut(name).unwrap().docs = pick;
            Ok(done(n, res.modified_count > 0))
        }
    }
}

/// Compares every collection with the model.
pub fn check_state(db: &Database, m: &MDb) -> std::result::Result<(), String> {
    let mut names = db.list_collection_names().map_err(|e| format!("state: list_collection_names failed with {}", e))?;
    names.sort();
    let want: Vec<String> = m.colls.keys().cloned().collect();
    if names != want {
        return Err(format!("state: collections {:?}, expected {:?}", names, want));
    }
    for (n, c) in &m.colls {
        let col = Col::A(db.collection(n));
        check_coll(&col, n, c)?;
    }
    Ok(())
}

pub fn check_coll(col: &Col, n: &str, c: &MColl) -> std::result::Result<(), String> {
    let docs = find_docs(col, &doc! {}).map_err(|e| format!("state: find in '{}' failed with {}", n, e))?;
    let want: Vec<Document> = c.docs.values().cloned().collect();
    same_bag(&format!("state of '{}'", n), &docs, &want)?;
    let cnt = on!(col, x => x.count_documents()).map_err(|e| format!("state: count of '{}' failed with {}", n, e))?;
    if cnt != want.len() as u64 {
        return Err(format!("state: count of '{}' is {}, expected {}", n, cnt, want.len()));
    }
    Ok(())
}

/// Looks every document up by its id and through every index.
pub fn check_lookups(col: &Col, n: &str, c: &MColl, more: &[Bson]) -> std::result::Result<(), String> {
    for d in c.docs.values() {
        let q = doc! {"_id": d.get("_id").unwrap().clone()};
        let got = find_docs(col, &q).map_err(|e| format!("lookup: find {} in '{}' failed with {}", q, n, e))?;
        same_bag(&format!("lookup {} in '{}'", q, n), &got, &[d.clone()])?;
    }
    for (iname, ix) in &c.indexes {
        let mut vals: Vec<Bson> = c.docs.values().filter_map(|d| field(d, &ix.key)).filter(crate::gens::is_scalar).collect();
        if vals.len() > 400 {
            // a part of them, with the first and the last
            let (n, step) = (vals.len(), vals.len() / 100);
            let mut i = 0;
            vals.retain(|_| {
                i += 1;
                i % step == 1 || i < 20 || i > n - 60
            });
        }
        vals.extend(more.iter().cloned());
        let mut seen = std::collections::BTreeSet::new();
        for v in vals {
            if !seen.insert(ix_key(&v)) {
                continue;
            }
            let mut q = Document::new();
            q.insert(ix.key.clone(), v);
            let got = find_docs(col, &q).map_err(|e| format!("lookup: find {} in '{}' failed with {}", q, n, e))?;
            let what = format!("lookup {} in '{}' with index {}", q, n, iname);
            same_bag(&what, &got, &c.find(&q))?;
        }
    }
    Ok(())
}

pub fn open(p: &Path) -> std::result::Result<Database, String> {
    Database::open_path(p).map_err(|e| format!("open: {}", e))
}
