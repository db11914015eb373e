//! Queries, updates, find options and pipelines against the reference model.
use crate::gens::{self, Ops};
use crate::model::*;
use crate::runner::Case;
use crate::src::Src;
use crate::sys::*;
use polodb_core::bson::{self, doc, Bson, Document};
use polodb_core::*;

type R<T> = std::result::Result<T, String>;

struct Env {
    db: Database,
    m: MDb,
    docs: Vec<Document>,
}

const C: &str = "q";

/// A collection of documents, and others around it which no query may return.
fn setup(case: &mut Case, max: usize, large: usize, mk: &dyn Fn(&mut Src) -> Document) -> R<Env> {
    let db = open(&case.dir.join("db"))?;
    let mut m = MDb::default();
    let mut n = 1 + case.s.idx(max);
    if case.s.chance(4) {
        n += 20 + case.s.idx(100);
        case.class("many documents");
    }
    let mut docs = vec![];
    let mut many = vec![];
    if case.s.below(150) == 149 {
        n = gens::large(&mut case.s).min(large);
        many = gens::batch(&mut case.s, n, mk);
        many.reverse();
        case.class("a large collection");
    }
    for i in 0..n {
        let mut d = many.pop().unwrap_or_else(|| mk(&mut case.s));
        let id = match case.s.weighted(&[8, 1, 1]) {
            0 => Bson::Int32(i as i32),
            1 => Bson::String(format!("id{}", i)),
            _ => Bson::Int64(1_000_000 + i as i64),
        };
        d.insert("_id", id);
        docs.push(d);
    }
    for (name, k) in [(C, n), ("q1", 2), ("p", 2)] {
        let ds: Vec<Document> = docs.iter().take(k).cloned().collect();
        exec(&Col::A(db.collection(name)), name, &mut m, &Op::InsertMany(ds))?;
    }
    for d in docs.iter().take(200) {
        case.log(format!("document {}", d));
    }
    Ok(Env { db, m, docs })
}

impl Env {
    fn col(&self) -> Col {
        Col::A(self.db.collection(C))
    }
    fn ask(&mut self, case: &mut Case, q: &Document) -> R<usize> {
        case.log(format!("find {}", q));
        let col = self.col();
        let op = Op::Find(FindOp { q: q.clone(), sort: None, skip: None, limit: None });
        let d = exec(&col, C, &mut self.m, &op)?;
        case.class(if d.n == 0 {
            "query matches nothing"
        } else if d.n == self.docs.len() {
            "query matches all"
        } else {
            "query matches some"
        });
        Ok(d.n)
    }
    fn get(&self, case: &mut Case, q: &Document) -> R<Vec<Document>> {
        case.log(format!("find {}", q));
        find_docs(&self.col(), q).map_err(|e| format!("mismatch: find {} failed with {}", q, e))
    }
}

fn partial(n: usize, total: usize) -> bool {
    n > 0 && n < total
}

// ------------------------------------------------------------------ C08

pub fn c08(case: &mut Case) -> R<()> {
    let mut e = setup(case, 10, 4097, &gens::qdoc)?;
    let docs = e.docs.clone();
    let mut some = 0;
    for _ in 0..10 {
        let (p, v) = gens::condition(&mut case.s, &docs, Ops::Compare);
        let mut q = Document::new();
        q.insert(p, v);
        if partial(e.ask(case, &q)?, docs.len()) {
            some += 1;
        }
    }
    // the operators of one operand partition the documents which have the field
    for _ in 0..2 {
        let p = *case.s.pick(&["a", "b", "s", "d.x", "d.y", "d.z.w"]);
        let v = gens::operand(&mut case.s, &docs, p);
        let mut n = |case: &mut Case, o: &str| -> R<Vec<Document>> { e.get(case, &doc! {p: {o: v.clone()}}) };
        let (eq, ne, gt, gte, lt, lte) = (n(case, "$eq")?, n(case, "$ne")?, n(case, "$gt")?, n(case, "$gte")?, n(case, "$lt")?, n(case, "$lte")?);
        let have: Vec<Document> = docs.iter().filter(|d| field(d, p).is_some()).cloned().collect();
        let cat = |parts: &[&Vec<Document>]| -> Vec<Document> { parts.iter().flat_map(|p| p.iter().cloned()).collect() };
        same_bag(&format!("relation: $eq and $ne of {} and {} against the documents which have the field", p, v), &cat(&[&eq, &ne]), &have)?;
        same_bag(&format!("relation: $gt and $eq of {} and {} against $gte", p, v), &cat(&[&gt, &eq]), &gte)?;
        same_bag(&format!("relation: $lt and $eq of {} and {} against $lte", p, v), &cat(&[&lt, &eq]), &lte)?;
        same_bag(&format!("relation: $gt and $lt of {} and {} against $ne", p, v), &cat(&[&gt, &lt]), &ne)?;
        if partial(eq.len(), have.len()) || partial(gt.len(), have.len()) {
            some += 1;
        }
    }
    case.nontrivial = some >= 3;
    Ok(())
}

// ------------------------------------------------------------------ C09

pub fn c09(case: &mut Case) -> R<()> {
    let mut e = setup(case, 10, 260, &gens::qdoc)?;
    let docs = e.docs.clone();
    let mut some = 0;
    for _ in 0..8 {
        let depth = 1 + case.s.idx(3);
        let q = gens::query(&mut case.s, &docs, Ops::All, depth);
        if partial(e.ask(case, &q)?, docs.len()) {
            some += 1;
        }
    }
    for _ in 0..3 {
        // whatever the parts select: the whole follows
        let k = 2 + case.s.idx(2);
        let parts: Vec<Document> = (0..k).map(|_| gens::query(&mut case.s, &docs, Ops::All, 1)).collect();
        let rs: Vec<Vec<Document>> = parts.iter().map(|q| e.get(case, q)).collect::<R<_>>()?;
        let has = |r: &Vec<Document>, d: &Document| r.iter().any(|x| x.get("_id") == d.get("_id"));
        let and: Vec<Document> = docs.iter().filter(|d| rs.iter().all(|r| has(r, d))).cloned().collect();
        let or: Vec<Document> = docs.iter().filter(|d| rs.iter().any(|r| has(r, d))).cloned().collect();
        let got = e.get(case, &doc! {"$and": parts.clone()})?;
        same_bag(&format!("relation: $and of {:?} against the intersection", parts), &got, &and)?;
        let got = e.get(case, &doc! {"$or": parts.clone()})?;
        same_bag(&format!("relation: $or of {:?} against the union", parts), &got, &or)?;
        // the order of the parts, and nesting, do not matter
        let mut rev = parts.clone();
        rev.reverse();
        let got = e.get(case, &doc! {"$or": rev.clone()})?;
        same_bag("relation: reversed $or", &got, &or)?;
        let got = e.get(case, &doc! {"$and": [{"$or": rev.clone()}, {"$or": parts.clone()}]})?;
        same_bag("relation: $and of twice the same $or", &got, &or)?;
        let got = e.get(case, &doc! {"$or": [{"$and": rev}, {"$and": parts.clone()}]})?;
        same_bag("relation: $or of twice the same $and", &got, &and)?;
        // a condition beside it, before or after
        let (ck, cv) = gens::condition(&mut case.s, &docs, Ops::All);
        let mut c = Document::new();
        c.insert(ck.clone(), cv.clone());
        let r = e.get(case, &c)?;
        let both: Vec<Document> = or.iter().filter(|d| has(&r, d)).cloned().collect();
        let mut q1 = doc! {"$or": parts.clone()};
        q1.insert(ck.clone(), cv.clone());
        let mut q2 = c.clone();
        q2.insert("$or", parts.clone());
        same_bag("relation: a condition after $or", &e.get(case, &q1)?, &both)?;
        same_bag("relation: a condition before $or", &e.get(case, &q2)?, &both)?;
        if partial(and.len(), docs.len()) || partial(or.len(), docs.len()) {
            some += 1;
        }
    }
    // negation
    for _ in 0..3 {
        let p = *case.s.pick(&["a", "b", "s", "d.x"]);
        let mut ops = Document::new();
        let n = 1 + case.s.idx(2);
        for _ in 0..n {
            let (k, v) = gens::op_entry(&mut case.s, &docs, p, Ops::Compare, 0);
            ops.insert(k, v);
        }
        let yes = e.get(case, &doc! {p: ops.clone()})?;
        let no = e.get(case, &doc! {p: {"$not": ops.clone()}})?;
        let twice = e.get(case, &doc! {p: {"$not": {"$not": ops.clone()}}})?;
        let have: Vec<Document> = docs.iter().filter(|d| field(d, p).is_some()).cloned().collect();
        let mut both = yes.clone();
        both.extend(no.clone());
        same_bag(&format!("relation: {} and $not {} against the documents which have {}", ops, ops, p), &both, &have)?;
        same_bag(&format!("relation: twice $not {}", ops), &twice, &yes)?;
        if partial(yes.len(), have.len()) {
            some += 1;
        }
    }
    case.nontrivial = some >= 3;
    Ok(())
}

// ------------------------------------------------------------------ C10

pub fn c10(case: &mut Case) -> R<()> {
    let mut e = setup(case, 10, 1100, &gens::qdoc)?;
    let docs = e.docs.clone();
    let mut some = 0;
    for _ in 0..10 {
        let (p, v) = gens::condition(&mut case.s, &docs, Ops::Member);
        let mut q = Document::new();
        q.insert(p, v);
        if partial(e.ask(case, &q)?, docs.len()) {
            some += 1;
        }
    }
    // $in and $nin split the collection; $in is the union of its candidates, $all the intersection
    for _ in 0..2 {
        let p = *case.s.pick(&["t", "s", "a", "d.x", "m", "nope"]);
        let n = 1 + case.s.idx(3);
        let cs: Vec<Bson> = (0..n).map(|_| gens::candidate(&mut case.s, &docs, p)).collect();
        let i = e.get(case, &doc! {p: {"$in": cs.clone()}})?;
        let ni = e.get(case, &doc! {p: {"$nin": cs.clone()}})?;
        let al = e.get(case, &doc! {p: {"$all": cs.clone()}})?;
        let mut both = i.clone();
        both.extend(ni);
        same_bag(&format!("relation: $in and $nin of {} {:?}", p, cs), &both, &docs)?;
        let one: Vec<Vec<Document>> = cs.iter().map(|c| e.get(case, &doc! {p: {"$in": [c.clone()]}})).collect::<R<_>>()?;
        let has = |r: &Vec<Document>, d: &Document| r.iter().any(|x| x.get("_id") == d.get("_id"));
        let any: Vec<Document> = docs.iter().filter(|d| one.iter().any(|r| has(r, d))).cloned().collect();
        let every: Vec<Document> = docs.iter().filter(|d| one.iter().all(|r| has(r, d))).cloned().collect();
        same_bag(&format!("relation: $in of {} {:?} against its candidates", p, cs), &i, &any)?;
        same_bag(&format!("relation: $all of {} {:?} against its candidates", p, cs), &al, &every)?;
        if partial(i.len(), docs.len()) {
            some += 1;
        }
    }
    case.nontrivial = some >= 3;
    Ok(())
}

// ------------------------------------------------------------------ C22

/// A query selects the same documents in every operation.
pub fn c22(case: &mut Case) -> R<()> {
    let mut e = setup(case, 14, 1100, &gens::qdoc)?;
    if case.s.chance(50) {
        let key = case.s.pick(&["b", "s"]).to_string();
        case.log(format!("create_index {}", key));
        let col = e.col();
        exec(&col, C, &mut e.m, &Op::CreateIndex { key, unique: false, name: None })?;
    }
    let docs = e.docs.clone();
    let mut some = 0;
    for round in 0..5 {
        let mut q = match case.s.below(3) {
            0 => gens::query(&mut case.s, &docs, Ops::All, 2),
            1 => gens::query(&mut case.s, &docs, Ops::All, 1),
            _ => {
                let (k, v) = gens::condition(&mut case.s, &docs, Ops::All);
                let mut d = Document::new();
                d.insert(k, v);
                d
            }
        };
        // often an equality of an indexed field
        if case.s.chance(25) {
            let d = case.s.pick(&docs).clone();
            if let Some(b) = d.get("b") {
                q.insert("b", b.clone());
            }
        }
        if case.s.chance(15) {
            let mut q2 = doc! {"_id": case.s.pick(&docs).get("_id").unwrap().clone()};
            q2.extend(q);
            q = q2;
        }
        let mc = e.m.colls.get(C).unwrap().clone();
        case.log(format!("query {}", q));
        let want = mc.find(&q);
        let n = want.len() as u64;
        let t;
        let col = if case.s.chance(30) {
            t = e.db.start_transaction().map_err(|e| e.to_string())?;
            Col::T(t.collection(C))
        } else {
            e.col()
        };
        same_bag(&format!("mismatch: find {}", q), &find_docs(&col, &q).map_err(|x| format!("mismatch: find {} failed with {}", q, x))?, &want)?;
        let one = on!(&col, c => c.find_one(q.clone())).map_err(|x| format!("mismatch: find_one {} failed with {}", q, x))?;
        if one.is_some() != (n > 0) || one.as_ref().map_or(false, |d| !matches_top(d, &q)) {
            return Err(format!("mismatch: find_one {} returned {:?}, {} match", q, one, n));
        }
        let m = run_aggregate(&col, vec![doc! {"$match": q.clone()}]).map_err(|x| format!("mismatch: $match {} failed with {}", q, x))?;
        same_bag(&format!("mismatch: $match {}", q), &m, &want)?;
        let k = run_aggregate(&col, vec![doc! {"$match": q.clone()}, doc! {"$count": "n"}]).map_err(|x| format!("mismatch: count of {} failed with {}", q, x))?;
        same_list(&format!("mismatch: count of {}", q), &k, &[doc! {"n": n as i64}])?;
        let mark = format!("mark{}", round);
        let u = on!(&col, c => c.update_many(q.clone(), doc! {"$set": {&mark: 1}})).map_err(|x| format!("mismatch: update_many {} failed with {}", q, x))?;
        if u.matched_count != n || u.modified_count != n {
            return Err(format!("mismatch: update_many {} counted {:?}, expected {}", q, (u.matched_count, u.modified_count), n));
        }
        let marked = find_docs(&col, &doc! {&mark: 1}).map_err(|x| x.to_string())?;
        let ids = |v: &[Document]| -> Vec<Document> { v.iter().map(|d| doc! {"_id": d.get("_id").unwrap().clone()}).collect() };
        same_bag(&format!("mismatch: the documents updated by {}", q), &ids(&marked), &ids(&want))?;
        on!(&col, c => c.update_many(doc! {}, doc! {"$unset": {&mark: ""}})).map_err(|x| x.to_string())?;
        let u = on!(&col, c => c.update_one(q.clone(), doc! {"$set": {&mark: 1}})).map_err(|x| format!("mismatch: update_one {} failed with {}", q, x))?;
        let marked = find_docs(&col, &doc! {&mark: 1}).map_err(|x| x.to_string())?;
        if u.matched_count != n.min(1) || marked.len() as u64 != n.min(1) || marked.iter().any(|d| !want.iter().any(|w| w.get("_id") == d.get("_id"))) {
            return Err(format!("mismatch: update_one {} counted {} and changed {}, {} match", q, u.matched_count, marked.len(), n));
        }
        on!(&col, c => c.update_many(doc! {}, doc! {"$unset": {&mark: ""}})).map_err(|x| x.to_string())?;
        // delete and put back
        let single = case.s.chance(40);
        let del = on!(&col, c => if single { c.delete_one(q.clone()) } else { c.delete_many(q.clone()) }).map_err(|x| format!("mismatch: delete {} failed with {}", q, x))?;
        let exp = if single { n.min(1) } else { n };
        let left = find_docs(&col, &doc! {}).map_err(|x| x.to_string())?;
        let gone: Vec<Document> = mc.docs.values().filter(|d| !left.iter().any(|x| x.get("_id") == d.get("_id"))).cloned().collect();
        if del.deleted_count != exp || gone.len() as u64 != exp || gone.iter().any(|d| !matches_top(d, &q)) {
            return Err(format!("mismatch: delete {} (one: {}) counted {} and removed {}, expected {}", q, single, del.deleted_count, gone.len(), exp));
        }
        if !gone.is_empty() {
            on!(&col, c => c.insert_many(gone.iter())).map_err(|x| x.to_string())?;
        }
        same_bag("mismatch: documents put back", &find_docs(&col, &doc! {}).map_err(|x| x.to_string())?, &docs)?;
        if let Col::T(_) = &col {
            case.class("in a transaction");
        }
        if partial(n as usize, docs.len()) {
            some += 1;
        }
        drop(col);
    }
    check_state(&e.db, &e.m)?;
    case.nontrivial = some >= 2;
    Ok(())
}

// ------------------------------------------------------------------ C11

pub fn c11(case: &mut Case) -> R<()> {
    let mut e = setup(case, 8, 1100, &gens::udoc)?;
    let (mut modified, mut failed, mut unmod) = (0, 0, 0);
    let mut n = 0;
    while case.s.more(n, 24, 14) {
        n += 1;
        let docs: Vec<Document> = e.m.colls[C].docs.values().cloned().collect();
        let q = gens::uquery(&mut case.s, &docs);
        let hard = case.s.chance(35);
        let u = gens::update(&mut case.s, hard);
        let many = case.s.chance(65);
        let tr;
        let intxn = case.s.chance(15);
        let col = if intxn {
            tr = e.db.start_transaction().map_err(|e| e.to_string())?;
            Col::T(tr.collection(C))
        } else {
            e.col()
        };
        case.log(format!("update {}{} {} {}", if many { "many" } else { "one" }, if intxn { " in a transaction" } else { "" }, q, u));
        let before = e.m.clone();
        let d = exec(&col, C, &mut e.m, &Op::Update { q, u: u.clone(), many, upsert: false })?;
        if intxn {
            // the transaction ends here
            drop(col);
            e.m = before;
            check_coll(&e.col(), C, &e.m.colls[C])?;
        } else {
            check_coll(&col, C, &e.m.colls[C])?;
        }
        if d.changed {
            modified += 1;
            for k in u.keys() {
                case.class(&format!("applied {}", k));
            }
        } else if d.ok && d.n > 0 {
            unmod += 1;
            case.class("matched, not modified");
        }
        if !d.ok {
            failed += 1;
            case.class("rejected");
        }
    }
    check_state(&e.db, &e.m)?;
    let _ = unmod;
    case.nontrivial = modified >= 3 && (failed > 0 || modified >= 5);
    Ok(())
}

// ------------------------------------------------------------------ C12

pub fn c12(case: &mut Case) -> R<()> {
    let mut e = setup(case, 5, 300, &gens::udoc)?;
    if case.s.chance(50) {
        let col = e.col();
        case.log("create_index x unique".into());
        exec(&col, C, &mut e.m, &Op::CreateIndex { key: "x".into(), unique: true, name: None })?;
    }
    let (mut ins, mut upd) = (0, 0);
    let mut n = 0;
    while case.s.more(n, 24, 14) {
        n += 1;
        let c = if case.s.chance(85) { C } else { *case.s.pick(&["n1", "n2"]) };
        let docs: Vec<Document> = e.m.colls.get(c).map(|x| x.docs.values().cloned().collect()).unwrap_or_default();
        let s = &mut case.s;
        // a query which can become a document
        let mut q = Document::new();
        if s.chance(40) {
            q.insert("_id", if docs.is_empty() || s.chance(50) { gens::small_id(s) } else { s.pick(&docs).get("_id").unwrap().clone() });
        }
        if s.chance(60) {
            q.insert("x", s.range(0, 9) as i32);
        }
        if s.chance(40) {
            q.insert("n", gens::operand(s, &docs, "n"));
        }
        if s.chance(30) {
            q.insert("s", gens::string(s));
        }
        let mut u = Document::new();
        if s.chance(90) {
            let mut d = Document::new();
            // also nothing to set, or what is there already
            let k = s.weighted(&[3, 8, 8, 8]);
            if k > 0 && !docs.is_empty() && s.chance(12) {
                let mut now = s.pick(&docs).clone();
                now.remove("_id");
                d.extend(now.into_iter().take(2).filter(|(_, v)| valid_key(v)));
            }
            for _ in 0..k {
                let key = match s.weighted(&[20, 1, 1]) {
                    0 => s.pick(&["y", "z", "x", "n", "w"]).to_string(),
                    1 => "d.x".to_string(),
                    _ => "$odd".to_string(),
                };
                let v = match s.weighted(&[8, 2, 1]) {
                    0 => gens::scalar(s),
                    1 => gens::int_array(s),
                    _ => Bson::Document(doc! {"k": 1}),
                };
                // the unique index of x takes scalars only
                let v = if key == "x" && !valid_key(&v) { Bson::Int32(7) } else { v };
                d.insert(key, v);
            }
            u.insert("$set", d);
        }
        if s.chance(25) {
            u.insert("$inc", doc! {"cnt": 1});
        }
        if s.chance(12) {
            let o = *s.pick(&["$max", "$min"]);
            u.insert(o, doc! {"n": gens::number(s)});
        }
        if u.is_empty() {
            u.insert("$unset", doc! {"gone": ""});
        }
        let (many, upsert) = (s.chance(50), s.chance(85));
        let col = Col::A(e.db.collection(c));
        let op = Op::Update { q, u, many, upsert };
        let before = e.m.colls.get(c).map_or(0, |x| x.docs.len());
        let d = exec(&col, c, &mut e.m, &op);
        case.log(format!("{}: {:?} -> {:?}", c, op, d.as_ref().map(|d| (d.ok, d.n, d.changed))));
        let d = d?;
        let after = e.m.colls.get(c).map_or(0, |x| x.docs.len());
        if after > before {
            ins += 1;
            case.class("inserted");
        } else if d.changed {
            upd += 1;
            case.class("updated");
        } else if !d.ok {
            case.class(&format!("rejected: {}", d.err.unwrap_or_default()));
        }
        check_state(&e.db, &e.m)?;
    }
    if let Some(mc) = e.m.colls.get(C) {
        check_lookups(&e.col(), C, mc, &[])?;
    }
    case.nontrivial = ins > 0 && upd > 0;
    Ok(())
}

// ------------------------------------------------------------------ C13

fn sdoc(s: &mut Src) -> Document {
    let mut d = Document::new();
    if s.chance(85) {
        d.insert("a", gens::scalar(s));
    }
    if s.chance(85) {
        d.insert("b", s.range(0, 2) as i32);
    }
    if s.chance(70) {
        d.insert("c", gens::string(s));
    }
    if s.chance(30) {
        d.insert("_x", s.range(0, 1) as i32);
    }
    d
}

fn sort_spec(s: &mut Src, keys: &[&str]) -> Document {
    let mut d = Document::new();
    let n = 1 + s.weighted(&[5, 4, 2]);
    for _ in 0..n {
        let k = *s.pick(keys);
        let v = s.pick(&[Bson::Int32(1), Bson::Int32(-1), Bson::Int64(1), Bson::Int64(-1)]).clone();
        d.insert(k, v);
    }
    d
}

pub fn c13(case: &mut Case) -> R<()> {
    // equal as floats and not as integers, and enough of them for every part of a sort
    let close = case.s.chance(8);
    let cdoc = |s: &mut Src| {
        let mut d = sdoc(s);
        d.insert("a", gens::close_num(s));
        d
    };
    let mut e = if close {
        case.class("close numbers");
        setup(case, 160, 1100, &cdoc)?
    } else {
        setup(case, 24, 1100, &sdoc)?
    };
    if case.s.chance(30) {
        let col = e.col();
        case.log("create_index b".into());
        exec(&col, C, &mut e.m, &Op::CreateIndex { key: "b".into(), unique: false, name: None })?;
    }
    let docs = e.docs.clone();
    let mut sorted = 0;
    for _ in 0..if docs.len() > 200 { 3 } else { 6 } {
        let s = &mut case.s;
        let q = match s.below(4) {
            0 => doc! {"b": s.range(0, 2) as i32},
            1 => doc! {"b": {"$lte": s.range(0, 2) as i32}},
            _ => doc! {},
        };
        let big = |s: &mut Src| match s.weighted(&[10, 1]) {
            0 => s.below(12),
            _ => *s.pick(&[u64::MAX, 1 << 33, i64::MAX as u64, i64::MAX as u64 + 1]),
        };
        let f = FindOp {
            q,
            sort: if s.chance(75) { Some(sort_spec(s, &["a", "b", "c", "_id", "nope"])) } else { None },
            skip: if s.chance(50) { Some(big(s)) } else { None },
            limit: if s.chance(50) { Some(big(s)) } else { None },
        };
        case.log(format!("find {:?}", f));
        let col = e.col();
        let d = exec(&col, C, &mut e.m, &Op::Find(f.clone()))?;
        if f.sort.is_some() && d.n >= 2 {
            sorted += 1;
            case.class("sorted");
        }
    }
    // pages put together are the whole
    let s = &mut case.s;
    let q = if s.chance(30) { doc! {"b": s.range(0, 2) as i32} } else { doc! {} };
    let sort = if s.chance(70) { Some(sort_spec(s, &["a", "b", "c"])) } else { None };
    let size = 1 + s.below(5) + docs.len() as u64 / if docs.len() > 200 { 4 } else { 12 };
    let whole = run_find(&e.col(), &FindOp { q: q.clone(), sort: sort.clone(), skip: None, limit: None }).map_err(|x| format!("mismatch: {}", x))?;
    let mut pages = vec![];
    let mut k = 0;
    loop {
        let p = run_find(&e.col(), &FindOp { q: q.clone(), sort: sort.clone(), skip: Some(k), limit: Some(size) }).map_err(|x| format!("mismatch: {}", x))?;
        if p.len() as u64 > size || (p.is_empty() && (k as usize) < whole.len()) || k > whole.len() as u64 + size {
            return Err(format!("mismatch: page of {} at {}: {} documents of {}", size, k, p.len(), whole.len()));
        }
        if p.is_empty() {
            break;
        }
        pages.extend(p);
        k += size;
    }
    case.log(format!("pages of {} of {} {:?}", size, q, sort));
    same_list("mismatch: pages", &pages, &whole)?;
    // reversing a sort by a unique key reverses the result
    let up = run_find(&e.col(), &FindOp { q: q.clone(), sort: Some(doc! {"_id": 1}), skip: None, limit: None }).map_err(|x| format!("mismatch: {}", x))?;
    let mut down = run_find(&e.col(), &FindOp { q: q.clone(), sort: Some(doc! {"_id": -1}), skip: None, limit: None }).map_err(|x| format!("mismatch: {}", x))?;
    down.reverse();
    same_list("relation: the reverse order", &up, &down)?;
    // a cursor read by advance, and again after its end
    let mut cur = e.db.collection::<Document>(C).find(q.clone()).run().map_err(|x| format!("mismatch: {}", x))?;
    let mut got = vec![];
    while cur.advance().map_err(|x| format!("mismatch: {}", x))? {
        let d = cur.deserialize_current().map_err(|x| format!("mismatch: {}", x))?;
        let d2 = cur.deserialize_current().map_err(|x| format!("mismatch: {}", x))?;
        same_list("mismatch: the current document read twice", &[d.clone()], &[d2])?;
        got.push(d);
        if got.len() > docs.len() {
            return Err("mismatch: a cursor without end".into());
        }
    }
    for _ in 0..2 {
        if cur.advance().map_err(|x| format!("mismatch: {}", x))? {
            return Err("mismatch: a document after the end of a cursor".into());
        }
    }
    same_bag("mismatch: cursor", &got, &e.m.colls[C].find(&q))?;
    // one read in part does no harm
    let mut cur = e.db.collection::<Document>(C).find(q).run().map_err(|x| format!("mismatch: {}", x))?;
    let _ = cur.next();
    drop(cur);
    // an invalid order is an error
    let bad = case.s.pick(&[Bson::Int32(0), Bson::Int32(2), Bson::String("a".into()), Bson::Double(1.5), Bson::Int64(-2)]).clone();
    let r = run_find(&e.col(), &FindOp { q: doc! {}, sort: Some(doc! {"a": bad.clone()}), skip: None, limit: None });
    if r.is_ok() {
        return Err(format!("mismatch: a sort by {} succeeded", bad));
    }
    let _ = docs;
    check_state(&e.db, &e.m)?;
    case.nontrivial = sorted >= 3;
    Ok(())
}

// ------------------------------------------------------------------ C14

/// The operand of $skip and $limit.
fn count(s: &mut Src, max: i64) -> Bson {
    match s.weighted(&[10, 10, 2]) {
        0 => Bson::Int32(s.range(0, max) as i32),
        1 => Bson::Int64(s.range(0, max)),
        _ => match s.below(7) {
            0 => Bson::Int32(i32::MAX),
            1 => Bson::Int64(i64::MAX),
            2 => Bson::Int64(1 << 32),
            3 => Bson::Int64((1 << 32) + 1),
            4 => Bson::Int64(i32::MAX as i64 + 1),
            5 => Bson::Int32(255),
            _ => Bson::Int32(65_536),
        },
    }
}

pub fn c14(case: &mut Case) -> R<()> {
    let doc = |s: &mut Src| {
        let mut d = gens::qdoc(s);
        if s.chance(8) {
            d.insert("$t", gens::scalar(s));
        }
        d
    };
    let mut e = setup(case, 16, 4097, &doc)?;
    if case.s.chance(35) {
        let col = e.col();
        case.log("create_index b".into());
        exec(&col, C, &mut e.m, &Op::CreateIndex { key: "b".into(), unique: false, name: None })?;
    }
    let docs = e.docs.clone();
    let (mut some, mut staged) = (0, 0);
    for _ in 0..10 {
        let s = &mut case.s;
        let m = match s.weighted(&[3, 4, 1, 1]) {
            0 => None,
            1 => Some(gens::query(s, &docs, Ops::All, 1)),
            2 => Some(doc! {"b": s.range(0, 3) as i32}),
            _ => Some(doc! {"_id": s.pick(&docs).get("_id").unwrap().clone()}),
        };
        let mut st: Vec<Document> = vec![];
        // after a count or a group other fields exist
        let mut grouped = false;
        // now and then very many stages
        let (most, avg) = if s.below(150) == 149 { (120, 60) } else { (6, 3) };
        while s.more(st.len(), most, avg) {
            let stage = match s.weighted(&[4, 4, 4, 2, 2, 3, 3]) {
                0 => doc! {"$skip": count(s, 5)},
                1 => doc! {"$limit": count(s, 8)},
                2 => doc! {"$sort": sort_spec(s, if grouped { &["n", "x"] } else { &["a", "b", "s"] })},
                3 => {
                    grouped = true;
                    let name = s.pick(&["n", "total"]).to_string();
                    doc! {"$count": name}
                }
                4 => {
                    grouped = true;
                    let id = match s.below(3) {
                        0 => Bson::Null,
                        1 => Bson::String("all".into()),
                        _ => Bson::Int32(1),
                    };
                    let mut g = doc! {"_id": id};
                    if s.chance(90) {
                        g.insert("n", doc! {"$sum": 1});
                    }
                    if s.chance(30) {
                        g.insert("n2", doc! {"$sum": 1});
                    }
                    doc! {"$group": g}
                }
                5 => {
                    let f = |s: &mut Src| s.pick(&["a", "b", "t", "d", "new", "n", "_id"]).to_string();
                    if s.chance(50) {
                        let k = f(s);
                        doc! {"$unset": k}
                    } else {
                        let a: Vec<String> = vec![f(s), f(s)];
                        doc! {"$unset": a}
                    }
                }
                _ => {
                    // a field which is replaced may be the input of another
                    let mut d = Document::new();
                    for _ in 0..1 + s.idx(3) {
                        let name = s.pick(&["f1", "f2", "f1", "f2", "a", "b", "n", "$t", "_id"]).to_string();
                        let src = s.pick(&["$a", "$b", "$s", "$nope", "$t", "$n", "$f1", "$f2", "$$t", "$"]).to_string();
                        let v: Bson = match s.below(7) {
                            0 | 1 => Bson::String(src),
                            2 => Bson::Document(doc! {"$abs": src}),
                            3 => gens::number(s),
                            4 => Bson::Document(doc! {"$abs": gens::number(s)}),
                            5 => s.pick(&[Bson::Null, Bson::String("a".into()), Bson::String("".into()), Bson::Boolean(true), Bson::Array(vec!["$a".into(), 1.into()])]).clone(),
                            _ => Bson::Document(doc! {"$abs": {"$abs": src}}),
                        };
                        d.insert(name, v);
                    }
                    doc! {"$addFields": d}
                }
            };
            st.push(stage);
        }
        let op = Op::Aggregate { m, stages: st.clone() };
        case.log(format!("{:?}", op));
        let intxn = case.s.chance(10);
        let t;
        let col = if intxn {
            t = e.db.start_transaction().map_err(|e| e.to_string())?;
            Col::T(t.collection(C))
        } else {
            e.col()
        };
        let d = exec(&col, C, &mut e.m, &op)?;
        if d.n > 0 {
            some += 1;
        }
        if st.len() >= 2 {
            staged += 1;
        }
        for x in &st {
            case.class(x.keys().next().unwrap());
        }
    }
    check_state(&e.db, &e.m)?;
    case.nontrivial = some >= 3 && staged >= 3;
    Ok(())
}

#[allow(dead_code)]
fn unused(_: bson::DateTime) {}
