//! Histories of operations against the reference model.
use crate::gens;
use crate::model::*;
use crate::runner::Case;
use crate::src::Src;
use crate::sys::*;
use polodb_core::bson::{doc, Bson, Document};
use polodb_core::*;
use std::collections::{BTreeMap, BTreeSet};

type R<T> = std::result::Result<T, String>;

fn docs_of(m: &MDb, c: &str) -> Vec<Document> {
    m.colls.get(c).map(|c| c.docs.values().cloned().collect()).unwrap_or_default()
}

pub fn with_id(s: &mut Src, mut d: Document, pct: u64) -> Document {
    if s.chance(pct) {
        let id = gens::small_id(s);
        let mut o = doc! {"_id": id};
        o.extend(std::mem::take(&mut d));
        // the id is not always the first field
        if s.chance(10) {
            let id = o.remove("_id").unwrap();
            o.insert("_id", id);
        }
        return o;
    }
    d
}

fn sort_spec(s: &mut Src, keys: &[&str]) -> Document {
    let mut d = Document::new();
    let n = 1 + s.weighted(&[6, 3, 1]);
    for _ in 0..n {
        let k = *s.pick(keys);
        let v = s.pick(&[Bson::Int32(1), Bson::Int32(-1), Bson::Int64(1), Bson::Int64(-1)]).clone();
        d.insert(k, v);
    }
    d
}

fn gen_find(s: &mut Src, q: Document, keys: &[&str]) -> FindOp {
    FindOp {
        q,
        sort: if s.chance(35) { Some(sort_spec(s, keys)) } else { None },
        skip: if s.chance(25) { Some(s.below(6)) } else { None },
        limit: if s.chance(25) { Some(s.below(6)) } else { None },
    }
}

fn log(case: &mut Case, who: &str, coll: &str, op: &Op, d: &R<Done>) {
    let r = match d {
        Ok(d) if d.ok => format!("ok n={}", d.n),
        Ok(d) => format!("err {}", d.err.clone().unwrap_or_default()),
        Err(e) => format!("MISMATCH {}", e.chars().take(60).collect::<String>()),
    };
    case.log(format!("{}{}: {:?} -> {}", who, coll, op, r));
}

pub fn run_op(case: &mut Case, db: &Database, m: &mut MDb, c: &str, op: &Op) -> R<Done> {
    let col = Col::A(db.collection(c));
    let before = m.clone();
    let d = exec(&col, c, m, op);
    log(case, "", c, op, &d);
    let d = d?;
    if !d.ok && *m != before && format!("{:?}", m) != format!("{:?}", before) {
        return Err("harness: the model changed by a failed operation".into());
    }
    Ok(d)
}

// ------------------------------------------------------------------ C01

fn crud_op(s: &mut Src, m: &MDb, c: &str) -> Op {
    let docs = docs_of(m, c);
    let few = docs.len() < 3;
    if docs.len() < 200 && s.below(600) == 599 {
        let n = gens::large(s).min(if s.below(4) == 3 { 1100 } else { 520 });
        let mut v = gens::batch(s, n, gens::udoc);
        for (i, d) in v.iter_mut().enumerate() {
            d.insert("_id", if i % 5 == 0 { Bson::Int32(1000 + i as i32) } else { Bson::String(format!("big-{}-{}", docs.len(), i)) });
        }
        return Op::InsertMany(v);
    }
    match s.weighted(&[if few { 20 } else { 8 }, if few { 12 } else { 5 }, 8, 4, 4, 14, 9, 3, 4, 1]) {
        0 => {
            let d = gens::udoc(s);
            Op::InsertOne(with_id(s, d, 85))
        }
        1 => {
            let mut v = vec![];
            while s.more(v.len(), 8, 4) {
                let d = gens::udoc(s);
                v.push(with_id(s, d, 85));
            }
            Op::InsertMany(v)
        }
        2 => {
            let q = gens::uquery(s, &docs);
            Op::Find(gen_find(s, q, &["n", "x", "s"]))
        }
        3 => Op::FindOne(gens::uquery(s, &docs)),
        4 => Op::Count,
        5 => {
            let q = gens::uquery(s, &docs);
            let u = gens::update(s, s_hard(m));
            Op::Update { q, u, many: s.chance(50), upsert: false }
        }
        6 => Op::Delete { q: gens::uquery(s, &docs), many: s.chance(45) },
        7 => Op::DropColl,
        8 => {
            let q = if s.chance(60) { Some(gens::uquery(s, &docs)) } else { None };
            let mut st = vec![];
            if s.chance(40) {
                st.push(doc! {"$sort": sort_spec(s, &["n", "x", "s"])});
            }
            if s.chance(40) {
                st.push(doc! {"$skip": s.range(0, 3)});
            }
            if s.chance(40) {
                st.push(doc! {"$limit": s.range(0, 4) as i32});
            }
            if s.chance(40) {
                st.push(doc! {"$count": "total"});
            }
            Op::Aggregate { m: q, stages: st }
        }
        _ => Op::Delete { q: doc! {}, many: true },
    }
}
fn s_hard(_m: &MDb) -> bool {
    false
}

pub fn c01(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut db = Some(open(&path)?);
    let mut m = MDb::default();
    let names = ["c", "cc", "c1"];
    let mut n = 0;
    let (mut writes, mut reopened) = (0, false);
    let max = if case.thorough { 90 } else { 40 };
    while case.s.more(n, max, 25) {
        n += 1;
        match case.s.weighted(&[40, 2, 2]) {
            0 => {
                let c = names[case.s.weighted(&[6, 3, 2])];
                let op = crud_op(&mut case.s, &m, c);
                // a query by $in on an _id beside operators is model territory too
                let d = run_op(case, db.as_ref().unwrap(), &mut m, c, &op)?;
                if d.changed {
                    writes += 1;
                    if let Some(mc) = m.colls.get(c) {
                        check_coll(&Col::A(db.as_ref().unwrap().collection(c)), c, mc)?;
                    }
                }
                let k = format!("{:?}", op);
                let k: String = k.chars().take_while(|x| x.is_alphanumeric()).collect();
                case.class(&format!("{}:{}", k, if d.ok { "ok" } else { "err" }));
            }
            1 => {
                case.log("create_collection".into());
                let c = *case.s.pick(&names);
                let r = db.as_ref().unwrap().create_collection(c);
                match (r, m.colls.contains_key(c)) {
                    (Ok(()), false) => {
                        m.colls.insert(c.into(), MColl::default());
                    }
                    (Err(_), true) => {}
                    (r, e) => return Err(format!("mismatch: create_collection('{}') of an {} collection: {:?}", c, if e { "existing" } else { "absent" }, r.map_err(|e| e.to_string()))),
                }
            }
            _ => {
                case.log("reopen".into());
                check_state(db.as_ref().unwrap(), &m)?;
                drop(db.take());
                db = Some(open(&path)?);
                check_state(db.as_ref().unwrap(), &m)?;
                reopened |= writes > 0;
                case.class("reopen");
            }
        }
    }
    check_state(db.as_ref().unwrap(), &m)?;
    drop(db.take());
    let db = open(&path)?;
    check_state(&db, &m)?;
    for (n, c) in &m.colls {
        check_lookups(&Col::A(db.collection(n)), n, c, &[])?;
    }
    case.nontrivial = writes >= 3 && m.colls.values().any(|c| !c.docs.is_empty());
    if reopened {
        case.class("history with writes before a reopen");
    }
    Ok(())
}

// ------------------------------------------------------------------ indexed documents

#[derive(Clone, Copy)]
pub struct IxGen {
    kind: usize,
}

impl IxGen {
    pub fn new(s: &mut Src) -> IxGen {
        IxGen { kind: s.weighted(&[4, 4, 4, 2, 2, 3]) }
    }
    /// A value of an indexed field.
    pub fn val(&self, s: &mut Src) -> Bson {
        match self.kind {
            0 => match s.below(12) {
                10 => Bson::Int32(-1),
                11 => Bson::Int32(i32::MAX),
                i => Bson::Int32(i as i32),
            },
            1 => Bson::String(if s.below(200) == 199 { gens::long_string(s) } else { s.pick(&["a", "", "b", "ab", "abc", "B", "é", "日本", "a b", "a.b", "zz", "z\n", "a\0", "a\0b", "\0", "a\0\u{2}b"]).to_string() }),
            2 => match s.weighted(&[4, 3, 2, 2, 2, 2, 1]) {
                0 => Bson::Int32(s.range(0, 4) as i32),
                1 => Bson::String(gens::string(s)),
                2 => Bson::Boolean(s.below(2) == 1),
                3 => Bson::Null,
                4 => Bson::DateTime(bson::DateTime::from_millis(*s.pick(gens::DATES))),
                5 => Bson::ObjectId(gens::oid(s)),
                _ => Bson::Undefined,
            },
            3 => Bson::Int64(match s.below(10) {
                8 => -5,
                9 => 1 << 40,
                i => i as i64,
            }),
            4 => {
                let d = gens::small_double(s);
                Bson::Double(if s.chance(40) { d } else { d + 0.25 })
            }
            // equal numbers of different types
            _ => match s.weighted(&[3, 3, 3, 1, 1]) {
                0 => Bson::Int32(s.range(-1, 4) as i32),
                1 => Bson::Int64(s.range(-1, 4)),
                2 => Bson::Double(gens::small_double(s)),
                3 => gens::close_num(s),
                _ => s.pick(&[Bson::Int64(i64::MAX), Bson::Double(9223372036854775808.0), Bson::Int64(1 << 32), Bson::Double(4294967296.0), Bson::Int64(i32::MIN as i64), Bson::Double(i32::MIN as f64), Bson::Int32(i32::MIN), Bson::Double(f64::NAN), Bson::Double(1e300)]).clone(),
            },
        }
    }
    /// The i-th of many different values.
    pub fn nth(&self, i: usize) -> Bson {
        match self.kind {
            0 => Bson::Int32(1000 + i as i32),
            1 | 2 => Bson::String(format!("v{}", i)),
            3 => Bson::Int64(1000 + i as i64),
            _ => Bson::Double(1000.25 + i as f64),
        }
    }
    /// A large batch.
    pub fn big(&self, s: &mut Src, start: usize) -> Vec<Document> {
        let n = gens::large(s).min(if s.below(8) == 7 { 1100 } else { 300 });
        self.big_n(s, start, n)
    }
    /// A batch which may be very large, with values all different or all but two.
    pub fn many(&self, s: &mut Src) -> Vec<Document> {
        let n = gens::large(s).min(if s.below(12) == 11 { 2049 } else { 1100 });
        let mut v = self.big_n(s, 0, n);
        let n = v.len();
        if s.chance(60) {
            v.iter_mut().enumerate().for_each(|(i, d)| {
                d.insert("u", self.nth(i));
            });
            if s.chance(40) {
                let i = s.idx(n);
                v[i].insert("u", self.nth(n - 1));
            }
        }
        v
    }
    fn big_n(&self, s: &mut Src, start: usize, n: usize) -> Vec<Document> {
        let mut v = gens::batch(s, n, |s| self.doc(s));
        let (k, u) = (s.chance(50), s.chance(70));
        for (i, d) in v.iter_mut().enumerate() {
            d.insert("_id", format!("big-{}-{}", start, i));
            if k {
                d.insert("k", self.nth(i / 3));
            }
            if u {
                d.insert("u", self.nth(start + i));
            }
        }
        v
    }
    pub fn doc(&self, s: &mut Src) -> Document {
        let mut d = Document::new();
        if s.chance(85) {
            d.insert("k", self.val(s));
        }
        if s.chance(75) {
            d.insert("u", self.val(s));
        }
        if s.chance(50) {
            let mut e = Document::new();
            if s.chance(85) {
                e.insert("x", self.val(s));
            }
            d.insert("d", if s.chance(92) { Bson::Document(e) } else { self.val(s) });
        }
        if s.chance(80) {
            d.insert("v", s.range(0, 3) as i32);
        }
        if s.chance(5) {
            d.insert("k", doc! {"x": 1});
        }
        d
    }
    pub fn update(&self, s: &mut Src) -> Document {
        let mut u = Document::new();
        let n = 1 + s.weighted(&[6, 2]);
        for _ in 0..n {
            match s.weighted(&[8, 2, if self.kind == 0 { 4 } else { 0 }, 2, 3, 2]) {
                0 => {
                    let mut d = Document::new();
                    let m = 1 + s.weighted(&[6, 2]);
                    for _ in 0..m {
                        match s.weighted(&[4, 4, 2, 2]) {
                            0 => d.insert("k", self.val(s)),
                            1 => d.insert("u", self.val(s)),
                            2 => d.insert("d", doc! {"x": self.val(s)}),
                            _ => d.insert("v", s.range(0, 3) as i32),
                        };
                    }
                    u.insert("$set", d);
                }
                1 => {
                    let k = *s.pick(&["k", "u", "v", "d"]);
                    u.insert("$unset", doc! {k: ""});
                }
                2 => {
                    let k = *s.pick(&["k", "u"]);
                    u.insert("$inc", doc! {k: s.range(-2, 3) as i32});
                }
                3 => {
                    let (a, b) = *s.pick(&[("k", "u"), ("u", "k"), ("k", "kk"), ("kk", "k"), ("u", "w")]);
                    u.insert("$rename", doc! {a: b});
                }
                4 => {
                    u.insert("$inc", doc! {"v": 1});
                }
                _ => {
                    let o = *s.pick(&["$min", "$max"]);
                    let k = *s.pick(&["k", "u"]);
                    u.insert(o, doc! {k: self.val(s)});
                }
            }
        }
        u
    }
    pub fn query(&self, s: &mut Src, docs: &[Document]) -> Document {
        let p = *s.pick(&["k", "u", "d.x"]);
        let v = self.near(s, docs, p);
        match s.weighted(&[8, 5, 3, 3, 3, 2, 2, 1, 1]) {
            0 => doc! {p: v},
            1 => {
                let w = Bson::Int32(s.range(0, 3) as i32);
                if s.chance(50) { doc! {p: v, "v": w} } else { doc! {"v": w, p: v} }
            }
            2 => {
                let o = *s.pick(&["$gt", "$gte", "$lt", "$lte", "$ne", "$eq"]);
                doc! {p: {o: v}}
            }
            3 => {
                let p2 = *s.pick(&["k", "u", "d.x", "v"]);
                let v2 = self.near(s, docs, p2);
                doc! {p: v, p2: v2}
            }
            4 => {
                let v2 = self.near(s, docs, "k");
                doc! {"$or": [{p: v}, {"k": v2}]}
            }
            5 => doc! {p: v, "v": {"$gt": s.range(0, 2) as i32}},
            6 => {
                let id = if docs.is_empty() { Bson::Int32(0) } else { s.pick(docs).get("_id").unwrap().clone() };
                if s.chance(50) { doc! {"_id": id, p: v} } else { doc! {"_id": id} }
            }
            7 => doc! {},
            _ => doc! {p: v, "$or": [{"v": 0}, {"v": {"$gte": 2}}]},
        }
    }
    fn near(&self, s: &mut Src, docs: &[Document], p: &str) -> Bson {
        if s.chance(75) {
            let vs: Vec<Bson> = docs.iter().filter_map(|d| field(d, p)).filter(gens::is_scalar).collect();
            if !vs.is_empty() {
                return s.pick(&vs).clone();
            }
        }
        self.val(s)
    }
}

pub fn ix_op(s: &mut Src, g: IxGen, m: &MDb, c: &str, unique_pct: u64) -> Op {
    let docs = docs_of(m, c);
    let few = docs.len() < 4;
    if docs.len() < 200 && s.below(800) == 799 {
        return Op::InsertMany(g.big(s, docs.len()));
    }
    match s.weighted(&[if few { 20 } else { 10 }, if few { 10 } else { 5 }, 14, 13, 8, 7, 3, 2, 3, 1]) {
        0 => {
            let d = g.doc(s);
            Op::InsertOne(with_id(s, d, 92))
        }
        1 => {
            let mut v = vec![];
            while s.more(v.len(), 6, 3) {
                let d = g.doc(s);
                v.push(with_id(s, d, 92));
            }
            Op::InsertMany(v)
        }
        2 => {
            let q = g.query(s, &docs);
            let mut f = gen_find(s, q, &["k", "v", "u"]);
            f.sort = f.sort.filter(|_| docs.iter().all(|d| !matches!(d.get("k"), Some(Bson::Document(_)))));
            Op::Find(f)
        }
        3 => {
            let q = g.query(s, &docs);
            let u = g.update(s);
            Op::Update { q, u, many: s.chance(55), upsert: false }
        }
        4 => Op::Delete { q: g.query(s, &docs), many: s.chance(50) },
        5 => {
            let key = s.pick(&["k", "u", "d.x", "v"]).to_string();
            let unique = s.chance(unique_pct);
            let name = match s.below(8) {
                0 => Some("named".to_string()),
                1 => Some("k".to_string()),
                _ => None,
            };
            Op::CreateIndex { key, unique, name }
        }
        6 => Op::DropIndex(s.pick(&["k_1", "u_1", "d_x_1", "v_1", "named", "k"]).to_string()),
        7 => Op::DropColl,
        8 => {
            let q = g.query(s, &docs);
            let mut st = vec![];
            if s.chance(40) {
                st.push(doc! {"$sort": sort_spec(s, &["v"])});
            }
            if s.chance(40) {
                st.push(doc! {"$limit": s.range(0, 4) as i32});
            }
            if s.chance(50) {
                st.push(doc! {"$count": "n"});
            }
            Op::Aggregate { m: Some(q), stages: st }
        }
        _ => Op::Count,
    }
}

pub fn with_id_of(s: &mut Src, g: IxGen) -> Document {
    let d = g.doc(s);
    with_id(s, d, 40)
}

// ------------------------------------------------------------------ C06

pub fn c06(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut db = Some(open(&path)?);
    let mut m = MDb::default();
    let g = IxGen::new(&mut case.s);
    let c = "c";
    let mut key = case.s.pick(&["u", "k", "d.x"]).to_string();
    if case.s.below(40) == 39 {
        let v = g.many(&mut case.s);
        run_op(case, db.as_ref().unwrap(), &mut m, c, &Op::InsertMany(v))?;
        key = "u".into();
        case.class("an index on many documents");
    }
    let first = Op::CreateIndex { key, unique: true, name: None };
    run_op(case, db.as_ref().unwrap(), &mut m, c, &first)?;
    let mut n = 0;
    let (mut rejected, mut accepted) = (0, 0);
    while case.s.more(n, 40, 22) {
        n += 1;
        if case.s.chance(4) {
            case.log("reopen".into());
            drop(db.take());
            db = Some(open(&path)?);
            continue;
        }
        let op = ix_op(&mut case.s, g, &m, c, 75);
        let d = run_op(case, db.as_ref().unwrap(), &mut m, c, &op)?;
        if d.err.as_deref() == Some("DuplicateKey") {
            rejected += 1;
            let k: String = format!("{:?}", op).chars().take_while(|x| x.is_alphanumeric()).collect();
            case.class(&format!("duplicate rejected: {}", k));
        }
        if d.changed {
            accepted += 1;
        }
        if d.changed || !d.ok {
            if let Some(mc) = m.colls.get(c) {
                check_coll(&Col::A(db.as_ref().unwrap().collection(c)), c, mc)?;
            }
        }
    }
    check_state(db.as_ref().unwrap(), &m)?;
    if let Some(mc) = m.colls.get(c) {
        let more: Vec<Bson> = (0..6).map(|_| g.val(&mut case.s)).collect();
        check_lookups(&Col::A(db.as_ref().unwrap().collection(c)), c, mc, &more)?;
        // the invariant itself, on what the database returns
        for (iname, ix) in mc.indexes.iter().filter(|(_, ix)| ix.unique) {
            let docs = find_docs(&Col::A(db.as_ref().unwrap().collection(c)), &doc! {}).map_err(|e| e.to_string())?;
            let vals: Vec<_> = docs.iter().filter_map(|d| field(d, &ix.key)).map(|v| ix_key(&v)).collect();
            let set: BTreeSet<_> = vals.iter().collect();
            if set.len() != vals.len() {
                return Err(format!("invariant: two documents have one value of the unique index {}", iname));
            }
        }
    }
    case.nontrivial = rejected > 0 && accepted > 2;
    Ok(())
}

// ------------------------------------------------------------------ C07

pub fn c07(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut db = Some(open(&path)?);
    let g = IxGen::new(&mut case.s);
    let mut m = MDb::default();
    // the twin has the same documents and no index
    let mut twin = MDb::default();
    let (c, t) = ("ix", "plain");
    let mut n = 0;
    let (mut through, mut changed) = (0, 0);
    if case.s.below(60) == 59 {
        // many other indexes
        for i in 0..*case.s.pick(&[7, 15, 31, 63]) {
            let op = Op::CreateIndex { key: format!("{}{}", case.s.pick(&["f", "d.f", "k"]), i), unique: false, name: None };
            run_op(case, db.as_ref().unwrap(), &mut m, c, &op)?;
        }
        twin.colls.entry(t.into()).or_default();
        let _ = db.as_ref().unwrap().create_collection(t);
        case.class("many indexes");
    }
    if case.s.below(40) == 39 {
        // an index made of many documents
        let v = g.many(&mut case.s);
        let dbr = db.as_ref().unwrap();
        run_op(case, dbr, &mut m, c, &Op::InsertMany(v.clone()))?;
        run_op(case, dbr, &mut twin, t, &Op::InsertMany(v))?;
        let key = case.s.pick(&["k", "u", "d.x"]).to_string();
        let unique = key == "u" && case.s.chance(50);
        run_op(case, dbr, &mut m, c, &Op::CreateIndex { key, unique, name: None })?;
        case.class("an index on many documents");
    }
    while case.s.more(n, 40, 24) {
        n += 1;
        if case.s.chance(3) {
            case.log("reopen".into());
            drop(db.take());
            db = Some(open(&path)?);
            continue;
        }
        let mut op = ix_op(&mut case.s, g, &m, c, 12);
        // the twins need the same ids
        let mut k = 0;
        let mut fix = |d: &mut Document| {
            if !d.contains_key("_id") {
                k += 1;
                d.insert("_id", format!("gen-{}-{}", n, k));
            }
        };
        match &mut op {
            Op::InsertOne(d) => fix(d),
            Op::InsertMany(v) => v.iter_mut().for_each(fix),
            _ => {}
        }
        let dbr = db.as_ref().unwrap();
        let before = m.clone();
        let d = run_op(case, dbr, &mut m, c, &op)?;
        match &op {
            Op::CreateIndex { .. } => {
                if d.ok {
                    twin.colls.entry(t.into()).or_default();
                    let _ = dbr.create_collection(t);
                }
                continue;
            }
            Op::DropIndex(_) => continue,
            Op::Find(_) | Op::FindOne(_) | Op::Aggregate { .. } => {
                if m.colls.get(c).map_or(false, |x| !x.indexes.is_empty()) && d.n > 0 {
                    through += 1;
                }
                continue;
            }
            Op::Count => continue,
            _ => {}
        }
        if d.ok {
            // one of several documents may be chosen by *_one: copy the state
            let ambiguous = match &op {
                Op::Update { q, many: false, .. } | Op::Delete { q, many: false } => before.colls.get(c).map_or(0, |x| x.find(q).len()) > 1,
                _ => false,
            };
            if !ambiguous {
                let e = run_op(case, dbr, &mut twin, t, &op)?;
                if e.n != d.n {
                    return Err(format!("mismatch: {:?} gave {} with and {} without indexes", op, d.n, e.n));
                }
            } else {
                let want = m.colls.get(c).cloned().unwrap_or_default();
                let tc = dbr.collection::<Document>(t);
                tc.delete_many(doc! {}).map_err(|e| e.to_string())?;
                tc.insert_many(want.docs.values()).map_err(|e| e.to_string())?;
                twin.colls.insert(t.into(), MColl { docs: want.docs, indexes: BTreeMap::new() });
            }
            changed += 1;
        }
    }
    let dbr = db.as_ref().unwrap();
    let (a, b) = (Col::A(dbr.collection(c)), Col::A(dbr.collection(t)));
    let docs = docs_of(&m, c);
    if let Some(mc) = m.colls.get(c) {
        check_coll(&a, c, mc)?;
        let more: Vec<Bson> = (0..5).map(|_| g.val(&mut case.s)).collect();
        check_lookups(&a, c, mc, &more)?;
    }
    // the same queries on both
    for _ in 0..12 {
        let q = g.query(&mut case.s, &docs);
        let (x, y) = (find_docs(&a, &q), find_docs(&b, &q));
        case.log(format!("compare {}", q));
        match (x, y) {
            (Ok(x), Ok(y)) => {
                same_bag(&format!("mismatch: find {} with and without indexes {:?}", q, m.colls.get(c).map(|c| &c.indexes)), &x, &y)?;
                if !x.is_empty() && m.colls.get(c).map_or(false, |x| !x.indexes.is_empty()) {
                    through += 1;
                }
            }
            (Err(x), _) | (_, Err(x)) => return Err(format!("mismatch: find {} failed with {}", q, x)),
        }
        let p = vec![doc! {"$match": q.clone()}, doc! {"$count": "n"}];
        let (x, y) = (run_aggregate(&a, p.clone()), run_aggregate(&b, p));
        match (x, y) {
            (Ok(x), Ok(y)) => {
                if m.colls.contains_key(c) && twin.colls.contains_key(t) {
                    same_list(&format!("mismatch: count of {} with and without indexes", q), &x, &y)?;
                }
            }
            (Err(x), _) | (_, Err(x)) => return Err(format!("mismatch: aggregate {} failed with {}", q, x)),
        }
    }
    case.nontrivial = through >= 2 && changed >= 2;
    Ok(())
}

// ------------------------------------------------------------------ C04

fn bad_op(s: &mut Src, g: IxGen, m: &MDb, c: &str) -> Op {
    let docs = docs_of(m, c);
    // a long batch which fails late, and a long update
    if s.below(300) == 299 {
        let most = if s.chance(30) { 1500 } else { 500 };
        let n = 30 + s.idx(most);
        let mut v: Vec<Document> = (0..n).map(|i| doc! {"_id": format!("big-{}", i), "v": (i % 4) as i32, "mixed": 1}).collect();
        if s.chance(70) {
            let at = n - 1 - s.idx(n.min(40));
            let bad = if s.chance(50) { doc! {"_id": format!("big-{}", s.idx(n))} } else { doc! {"_id": [1]} };
            v.insert(at, bad);
        } else {
            v[n - 1].insert("mixed", "text");
        }
        return Op::InsertMany(v);
    }
    if docs.len() > 30 && s.chance(40) {
        let u = if s.chance(50) { doc! {"$inc": {"mixed": 1}} } else { doc! {"$set": {"v": 2}, "$push": {"mixed": 1}} };
        return Op::Update { q: doc! {}, u, many: true, upsert: false };
    }
    let existing = |s: &mut Src| if docs.is_empty() { gens::small_id(s) } else { s.pick(&docs).get("_id").unwrap().clone() };
    match s.weighted(&[5, 5, 5, 4, 3, 3, 2, 2]) {
        // a batch with a duplicate id or an invalid id in some place
        0 => {
            let mut v = vec![];
            while s.more(v.len(), 6, 4) {
                let d = g.doc(s);
                v.push(with_id(s, d, 95));
            }
            let bad = match s.below(4) {
                0 => doc! {"_id": [1, 2]},
                1 => doc! {"_id": {"a": 1}},
                2 => doc! {"_id": Bson::RegularExpression(bson::Regex { pattern: "a".into(), options: "".into() })},
                _ => {
                    let id = existing(s);
                    doc! {"_id": id}
                }
            };
            let at = s.idx(v.len() + 1);
            v.insert(at, bad);
            Op::InsertMany(v)
        }
        // an update which some documents reject
        1 => {
            let mut u = g.update(s);
            let o = *s.pick(&["$inc", "$mul", "$push", "$pop"]);
            let k = *s.pick(&["k", "u", "mixed"]);
            let v = match o {
                "$pop" => Bson::Int32(1),
                _ => Bson::Int32(s.range(1, 3) as i32),
            };
            u.remove(o);
            u.insert(o, doc! {k: v});
            Op::Update { q: if s.chance(70) { doc! {} } else { g.query(s, &docs) }, u, many: s.chance(80), upsert: false }
        }
        // all documents get one value of a maybe unique field
        2 => {
            let k = *s.pick(&["u", "k", "d.x"]);
            let v = g.val(s);
            let u = if k == "d.x" { doc! {"$set": {"d": {"x": v}, "v": 9}} } else { doc! {"$set": {"v": 9, k: v}} };
            Op::Update { q: if s.chance(70) { doc! {} } else { g.query(s, &docs) }, u, many: true, upsert: false }
        }
        3 => {
            let mut d = g.doc(s);
            d.insert("_id", existing(s));
            Op::InsertOne(d)
        }
        4 => Op::CreateIndex { key: s.pick(&["k", "u", "d.x", "v", "arr"]).to_string(), unique: s.chance(80), name: None },
        // a value which cannot be a key of an index
        5 => {
            let mut v = vec![];
            while s.more(v.len(), 4, 2) {
                let d = g.doc(s);
                v.push(with_id(s, d, 95));
            }
            let bad = match s.below(2) {
                0 => doc! {"k": [1], "arr": [1], "u": [2]},
                _ => doc! {"u": Bson::RegularExpression(bson::Regex { pattern: "a".into(), options: "".into() }), "arr": [1]},
            };
            v.push(bad);
            let d = g.doc(s);
            v.push(d);
            Op::InsertMany(v)
        }
        6 => {
            let mut u = g.update(s);
            let o = *s.pick(&["$bad", "plain", "$set", "$inc", "$unset", "$rename", "$pop"]);
            u.insert(o, if o == "$pop" { doc! {"k": 2} } else if o == "$rename" { doc! {"v": "_id"} } else { doc! {"_id": 1} });
            Op::Update { q: doc! {}, u, many: s.chance(60), upsert: false }
        }
        _ => {
            let id = existing(s);
            let u = doc! {"$set": {"x": {"nested": 1}, "u": 1}};
            Op::Update { q: doc! {"_id": id, "v": 77}, u, many: s.chance(50), upsert: true }
        }
    }
}

pub fn c04(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut db = Some(open(&path)?);
    let mut m = MDb::default();
    let g = IxGen::new(&mut case.s);
    let mut n = 0;
    let mut fails = 0;
    let names = ["c", "new"];
    while case.s.more(n, 36, 22) {
        n += 1;
        if case.s.chance(4) {
            case.log("reopen".into());
            drop(db.take());
            db = Some(open(&path)?);
            check_state(db.as_ref().unwrap(), &m)?;
            continue;
        }
        let c = names[case.s.weighted(&[7, 2])];
        let op = if case.s.chance(55) { bad_op(&mut case.s, g, &m, c) } else { ix_op(&mut case.s, g, &m, c, 50) };
        // sorts and comparisons need values with an order
        let weird = docs_of(&m, c).iter().any(|d| !d.iter().filter(|(k, _)| *k != "_id" && *k != "d").all(|(_, v)| gens::is_scalar(v)));
        let op = match op {
            Op::Find(f) if weird => Op::Find(FindOp { sort: None, ..f }),
            Op::Aggregate { m, stages } if weird => Op::Aggregate { m, stages: stages.into_iter().filter(|s| !s.contains_key("$sort")).collect() },
            op => op,
        };
        let before = m.colls.get(c).map_or(0, |x| x.docs.len());
        let d = run_op(case, db.as_ref().unwrap(), &mut m, c, &op)?;
        if !d.ok {
            let k: String = format!("{:?}", op).chars().take_while(|x| x.is_alphanumeric()).collect();
            case.class(&format!("failed {}: {}", k, d.err.clone().unwrap_or_default()));
            if before > 0 || matches!(op, Op::InsertMany(_)) {
                fails += 1;
            }
            check_state(db.as_ref().unwrap(), &m)?;
            if let Some(mc) = m.colls.get(c) {
                check_lookups(&Col::A(db.as_ref().unwrap().collection(c)), c, mc, &[])?;
            }
        }
    }
    check_state(db.as_ref().unwrap(), &m)?;
    drop(db.take());
    let db = open(&path)?;
    check_state(&db, &m)?;
    for (n, c) in &m.colls {
        check_lookups(&Col::A(db.collection(n)), n, c, &[])?;
    }
    case.nontrivial = fails > 0;
    Ok(())
}

// ------------------------------------------------------------------ C05

fn any_id(s: &mut Src) -> Bson {
    match s.weighted(&[10, 2, 2, 1, 1, 3, 1]) {
        0 => gens::small_id(s),
        1 => Bson::Int32(s.range(-200, 70_000) as i32),
        2 => Bson::String(s.pick(&["a", "aa", "a b", "é", "", "A", "\u{1}", "0", "日本", "a\u{7f}", "\0", "a\0", "a\0\u{2}a"]).to_string()),
        3 => Bson::Int64(*s.pick(&[i64::MIN, i64::MAX, -1, 1 << 40, 255, 256])),
        4 => Bson::Decimal128(bson::Decimal128::from_bytes([s.below(3) as u8; 16])),
        5 => match s.below(4) {
            0 => Bson::DateTime(bson::DateTime::from_millis(*s.pick(gens::DATES))),
            1 => Bson::Timestamp(bson::Timestamp { time: *s.pick(&[0, 1, 2, 256, u32::MAX]), increment: *s.pick(&[0, 1, 2, 256, u32::MAX]) }),
            2 => Bson::ObjectId(gens::oid(s)),
            _ => Bson::Double(*s.pick(&[0.5, -0.5, 1e300, -1e300, 0.1, 1.0, 2.0, 3.0])),
        },
        // long, and alike to the end
        _ => {
            let n = *s.pick(&[60, 126, 127, 128, 254, 255, 256, 300, 5000]);
            Bson::String(format!("{}{}", "x".repeat(n), s.below(3)))
        }
    }
}

/// An id which differs from the given one, but not by much.
fn near_id(s: &mut Src, id: &Bson) -> Bson {
    match id {
        Bson::Int32(i) => match s.below(4) {
            0 => Bson::Int32(i.wrapping_add(1)),
            1 => Bson::Int32(i.wrapping_neg()),
            2 => Bson::Int64(*i as i64),
            _ => Bson::Int32(i ^ (1 << s.below(31))),
        },
        Bson::Int64(i) => match s.below(5) {
            0 => Bson::Int64(i.wrapping_add(1)),
            1 => Bson::Int64(i.wrapping_neg()),
            2 => Bson::Int32(*i as i32),
            3 => Bson::DateTime(bson::DateTime::from_millis(*i)),
            _ => Bson::Int64(i ^ (1 << s.below(63))),
        },
        Bson::Double(d) => match s.below(3) {
            0 => Bson::Double(f64::from_bits(d.to_bits() ^ 1)),
            1 => Bson::Double(d.floor() + 0.75),
            _ => Bson::Double(-d - 0.5),
        },
        Bson::String(t) => match s.below(7) {
            5 => Bson::String(format!("{}\0", t)),
            0 => Bson::String(format!("{}a", t)),
            1 => Bson::String(format!("{} ", t)),
            2 => Bson::String(t.to_uppercase()),
            3 => Bson::Symbol(t.clone()),
            4 => Bson::String(format!("{}\u{1}", t)),
            _ => Bson::String(t.chars().skip(1).collect()),
        },
        Bson::Symbol(t) => Bson::String(t.clone()),
        Bson::Boolean(b) => Bson::Boolean(!b),
        Bson::DateTime(t) => {
            let m = t.timestamp_millis();
            match s.below(4) {
                0 => Bson::DateTime(bson::DateTime::from_millis(m.wrapping_add(1))),
                1 => Bson::DateTime(bson::DateTime::from_millis(m.wrapping_sub(1))),
                2 => Bson::Int64(m),
                _ => Bson::DateTime(bson::DateTime::from_millis(m ^ (1 << s.below(45)))),
            }
        }
        Bson::Timestamp(t) => {
            let (mut a, mut b) = (t.time, t.increment);
            match s.below(3) {
                0 => a = a.wrapping_add(1),
                1 => b = b.wrapping_add(1),
                _ => std::mem::swap(&mut a, &mut b),
            }
            Bson::Timestamp(bson::Timestamp { time: a, increment: b })
        }
        Bson::ObjectId(o) => {
            let mut b = o.bytes();
            // (not in the counter: the database generates such ids)
            let i = 4 + s.idx(5);
            b[i] ^= 1 << s.below(8);
            Bson::ObjectId(bson::oid::ObjectId::from_bytes(b))
        }
        Bson::Decimal128(d) => {
            let mut b = d.bytes();
            let i = s.idx(16);
            b[i] ^= 1;
            Bson::Decimal128(bson::Decimal128::from_bytes(b))
        }
        _ => any_id(s),
    }
}

fn bad_id(s: &mut Src) -> Bson {
    match s.below(6) {
        0 => Bson::Array(vec![]),
        1 => Bson::Document(doc! {"a": 1}),
        2 => Bson::RegularExpression(bson::Regex { pattern: "a".into(), options: "".into() }),
        3 => Bson::Binary(bson::Binary { subtype: bson::spec::BinarySubtype::Generic, bytes: vec![1] }),
        4 => Bson::MinKey,
        _ => Bson::JavaScriptCode("x".into()),
    }
}

pub fn c05(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut db = Some(open(&path)?);
    let mut m = MDb::default();
    let c = "c";
    let mut n = 0;
    let (mut dup, mut gen, mut upd) = (0, 0, 0);
    let mut generated: BTreeSet<IdKey> = BTreeSet::new();
    while case.s.more(n, 40, 24) {
        n += 1;
        let docs = docs_of(&m, c);
        let s = &mut case.s;
        let base = |s: &mut Src| {
            let mut d = gens::udoc(s);
            match s.weighted(&[12, 3, 2, 2, 6, 6]) {
                0 => {
                    d.insert("_id", any_id(s));
                }
                5 => {
                    let id = if docs.is_empty() { any_id(s) } else { s.pick(&docs).get("_id").unwrap().clone() };
                    d.insert("_id", near_id(s, &id));
                }
                1 => {}
                2 => {
                    d.insert("_id", Bson::Null);
                }
                3 => {
                    d.insert("_id", bad_id(s));
                }
                _ => {
                    if !docs.is_empty() {
                        d.insert("_id", s.pick(&docs).get("_id").unwrap().clone());
                    }
                }
            }
            d
        };
        let op = match s.weighted(&[10, 5, 6, 4, 4, 3, 2, 1]) {
            0 => Op::InsertOne(base(s)),
            1 => {
                let mut v = vec![];
                while s.more(v.len(), 5, 3) {
                    v.push(base(s));
                }
                Op::InsertMany(v)
            }
            2 => {
                let q = gens::uquery(s, &docs);
                let hard = s.chance(50);
                let u = gens::update(s, hard);
                Op::Update { q, u, many: s.chance(50), upsert: false }
            }
            3 => {
                // an update of the id itself
                let o = *s.pick(&["$set", "$unset", "$inc", "$mul", "$min", "$max", "$push", "$pop", "$rename"]);
                let arg = match o {
                    "$rename" => {
                        if s.chance(50) { doc! {"_id": "other"} } else { doc! {"x": "_id"} }
                    }
                    "$pop" => doc! {"_id": 1},
                    _ => doc! {"_id": any_id(s)},
                };
                let mut u = Document::new();
                if s.chance(40) {
                    u.insert("$set", doc! {"y": 5});
                }
                if o != "$set" || !u.contains_key("$set") {
                    u.insert(o, arg);
                } else {
                    u.get_document_mut("$set").unwrap().extend(arg);
                }
                Op::Update { q: gens::uquery(s, &docs), u, many: s.chance(50), upsert: false }
            }
            4 => {
                let id = if docs.is_empty() || s.chance(20) { any_id(s) } else { s.pick(&docs).get("_id").unwrap().clone() };
                let id = if s.chance(25) { near_id(s, &id) } else { id };
                Op::Find(FindOp { q: doc! {"_id": id}, sort: None, skip: None, limit: None })
            }
            5 => {
                let id = if docs.is_empty() || s.chance(20) { any_id(s) } else { s.pick(&docs).get("_id").unwrap().clone() };
                let id = if s.chance(25) { near_id(s, &id) } else { id };
                Op::Delete { q: doc! {"_id": id}, many: s.chance(50) }
            }
            6 => {
                let id = any_id(s);
                Op::Update { q: doc! {"_id": id}, u: doc! {"$set": {"x": 1}}, many: s.chance(50), upsert: true }
            }
            _ => {
                case.log("reopen".into());
                drop(db.take());
                db = Some(open(&path)?);
                continue;
            }
        };
        let before: BTreeSet<IdKey> = m.colls.get(c).map(|x| x.docs.keys().cloned().collect()).unwrap_or_default();
        let d = run_op(case, db.as_ref().unwrap(), &mut m, c, &op)?;
        if d.err.as_deref() == Some("DuplicateKey") {
            dup += 1;
            case.class("duplicate id rejected");
        }
        if let Op::Update { u, .. } = &op {
            if d.ok && d.n > 0 {
                upd += 1;
                // an update never touches the ids
                let after: BTreeSet<IdKey> = m.colls.get(c).map(|x| x.docs.keys().cloned().collect()).unwrap_or_default();
                if after != before {
                    return Err(format!("harness: ids changed by {:?}", u));
                }
            }
            if !d.ok {
                case.class("update rejected");
            }
        }
        if matches!(op, Op::InsertOne(_) | Op::InsertMany(_)) && d.ok {
            let after: Vec<IdKey> = m.colls[c].docs.keys().filter(|k| !before.contains(*k)).cloned().collect();
            let explicit: BTreeSet<IdKey> = match &op {
                Op::InsertOne(d) => d.get("_id").map(id_key).into_iter().collect(),
                Op::InsertMany(v) => v.iter().filter_map(|d| d.get("_id")).map(id_key).collect(),
                _ => Default::default(),
            };
            for k in after {
                if !explicit.contains(&k) {
                    gen += 1;
                    case.class("generated id");
                    if !generated.insert(k) {
                        return Err("invariant: an id was generated twice".into());
                    }
                }
            }
        }
        if d.changed || !d.ok {
            if let Some(mc) = m.colls.get(c) {
                check_coll(&Col::A(db.as_ref().unwrap().collection(c)), c, mc)?;
            }
        }
    }
    check_state(db.as_ref().unwrap(), &m)?;
    drop(db.take());
    let db = open(&path)?;
    if let Some(mc) = m.colls.get(c) {
        let col = Col::A(db.collection(c));
        check_lookups(&col, c, mc, &[])?;
        // every document has exactly one id, and is the only one with it
        for d in find_docs(&col, &doc! {}).map_err(|e| e.to_string())? {
            let id = d.get("_id").cloned().ok_or("invariant: a document without _id")?;
            let del = on!(&col, x => x.delete_one(doc! {"_id": id.clone()})).map_err(|e| e.to_string())?;
            let left = find_docs(&col, &doc! {"_id": id.clone()}).map_err(|e| e.to_string())?;
            if del.deleted_count != 1 || !left.is_empty() {
                return Err(format!("invariant: delete by _id {} deleted {} and left {}", id, del.deleted_count, left.len()));
            }
        }
        check_coll(&col, c, &MColl::default())?;
    }
    case.nontrivial = dup > 0 && (gen > 0 || upd > 0);
    Ok(())
}

// ------------------------------------------------------------------ C03

struct T {
    owner: i32,
    t: Transaction,
    /// The documents it owns in the shared collections.
    own: BTreeMap<String, BTreeMap<IdKey, Document>>,
    /// Collections of its own.
    colls: MDb,
    writes: usize,
}

const SHARED: [&str; 2] = ["sh", "sh2"];

fn owned(d: &Document, o: i32) -> bool {
    d.get("owner") == Some(&Bson::Int32(o))
}

fn view(committed: &MDb, t: &T) -> MDb {
    let mut m = committed.clone();
    for c in SHARED {
        let mc = m.colls.get_mut(c).unwrap();
        mc.docs.retain(|_, d| !owned(d, t.owner));
        mc.docs.extend(t.own[c].clone());
    }
    let pre = format!("p{}_", t.owner);
    m.colls.retain(|n, _| !n.starts_with(&pre));
    m.colls.extend(t.colls.colls.clone());
    m
}

fn begin(db: &Database, committed: &MDb, owner: i32) -> R<T> {
    let t = db.start_transaction().map_err(|e| format!("start_transaction: {}", e))?;
    let mut own = BTreeMap::new();
    for c in SHARED {
        own.insert(c.to_string(), committed.colls[c].docs.iter().filter(|(_, d)| owned(d, owner)).map(|(k, d)| (k.clone(), d.clone())).collect());
    }
    let pre = format!("p{}_", owner);
    let colls = MDb { colls: committed.colls.iter().filter(|(n, _)| n.starts_with(&pre)).map(|(n, c)| (n.clone(), c.clone())).collect() };
    Ok(T { owner, t, own, colls, writes: 0 })
}

fn own_query(s: &mut Src, docs: &[Document], owner: i32) -> Document {
    let mine: Vec<&Document> = docs.iter().filter(|d| owned(d, owner)).collect();
    match s.weighted(&[4, 3, 2]) {
        0 if !mine.is_empty() => doc! {"_id": s.pick(&mine).get("_id").unwrap().clone()},
        1 => doc! {"owner": owner, "v": s.range(0, 3) as i32},
        _ => doc! {"owner": owner},
    }
}

fn txn_write(s: &mut Src, m: &MDb, c: &str, owner: i32, counter: &mut i32) -> Op {
    let docs = docs_of(m, c);
    let mut newdoc = |s: &mut Src| {
        let mut d = Document::new();
        if s.chance(8) && !docs.is_empty() {
            // maybe a duplicate of an own document
            if let Some(x) = docs.iter().find(|d| owned(d, owner)) {
                d.insert("_id", x.get("_id").unwrap().clone());
            }
        }
        if !d.contains_key("_id") {
            *counter += 1;
            d.insert("_id", format!("{}-{}", owner, *counter));
        }
        d.insert("owner", owner);
        d.insert("v", s.range(0, 3) as i32);
        if s.chance(60) {
            d.insert("u", format!("{}:{}", owner, s.below(8)));
        }
        if s.chance(60) {
            d.insert("k", s.range(0, 3) as i32);
        }
        d
    };
    match s.weighted(&[8, 4, 8, 5, 3]) {
        4 => {
            // an upsert: of one of its documents, or of a new one
            let d = newdoc(s);
            let id = d.get("_id").unwrap().clone();
            let mut set = doc! {"v": s.range(0, 3) as i32};
            if let Some(u) = d.get("u") {
                set.insert("u", u.clone());
            }
            Op::Update { q: doc! {"_id": id, "owner": owner}, u: doc! {"$set": set}, many: s.chance(50), upsert: true }
        }
        0 => Op::InsertOne(newdoc(s)),
        1 => {
            let mut v = vec![];
            // now and then a long one
            let (max, avg) = if s.chance(2) { (300, 150) } else { (5, 3) };
            while s.more(v.len(), max, avg) {
                v.push(newdoc(s));
            }
            if max > 5 {
                // (most of them with values of their own)
                let base = *counter;
                v.iter_mut().enumerate().skip(1).filter(|(_, d)| d.contains_key("u")).for_each(|(i, d)| {
                    d.insert("u", format!("{}:long-{}-{}", owner, base, i));
                });
            }
            Op::InsertMany(v)
        }
        2 => {
            let q = own_query(s, &docs, owner);
            let u = match s.below(5) {
                0 => doc! {"$set": {"v": s.range(0, 3) as i32}},
                1 => doc! {"$inc": {"v": 1}},
                2 => doc! {"$set": {"k": s.range(0, 3) as i32, "new": true}},
                3 => doc! {"$unset": {"k": ""}, "$inc": {"v": 2}},
                _ => doc! {"$set": {"u": format!("{}:{}", owner, s.below(8))}},
            };
            Op::Update { q, u, many: s.chance(60), upsert: false }
        }
        _ => Op::Delete { q: own_query(s, &docs, owner), many: s.chance(50) },
    }
}

fn read_op(s: &mut Src, m: &MDb, c: &str) -> Op {
    let docs = docs_of(m, c);
    let q = match s.below(6) {
        0 => doc! {},
        1 => doc! {"k": s.range(0, 3) as i32},
        2 => doc! {"v": {"$gte": s.range(0, 3) as i32}},
        3 if !docs.is_empty() => doc! {"_id": s.pick(&docs).get("_id").unwrap().clone()},
        4 => {
            let us: Vec<Bson> = docs.iter().filter_map(|d| d.get("u").cloned()).collect();
            if us.is_empty() { doc! {} } else { doc! {"u": s.pick(&us).clone()} }
        }
        _ => doc! {"owner": s.range(0, 3) as i32},
    };
    match s.below(4) {
        0 => Op::Count,
        1 => Op::FindOne(q),
        2 => Op::Aggregate { m: Some(q), stages: vec![doc! {"$count": "n"}] },
        _ => Op::Find(FindOp { q, sort: if s.chance(30) { Some(doc! {"v": 1}) } else { None }, skip: None, limit: if s.chance(20) { Some(2) } else { None } }),
    }
}

pub fn c03(case: &mut Case) -> R<()> {
    let path = case.dir.join("db");
    let mut db = Some(open(&path)?);
    let r = c03_inner(case, &mut db, &path);
    r
}

fn c03_inner(case: &mut Case, dbo: &mut Option<Database>, path: &std::path::Path) -> R<()> {
    let mut committed = MDb::default();
    for c in SHARED {
        dbo.as_ref().unwrap().create_collection(c).map_err(|e| e.to_string())?;
        committed.colls.insert(c.into(), MColl::default());
    }
    if case.s.chance(60) {
        let op = Op::CreateIndex { key: "k".into(), unique: false, name: None };
        run_op(case, dbo.as_ref().unwrap(), &mut committed, "sh", &op)?;
    }
    if case.s.chance(60) {
        let op = Op::CreateIndex { key: "u".into(), unique: true, name: None };
        run_op(case, dbo.as_ref().unwrap(), &mut committed, "sh", &op)?;
    }
    let mut txns: Vec<Option<T>> = vec![None, None, None];
    let mut counter = 0;
    let (mut commits, mut rollbacks, mut iso) = (0, 0, 0);
    let mut n = 0;
    while case.s.more(n, 50, 32) {
        n += 1;
        let db = dbo.as_ref().unwrap();
        let who = case.s.weighted(&[3, 5, 4, 2]);
        if who == 0 {
            // outside of any transaction: owner 0
            if case.s.chance(50) {
                let c = *case.s.pick(&SHARED);
                let op = txn_write(&mut case.s, &committed, c, 0, &mut counter);
                run_op(case, db, &mut committed, c, &op)?;
            } else if case.s.chance(12) && txns.iter().all(|t| t.is_none()) {
                case.log("reopen".into());
                drop(dbo.take());
                *dbo = Some(open(path)?);
            } else {
                check_state(db, &committed)?;
                if txns.iter().flatten().any(|t| t.writes > 0) {
                    iso += 1;
                    case.class("read outside while a transaction has writes");
                }
                let c = *case.s.pick(&SHARED);
                let op = read_op(&mut case.s, &committed, c);
                run_op(case, db, &mut committed, c, &op)?;
            }
            continue;
        }
        let i = who - 1;
        if txns[i].is_none() {
            case.log(format!("T{} begin", who));
            txns[i] = Some(begin(db, &committed, who as i32)?);
            continue;
        }
        match case.s.weighted(&[20, 8, 3, 4, 2, 1, 3]) {
            k @ (0 | 1 | 6) => {
                let t = txns[i].as_mut().unwrap();
                let mut v = view(&committed, t);
                // some collections belong to the transaction alone
                let private = format!("p{}_{}", who, case.s.below(2));
                let c: &str = if k == 6 || case.s.chance(15) { &private } else { *case.s.pick(&SHARED) };
                let op = if k == 1 {
                    read_op(&mut case.s, &v, c)
                } else if c == private && k == 6 {
                    match case.s.below(4) {
                        0 => Op::DropColl,
                        1 => Op::DropIndex("k_1".into()),
                        _ => Op::CreateIndex { key: "k".into(), unique: false, name: None },
                    }
                } else {
                    txn_write(&mut case.s, &v, c, who as i32, &mut counter)
                };
                let col = Col::T(t.t.collection(c));
                let d = exec(&col, c, &mut v, &op);
                log(case, &format!("T{} ", who), c, &op, &d);
                let d = d?;
                if !d.ok {
                    // the effects of a failed operation in a transaction end with its rollback
                    case.class("operation failed in a transaction");
                    t.t.rollback().map_err(|e| format!("rollback: {}", e))?;
                    txns[i] = None;
                    rollbacks += 1;
                    check_state(db, &committed)?;
                    continue;
                }
                if d.changed {
                    t.writes += 1;
                    for c in SHARED {
                        t.own.insert(c.into(), v.colls[c].docs.iter().filter(|(_, d)| owned(d, t.owner)).map(|(k, d)| (k.clone(), d.clone())).collect());
                    }
                    let pre = format!("p{}_", who);
                    t.colls = MDb { colls: v.colls.iter().filter(|(n, _)| n.starts_with(&pre)).map(|(n, c)| (n.clone(), c.clone())).collect() };
                    if case.s.chance(40) {
                        // it sees its own writes
                        for (n, mc) in view(&committed, t).colls.iter() {
                            check_coll(&Col::T(t.t.collection(n)), &format!("T{} {}", who, n), mc)?;
                        }
                        // the others do not
                        check_state(db, &committed)?;
                        iso += 1;
                    }
                }
            }
            2 => {
                let t = txns[i].take().unwrap();
                case.log(format!("T{} commit", who));
                let v = view(&committed, &t);
                t.t.commit().map_err(|e| format!("mismatch: commit failed with {}", e))?;
                committed = v;
                if t.writes > 0 {
                    commits += 1;
                }
                check_state(db, &committed)?;
                for (n, mc) in &committed.colls {
                    check_lookups(&Col::A(db.collection(n)), n, mc, &[Bson::Int32(0), Bson::Int32(3)])?;
                }
                if case.s.chance(30) {
                    // the transaction has ended
                    let r = t.t.collection::<Document>("sh").insert_one(doc! {"_id": "late", "owner": who as i32});
                    case.log(format!("T{} insert after commit -> {}", who, if r.is_ok() { "ok" } else { "err" }));
                    // whatever it reports, the transaction has ended
                    check_state(db, &committed)?;
                }
            }
            3 => {
                let t = txns[i].take().unwrap();
                case.log(format!("T{} rollback", who));
                t.t.rollback().map_err(|e| format!("mismatch: rollback failed with {}", e))?;
                if t.writes > 0 {
                    rollbacks += 1;
                    case.class("rollback with writes");
                }
                check_state(db, &committed)?;
                for (n, mc) in &committed.colls {
                    check_lookups(&Col::A(db.collection(n)), n, mc, &[Bson::Int32(0), Bson::Int32(3)])?;
                }
            }
            4 => {
                let t = txns[i].take().unwrap();
                case.log(format!("T{} drop", who));
                if t.writes > 0 {
                    rollbacks += 1;
                    case.class("drop with writes");
                }
                drop(t);
                check_state(db, &committed)?;
            }
            _ => {
                check_state(db, &committed)?;
            }
        }
    }
    for t in txns.iter_mut() {
        drop(t.take());
    }
    check_state(dbo.as_ref().unwrap(), &committed)?;
    drop(dbo.take());
    *dbo = Some(open(path)?);
    let db = dbo.as_ref().unwrap();
    check_state(db, &committed)?;
    for (n, mc) in &committed.colls {
        check_lookups(&Col::A(db.collection(n)), n, mc, &[])?;
    }
    case.nontrivial = iso > 0 && commits > 0 && rollbacks > 0;
    if commits > 0 {
        case.class("commit with writes");
    }
    Ok(())
}
