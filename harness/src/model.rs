//! The reference model: what the operations mean on plain documents.
use polodb_core::bson::{Bson, Document, Regex};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- values

fn num(b: &Bson) -> Option<Num> {
    match b {
        Bson::Int32(i) => Some(Num::I(*i as i64)),
        Bson::Int64(i) => Some(Num::I(*i)),
        Bson::Double(d) => Some(Num::D(*d)),
        _ => None,
    }
}
#[derive(Clone, Copy)]
enum Num {
    I(i64),
    D(f64),
}

fn rank(b: &Bson) -> u8 {
    match b {
        Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) => 1,
        _ => b.element_type() as u8,
    }
}

/// The order of an integer and a float, by their exact values. The floats which have no value are
/// beyond the infinities.
fn int_cmp(i: i64, d: f64) -> Ordering {
    if d.is_nan() || d.is_infinite() || d.abs() >= 1e30 {
        return if d.is_sign_negative() { Ordering::Greater } else { Ordering::Less };
    }
    let whole = d.floor();
    (i as i128).cmp(&(whole as i128)).then(if d > whole { Ordering::Less } else { Ordering::Equal })
}

/// The order of two values. None when the database defines no order for them.
pub fn cmp(a: &Bson, b: &Bson) -> Option<Ordering> {
    if let (Some(x), Some(y)) = (num(a), num(b)) {
        return Some(match (x, y) {
            (Num::I(x), Num::I(y)) => x.cmp(&y),
            (Num::D(x), Num::D(y)) => x.partial_cmp(&y).unwrap_or_else(|| x.total_cmp(&y)),
            (Num::I(x), Num::D(y)) => int_cmp(x, y),
            (Num::D(x), Num::I(y)) => int_cmp(y, x).reverse(),
        });
    }
    match (a, b) {
        (Bson::Null, Bson::Null) | (Bson::Undefined, Bson::Undefined) => Some(Ordering::Equal),
        (Bson::DateTime(x), Bson::DateTime(y)) => Some(x.timestamp_millis().cmp(&y.timestamp_millis())),
        (Bson::Boolean(x), Bson::Boolean(y)) => Some(x.cmp(y)),
        (Bson::String(x), Bson::String(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        (Bson::ObjectId(x), Bson::ObjectId(y)) => Some(x.bytes().cmp(&y.bytes())),
        (Bson::Binary(x), Bson::Binary(y)) => Some(x.bytes.cmp(&y.bytes)),
        _ => {
            let (x, y) = (rank(a), rank(b));
            if x == y { None } else { Some(x.cmp(&y)) }
        }
    }
}

fn path<'a>(doc: &'a Document, key: &str) -> Option<&'a Bson> {
    let mut cur: Option<&Bson> = None;
    for (i, seg) in key.split('.').enumerate() {
        cur = if i == 0 { doc.get(seg) } else { cur?.as_document()?.get(seg) };
        cur?;
    }
    cur
}

/// The value which the comparisons see: a sub-document is no value.
pub fn field(doc: &Document, key: &str) -> Option<Bson> {
    match path(doc, key) {
        None | Some(Bson::Document(_)) => None,
        Some(v) => Some(v.clone()),
    }
}

/// Value equality of the membership operators.
pub fn equal(a: &Bson, b: &Bson) -> bool {
    if let (Some(x), Some(y)) = (num(a), num(b)) {
        return match (x, y) {
            (Num::I(x), Num::I(y)) => x == y,
            (Num::D(x), Num::D(y)) => x == y || (x.is_nan() && y.is_nan()),
            (Num::I(i), Num::D(d)) | (Num::D(d), Num::I(i)) => {
                // compare exactly, as 128 bit integers
                d.is_finite() && d.fract() == 0.0 && d.abs() < 1e30 && d as i128 == i as i128
            }
        };
    }
    match (a, b) {
        (Bson::String(x) | Bson::Symbol(x), Bson::String(y) | Bson::Symbol(y)) => x == y,
        (Bson::Array(x), Bson::Array(y)) => x.len() == y.len() && (0..x.len()).all(|i| equal(&x[i], &y[i])),
        (Bson::Document(x), Bson::Document(y)) => {
            x.len() == y.len() && x.iter().zip(y.iter()).all(|((k1, v1), (k2, v2))| k1 == k2 && equal(v1, v2))
        }
        _ => a == b,
    }
}

fn regex_of(r: &Regex) -> Option<regex::Regex> {
    let mut flags = String::new();
    for c in r.options.chars() {
        if !"imsuUx".contains(c) {
            return None;
        }
        flags.push(c);
    }
    let p = if flags.is_empty() { r.pattern.clone() } else { format!("(?{}:{}{})", flags, r.pattern, if flags.contains('x') { "\n" } else { "" }) };
    regex::Regex::new(&p).ok()
}

fn regex_match(v: &Bson, r: &Regex) -> bool {
    let re = match regex_of(r) {
        Some(re) => re,
        None => return false,
    };
    let one = |v: &Bson| match v {
        Bson::String(s) | Bson::Symbol(s) => re.is_match(s),
        _ => false,
    };
    match v {
        Bson::Array(a) => a.iter().any(one),
        v => one(v),
    }
}

fn candidate(v: &Bson, c: &Bson) -> bool {
    if equal(v, c) {
        return true;
    }
    if let Bson::Array(a) = v {
        if a.iter().any(|x| equal(x, c)) {
            return true;
        }
    }
    match c {
        Bson::RegularExpression(r) => regex_match(v, r),
        _ => false,
    }
}

// ---------------------------------------------------------------- queries

fn op(doc: &Document, key: &str, o: &str, arg: &Bson) -> Tri {
    let comparison = |f: &dyn Fn(Ordering) -> bool| match field(doc, key) {
        None => Tri::Missing,
        Some(v) => match cmp(&v, arg) {
            Some(ord) => Tri::of(f(ord)),
            None => panic!("model: no order for {:?} and {:?}", v, arg),
        },
    };
    match o {
        "$eq" => comparison(&|x| x == Ordering::Equal),
        "$ne" => comparison(&|x| x != Ordering::Equal),
        "$gt" => comparison(&|x| x == Ordering::Greater),
        "$gte" => comparison(&|x| x != Ordering::Less),
        "$lt" => comparison(&|x| x == Ordering::Less),
        "$lte" => comparison(&|x| x != Ordering::Greater),
        "$size" => match field(doc, key) {
            None => Tri::Missing,
            Some(Bson::Array(a)) => Tri::of(Bson::Int64(a.len() as i64) == *arg),
            Some(v) => panic!("model: $size of {:?}", v),
        },
        "$regex" => match (field(doc, key), arg) {
            (None, _) => Tri::Missing,
            (Some(v), Bson::RegularExpression(r)) => Tri::of(regex_match(&v, r)),
            _ => panic!("model: $regex {:?}", arg),
        },
        "$in" | "$nin" | "$all" => {
            let v = path(doc, key).cloned().unwrap_or(Bson::Null);
            let cs = arg.as_array().expect("model: array operand");
            match o {
                "$in" => Tri::of(cs.iter().any(|c| candidate(&v, c))),
                "$nin" => Tri::of(!cs.iter().any(|c| candidate(&v, c))),
                _ => Tri::of(!cs.is_empty() && cs.iter().all(|c| candidate(&v, c))),
            }
        }
        "$not" => op_doc(doc, key, arg.as_document().expect("model: $not")).not(),
        _ => panic!("model: unknown operator {}", o),
    }
}

/// A comparison with a missing field is false, and so is its negation.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Tri {
    True,
    False,
    Missing,
}
impl Tri {
    fn of(b: bool) -> Tri {
        if b { Tri::True } else { Tri::False }
    }
    fn not(self) -> Tri {
        match self {
            Tri::True => Tri::False,
            Tri::False => Tri::True,
            Tri::Missing => Tri::Missing,
        }
    }
}

fn op_doc(doc: &Document, key: &str, ops: &Document) -> Tri {
    // three-valued conjunction: one definite failure is a failure
    let rs: Vec<Tri> = ops.iter().map(|(o, a)| op(doc, key, o, a)).collect();
    if rs.contains(&Tri::False) {
        Tri::False
    } else if rs.contains(&Tri::Missing) {
        Tri::Missing
    } else {
        Tri::True
    }
}

/// Whether the document satisfies the query, every condition evaluated on its own.
pub fn matches(doc: &Document, q: &Document) -> bool {
    q.iter().all(|(k, v)| match (k.as_str(), v) {
        ("$and", Bson::Array(a)) => a.iter().all(|x| matches(doc, x.as_document().unwrap())),
        ("$or", Bson::Array(a)) => a.iter().any(|x| matches(doc, x.as_document().unwrap())),
        (k, _) if k.starts_with('$') => panic!("model: unknown operator {}", k),
        (_, Bson::Document(ops)) => op_doc(doc, k, ops) == Tri::True,
        (_, lit) => match field(doc, k) {
            None => false,
            Some(f) => cmp(&f, lit).unwrap_or_else(|| panic!("model: no order {:?} {:?}", f, lit)) == Ordering::Equal,
        },
    })
}

/// A query by a literal `_id` is a lookup of the key: it is exact.
pub fn matches_top(doc: &Document, q: &Document) -> bool {
    match q.get("_id") {
        Some(Bson::Document(_)) | None => matches(doc, q),
        Some(id) => {
            if id_key(doc.get("_id").unwrap()) != id_key(id) {
                return false;
            }
            let mut rest = q.clone();
            rest.remove("_id");
            matches(doc, &rest)
        }
    }
}

// ---------------------------------------------------------------- updates

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    /// An operator which cannot be applied to the value of a document.
    Apply,
    /// The update itself is invalid, whatever the documents are.
    Update,
    Duplicate,
    Key,
    Upsert,
}

pub fn validate_update(u: &Document) -> Result<(), Bad> {
    for (o, arg) in u {
        let d = match (o.as_str(), arg) {
            ("$set" | "$unset" | "$inc" | "$mul" | "$min" | "$max" | "$push" | "$pop" | "$rename", Bson::Document(d)) => d,
            _ => return Err(Bad::Update),
        };
        for (k, v) in d {
            if k == "_id" {
                return Err(Bad::Update);
            }
            match o.as_str() {
                "$rename" => match v {
                    Bson::String(s) if s != "_id" => {}
                    _ => return Err(Bad::Update),
                },
                "$pop" => match v {
                    Bson::Int32(1) | Bson::Int32(-1) | Bson::Int64(1) | Bson::Int64(-1) => {}
                    _ => return Err(Bad::Update),
                },
                _ => {}
            }
        }
    }
    Ok(())
}

fn arith(a: &Bson, b: &Bson, mul: bool) -> Result<Bson, Bad> {
    let (x, y) = match (num(a), num(b)) {
        (Some(x), Some(y)) => (x, y),
        _ => return Err(Bad::Apply),
    };
    Ok(match (x, y) {
        (Num::I(x), Num::I(y)) => {
            let r = if mul { x as i128 * y as i128 } else { x as i128 + y as i128 };
            if matches!((a, b), (Bson::Int32(_), Bson::Int32(_))) {
                if r < i32::MIN as i128 || r > i32::MAX as i128 {
                    return Err(Bad::Apply);
                }
                Bson::Int32(r as i32)
            } else {
                if r < i64::MIN as i128 || r > i64::MAX as i128 {
                    return Err(Bad::Apply);
                }
                Bson::Int64(r as i64)
            }
        }
        (x, y) => {
            let f = |n: Num| match n {
                Num::I(i) => i as f64,
                Num::D(d) => d,
            };
            Bson::Double(if mul { f(x) * f(y) } else { f(x) + f(y) })
        }
    })
}

/// The document after the update, and whether it counts as modified.
pub fn apply_update(doc: &Document, u: &Document) -> Result<(Document, bool), Bad> {
    let mut d = doc.clone();
    let mut modified = false;
    for (o, arg) in u {
        for (k, v) in arg.as_document().unwrap() {
            match o.as_str() {
                "$set" => {
                    d.insert(k.clone(), v.clone());
                    modified = true;
                }
                "$unset" => {
                    d.remove(k);
                    modified = true;
                }
                "$inc" | "$mul" => {
                    let new = match d.get(k) {
                        None => v.clone(),
                        Some(old) => arith(old, v, o == "$mul")?,
                    };
                    d.insert(k.clone(), new);
                    modified = true;
                }
                "$min" | "$max" => {
                    let old = d.get(k).cloned().unwrap_or(Bson::Null);
                    let c = cmp(v, &old).ok_or(Bad::Apply)?;
                    if c == (if o == "$min" { Ordering::Less } else { Ordering::Greater }) {
                        d.insert(k.clone(), v.clone());
                        modified = true;
                    }
                }
                "$push" => {
                    let mut a = match d.get(k) {
                        None | Some(Bson::Null) => vec![],
                        Some(Bson::Array(a)) => a.clone(),
                        _ => return Err(Bad::Apply),
                    };
                    a.push(v.clone());
                    d.insert(k.clone(), a);
                    modified = true;
                }
                "$pop" => {
                    let a = match d.get(k) {
                        None | Some(Bson::Null) => vec![],
                        Some(Bson::Array(a)) => {
                            let mut a = a.clone();
                            if a.is_empty() {
                                continue;
                            }
                            if matches!(v, Bson::Int32(1) | Bson::Int64(1)) {
                                a.remove(0);
                            } else {
                                a.pop();
                            }
                            a
                        }
                        _ => return Err(Bad::Apply),
                    };
                    d.insert(k.clone(), a);
                    modified = true;
                }
                "$rename" => {
                    let val = d.remove(k).unwrap_or(Bson::Null);
                    d.insert(v.as_str().unwrap(), val);
                    modified = true;
                }
                _ => unreachable!(),
            }
        }
    }
    Ok((d, modified))
}

// ---------------------------------------------------------------- aggregation

fn abs(v: &Bson) -> Bson {
    match v {
        Bson::Int32(i32::MIN) => Bson::Int64(1i64 << 31),
        Bson::Int32(i) => Bson::Int32(if *i < 0 { -*i } else { *i }),
        Bson::Int64(i64::MIN) => Bson::Double(9223372036854775808.0),
        Bson::Int64(i) => Bson::Int64(if *i < 0 { -*i } else { *i }),
        Bson::Double(d) => Bson::Double(if *d <= 0.0 { 0.0 - *d } else { *d }),
        v => v.clone(),
    }
}

pub fn sort_docs(docs: &mut [Document], spec: &Document) {
    docs.sort_by(|a, b| {
        for (k, o) in spec {
            let asc = matches!(o, Bson::Int32(1) | Bson::Int64(1));
            let c = match (a.get(k), b.get(k)) {
                (Some(x), Some(y)) => cmp(x, y).unwrap_or_else(|| panic!("model: sort {:?} {:?}", x, y)),
                (Some(_), None) => Ordering::Less,
                (None, Some(_)) => Ordering::Greater,
                (None, None) => Ordering::Equal,
            };
            let c = if asc { c } else { c.reverse() };
            if c != Ordering::Equal {
                return c;
            }
        }
        Ordering::Equal
    });
}

fn as_usize(v: &Bson) -> usize {
    match v {
        Bson::Int32(i) => *i as usize,
        Bson::Int64(i) => *i as usize,
        _ => panic!("model: {:?}", v),
    }
}

/// The stages after the first `$match`, on the documents in their order.
pub fn pipeline(mut docs: Vec<Document>, stages: &[Document]) -> Vec<Document> {
    for stage in stages {
        let (name, arg) = stage.iter().next().unwrap();
        match name.as_str() {
            "$skip" => docs = docs.into_iter().skip(as_usize(arg)).collect(),
            "$limit" => docs.truncate(as_usize(arg)),
            "$sort" => sort_docs(&mut docs, arg.as_document().unwrap()),
            "$count" => {
                let mut d = Document::new();
                d.insert(arg.as_str().unwrap(), docs.len() as i64);
                docs = vec![d];
            }
            "$group" => {
                let mut d = Document::new();
                for (k, v) in arg.as_document().unwrap() {
                    if k == "_id" {
                        d.insert(k, v.clone());
                    } else {
                        d.insert(k, docs.len() as i64);
                    }
                }
                docs = vec![d];
            }
            "$unset" => {
                let names: Vec<String> = match arg {
                    Bson::String(s) => vec![s.clone()],
                    Bson::Array(a) => a.iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                    _ => panic!("model: $unset"),
                };
                for d in docs.iter_mut() {
                    for n in &names {
                        d.remove(n);
                    }
                }
            }
            "$addFields" => {
                for d in docs.iter_mut() {
                    let input = d.clone();
                    for (k, e) in arg.as_document().unwrap() {
                        let v = match e {
                            Bson::String(s) if s.starts_with('$') => input.get(&s[1..]).cloned().unwrap_or(Bson::Null),
                            Bson::Document(o) => eval_expr(&input, o),
                            v => v.clone(),
                        };
                        d.insert(k.clone(), v);
                    }
                }
            }
            _ => panic!("model: stage {}", name),
        }
    }
    docs
}

fn eval_expr(input: &Document, e: &Document) -> Bson {
    let (name, arg) = e.iter().next().unwrap();
    assert_eq!(name, "$abs", "model: expression");
    match arg {
        Bson::String(s) => abs(input.get(&s[1..]).unwrap_or(&Bson::Null)),
        Bson::Document(d) => abs(&eval_expr(input, d)),
        v => abs(v),
    }
}

// ---------------------------------------------------------------- the database

pub type IdKey = Vec<u8>;

/// Two ids are the same when their BSON types and values are the same.
pub fn id_key(id: &Bson) -> IdKey {
    let mut d = Document::new();
    d.insert("", id.clone());
    let mut v = vec![id.element_type() as u8];
    v.extend(polodb_core::bson::to_vec(&d).unwrap());
    v
}

/// What tells the values of an index apart.
pub fn ix_key(v: &Bson) -> IdKey {
    match v {
        Bson::Double(d) if *d == 0.0 => id_key(&Bson::Double(0.0)),
        v => id_key(v),
    }
}

pub fn valid_key(v: &Bson) -> bool {
    matches!(
        v,
        Bson::Double(_) | Bson::String(_) | Bson::Boolean(_) | Bson::Null | Bson::Int32(_) | Bson::Int64(_)
            | Bson::Timestamp(_) | Bson::ObjectId(_) | Bson::DateTime(_) | Bson::Symbol(_) | Bson::Decimal128(_) | Bson::Undefined
    )
}

#[derive(Clone, Debug, PartialEq)]
pub struct MIndex {
    pub key: String,
    pub unique: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MColl {
    pub docs: BTreeMap<IdKey, Document>,
    pub indexes: BTreeMap<String, MIndex>,
}

impl MColl {
    /// The indexes accept the documents.
    pub fn check_indexes(&self, docs: &BTreeMap<IdKey, Document>) -> Result<(), Bad> {
        for ix in self.indexes.values() {
            check_index(ix, docs)?;
        }
        Ok(())
    }
    pub fn find(&self, q: &Document) -> Vec<Document> {
        self.docs.values().filter(|d| matches_top(d, q)).cloned().collect()
    }
}

pub fn check_index(ix: &MIndex, docs: &BTreeMap<IdKey, Document>) -> Result<(), Bad> {
    let mut seen = BTreeSet::new();
    for d in docs.values() {
        if let Some(v) = field(d, &ix.key) {
            if !valid_key(&v) {
                return Err(Bad::Key);
            }
            if ix.unique && !seen.insert(ix_key(&v)) {
                return Err(Bad::Duplicate);
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MDb {
    pub colls: BTreeMap<String, MColl>,
}

/// Documents with their top-level keys in one order: an update may move them.
pub fn norm(d: &Document) -> Document {
    let mut keys: Vec<&String> = d.keys().collect();
    keys.sort();
    let mut out = Document::new();
    for k in keys {
        out.insert(k.clone(), d.get(k).unwrap().clone());
    }
    out
}

pub fn doc_bytes(d: &Document) -> Vec<u8> {
    polodb_core::bson::to_vec(d).unwrap()
}

/// The documents as a multiset, the order of their top-level keys ignored.
pub fn bag(docs: &[Document]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = docs.iter().map(|d| doc_bytes(&norm(d))).collect();
    v.sort();
    v
}
