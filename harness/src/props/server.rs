//! C19 and C20: the server, spoken to over its protocol.
//!
//! The oracle of C19 is the library itself: every command which is sent to the server is
//! also executed on a second database by direct calls ("twin"), and the results are compared.
use crate::gens::*;
use crate::model::{bag, doc_bytes};
use crate::props::data::{junk, mutate};
use crate::runner::Case;
use crate::src::Src;
use crate::sys::*;
use polodb_core::bson::spec::BinarySubtype;
use polodb_core::bson::{doc, Binary, Bson, Document};
use polodb_core::options::UpdateOptions;
use polodb_core::*;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

type R<T> = std::result::Result<T, String>;

pub fn bin() -> PathBuf {
    match std::env::var_os("PT_SERVER") {
        Some(p) => PathBuf::from(p),
        None => PathBuf::from(std::env::var_os("CARGO_TARGET_DIR").unwrap_or_default()).join("server/debug/polodb"),
    }
}

/// A loopback address of this process alone.
fn host() -> String {
    let p = std::process::id();
    format!("127.{}.{}.{}", 1 + (p >> 16) % 254, (p >> 8) & 255, 1 + (p & 255) % 254)
}

pub struct Server {
    child: Child,
    addr: String,
    log: PathBuf,
}

impl Server {
    pub fn start(dir: &Path, db: &Path) -> R<Server> {
        let mut last = String::new();
        for _ in 0..20 {
            let h = host();
            let port = TcpListener::bind((h.as_str(), 0)).and_then(|l| l.local_addr()).map_err(|e| format!("harness: no port: {}", e))?.port();
            let addr = format!("{}:{}", h, port);
            let log = dir.join("server.log");
            let f = std::fs::OpenOptions::new().create(true).append(true).open(&log).map_err(|e| format!("harness: {}", e))?;
            let child = Command::new(bin())
                .args(["serve", "--host", &h, "--port", &port.to_string(), "--path"])
                .arg(db)
                .env("RUST_LOG", "error")
                .env("RUST_BACKTRACE", "0")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(f)
                .spawn()
                .map_err(|e| format!("harness: cannot start {}: {}", bin().display(), e))?;
            let mut s = Server { child, addr, log };
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(60) {
                if TcpStream::connect(&s.addr).is_ok() {
                    return Ok(s);
                }
                if let Ok(Some(st)) = s.child.try_wait() {
                    last = format!("the server ended with {}: {}", st, s.text());
                    break;
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            if !last.contains("in use") {
                return Err(format!("server: does not listen: {}", last));
            }
        }
        Err(format!("harness: no address: {}", last))
    }
    fn text(&self) -> String {
        let t = std::fs::read(&self.log).unwrap_or_default();
        let t = String::from_utf8_lossy(&t);
        t.chars().take(2000).collect()
    }
    pub fn connect(&self) -> R<Conn> {
        let s = TcpStream::connect(&self.addr).map_err(|e| format!("server: cannot connect: {}", e))?;
        s.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
        s.set_write_timeout(Some(Duration::from_secs(30))).unwrap();
        s.set_nodelay(true).unwrap();
        Ok(Conn { s, next: 1, compressed: false })
    }
    fn panics(&self) -> R<()> {
        let t = std::fs::read(&self.log).unwrap_or_default();
        let t = String::from_utf8_lossy(&t);
        match t.find("panicked at") {
            Some(i) => Err(format!("server: panic: {}", t[i..].chars().take(300).collect::<String>())),
            None => Ok(()),
        }
    }
    fn alive(&mut self) -> R<()> {
        match self.child.try_wait() {
            Ok(None) => Ok(()),
            r => Err(format!("server: ended by itself ({:?}): {}", r, self.text())),
        }
    }
    fn sockets(&self) -> usize {
        let d = std::fs::read_dir(format!("/proc/{}/fd", self.child.id()));
        d.map_or(0, |d| d.flatten().filter(|e| std::fs::read_link(e.path()).map_or(false, |l| l.to_string_lossy().starts_with("socket:"))).count())
    }
    /// The connections which clients have closed are closed here too, soon.
    fn released(&mut self, before: usize) -> R<()> {
        for _ in 0..1000 {
            if self.sockets() <= before {
                return Ok(());
            }
            self.alive()?;
            std::thread::sleep(Duration::from_millis(10));
        }
        Err(format!("server: {} sockets are open, before there were {}", self.sockets(), before))
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.kill();
    }
}

pub struct Conn {
    s: TcpStream,
    next: i32,
    /// Messages are sent as OP_COMPRESSED (with the compressor that does nothing).
    compressed: bool,
}

const CHECKSUM: u32 = 1;
const MORE: u32 = 2;

pub struct Msg {
    flags: u32,
    body: Document,
    seqs: Vec<(String, Vec<Document>)>,
    /// the sequences before the body
    seq_first: bool,
}

pub fn msg(body: Document) -> Msg {
    Msg { flags: 0, body, seqs: vec![], seq_first: false }
}

pub fn frame(id: i32, op: i32, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    v.extend(((payload.len() + 16) as i32).to_le_bytes());
    v.extend(id.to_le_bytes());
    v.extend(0i32.to_le_bytes());
    v.extend(op.to_le_bytes());
    v.extend(payload);
    v
}

pub fn payload(m: &Msg) -> Vec<u8> {
    let mut v = m.flags.to_le_bytes().to_vec();
    let mut b = vec![0u8];
    b.extend(doc_bytes(&m.body));
    let mut q = vec![];
    for (name, docs) in &m.seqs {
        let mut part = name.as_bytes().to_vec();
        part.push(0);
        for d in docs {
            part.extend(doc_bytes(d));
        }
        q.push(1u8);
        q.extend(((part.len() + 4) as i32).to_le_bytes());
        q.extend(part);
    }
    if m.seq_first {
        v.extend(q);
        v.extend(b);
    } else {
        v.extend(b);
        v.extend(q);
    }
    if m.flags & CHECKSUM != 0 {
        v.extend(0x1234_5678u32.to_le_bytes());
    }
    v
}

fn le(b: &[u8]) -> i32 {
    i32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

/// One reply, checked for its form.
/// The server writes a reply in many pieces: acknowledge each at once.
fn quick_ack(s: &TcpStream) {
    let one: i32 = 1;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const i32 as *const libc::c_void, 4);
    }
}

fn read_reply(s: &mut TcpStream) -> R<Option<(i32, Document)>> {
    let mut h = [0u8; 16];
    let mut n = 0;
    while n < 16 {
        quick_ack(s);
        match s.read(&mut h[n..]) {
            Ok(0) if n == 0 => return Ok(None),
            Ok(0) => return Err(format!("reply: the connection was closed after {} bytes of a header", n)),
            Ok(k) => n += k,
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(None),
            Err(e) => return Err(format!("reply: none came ({})", e)),
        }
    }
    let len = le(&h[0..4]);
    if le(&h[12..16]) != 2013 {
        return Err(format!("reply: opcode {}", le(&h[12..16])));
    }
    if !(26..=48_000_000).contains(&len) {
        return Err(format!("reply: length {}", len));
    }
    let mut b = vec![0u8; len as usize - 16];
    let mut n = 0;
    while n < b.len() {
        quick_ack(s);
        match s.read(&mut b[n..]) {
            Ok(0) => return Err(format!("reply: the connection was closed after {} of {} bytes of the body", n, b.len())),
            Ok(k) => n += k,
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(None),
            Err(e) => return Err(format!("reply: its body is not complete: {}", e)),
        }
    }
    if le(&b[0..4]) != 0 {
        return Err(format!("reply: flags {:#x}", le(&b[0..4])));
    }
    if b[4] != 0 {
        return Err(format!("reply: a section of kind {}", b[4]));
    }
    if le(&b[5..9]) as usize != b.len() - 5 {
        return Err(format!("reply: a document of {} bytes in a section of {}", le(&b[5..9]), b.len() - 5));
    }
    let d: Document = polodb_core::bson::from_slice(&b[5..]).map_err(|e| format!("reply: not a document: {}", e))?;
    if int(&d, "ok").is_none() {
        return Err(format!("reply: without ok: {}", d));
    }
    Ok(Some((le(&h[8..12]), d)))
}

fn int(d: &Document, k: &str) -> Option<i64> {
    match d.get(k) {
        Some(Bson::Int32(v)) => Some(*v as i64),
        Some(Bson::Int64(v)) => Some(*v),
        Some(Bson::Double(v)) => Some(*v as i64),
        _ => None,
    }
}

impl Conn {
    fn wrap(&self, id: i32, m: &Msg) -> Vec<u8> {
        let p = payload(m);
        if !self.compressed {
            return frame(id, 2013, &p);
        }
        let mut v = 2013i32.to_le_bytes().to_vec();
        v.extend((p.len() as i32).to_le_bytes());
        v.push(0);
        v.extend(p);
        frame(id, 2012, &v)
    }
    fn send(&mut self, m: &Msg) -> R<i32> {
        let id = self.next;
        self.next += 1;
        let b = self.wrap(id, m);
        self.s.write_all(&b).map_err(|e| format!("server: a message is not taken: {}", e))?;
        Ok(id)
    }
    fn recv(&mut self, id: i32) -> R<Document> {
        match read_reply(&mut self.s)? {
            None => Err("server: the connection was closed instead of a reply".into()),
            Some((to, _)) if to != id => Err(format!("reply: to request {}, expected {}", to, id)),
            Some((_, d)) => Ok(d),
        }
    }
    fn call(&mut self, m: &Msg) -> R<Document> {
        let id = self.send(m)?;
        self.recv(id)
    }
    fn ping(&mut self) -> R<()> {
        let d = self.call(&msg(doc! {"ping": 1, "$db": "admin"}))?;
        if int(&d, "ok") != Some(1) {
            return Err(format!("ping: {}", d));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C19

const NAMES: &[&str] = &["c0", "c1", "c2"];

struct Sess {
    id: Bson,
    txn: Option<Transaction>,
    number: i64,
    wrote: Vec<String>,
}

/// A cursor which is open on the server: what it has yet to return.
struct Open {
    id: i64,
    coll: String,
    rest: Vec<Document>,
    /// The twin fails to read to the end.
    fails: bool,
    /// In a transaction (by session).
    sess: Option<usize>,
}

struct W {
    conns: Vec<Conn>,
    sess: Vec<Sess>,
    twin: Database,
    open: Vec<Open>,
    reads: usize,
    writes: usize,
    mores: usize,
    errors: usize,
    commits: usize,
}

/// How a command names its transaction.
#[derive(Clone, Copy, PartialEq, Debug)]
enum In {
    None,
    /// A command of a session which is not part of a transaction.
    Plain(usize),
    Txn(usize),
}

fn sid(s: &mut Src, n: usize) -> Bson {
    let mut bytes = vec![n as u8; 16];
    bytes[0] = s.below(200) as u8;
    Bson::Binary(Binary { subtype: BinarySubtype::Uuid, bytes })
}

/// Adds the fields of the session.
fn dress(w: &mut W, body: &mut Document, i: In, start: bool) {
    match i {
        In::None => {}
        In::Plain(k) => {
            body.insert("lsid", doc! {"id": w.sess[k].id.clone()});
        }
        In::Txn(k) => {
            body.insert("lsid", doc! {"id": w.sess[k].id.clone()});
            body.insert("txnNumber", w.sess[k].number);
            body.insert("autocommit", false);
            if start {
                body.insert("startTransaction", true);
            }
        }
    }
}

fn col(w: &W, name: &str, i: In) -> Option<Col> {
    match i {
        In::Txn(k) => w.sess[k].txn.as_ref().map(|t| Col::T(t.collection(name))),
        _ => Some(Col::A(w.twin.collection(name))),
    }
}

fn doc_of(s: &mut Src, next: &mut i32) -> Document {
    let mut d = Document::new();
    if s.chance(75) {
        *next += 1;
        d.insert("_id", *next + 100);
    } else {
        d.insert("_id", small_id(s));
    }
    let inner = if s.chance(50) { udoc(s) } else { qdoc(s) };
    for (k, v) in inner {
        if k != "_id" {
            d.insert(k, v);
        }
    }
    d
}

fn query_of(s: &mut Src, docs: &[Document]) -> Document {
    match s.weighted(&[3, 3, 4, 1]) {
        0 => doc! {},
        1 => uquery(s, docs),
        2 => query(s, docs, Ops::All, 2),
        _ => match s.below(4) {
            0 => doc! {"a": {"$nope": 1}},
            1 => doc! {"$or": 3},
            2 => doc! {"s": {"$regex": "("}},
            _ => doc! {"a": {"$in": 1}},
        },
    }
}

fn show(d: &Document) -> String {
    let t = d.to_string();
    if t.len() > 300 { format!("{}...", t.chars().take(300).collect::<String>()) } else { t }
}

fn lists(what: &str, got: &[Document], want: &[Document]) -> R<()> {
    let a: Vec<Vec<u8>> = got.iter().map(doc_bytes).collect();
    let b: Vec<Vec<u8>> = want.iter().map(doc_bytes).collect();
    if a != b {
        let f = |v: &[Document]| v.iter().take(30).map(show).collect::<Vec<_>>().join(", ");
        return Err(format!("{}: {} documents [{}], expected {}: [{}]", what, got.len(), f(got), want.len(), f(want)));
    }
    Ok(())
}

fn batch(d: &Document, key: &str) -> R<(Vec<Document>, i64, String)> {
    let c = d.get_document("cursor").map_err(|_| format!("reply: no cursor in {}", show(d)))?;
    let a = c.get_array(key).map_err(|_| format!("reply: no {} in {}", key, show(c)))?;
    let mut v = vec![];
    for x in a {
        v.push(x.as_document().cloned().ok_or_else(|| format!("reply: {} has {}", key, x))?);
    }
    let id = match c.get("id") {
        Some(Bson::Int64(i)) => *i,
        x => return Err(format!("reply: the id of a cursor is {:?}", x)),
    };
    Ok((v, id, c.get_str("ns").unwrap_or("").to_string()))
}

/// Compares a batch with what the twin has yet to return, and keeps the rest.
fn take_batch(w: &mut W, what: &str, got: Vec<Document>, id: i64, mut o: Open, size: Option<usize>, single: bool) -> R<()> {
    if got.len() > o.rest.len() {
        return Err(format!("{}: a batch of {} documents, expected at most {}", what, got.len(), o.rest.len()));
    }
    let tail = o.rest.split_off(got.len());
    lists(what, &got, &o.rest)?;
    o.rest = tail;
    let bytes: usize = got.iter().map(|d| doc_bytes(d).len()).sum();
    if let Some(n) = size {
        if got.len() > n {
            return Err(format!("{}: {} documents in a batch of {}", what, got.len(), n));
        }
        if got.len() < n && id != 0 && bytes < 1 << 20 {
            return Err(format!("{}: a cursor stays open after a batch of {} documents of {}", what, got.len(), n));
        }
    }
    if id == 0 {
        // a single batch is no larger than any other
        if single && bytes >= 15_000_000 {
            return Ok(());
        }
        if !o.rest.is_empty() {
            return Err(format!("{}: the cursor ended, {} documents were not returned", what, o.rest.len()));
        }
        if o.fails {
            return Err(format!("{}: succeeded, the library fails", what));
        }
        return Ok(());
    }
    if w.open.iter().any(|x| x.id == id) {
        return Err(format!("{}: the id {} is that of another open cursor", what, id));
    }
    o.id = id;
    w.open.push(o);
    Ok(())
}

fn want_ok(what: &str, d: &Document) -> R<()> {
    if int(d, "ok") != Some(1) {
        return Err(format!("{}: mismatch: refused with {}", what, show(d)));
    }
    Ok(())
}

fn want_refused(what: &str, d: &Document) -> R<()> {
    if int(d, "ok") == Some(1) {
        return Err(format!("{}: mismatch: accepted with {}", what, show(d)));
    }
    Ok(())
}

/// All documents, and whether reading ended with an error.
fn read_all(r: Result<ClientCursor<Document>>) -> Result<(Vec<Document>, bool)> {
    let mut v = vec![];
    for x in r? {
        match x {
            Ok(d) => v.push(d),
            Err(_) => return Ok((v, true)),
        }
    }
    Ok((v, false))
}

pub fn c19(case: &mut Case) -> R<()> {
    let dir = case.dir.clone();
    let path = dir.join("served");
    let mut srv = Server::start(&dir, &path)?;
    let twin = open(&dir.join("twin"))?;
    let mut w = W { conns: vec![], sess: vec![], twin, open: vec![], reads: 0, writes: 0, mores: 0, errors: 0, commits: 0 };
    let r = c19_inner(case, &mut srv, &path, &mut w);
    // the twin must not be dropped with transactions
    w.sess.clear();
    let e = r.and_then(|_| srv.panics()).map_err(kinded);
    if e.is_err() {
        case.log(format!("log of the server: {}", srv.text()));
    }
    e?;
    if w.reads >= 2 && w.writes >= 3 && (w.mores > 0 || w.commits > 0) {
        case.nontrivial = true;
    }
    Ok(())
}

/// The kind of a failure comes first.
fn kinded(m: String) -> String {
    let k = m.split(':').next().unwrap_or("");
    if ["harness", "server", "reply", "mismatch"].contains(&k) { m } else { format!("mismatch: {}", m) }
}

fn c19_inner(case: &mut Case, srv: &mut Server, path: &Path, w: &mut W) -> R<()> {
    let mut next = 0;
    let nconn = 1 + case.s.idx(3);
    for _ in 0..nconn {
        let mut c = srv.connect()?;
        hello(&mut case.s, &mut c)?;
        w.conns.push(c);
    }
    let nsess = case.s.idx(3);
    for k in 0..nsess {
        let id = sid(&mut case.s, k);
        w.sess.push(Sess { id, txn: None, number: 0, wrote: vec![] });
    }
    // the collections are made first: making one in a transaction stops other writers
    for name in NAMES {
        let mut docs = vec![];
        let big = case.s.chance(10);
        let max = if big { 240 } else { 10 };
        let avg = if big { 150 } else { 4 };
        while docs.is_empty() || case.s.more(docs.len(), max, avg) {
            docs.push(if big { next += 1; doc! {"_id": next + 100, "n": next % 7, "x": next % 4} } else { doc_of(&mut case.s, &mut next) });
        }
        // no duplicate ids
        let mut seen = vec![];
        docs.retain(|d| {
            let k = crate::model::id_key(d.get("_id").unwrap());
            if seen.contains(&k) { false } else { seen.push(k); true }
        });
        insert(case, w, 0, name, docs, In::None, false)?;
    }
    let steps = 6 + case.s.idx(34);
    for _ in 0..steps {
        step(case, srv, path, w, &mut next)?;
        srv.alive()?;
    }
    // after the end of the process
    if case.s.chance(50) {
        restart(case, srv, path, w, false)?;
    } else {
        compare_all(w)?;
    }
    Ok(())
}

fn hello(s: &mut Src, c: &mut Conn) -> R<()> {
    let d = match s.below(3) {
        0 => c.call(&msg(doc! {"isMaster": 1, "helloOk": true, "$db": "admin"}))?,
        1 => c.call(&msg(doc! {"ismaster": true, "$db": "admin"}))?,
        _ => {
            // as the drivers begin
            let id = c.next;
            c.next += 1;
            let mut p = 0i32.to_le_bytes().to_vec();
            p.extend(b"admin.$cmd\0");
            p.extend(0i32.to_le_bytes());
            p.extend((-1i32).to_le_bytes());
            p.extend(doc_bytes(&doc! {"isMaster": 1, "helloOk": true, "client": {"application": {"name": "t"}}}));
            c.s.write_all(&frame(id, 2004, &p)).map_err(|e| format!("server: {}", e))?;
            c.recv(id)?
        }
    };
    want_ok("hello", &d)?;
    c.compressed = s.chance(15);
    if d.get_bool("ismaster") != Ok(true) || int(&d, "maxMessageSizeBytes") != Some(48_000_000) || int(&d, "maxBsonObjectSize").unwrap_or(0) < 1 << 20 || int(&d, "maxWireVersion").unwrap_or(0) < int(&d, "minWireVersion").unwrap_or(99) {
        return Err(format!("hello: {}", d));
    }
    Ok(())
}

/// Who may write to the collection now: an open transaction locks what it wrote.
fn may_write(w: &W, name: &str, i: In) -> bool {
    !w.sess.iter().enumerate().any(|(k, s)| s.txn.is_some() && s.wrote.iter().any(|c| c == name) && i != In::Txn(k))
}

fn touch(w: &mut W, name: &str, i: In) {
    // a cursor of a transaction may see what is committed after its start
    w.open.retain(|o| o.sess.is_none() || o.coll != name);
    if let In::Txn(k) = i {
        if w.sess[k].txn.is_some() {
            w.sess[k].wrote.push(name.to_string());
            w.open.retain(|o| o.sess != Some(k));
        }
    }
}

/// Picks the session; starts a transaction in the twin when the command starts one.
fn context(case: &mut Case, w: &mut W) -> (In, bool) {
    if w.sess.is_empty() || case.s.chance(35) {
        return (In::None, false);
    }
    let k = case.s.idx(w.sess.len());
    if case.s.chance(25) {
        return (In::Plain(k), false);
    }
    if w.sess[k].txn.is_some() {
        // sometimes a new transaction in place of the open one
        return (In::Txn(k), case.s.chance(6));
    }
    if case.s.chance(10) {
        // a transaction which is not there
        return (In::Txn(k), false);
    }
    (In::Txn(k), true)
}

fn begin(case: &mut Case, w: &mut W, i: In, start: bool) -> R<()> {
    if let (In::Txn(k), true) = (i, start) {
        if let Some(t) = w.sess[k].txn.take() {
            case.class("transaction in place of an open one");
            let gone: Vec<i64> = w.open.iter().filter(|o| o.sess == Some(k)).map(|o| o.id).collect();
            let d = w.conns[0].call(&msg(doc! {"killCursors": "c0", "cursors": gone, "$db": "db"}))?;
            want_ok("killCursors", &d)?;
            w.open.retain(|o| o.sess != Some(k));
            t.rollback().map_err(|e| format!("harness: twin: {}", e))?;
        }
        w.sess[k].txn = Some(w.twin.start_transaction().map_err(|e| format!("harness: twin: {}", e))?);
        w.sess[k].number += 1;
        w.sess[k].wrote.clear();
        case.class("transaction");
    }
    Ok(())
}

/// Sends statements in the body or in a sequence.
fn place(s: &mut Src, mut body: Document, key: &str, docs: Vec<Document>) -> Msg {
    let mode = s.weighted(&[5, 5, 1]);
    if mode == 0 {
        body.insert(key, docs);
        return msg(body);
    }
    let flags = if s.chance(10) { CHECKSUM } else { 0 };
    let seq_first = s.chance(10);
    let seqs = if mode == 2 && docs.len() > 1 {
        let mut a = docs;
        let b = a.split_off(a.len() / 2);
        vec![(key.to_string(), a), (key.to_string(), b)]
    } else {
        vec![(key.to_string(), docs)]
    };
    Msg { flags, body, seqs, seq_first }
}

/// Sends a write. None when it was sent without asking for a reply.
fn write(case: &mut Case, w: &mut W, c: usize, mut m: Msg) -> R<Option<Document>> {
    if case.s.chance(8) {
        case.class("write without reply");
        m.flags |= MORE;
        m.body.insert("writeConcern", doc! {"w": 0});
        w.conns[c].send(&m)?;
        // the server executes the messages of a connection one after the other
        w.conns[c].ping()?;
        return Ok(None);
    }
    Ok(Some(w.conns[c].call(&m)?))
}

fn insert(case: &mut Case, w: &mut W, c: usize, name: &str, docs: Vec<Document>, i: In, start: bool) -> R<()> {
    begin(case, w, i, start)?;
    touch(w, name, i);
    let mut body = doc! {"insert": name, "ordered": true, "$db": "db"};
    dress(w, &mut body, i, start);
    let m = place(&mut case.s, body, "documents", docs.clone());
    let what = format!("insert of {} into {} in {:?}", docs.iter().map(show).collect::<Vec<_>>().join(", "), name, i);
    case.log(what.clone());
    let got = write(case, w, c, m)?;
    let want = col(w, name, i).map(|cl| on!(&cl, x => x.insert_many(&docs)));
    if let Some(d) = got {
        match &want {
            Some(Ok(r)) => {
                want_ok(&what, &d)?;
                if int(&d, "n") != Some(r.inserted_ids.len() as i64) {
                    return Err(format!("{}: mismatch: replied {}", what, show(&d)));
                }
            }
            _ => want_refused(&what, &d)?,
        }
    }
    match want {
        Some(Ok(_)) => w.writes += 1,
        _ => { w.errors += 1; case.class("refused") }
    }
    Ok(())
}

fn docs_in(w: &W, name: &str, i: In) -> Vec<Document> {
    col(w, name, i).and_then(|c| find_docs(&c, &doc! {}).ok()).unwrap_or_default()
}

fn step(case: &mut Case, srv: &mut Server, path: &Path, w: &mut W, next: &mut i32) -> R<()> {
    let c = case.s.idx(w.conns.len());
    let kind = case.s.weighted(&[5, 8, 5, 4, 3, 6, 2, 4, 2, 1, 1, 1]);
    match kind {
        0 => {
            let (i, start) = context(case, w);
            let name = *case.s.pick(NAMES);
            if !may_write(w, name, i) {
                return Ok(());
            }
            let mut docs = vec![];
            if case.s.chance(1) {
                // more than 16 MB
                case.class("large message");
                let n = 2 + case.s.idx(3);
                for k in 0..n {
                    *next += 1;
                    let t = if k % 2 == 0 { "x" } else { "y" };
                    docs.push(doc! {"_id": *next + 100, "s": t.repeat(6_000_000 + case.s.idx(4_000_000))});
                }
            } else {
                while docs.is_empty() || case.s.more(docs.len(), 6, 2) {
                    docs.push(doc_of(&mut case.s, next));
                }
            }
            insert(case, w, c, name, docs, i, start)
        }
        1 => find(case, w, c),
        2 => {
            let (i, start) = context(case, w);
            let name = if case.s.chance(95) { *case.s.pick(NAMES) } else { "absent" };
            if !may_write(w, name, i) {
                return Ok(());
            }
            update(case, w, c, name, i, start)
        }
        3 => {
            let (i, start) = context(case, w);
            let name = if case.s.chance(95) { *case.s.pick(NAMES) } else { "absent" };
            if !may_write(w, name, i) {
                return Ok(());
            }
            delete(case, w, c, name, i, start)
        }
        4 => aggregate(case, w, c),
        5 => get_more(case, w, c),
        6 => kill_cursors(case, w, c),
        7 => end_txn(case, w, c),
        8 => pipelined(case, w, c),
        9 => restart(case, srv, path, w, true),
        11 => burst(case, srv, w, next),
        _ => refused(case, w, c),
    }
}

fn update(case: &mut Case, w: &mut W, c: usize, name: &str, i: In, start: bool) -> R<()> {
    begin(case, w, i, start)?;
    touch(w, name, i);
    let docs = docs_in(w, name, i);
    let n = 1 + case.s.weighted(&[6, 2, 1]);
    let mut sts = vec![];
    for _ in 0..n {
        let upsert = name != "absent" && case.s.chance(30);
        let q = if upsert {
            // with the id, which the library makes up otherwise
            let mut q = doc! {"_id": small_id(&mut case.s)};
            if case.s.chance(30) {
                q.insert("x", case.s.range(0, 3) as i32);
            }
            q
        } else {
            query_of(&mut case.s, &docs)
        };
        let u = super::super::gens::update(&mut case.s, false);
        let mut d = doc! {"q": q, "u": u};
        match case.s.below(3) {
            0 => {}
            1 => { d.insert("multi", true); }
            _ => { d.insert("multi", false); }
        }
        if upsert {
            d.insert("upsert", true);
        } else if case.s.chance(20) {
            d.insert("upsert", false);
        }
        sts.push(d);
    }
    let mut body = doc! {"update": name, "ordered": true, "$db": "db"};
    dress(w, &mut body, i, start);
    let m = place(&mut case.s, body, "updates", sts.clone());
    let what = format!("update of {} by {} in {:?}", name, sts.iter().map(show).collect::<Vec<_>>().join(", "), i);
    case.log(what.clone());
    let got = write(case, w, c, m)?;
    let mut ok = true;
    let (mut matched, mut modified) = (0, 0);
    match col(w, name, i) {
        None => ok = false,
        Some(cl) => {
            for st in &sts {
                let (q, u) = (st.get_document("q").unwrap().clone(), st.get_document("u").unwrap().clone());
                let o = UpdateOptions::builder().upsert(st.get_bool("upsert").unwrap_or(false)).build();
                let r = on!(&cl, x => if st.get_bool("multi").unwrap_or(false) {
                    x.update_many_with_options(q, u, o)
                } else {
                    x.update_one_with_options(q, u, o)
                });
                match r {
                    Ok(r) => {
                        matched += r.matched_count;
                        modified += r.modified_count;
                    }
                    Err(_) => {
                        ok = false;
                        break;
                    }
                }
            }
        }
    }
    if let Some(d) = got {
        if ok {
            want_ok(&what, &d)?;
            if int(&d, "n") != Some(matched as i64) || int(&d, "nModified") != Some(modified as i64) {
                return Err(format!("{}: mismatch: replied {}, expected {} matched and {} modified", what, show(&d), matched, modified));
            }
        } else {
            want_refused(&what, &d)?;
        }
    }
    if ok { w.writes += 1 } else { w.errors += 1; case.class("refused") }
    if modified > 0 {
        case.class("update");
    }
    Ok(())
}

fn delete(case: &mut Case, w: &mut W, c: usize, name: &str, i: In, start: bool) -> R<()> {
    begin(case, w, i, start)?;
    touch(w, name, i);
    let docs = docs_in(w, name, i);
    let n = 1 + case.s.weighted(&[6, 2, 1]);
    let mut sts = vec![];
    for _ in 0..n {
        let mut d = doc! {"q": query_of(&mut case.s, &docs)};
        match case.s.below(5) {
            0 => { d.insert("limit", 0); }
            1 | 2 => { d.insert("limit", 1); }
            3 => { d.insert("limit", 1i64); }
            _ => { d.insert("limit", 0i64); }
        }
        sts.push(d);
    }
    let mut body = doc! {"delete": name, "ordered": true, "$db": "db"};
    dress(w, &mut body, i, start);
    let m = place(&mut case.s, body, "deletes", sts.clone());
    let what = format!("delete from {} by {} in {:?}", name, sts.iter().map(show).collect::<Vec<_>>().join(", "), i);
    case.log(what.clone());
    let got = write(case, w, c, m)?;
    let mut ok = true;
    let mut deleted = 0;
    match col(w, name, i) {
        None => ok = false,
        Some(cl) => {
            for st in &sts {
                let q = st.get_document("q").unwrap().clone();
                let r = on!(&cl, x => if int(st, "limit") == Some(1) { x.delete_one(q) } else { x.delete_many(q) });
                match r {
                    Ok(r) => deleted += r.deleted_count,
                    Err(_) => {
                        ok = false;
                        break;
                    }
                }
            }
        }
    }
    if let Some(d) = got {
        if ok {
            want_ok(&what, &d)?;
            if int(&d, "n") != Some(deleted as i64) {
                return Err(format!("{}: mismatch: replied {}, expected {} deleted", what, show(&d), deleted));
            }
        } else {
            want_refused(&what, &d)?;
        }
    }
    if ok { w.writes += 1 } else { w.errors += 1; case.class("refused") }
    if deleted > 0 {
        case.class("delete");
    }
    Ok(())
}

/// A random find: its command, and what the library returns.
fn mk_find(case: &mut Case, w: &W, i: In) -> (Document, String, Option<Result<(Vec<Document>, bool)>>, Option<usize>, bool) {
    let name = if case.s.chance(95) { *case.s.pick(NAMES) } else { "absent" };
    let docs = docs_in(w, name, i);
    let mut body = doc! {"find": name};
    let q = query_of(&mut case.s, &docs);
    if !q.is_empty() || case.s.chance(50) {
        body.insert("filter", q.clone());
    }
    let mut f = FindOp { q, sort: None, skip: None, limit: None };
    if case.s.chance(30) {
        let mut sp = Document::new();
        for k in ["n", "x", "a", "_id"] {
            if case.s.chance(30) {
                sp.insert(k, *case.s.pick(&[1, -1]));
            }
        }
        body.insert("sort", sp.clone());
        if !sp.is_empty() {
            f.sort = Some(sp);
        }
    }
    if case.s.chance(25) {
        let n = *case.s.pick(&[0u64, 1, 2, 5, 100, 101, 1000]);
        body.insert("skip", [Bson::Int32(n as i32), Bson::Int64(n as i64)][case.s.idx(2)].clone());
        f.skip = Some(n);
    }
    if case.s.chance(35) {
        let n = *case.s.pick(&[0u64, 1, 2, 3, 7, 101, 102, 500]);
        body.insert("limit", [Bson::Int64(n as i64), Bson::Int32(n as i32)][case.s.idx(2)].clone());
        f.limit = Some(n).filter(|n| *n > 0);
    }
    let mut size = Some(101);
    if case.s.chance(55) {
        let n = *case.s.pick(&[2, 1, 0, 3, 5, 101, 200]);
        body.insert("batchSize", [Bson::Int32(n), Bson::Int64(n as i64), Bson::Double(n as f64)][case.s.weighted(&[5, 2, 1])].clone());
        size = Some(n as usize);
    }
    let single = f.limit.is_some() && case.s.chance(15);
    if single {
        body.insert("singleBatch", true);
        body.remove("batchSize");
        size = None;
    }
    body.insert("$db", "db");
    let want = col(w, name, i).map(|cl| on!(&cl, x => {
        let mut b = x.find(f.q.clone());
        if let Some(s) = &f.sort { b = b.sort(s.clone()); }
        if let Some(s) = f.skip { b = b.skip(s); }
        if let Some(s) = f.limit { b = b.limit(s); }
        read_all(b.run())
    }));
    (body, name.to_string(), want, size, single)
}

fn judge_find(case: &mut Case, w: &mut W, what: &str, d: Document, name: &str, i: In, want: Option<Result<(Vec<Document>, bool)>>, size: Option<usize>, single: bool) -> R<()> {
    match want {
        Some(Ok((docs, fails))) => {
            if fails && int(&d, "ok") != Some(1) {
                w.errors += 1;
                return Ok(());
            }
            want_ok(what, &d)?;
            let (got, id, ns) = batch(&d, "firstBatch")?;
            if ns != format!("db.{}", name) {
                return Err(format!("{}: ns {}", what, ns));
            }
            if single && id != 0 {
                return Err(format!("{}: a cursor stays open after a single batch", what));
            }
            if !docs.is_empty() {
                w.reads += 1;
            }
            if id != 0 {
                case.class("open cursor");
            }
            let sess = match i { In::Txn(k) => Some(k), _ => None };
            take_batch(w, what, got, id, Open { id, coll: name.to_string(), rest: docs, fails, sess }, size, single)
        }
        _ => {
            w.errors += 1;
            case.class("refused");
            want_refused(what, &d)
        }
    }
}

fn find(case: &mut Case, w: &mut W, c: usize) -> R<()> {
    let (i, start) = context(case, w);
    begin(case, w, i, start)?;
    let (mut body, name, want, size, single) = mk_find(case, w, i);
    dress(w, &mut body, i, start);
    let what = format!("{} in {:?}", show(&body), i);
    case.log(what.clone());
    let d = w.conns[c].call(&msg(body))?;
    judge_find(case, w, &what, d, &name, i, want, size, single)
}

fn aggregate(case: &mut Case, w: &mut W, c: usize) -> R<()> {
    let (i, start) = context(case, w);
    begin(case, w, i, start)?;
    let name = if case.s.chance(95) { *case.s.pick(NAMES) } else { "absent" };
    let docs = docs_in(w, name, i);
    let mut p = vec![];
    if case.s.chance(60) {
        p.push(doc! {"$match": query_of(&mut case.s, &docs)});
    }
    while case.s.more(p.len(), 5, 2) {
        let st = match case.s.below(8) {
            0 => doc! {"$sort": {"n": 1}},
            1 => doc! {"$skip": case.s.range(0, 5)},
            2 => doc! {"$limit": case.s.range(1, 6)},
            3 => doc! {"$count": "c"},
            4 => doc! {"$group": {"_id": "$x", "c": {"$sum": 1}}},
            5 => doc! {"$addFields": {"z": {"$abs": "$n"}}},
            6 => doc! {"$unset": ["a", "s"]},
            _ => doc! {"$nope": 1},
        };
        p.push(st);
    }
    let mut size = None;
    let mut cur = Document::new();
    if case.s.chance(50) {
        let n = *case.s.pick(&[2, 1, 0, 3, 5, 101, 200]);
        cur.insert("batchSize", [Bson::Int32(n), Bson::Int64(n as i64), Bson::Double(n as f64)][case.s.weighted(&[5, 2, 1])].clone());
        size = Some(n as usize);
    }
    let mut body = doc! {"aggregate": name, "pipeline": p.clone(), "cursor": cur, "$db": "db"};
    dress(w, &mut body, i, start);
    let what = format!("{} in {:?}", show(&body), i);
    case.log(what.clone());
    let d = w.conns[c].call(&msg(body))?;
    let want = col(w, name, i).map(|cl| on!(&cl, x => read_all(x.aggregate(p).run())));
    judge_find(case, w, &what, d, name, i, want, size, false)
}

fn get_more(case: &mut Case, w: &mut W, c: usize) -> R<()> {
    if w.open.is_empty() || case.s.chance(4) {
        let id = if case.s.chance(50) { case.s.range(-2, 0) } else { case.s.range(1_000_000, 1_000_100) };
        if w.open.iter().any(|o| o.id == id) {
            return Ok(());
        }
        let d = w.conns[c].call(&msg(doc! {"getMore": id, "collection": "c0", "$db": "db"}))?;
        case.log(format!("getMore of the unknown cursor {}", id));
        return want_refused("getMore of an unknown cursor", &d);
    }
    let k = case.s.idx(w.open.len());
    let o = w.open.swap_remove(k);
    let mut body = doc! {"getMore": o.id, "collection": o.coll.clone(), "$db": "db"};
    let mut size = Some(101);
    if case.s.chance(70) {
        let n = *case.s.pick(&[2, 1, 3, 100, 101, 50]);
        body.insert("batchSize", [Bson::Int32(n), Bson::Int64(n as i64), Bson::Double(n as f64)][case.s.weighted(&[5, 2, 1])].clone());
        size = Some(n as usize);
    }
    if let Some(k) = o.sess {
        dress(w, &mut body, In::Txn(k), false);
    }
    let what = show(&body);
    case.log(what.clone());
    let id = o.id;
    let d = w.conns[c].call(&msg(body))?;
    if o.fails && int(&d, "ok") != Some(1) {
        return Ok(());
    }
    want_ok(&what, &d)?;
    let (got, now, ns) = batch(&d, "nextBatch")?;
    if ns != format!("db.{}", o.coll) {
        return Err(format!("{}: ns {}", what, ns));
    }
    if now != 0 && now != id {
        return Err(format!("{}: the cursor {} became {}", what, id, now));
    }
    w.mores += 1;
    case.class("getMore");
    take_batch(w, &what, got, now, o, size, false)?;
    if now == 0 {
        let d = w.conns[c].call(&msg(doc! {"getMore": id, "collection": "c0", "$db": "db"}))?;
        want_refused("getMore of a finished cursor", &d)?;
    }
    Ok(())
}

fn kill_cursors(case: &mut Case, w: &mut W, c: usize) -> R<()> {
    let mut ids = vec![];
    while !w.open.is_empty() && case.s.more(ids.len(), 3, 2) {
        let k = case.s.idx(w.open.len());
        ids.push(w.open.swap_remove(k).id);
    }
    let known = ids.len();
    if case.s.chance(20) {
        ids.push(100_000 + case.s.range(0, 5));
    }
    case.log(format!("killCursors {:?}", ids));
    let d = w.conns[c].call(&msg(doc! {"killCursors": "c0", "cursors": ids.clone(), "$db": "db"}))?;
    want_ok("killCursors", &d)?;
    for id in &ids[..known] {
        case.class("killed cursor");
        let d = w.conns[c].call(&msg(doc! {"getMore": *id, "collection": "c0", "$db": "db"}))?;
        want_refused("getMore of a killed cursor", &d)?;
    }
    Ok(())
}

fn end_txn(case: &mut Case, w: &mut W, c: usize) -> R<()> {
    if w.sess.is_empty() {
        return Ok(());
    }
    let k = case.s.idx(w.sess.len());
    let commit = case.s.chance(65);
    let one = [Bson::Int32(1), Bson::Int64(1)][case.s.idx(2)].clone();
    let mut body = doc! {(if commit { "commitTransaction" } else { "abortTransaction" }): one};
    dress(w, &mut body, In::Txn(k), false);
    body.insert("$db", "admin");
    let what = format!("{} of session {}", show(&body), k);
    case.log(what.clone());
    // cursors of a transaction end with it
    let gone: Vec<i64> = w.open.iter().filter(|o| o.sess == Some(k)).map(|o| o.id).collect();
    let keep = case.s.chance(50);
    if keep {
        w.open.retain(|o| o.sess != Some(k));
    } else if !gone.is_empty() {
        let d = w.conns[c].call(&msg(doc! {"killCursors": "c0", "cursors": gone.clone(), "$db": "db"}))?;
        want_ok("killCursors", &d)?;
        w.open.retain(|o| o.sess != Some(k));
    }
    let d = w.conns[c].call(&msg(body))?;
    match w.sess[k].txn.take() {
        None => want_refused(&what, &d)?,
        Some(t) => {
            want_ok(&what, &d)?;
            if commit {
                t.commit().map_err(|e| format!("harness: twin: {}", e))?;
                w.open.retain(|o| o.sess.is_none());
                case.class("commit");
                w.commits += 1;
            } else {
                t.rollback().map_err(|e| format!("harness: twin: {}", e))?;
                case.class("abort");
            }
            w.sess[k].wrote.clear();
        }
    }
    if keep {
        // what is left of a cursor whose transaction has ended is open, but not the server
        for id in gone {
            case.class("getMore after the end of the transaction");
            let mut body = doc! {"getMore": id, "collection": "c0", "batchSize": 1000, "$db": "db"};
            if case.s.chance(50) {
                dress(w, &mut body, In::Plain(k), false);
            }
            w.conns[c].call(&msg(body))?;
        }
    }
    if case.s.chance(30) {
        compare_all(w)?;
    }
    Ok(())
}

/// Several messages at once; the replies come in their order.
fn pipelined(case: &mut Case, w: &mut W, c: usize) -> R<()> {
    let n = 2 + case.s.idx(3);
    let mut sent = vec![];
    let mut bytes = vec![];
    for _ in 0..n {
        let (body, name, want, size, single) = mk_find(case, w, In::None);
        case.log(format!("in a row: {}", show(&body)));
        let id = w.conns[c].next;
        w.conns[c].next += 1;
        let what = show(&body);
        bytes.extend(w.conns[c].wrap(id, &msg(body)));
        sent.push((id, what, name, want, size, single));
    }
    // in pieces
    let cut = case.s.idx(bytes.len());
    let pause = case.s.chance(30);
    let mut con = w.conns[c].s.try_clone().map_err(|e| format!("harness: {}", e))?;
    // the server may stop reading from who does not read its replies
    let writer = std::thread::spawn(move || {
        con.write_all(&bytes[..cut])?;
        if pause {
            std::thread::sleep(Duration::from_millis(3));
        }
        con.write_all(&bytes[cut..])
    });
    let mut rs = vec![];
    for (id, ..) in &sent {
        rs.push(w.conns[c].recv(*id)?);
    }
    writer.join().unwrap().map_err(|e| format!("server: {}", e))?;
    for (d, (_, what, name, want, size, single)) in rs.into_iter().zip(sent) {
        judge_find(case, w, &what, d, &name, In::None, want, size, single)?;
    }
    Ok(())
}

/// What is expected of a request of a burst.
enum Due {
    Find(String, String, Option<Result<(Vec<Document>, bool)>>, Option<usize>, bool),
    More(String, Open, usize),
    Insert(String, i64),
    End(String),
}

/// Several connections send many requests before any reply is read. Their effects do not
/// depend on the order: one collection gets documents of different ids, the others are read.
fn burst(case: &mut Case, srv: &Server, w: &mut W, next: &mut i32) -> R<()> {
    let n = 2 + case.s.idx(7);
    let rounds = 1 + case.s.idx(3);
    let target = *case.s.pick(NAMES);
    let may = may_write(w, target, In::None);
    let mut conns = vec![];
    for _ in 0..n {
        conns.push(srv.connect()?);
    }
    case.class("burst");
    touch(w, target, In::None);
    for round in 0..rounds {
        let mut queue = vec![];
        let mut new: Vec<Document> = vec![];
        for (k, c) in conns.iter_mut().enumerate() {
            let m = 1 + case.s.idx(14);
            let mut bytes = vec![];
            let mut due = vec![];
            let mut j = 0;
            while j < m {
                j += 1;
                let mut push = |c: &mut Conn, b: Document, d: Due| {
                    bytes.extend(c.wrap(c.next, &msg(b)));
                    due.push((c.next, d));
                    c.next += 1;
                };
                match case.s.weighted(&[5, 5, 3, 1]) {
                    0 => {
                        let (mut body, name, want, size, single) = mk_find(case, w, In::None);
                        if may && name == target {
                            continue;
                        }
                        body.insert("comment", format!("{}-{}-{}", round, k, j));
                        case.log(format!("burst {}.{}: {}", round, k, show(&body)));
                        push(c, body.clone(), Due::Find(show(&body), name, want, size, single));
                    }
                    1 => {
                        let free: Vec<usize> = (0..w.open.len()).filter(|x| w.open[*x].sess.is_none()).collect();
                        if free.is_empty() {
                            continue;
                        }
                        let o = w.open.swap_remove(free[case.s.idx(free.len())]);
                        let size = *case.s.pick(&[1, 2, 5]);
                        let body = doc! {"getMore": o.id, "collection": o.coll.clone(), "batchSize": size, "$db": "db"};
                        case.log(format!("burst {}.{}: {}", round, k, show(&body)));
                        push(c, body.clone(), Due::More(show(&body), o, size as usize));
                    }
                    2 if may => {
                        let mut docs = vec![];
                        while docs.is_empty() || case.s.more(docs.len(), 4, 2) {
                            *next += 1;
                            docs.push(doc! {"_id": *next + 100, "n": *next % 7, "x": *next % 4});
                        }
                        let body = doc! {"insert": target, "documents": docs.clone(), "$db": "db"};
                        case.log(format!("burst {}.{}: {}", round, k, show(&body)));
                        push(c, body.clone(), Due::Insert(show(&body), docs.len() as i64));
                        new.extend(docs);
                    }
                    3 if may => {
                        // a transaction of its own
                        let id = Bson::Binary(Binary { subtype: BinarySubtype::Uuid, bytes: vec![100 + k as u8; 16] });
                        let number = (round * 100 + j) as i64;
                        let commit = case.s.chance(60);
                        let mut docs = vec![];
                        for q in 0..1 + case.s.idx(3) {
                            *next += 1;
                            let d = doc! {"_id": *next + 100, "n": *next % 7};
                            let mut body = doc! {"insert": target, "documents": [d.clone()], "$db": "db", "lsid": {"id": id.clone()}, "txnNumber": number, "autocommit": false};
                            if q == 0 {
                                body.insert("startTransaction", true);
                            }
                            case.log(format!("burst {}.{}: {}", round, k, show(&body)));
                            push(c, body.clone(), Due::Insert(show(&body), 1));
                            docs.push(d);
                        }
                        let body = doc! {(if commit { "commitTransaction" } else { "abortTransaction" }): 1, "$db": "admin", "lsid": {"id": id}, "txnNumber": number, "autocommit": false};
                        case.log(format!("burst {}.{}: {}", round, k, show(&body)));
                        push(c, body.clone(), Due::End(show(&body)));
                        if commit {
                            new.extend(docs);
                        }
                    }
                    _ => {}
                }
            }
            queue.push((bytes, due));
        }
        // the server may stop reading from who does not read its replies
        let mut writers = vec![];
        let mut dues = vec![];
        for (c, (bytes, due)) in conns.iter_mut().zip(queue) {
            let mut s = c.s.try_clone().map_err(|e| format!("harness: {}", e))?;
            writers.push(std::thread::spawn(move || s.write_all(&bytes)));
            dues.push(due);
        }
        let mut replies = vec![];
        for (c, due) in conns.iter_mut().zip(dues) {
            for (id, d) in due {
                replies.push((c.recv(id)?, d));
            }
        }
        for t in writers {
            t.join().unwrap().map_err(|e| format!("server: a burst is not taken: {}", e))?;
        }
        if !new.is_empty() {
            w.twin.collection::<Document>(target).insert_many(&new).map_err(|e| format!("harness: twin: {}", e))?;
            w.writes += 1;
        }
        for (d, due) in replies {
            match due {
                Due::Find(what, name, want, size, single) => judge_find(case, w, &what, d, &name, In::None, want, size, single)?,
                Due::More(what, o, size) => {
                    if o.fails && int(&d, "ok") != Some(1) {
                        continue;
                    }
                    want_ok(&what, &d)?;
                    let (got, now, _) = batch(&d, "nextBatch")?;
                    if now != 0 && now != o.id {
                        return Err(format!("{}: the cursor {} became {}", what, o.id, now));
                    }
                    w.mores += 1;
                    case.class("getMore in a burst");
                    take_batch(w, &what, got, now, o, Some(size), false)?;
                }
                Due::Insert(what, n) => {
                    want_ok(&what, &d)?;
                    if int(&d, "n") != Some(n) {
                        return Err(format!("{}: mismatch: replied {}", what, show(&d)));
                    }
                }
                Due::End(what) => {
                    want_ok(&what, &d)?;
                    case.class("transaction in a burst");
                }
            }
        }
        if may {
            let want = docs_in(w, target, In::None);
            let got = fetch(&mut conns[0], target)?;
            lists(&format!("mismatch: after a burst, the documents of {}", target), &got, &want)?;
        }
    }
    Ok(())
}

/// Commands which are refused; the connection goes on.
fn refused(case: &mut Case, w: &mut W, c: usize) -> R<()> {
    let docs = docs_in(w, "c0", In::None);
    let bad = match case.s.below(12) {
        0 => doc! {"nope": 1, "$db": "db"},
        1 => doc! {"find": "c0"},
        2 => doc! {"find": 3, "$db": "db"},
        3 => doc! {"find": "c0", "filter": 1, "$db": "db"},
        4 => doc! {"find": "c0", "limit": -1, "$db": "db"},
        5 => doc! {"insert": "c0", "documents": [1], "$db": "db"},
        6 => doc! {"update": "c0", "updates": [{"q": {}}], "$db": "db"},
        7 => doc! {"delete": "c0", "deletes": [{"q": {}, "limit": 2}], "$db": "db"},
        8 => doc! {"delete": "c0", "deletes": [{"limit": 1}], "$db": "db"},
        9 => doc! {"aggregate": "c0", "pipeline": [1], "cursor": {}, "$db": "db"},
        10 => doc! {"insert": "c$0", "documents": [{"_id": 1}], "$db": "db"},
        _ => doc! {"find": "c0", "autocommit": false, "lsid": {"id": 1}, "$db": "db"},
    };
    case.log(show(&bad));
    let d = w.conns[c].call(&msg(bad.clone()))?;
    want_refused(&show(&bad), &d)?;
    w.errors += 1;
    if bag(&docs) != bag(&fetch(&mut w.conns[c], "c0")?) {
        return Err(format!("{}: mismatch: it was refused, but changed the collection", show(&bad)));
    }
    Ok(())
}

/// The documents of a collection as the server returns them.
fn fetch(c: &mut Conn, name: &str) -> R<Vec<Document>> {
    let d = c.call(&msg(doc! {"find": name, "$db": "db"}))?;
    want_ok("find", &d)?;
    let (mut all, mut id, _) = batch(&d, "firstBatch")?;
    while id != 0 {
        let d = c.call(&msg(doc! {"getMore": id, "collection": name, "$db": "db"}))?;
        want_ok("getMore", &d)?;
        let (b, now, _) = batch(&d, "nextBatch")?;
        all.extend(b);
        id = now;
    }
    Ok(all)
}

fn compare_all(w: &mut W) -> R<()> {
    for name in NAMES.iter().chain(&["absent"]) {
        let want = docs_in(w, name, In::None);
        let got = fetch(&mut w.conns[0], name)?;
        lists(&format!("mismatch: the documents of {}", name), &got, &want)?;
    }
    Ok(())
}

/// Ends the server without warning. What it acknowledged is there, its open transactions are not.
fn restart(case: &mut Case, srv: &mut Server, path: &Path, w: &mut W, again: bool) -> R<()> {
    case.log("kill the server".into());
    case.class("killed server");
    w.open.clear();
    for s in &mut w.sess {
        if let Some(t) = s.txn.take() {
            t.rollback().map_err(|e| format!("harness: twin: {}", e))?;
        }
        s.wrote.clear();
    }
    srv.panics()?;
    srv.kill();
    w.conns.clear();
    {
        let db = open(path)?;
        let mut have = db.list_collection_names().map_err(|e| format!("server: after a crash: {}", e))?;
        let mut want = w.twin.list_collection_names().map_err(|e| format!("harness: twin: {}", e))?;
        have.sort();
        want.sort();
        if have != want {
            return Err(format!("mismatch: after the end of the server there are {:?}, expected {:?}", have, want));
        }
        for name in NAMES {
            let got = find_docs(&Col::A(db.collection(name)), &doc! {}).map_err(|e| format!("server: after a crash: {}", e))?;
            lists(&format!("mismatch: after the end of the server, the documents of {}", name), &got, &docs_in(w, name, In::None))?;
        }
    }
    if again {
        let dir = case.dir.clone();
        *srv = Server::start(&dir, path)?;
        let n = 1 + case.s.idx(3);
        for _ in 0..n {
            let mut c = srv.connect()?;
            hello(&mut case.s, &mut c)?;
            w.conns.push(c);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

const CONTROL: &str = "zz_control";

/// A command whose parts are often wrong.
fn odd_command(s: &mut Src, docs: &[Document]) -> Msg {
    let name = if s.chance(85) { Bson::String(s.pick(&["c0", "c1", "c0", "c2"]).to_string()) } else { junk(s, 1) };
    let mut seqs = vec![];
    let q = if s.chance(70) { query_of(s, docs) } else { doc! {"a": junk(s, 2)} };
    let mut body = match s.below(12) {
        0 => doc! {"find": name, "filter": q, "batchSize": s.range(-2, 3)},
        1 => doc! {"insert": name, "documents": [doc_of(s, &mut 0), {"a": junk(s, 2)}]},
        2 => {
            seqs.push(("documents".to_string(), vec![doc_of(s, &mut 0), doc! {"a": junk(s, 2)}]));
            doc! {"insert": name}
        }
        3 => doc! {"update": name, "updates": [{"q": q, "u": super::super::gens::update(s, true), "multi": s.chance(50), "upsert": s.chance(30)}]},
        4 => doc! {"delete": name, "deletes": [{"q": q, "limit": s.range(0, 1)}]},
        5 => doc! {"aggregate": name, "pipeline": [{"$match": q}, {"$group": {"_id": "$a", "c": {"$sum": 1}}}], "cursor": {}},
        6 => doc! {"getMore": 7000 + s.range(-1, 5), "collection": name},
        7 => doc! {"killCursors": name, "cursors": [7000 + s.range(-1, 5)]},
        8 => doc! {"commitTransaction": 1, "lsid": {"id": sid(s, 7)}, "autocommit": false},
        9 => doc! {"abortTransaction": 1, "lsid": {"id": sid(s, 7)}, "autocommit": false},
        10 => doc! {"isMaster": 1, "helloOk": true},
        _ => doc! {"ping": 1},
    };
    if s.chance(90) {
        body.insert("$db", "db");
    }
    if s.chance(6) {
        body.insert("lsid", doc! {"id": sid(s, 7)});
        body.insert("startTransaction", true);
        body.insert("autocommit", false);
    }
    if s.chance(60) {
        body = mutate(s, &body, 3);
    }
    if s.chance(10) {
        seqs.push((s.pick(&["documents", "updates", "deletes", "", "x"]).to_string(), vec![doc! {"a": junk(s, 2)}]));
    }
    let flags = if s.chance(85) { 0 } else { *s.pick(&[CHECKSUM, MORE, CHECKSUM | MORE, 1 << 16, 1 << 5, u32::MAX]) };
    Msg { flags, body, seqs, seq_first: s.chance(10) }
}

/// A document of many levels.
fn nested(s: &mut Src, depth: usize) -> Vec<u8> {
    let kind = s.below(3);
    let mut inner: Vec<u8> = vec![5, 0, 0, 0, 0];
    // built from the inside, with the lengths known in advance
    if depth > 3000 {
        // 8 bytes for each level: length, type, "a\0"; and one at the end
        let total = 5 + 8 * depth;
        let mut v = Vec::with_capacity(total);
        for k in 0..depth {
            v.extend(((total - 8 * k) as i32).to_le_bytes());
            v.push(if kind == 1 { 4 } else { 3 });
            v.extend(if kind == 1 { b"0\0" } else { b"a\0" });
        }
        v.extend([5u8, 0, 0, 0, 0]);
        v.extend(vec![0u8; depth]);
        return v;
    }
    for k in 0..depth {
        let mut v = ((inner.len() + 8) as i32).to_le_bytes().to_vec();
        v.push(if kind == 1 || (kind == 2 && k % 2 == 0) { 4 } else { 3 });
        v.extend(if v[4] == 4 { b"0\0" } else { b"a\0" });
        v.extend(&inner);
        v.push(0);
        inner = v;
    }
    inner
}

/// A document with an element more.
fn with_raw(d: &Document, key: &str, ty: u8, raw: &[u8]) -> Vec<u8> {
    let mut b = doc_bytes(d);
    b.pop();
    b.push(ty);
    b.extend(key.as_bytes());
    b.push(0);
    b.extend(raw);
    b.push(0);
    let n = b.len() as i32;
    b[..4].copy_from_slice(&n.to_le_bytes());
    b
}

fn deep_message(s: &mut Src) -> (Vec<u8>, String) {
    let depth = *s.pick(&[20, 90, 150, 300, 1000, 5000, 50_000, 400_000]);
    let raw = nested(s, depth);
    let (d, key, ty) = match s.below(5) {
        0 => (doc! {"find": "c0", "$db": "db"}, "filter", 3),
        1 => (doc! {"ping": 1, "$db": "db"}, "x", 3),
        2 => (doc! {"aggregate": "c0", "$db": "db", "cursor": {}}, "pipeline", 4),
        3 => (doc! {"insert": "c0", "$db": "db"}, "documents", 4),
        _ => (doc! {"find": "c0", "$db": "db", "autocommit": false}, "lsid", 3),
    };
    let mut p = vec![0u8; 5];
    p.extend(with_raw(&d, key, ty, &raw));
    (frame(77, 2013, &p), format!("{} with {} of {} levels", d, key, depth))
}

fn raw_bytes(s: &mut Src, n: usize) -> Vec<u8> {
    (0..n).map(|_| s.below(256) as u8).collect()
}

fn edit(s: &mut Src, b: &mut Vec<u8>) {
    let n = 1 + s.weighted(&[5, 3, 1]);
    for _ in 0..n {
        if b.is_empty() {
            return;
        }
        match s.below(8) {
            0 | 1 => {
                let i = s.idx(b.len());
                b[i] = s.below(256) as u8;
            }
            2 => {
                let i = s.idx(b.len());
                b[i] ^= 1 << s.below(8);
            }
            3 => {
                let i = s.idx(b.len());
                b.truncate(i);
            }
            4 => {
                let i = s.idx(b.len());
                b.remove(i);
            }
            5 => {
                let i = s.idx(b.len());
                b.insert(i, s.below(256) as u8);
            }
            // lengths are where the documents and sections begin
            _ => {
                let spots: Vec<usize> = (0..b.len().saturating_sub(4)).filter(|i| { let v = le(&b[*i..]); v >= 5 && (v as usize) <= b.len() }).collect();
                if let Some(i) = spots.get(s.idx(spots.len().max(1))) {
                    let v = le(&b[*i..]);
                    let w = match s.below(8) {
                        0 => 0,
                        1 => -1,
                        2 => i32::MAX,
                        3 => i32::MIN,
                        4 => v.wrapping_add(s.range(-6, 6) as i32),
                        5 => s.range(0, 20) as i32,
                        6 => 48_000_000,
                        _ => v.wrapping_mul(256),
                    };
                    b[*i..*i + 4].copy_from_slice(&w.to_le_bytes());
                }
            }
        }
    }
}

fn attack(s: &mut Src, docs: &[Document]) -> (Vec<u8>, String) {
    match s.weighted(&[8, 8, 2, 2, 2, 2]) {
        0 => {
            let m = odd_command(s, docs);
            let t = format!("command {} {:?} flags {:#x}", m.body, m.seqs, m.flags);
            (frame(77, 2013, &payload(&m)), t)
        }
        1 => {
            let m = odd_command(s, docs);
            let mut b = frame(77, 2013, &payload(&m));
            let keep_len = s.chance(50);
            edit(s, &mut b);
            if keep_len && b.len() >= 16 {
                let n = b.len() as i32;
                b[..4].copy_from_slice(&n.to_le_bytes());
            }
            let t = format!("edited {} as {} bytes", m.body, b.len());
            (b, t)
        }
        2 => {
            let n = s.idx(80);
            let b = raw_bytes(s, n);
            (b, format!("{} random bytes", n))
        }
        3 => deep_message(s),
        4 => {
            let m = odd_command(s, docs);
            let inner = payload(&m);
            let mut p = (*s.pick(&[2013i32, 2013, 2013, 2004, 0])).to_le_bytes().to_vec();
            let claim = if s.chance(70) { inner.len() as i32 } else { s.range(-1, 70) as i32 };
            p.extend(claim.to_le_bytes());
            p.push(*s.pick(&[0u8, 0, 0, 1, 2, 3, 255]));
            p.extend(inner);
            (frame(77, 2012, &p), format!("compressed {}", m.body))
        }
        _ => {
            let mut p = 0i32.to_le_bytes().to_vec();
            p.extend(*s.pick(&[&b"admin.$cmd\0"[..], b"admin.$cmd", b"\0", b""]));
            p.extend((s.range(0, 1) as i32).to_le_bytes());
            p.extend((s.range(-1, 1) as i32).to_le_bytes());
            p.extend(doc_bytes(&doc! {"isMaster": 1, "helloOk": true}));
            if s.chance(40) {
                edit(s, &mut p);
            }
            (frame(77, *s.pick(&[2004, 2004, 1, 2013, 2001]), &p), "a query of the old kind".into())
        }
    }
}

pub fn c20(case: &mut Case) -> R<()> {
    let dir = case.dir.clone();
    let path = dir.join("served");
    let mut srv = Server::start(&dir, &path)?;
    let r = c20_inner(case, &mut srv, &path).and_then(|_| srv.panics());
    if r.is_err() {
        case.log(format!("log of the server: {}", srv.text()));
    }
    r.map_err(kinded)
}

fn c20_inner(case: &mut Case, srv: &mut Server, path: &Path) -> R<()> {
    let mut c = srv.connect()?;
    let n = 3 + case.s.idx(120);
    let base: Vec<Document> = (0..n).map(|i| doc! {"_id": i as i32, "n": "v".repeat(i % 40)}).collect();
    let d = c.call(&msg(doc! {"insert": CONTROL, "documents": base.clone(), "$db": "db"}))?;
    want_ok("insert", &d)?;
    let docs: Vec<Document> = (0..4).map(|i| { let mut d = qdoc(&mut case.s); d.insert("_id", i); d }).collect();
    let d = c.call(&msg(doc! {"insert": "c0", "documents": docs.clone(), "$db": "db"}))?;
    want_ok("insert", &d)?;
    // a cursor which stays open during the attacks
    let d = c.call(&msg(doc! {"find": CONTROL, "batchSize": 2, "$db": "db"}))?;
    want_ok("find", &d)?;
    let (mut got, cursor, _) = batch(&d, "firstBatch")?;
    let sockets = srv.sockets();
    let total = 2 + case.s.idx(10);
    let (mut replied, mut closed, mut refused) = (0, 0, 0);
    for k in 0..total {
        let (mut bytes, text) = attack(&mut case.s, &docs);
        let twice = case.s.chance(15);
        if twice {
            bytes.extend(bytes.clone());
        }
        case.log(format!("attack: {}", text.chars().take(400).collect::<String>()));
        let mut a = srv.connect()?;
        if case.s.chance(15) {
            // a good one first
            a.ping()?;
        }
        let mut out = 0;
        // the server may close the connection while it is written to
        if a.s.write_all(&bytes).is_ok() {
            if case.s.chance(10) {
                let _ = a.s.shutdown(std::net::Shutdown::Both);
                drop(a);
                srv.alive()?;
                continue;
            }
            let _ = a.s.shutdown(std::net::Shutdown::Write);
            loop {
                match read_reply(&mut a.s) {
                    Ok(Some((_, d))) => {
                        out += 1;
                        if int(&d, "ok") != Some(1) {
                            refused += 1;
                        }
                    }
                    Ok(None) => break,
                    Err(e) => {
                        srv.alive()?;
                        srv.panics()?;
                        return Err(e);
                    }
                }
            }
        }
        if out > 0 { replied += 1 } else { closed += 1 }
        if out > 2 {
            return Err(format!("reply: {} replies to {} messages", out, 1 + twice as usize));
        }
        srv.alive()?;
        srv.panics()?;
        if k + 1 == total || case.s.chance(30) {
            c.ping()?;
        }
    }
    // the connection and the cursor which were open
    let mut id = cursor;
    while id != 0 {
        let d = c.call(&msg(doc! {"getMore": id, "collection": CONTROL, "batchSize": 50, "$db": "db"}))?;
        if int(&d, "ok") != Some(1) {
            // an odd killCursors or getMore may have named it
            break;
        }
        let (b, now, _) = batch(&d, "nextBatch")?;
        got.extend(b);
        id = now;
    }
    // an odd getMore may have read some of them
    let mut it = base.iter();
    for d in &got {
        if !it.any(|b| doc_bytes(b) == doc_bytes(d)) {
            return Err(format!("mismatch: the cursor returned {} out of turn", show(d)));
        }
    }
    lists("mismatch: the control collection", &fetch(&mut c, CONTROL)?, &base)?;
    let d = c.call(&msg(doc! {"insert": CONTROL, "documents": [{"_id": 5000}], "$db": "db"}))?;
    want_ok("insert after the attacks", &d)?;
    srv.released(sockets)?;
    srv.alive()?;
    srv.panics()?;
    srv.kill();
    let db = open(path)?;
    let mut want = base;
    want.push(doc! {"_id": 5000});
    let got = find_docs(&Col::A(db.collection(CONTROL)), &doc! {}).map_err(|e| format!("server: after the attacks: {}", e))?;
    lists("mismatch: the control collection after a restart", &got, &want)?;
    for (n, name) in [(replied, "replied"), (closed, "closed"), (refused, "refused")] {
        if n > 0 {
            case.class(name);
        }
    }
    case.nontrivial = replied > 0 && (closed > 0 || refused > 0);
    Ok(())
}
