pub mod hist;
pub mod query;
pub mod crash;
pub mod conc;
pub mod damage;
pub mod server;
pub mod text;
pub mod res;
pub mod python;
pub mod data;
use crate::runner::Prop;

pub const CRASH: &[&str] = &[
    "the reference model (harness/src/model.rs) states the intended behaviour",
    "calls which change files are seen at the C library: a crash is the end of the process at one of them, power loss keeps what was synced and a prefix of the rest of each file; created, renamed and removed names are kept",
    "RocksDB logs with fwrite (LOG), which is not counted; reads are not failed",
];

pub const BASE: &[&str] = &[
    "the reference model (harness/src/model.rs) states the intended behaviour",
    "RocksDB, the bson crate and the file system are trusted",
];

pub const CONC: &[&str] = &[
    "the small sequential model in harness/src/props/conc.rs states the intended behaviour",
    "the operating system chooses the schedules; pauses inside transactions make overlaps likely",
    "where there are transactions, an error from waiting for a lock (1 s) is accepted as an operation without effect; without them it has to show again in two of 30 further runs, on a disk which is not slow",
];

pub const DAMAGE: &[&str] = &[
    "the reference model (harness/src/model.rs) states the intended behaviour",
    "RocksDB detects the damage of a table file by its checksums; damage to other files (logs, MANIFEST) and to the last 200 bytes of a table file, other than truncation, is not generated",
];

pub const PYTHON: &[&str] = &["the library is right: it is the subject of the other properties", "the interpreter is /opt/vp/venv/bin/python"];
const RES: &[&str] = &[
    "what a process uses is what mallinfo2 of the C library and /proc/self report; growth is a leak when it goes on at the same rate in three series of rounds of growing length",
];
const SERVER: &[&str] = &[
    "for each command the same call of the library, on a second database, states the intended result",
    "the server is ended with SIGKILL: what the operating system has taken is not lost",
    "the client is a small one of the harness (OP_MSG, OP_QUERY for the handshake), not a MongoDB driver",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", level: "exploration", rule: "a case is a random history of up to 40 operations on three collections with reopens; non-trivial: at least 3 operations changed data and documents remain", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: hist::c01, known: &[] },
        Prop { id: "C03", level: "exploration", rule: "a case is a random interleaving of three transactions and operations outside of them; non-trivial: a commit with writes, a rollback or drop, and a view of one side while the other had uncommitted writes", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: hist::c03, known: &[] },
        Prop { id: "C04", level: "exploration", rule: "a case is a history rich in failing operations; non-trivial: an operation failed on a collection with documents or inside a batch", assumptions: BASE, quick: 3000, thorough: 200_000, workers: 8, deterministic: true, run: hist::c04, known: &[] },
        Prop { id: "C05", level: "exploration", rule: "a case is a history of inserts, updates and lookups around ids; non-trivial: a duplicate id was rejected, and an id was generated or a document updated", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: hist::c05, known: &[] },
        Prop { id: "C06", level: "exploration", rule: "a case is a history on a collection with unique indexes; non-trivial: a duplicate was rejected and more than 2 operations changed data", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: hist::c06, known: &[] },
        Prop { id: "C07", level: "exploration", rule: "a case is a history on a collection with changing indexes and on its twin without any; non-trivial: at least 2 queries found documents while indexes existed and at least 2 operations changed data", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: hist::c07, known: &[] },
        Prop { id: "C08", level: "exploration", rule: "a case is a collection of up to 10 documents, 10 random comparisons and 2 sets of related comparisons; non-trivial: at least 3 of them matched some but not all documents", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: query::c08, known: &[] },
        Prop { id: "C09", level: "exploration", rule: "a case is a collection of up to 10 documents, 8 random nested queries and 6 sets of related queries; non-trivial: at least 3 of them matched some but not all documents", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: query::c09, known: &[] },
        Prop { id: "C10", level: "exploration", rule: "a case is a collection of up to 10 documents, 10 random conditions by $in, $nin, $all, $size or $regex and 2 sets of related ones; non-trivial: at least 3 of them matched some but not all documents", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: query::c10, known: &[] },
        Prop { id: "C11", level: "exploration", rule: "a case is a collection of up to 8 documents and up to 24 random updates; non-trivial: at least 3 updates modified documents and one was rejected, or 5 modified documents", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: query::c11, known: &[] },
        Prop { id: "C12", level: "exploration", rule: "a case is a small collection and up to 24 updates, most of them upserts; non-trivial: at least one inserted a document and one updated some", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: query::c12, known: &[] },
        Prop { id: "C13", level: "exploration", rule: "a case is a collection of up to 24 documents (up to 160 with numbers which differ by very little), 6 random finds with sort, skip and limit, one read in pages and cursors read step by step; non-trivial: at least 3 sorted results of 2 or more documents", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: query::c13, known: &[] },
        Prop { id: "C14", level: "exploration", rule: "a case is a collection of up to 16 documents and 10 random pipelines; non-trivial: at least 3 returned documents and at least 3 had 2 or more stages after $match", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: query::c14, known: &[] },
        Prop { id: "C22", level: "exploration", rule: "a case is a collection of up to 14 documents and 5 random queries, each used by eight operations; non-trivial: at least 2 queries matched some but not all documents", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: query::c22, known: &[] },
        Prop { id: "C15", level: "exploration", rule: "a case is up to 6 documents of arbitrary BSON values (some large, deep or wide) and up to 3 typed records, written, read in several ways, updated and read again after reopening; non-trivial: at least 4 BSON types", assumptions: BASE, quick: 6000, thorough: 200_000, workers: 8, deterministic: true, run: data::c15, known: &[] },
        Prop { id: "C16", level: "exploration", rule: "a case is a history on up to 8 collections whose names are often prefixes of each other, with invalid names in between; non-trivial: a collection was created, one dropped and an operation rejected", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: data::c16, known: &[] },
        Prop { id: "C18", level: "exploration", rule: "a case is up to 40 operations with random or mutated queries, updates, pipelines, documents, index definitions and names; non-trivial: at least 2 failed and at least 2 succeeded", assumptions: BASE, quick: 6000, thorough: 400_000, workers: 8, deterministic: true, run: data::c18, known: &[] },
        Prop { id: "C02", level: "fault_enumeration", rule: "a case is 1 to 3 sessions of up to 20 operations and transactions, each ended or failed at one call that changes a file and followed by recovery; non-trivial: the process was ended at a call and documents or indexes were acknowledged or in flight", assumptions: CRASH, quick: 1600, thorough: 40_000, workers: 8, deterministic: true, run: crash::c02, known: &[("torn-first-record", crash::known_torn_first), ("used-after-io-error", crash::known_used_after)] },
        Prop { id: "C17", level: "exploration", rule: "a case is 2 to 8 threads which run random operations, and in most cases transactions, on one or two collections; non-trivial: at least 3 pairs of operations of different threads overlapped, one of them two writes", assumptions: CONC, quick: 4000, thorough: 200_000, workers: 12, deterministic: false, run: conc::c17, known: &[] },
        Prop { id: "C24", level: "exploration", rule: "a case is a history of operations with up to 4 open cursors which are read step by step in between; non-trivial: at least 2 reads of cursors after writes returned documents, and at least 2 cursors were read to their end", assumptions: BASE, quick: 4000, thorough: 200_000, workers: 8, deterministic: true, run: conc::c24, known: &[] },
        Prop { id: "C23", level: "fault_enumeration", rule: "a case is 1 to 3 sessions of writes, damage to one or more table files of the closed database and two sessions of operations on it; non-trivial: an operation on the damaged database was right and another reported the damage", assumptions: DAMAGE, quick: 2000, thorough: 200_000, workers: 24, deterministic: true, run: damage::c23, known: &[] },
        Prop { id: "C19", level: "exploration", rule: "a case is up to 30 commands on up to three connections and two sessions of a running server, and the same operations by direct calls on a second database; non-trivial: at least 2 reads found documents, at least 3 writes succeeded, and a cursor was continued or a transaction committed", assumptions: SERVER, quick: 2000, thorough: 100_000, workers: 16, deterministic: true, run: server::c19, known: &[] },
        Prop { id: "C20", level: "exploration", rule: "a case is up to 12 connections which send odd, damaged or random messages to a server with a control collection, an open connection and an open cursor; non-trivial: one was replied to, and one was refused or closed", assumptions: SERVER, quick: 4000, thorough: 100_000, workers: 16, deterministic: true, run: server::c20, known: &[] },
        Prop { id: "C21", level: "exploration", rule: "a case is up to 35 calls through the Python binding on databases prepared by the library, and the same operations by direct calls on a second database; non-trivial: at least 3 writes changed documents, 2 reads found documents and one call raised an exception", assumptions: PYTHON, quick: 3000, thorough: 100_000, workers: 8, deterministic: true, run: python::c21, known: &[] },
        Prop { id: "C25", level: "exploration", rule: "a case is 12 pairs of texts, most of them a few edits apart; non-trivial: at least 5 pairs differ and have lines in common", assumptions: &["the distance of two texts is that of Levenshtein, by lines"], quick: 20_000, thorough: 1_000_000, workers: 8, deterministic: true, run: text::c25, known: &[] },
        Prop { id: "C26", level: "exploration", rule: "a case is up to 12 operations and transactions without a lasting effect, or sessions with lasting ones, which are repeated 68 times or more; non-trivial: at least two of these: operations failed, transactions were not committed, cursors were dropped before their end", assumptions: RES, quick: 1600, thorough: 100_000, workers: 8, deterministic: true, run: res::c26, known: &[] },
    ]
}
