mod gens;
mod model;
mod props;
mod runner;
mod src;
mod sys;

use std::path::Path;

/// For C26, whose oracle is the memory in use: what threads keep for later use is not counted.
fn without_caches(id: &str) {
    use std::os::unix::process::CommandExt;
    const T: &str = "GLIBC_TUNABLES";
    if id == "C26" && std::env::var_os(T).is_none() {
        let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env(T, "glibc.malloc.tcache_count=0").exec();
        eprintln!("{}", e);
        std::process::exit(2);
    }
}

fn main() {
    runner::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let ps = props::props();
    let find = |id: &str| ps.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {}", id);
        std::process::exit(2)
    });
    match a.get(1).map(|x| x.as_str()) {
        Some("run") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64);
            let p = find(&a[2]);
            std::process::exit(runner::run(p, &a[3], seed));
        }
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            without_caches(&a[2]);
            runner::worker(find(&a[2]), &a[3], n(4), n(5), n(6), n(7), n(8), Path::new(&a[9]), n(10));
        }
        Some("exec") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
            without_caches(v["property"].as_str().unwrap());
            match runner::exec_file(find(v["property"].as_str().unwrap()), &v) {
                None => println!("PASS"),
                Some(m) => {
                    println!("FAIL {}", m.replace('\n', " "));
                    std::process::exit(3);
                }
            }
        }
        Some("crashchild") => props::crash::child(&a[2..]),
        Some("dump") => {
            let db = sys::open(Path::new(&a[2])).expect("open");
            for n in db.list_collection_names().expect("names") {
                let v = sys::find_docs(&sys::Col::A(db.collection(&n)), &Default::default()).expect("find");
                println!("{}: {} documents", n, v.len());
                for d in v.iter().take(20) {
                    println!("  {}", d.to_string().chars().take(200).collect::<String>());
                }
            }
        }
        Some("list") => {
            for p in &ps {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: pt run ID TIER | pt exec FILE | pt list");
            std::process::exit(2);
        }
    }
}
