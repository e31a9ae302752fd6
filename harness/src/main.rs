mod engine;
mod gen;
mod lang;
mod model;
mod props;
#[macro_use]
mod runner;
mod sys;

use runner::*;

fn usage() -> ! {
    eprintln!("usage: vh run ID quick|thorough | vh replay FILE | vh list");
    std::process::exit(2)
}

fn limit_cpu(secs: u64) {
    let r = libc::rlimit { rlim_cur: secs, rlim_max: secs + 5 };
    unsafe { libc::setrlimit(libc::RLIMIT_CPU, &r); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { usage() }
    sys::quiet_stdout();
    install_panic_hook();
    if a[1] == "list" { for p in props::all() { sys::out(p.id); } return; }
    if a.len() < 3 { usage() }
    let find = |id: &str| props::all().into_iter().find(|p| p.id == id);
    let code = match a[1].as_str() {
        "run" => {
            let Some(p) = find(&a[2]) else { eprintln!("no such property"); std::process::exit(2) };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            supervise(&p, seed, tier == "thorough")
        }
        "child" => {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
            child(&find(&a[2]).unwrap(), a[4].parse().unwrap(), a[3] == "thorough", &a[5], &a[6])
        }
        "index" => {
            limit_cpu(60);
            let p = find(&a[2]).unwrap();
            let l = p.legs.iter().find(|l| l.name() == a[3]).unwrap();
            match l.run_index(a[4].parse().unwrap(), a[5].parse().unwrap()) { Err(Fail::Broken(m)) => { eprintln!("{m}"); 1 } _ => 0 }
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("read")).expect("json");
            let p = find(v["property"].as_str().unwrap()).expect("property");
            let l = p.legs.iter().find(|l| Some(l.name()) == v["leg"].as_str()).expect("leg");
            limit_cpu(120);
            match l.replay(&v["case"]) {
                Ok(()) => { sys::out("passes"); 0 }
                Err(Fail::Broken(m)) => { sys::out(&format!("fails: {m}")); 1 }
                Err(Fail::Env(m)) => { sys::out(&format!("could not run: {m}")); 2 }
            }
        }
        _ => usage(),
    };
    // Server threads a case started may still be running.
    unsafe { libc::_exit(code) }
}
