mod host;
mod refm;
mod rep;
mod sut;
mod onestep;
mod lock;
mod seq;
mod alu;
mod prog;
mod dis;
mod debugck;
mod serdeck;
mod serfmt;
mod api;
mod helpers;
mod nopanic;
mod ral_mem;
mod ral_io;
mod ral_ctc;
mod ral_run;
mod xcfgck;
mod checks_a;

use rep::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = match a.get(2).map(|s| s.as_str()) { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
    if std::env::var_os("MC_CHILD").is_none() { std::process::exit(supervise(&id)) }
    install_panic_hook();
    start_watchdog(id.clone());
    if id == "C38W" { ral_run::c38_worker(tier == Tier::Thorough); return }
    if id == "DISPRINT" { debugck::print_all(); return }
    if id == "PREPARE" { xcfgck::prepare(); return }
    let rep = Rep::new(&id, tier);
    let ok = checks_a::run(&id, &rep);
    if !ok { eprintln!("unknown property {id}"); std::process::exit(2) }
    std::process::exit(rep.finish());
}

/// Runs the check in a child process: code under test that brings the process down (abort, fault) is a violation.
fn supervise(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let st = std::process::Command::new(exe).args(std::env::args().skip(1)).env("MC_CHILD", "1").status().expect("child");
    if let Some(c) = st.code() { return c }
    let sig = st.signal().unwrap_or(0);
    if matches!(sig, 4 | 6 | 7 | 8 | 11) {
        let p = root().join("out").join(format!("{id}-crash.txt"));
        println!("the process was ended by signal {sig} inside the code under test");
        println!("VIOLATION property={id} replay={}", p.display());
        return 1;
    }
    eprintln!("{id}: the checker was ended by signal {sig}");
    2
}
