//! C25, C26: the space of executions of the xcfg crate, in several build configurations and under an interpreter.
//! Both drive the programs of /verif/xcfg, which are rebuilt from /repo's working tree.
use crate::rep::*;
use std::collections::BTreeMap;
use std::fs::File;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn dir() -> PathBuf { root().join("xcfg") }

struct Done { ok: bool, out: String, err: String, timeout: bool, code: Option<i32>, signal: Option<i32> }

/// Runs a command with its output in files; ended after `limit` seconds.
fn run(tag: &str, mut c: Command, limit: u64) -> Done {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let o = root().join("out");
    let _ = std::fs::create_dir_all(&o);
    let (po, pe) = (o.join(format!("{tag}.stdout")), o.join(format!("{tag}.stderr")));
    let child = c.current_dir(dir()).stdin(Stdio::null()).stdout(File::create(&po).expect("out")).stderr(File::create(&pe).expect("out"))
        .process_group(0).env("RUSTFLAGS", "-Awarnings").env_remove("MC_CHILD").spawn();
    let read = || (String::from_utf8_lossy(&std::fs::read(&po).unwrap_or_default()).into_owned(), String::from_utf8_lossy(&std::fs::read(&pe).unwrap_or_default()).into_owned());
    let mut child = match child { Ok(c) => c, Err(e) => return Done { ok: false, out: String::new(), err: format!("cannot start: {e}"), timeout: false, code: None, signal: None } };
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => { let (out, err) = read(); return Done { ok: s.success(), out, err, timeout: false, code: s.code(), signal: s.signal() } }
            _ if t0.elapsed().as_secs() > limit => {
                let _ = Command::new("kill").args(["-KILL", "--", &format!("-{}", child.id())]).status();
                let _ = child.wait();
                let (out, err) = read();
                return Done { ok: false, out, err, timeout: true, code: None, signal: None }
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct Cfg { name: &'static str, tool: &'static str, profile: &'static str, features: &'static str }
/// The first one is what the others are compared with.
const CFGS: [Cfg; 7] = [
    Cfg { name: "checked-nostd", tool: "", profile: "chk", features: "" },
    Cfg { name: "checked-std-serde", tool: "", profile: "chk", features: "std,serde" },
    Cfg { name: "debug-std", tool: "", profile: "dev", features: "std" },
    Cfg { name: "release-nostd", tool: "", profile: "release", features: "" },
    Cfg { name: "release-std", tool: "", profile: "release", features: "std" },
    Cfg { name: "size-std-serde", tool: "", profile: "small", features: "std,serde" },
    Cfg { name: "release-nostd-nightly", tool: "+nightly", profile: "release", features: "" },
];

fn target(name: &str) -> PathBuf { dir().join("target").join(name) }
fn cargo(tool: &str, sub: &[&str], profile: &str, features: &str, tgt: &str) -> Command {
    let mut c = Command::new("cargo");
    if !tool.is_empty() { c.arg(tool); }
    c.args(sub).args(["--offline", "--quiet", "--profile", profile, "--target-dir"]).arg(target(tgt));
    if !features.is_empty() { c.args(["--features", features]); }
    c
}
fn bin(c: &Cfg) -> PathBuf { target(c.name).join(if c.profile == "dev" { "debug" } else { c.profile }).join("xcfg") }

/// Miri on a target (none: the host), with a Cargo feature set.
fn miri(tag: &str, triple: &str, flags: &str, features: &str, args: &[String], limit: u64) -> Done {
    let tgt = format!("miri-{}{}", if triple.is_empty() { "host" } else { triple }, if features.is_empty() { "" } else { "-f" });
    let mut c = cargo("+nightly", &["miri", "run"], "ub", features, &tgt);
    if !triple.is_empty() { c.args(["--target", triple]).env("XDG_CACHE_HOME", target(&format!("xdg-{triple}"))); }
    c.arg("--").args(args).env("MIRIFLAGS", flags);
    run(tag, c, limit)
}
const FLAGS: &str = "-Zmiri-tree-borrows -Zmiri-symbolic-alignment-check -Zmiri-disable-isolation";

fn tail(s: &str, n: usize) -> String { let v: Vec<&str> = s.lines().collect(); v[v.len().saturating_sub(n)..].join("\n") }
fn head(s: &str, n: usize) -> String { s.lines().take(n).collect::<Vec<_>>().join("\n") }

/// Is a failed build the fault of the code under test (and not of the tools)?
fn blames_code(err: &str) -> bool { err.contains("could not compile `z80emu`") || err.contains("could not compile `ral1243`") || err.contains("could not compile `xcfg`") }

fn parse(out: &str) -> (BTreeMap<&str, &str>, u64) {
    let mut m = BTreeMap::new();
    let mut cases = 0;
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("# cases ") { cases += r.split(' ').next().and_then(|s| s.parse().ok()).unwrap_or(0); continue }
        if let Some((k, v)) = l.rsplit_once(' ') { m.insert(k, v); }
    }
    (m, cases)
}

fn give_up(id: &str, what: &str, err: &str) -> ! {
    eprintln!("{id}: {what}\n{}", tail(err, 40));
    std::process::exit(2)
}

/// Everything that takes long and does not depend on /repo, and a first build of the rest.
pub fn prepare() {
    std::thread::scope(|s| {
        for c in CFGS { s.spawn(move || { run(&format!("prep-{}", c.name), build_cmd(&c), 900); }); }
        for t in ["", BE32, BE64] { s.spawn(move || {
            let nothing: Vec<String> = ["ub", "999999", "1000000", "1"].map(String::from).into();
            miri(&format!("prep-miri{t}"), t, FLAGS, "", &nothing, 900);
            if t.is_empty() { miri("prep-miri-ral", t, FLAGS, "ral", &nothing, 900); }
        }); }
    });
}
fn build_cmd(c: &Cfg) -> Command { cargo(c.tool, &["build"], c.profile, c.features, c.name) }
const BE32: &str = "powerpc-unknown-linux-gnu";
const BE64: &str = "s390x-unknown-linux-gnu";

/// Differences between two outputs, with the events of the first differing groups.
fn compare(rep: &Rep, base: (&str, &str), other: (&str, &str), partial: bool, show: impl Fn(&str) -> (String, String)) -> u64 {
    let ((a, _), (b, n)) = (parse(base.1), parse(other.1));
    let mut shown = rep.viols().min(3);
    let shown0 = shown;
    for (k, v) in &b {
        let w = a.get(k);
        if w != Some(v) {
            shown += 1;
            if shown > 3 || rep.stopped() { break }
            let (x, y) = show(k);
            let (mut i, mut d) = (0, String::new());
            for (l, m) in x.lines().zip(y.lines()) { if l != m && i < 12 { i += 1; d += &format!("  {l}\n  {m}\n"); } }
            rep.violation(format!("group {k}: {} in configuration {}, {} in configuration {}\ndiffering events (first the former, then the latter):\n{d}",
                w.copied().unwrap_or("absent"), base.0, v, other.0));
        } else if *v == "panic" {
            shown += 1;
            if shown > 3 { break }
            rep.violation(format!("group {k} panics in every configuration"));
        }
    }
    if !partial && b.len() != a.len() && shown == shown0 { rep.violation(format!("configuration {} explored {} groups, {} explored {}", other.0, b.len(), base.0, a.len())) }
    rep.add(0, b.len() as u64, n);
    n
}

pub fn c25(rep: &Rep) {
    let limit = rep.q(200, 1500);
    // the same program on a big-endian 32-bit machine (interpreted), started first: it takes longest
    let be: Vec<(&str, u64, &str, &str)> = if rep.thorough() { vec![(BE32, 4, "ub", "1"), (BE64, 4, "ub", "1")] } else { vec![(BE32, 6, "be", "1")] };
    let mut native: Vec<(Cfg, Done)> = Vec::new();
    let mut foreign: Vec<(&str, &str, Done)> = Vec::new();
    std::thread::scope(|s| {
        let hs: Vec<_> = CFGS.iter().map(|&c| s.spawn(move || {
            let d = run(&format!("C25-build-{}", c.name), build_cmd(&c), limit);
            if !d.ok { return (c, d) }
            let mut x = Command::new(bin(&c));
            x.arg("full").args(["0", "1", if rep.thorough() { "48" } else { "12" }]);
            (c, run(&format!("C25-run-{}", c.name), x, limit))
        })).collect();
        let fs: Vec<_> = be.iter().map(|&(t, n, mode, st)| s.spawn(move || {
            let nothing: Vec<String> = ["ub", "999999", "1000000", "1"].map(String::from).into();
            let first = miri(&format!("C25-build-{t}"), t, "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation", "", &nothing, limit);
            if !first.ok { return vec![(t, mode, first)] }
            std::thread::scope(|s2| {
                let v: Vec<_> = (0..n).map(|i| s2.spawn(move || {
                    let a: Vec<String> = vec![mode.into(), i.to_string(), n.to_string(), st.into()];
                    (t, mode, miri(&format!("C25-run-{t}-{i}"), t, "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation", "", &a, limit))
                })).collect();
                v.into_iter().map(|h| h.join().unwrap()).collect()
            })
        })).collect();
        for h in hs { native.push(h.join().unwrap()) }
        for h in fs { foreign.extend(h.join().unwrap()) }
    });
    let good: Vec<&(Cfg, Done)> = native.iter().filter(|(_, d)| d.ok).collect();
    if good.is_empty() { give_up("C25", "no configuration could be built", &native[0].1.err) }
    for (c, d) in &native {
        if d.ok { continue }
        if blames_code(&d.err) { rep.violation(format!("the crate does not compile in configuration {c:?}, while it does in {:?}:\n{}", good[0].0, head(&d.err, 60))) }
        else if d.signal.is_some() || d.code == Some(101) { rep.violation(format!("configuration {c:?}: the program was ended (signal {:?}, code {:?}) after\n{}\n{}", d.signal, d.code, tail(&d.out, 2), tail(&d.err, 20))) }
        else if d.timeout && !d.out.is_empty() { rep.violation(format!("configuration {c:?}: no answer within {limit} s, while others finished; last output\n{}", tail(&d.out, 2))) }
        else { give_up("C25", &format!("configuration {c:?} could not be built or run"), &d.err) }
    }
    let (bc, bd) = good[0];
    let st = if rep.thorough() { "48" } else { "12" };
    for (c, d) in good.iter().skip(1) {
        compare(rep, (bc.name, &bd.out), (c.name, &d.out), false, |g| {
            let sh = |c: &Cfg| { let mut x = Command::new(bin(c)); x.args(["show", g, st]); run("C25-show", x, 60).out };
            (sh(bc), sh(c))
        });
    }
    let cases = parse(&bd.out).1;
    rep.add(cases, parse(&bd.out).0.len() as u64, cases);
    for mode in ["be", "ub"] {
        if !foreign.iter().any(|f| f.1 == mode) { continue }
        let mut x = Command::new(bin(bc));
        x.args([mode, "0", "1", "1"]);
        let nat = run("C25-native-sub", x, limit);
        if !nat.ok { give_up("C25", "the native run of the smaller space failed", &nat.err) }
        for (t, _, d) in foreign.iter().filter(|f| f.1 == mode) {
            if !d.ok {
                if blames_code(&d.err) { rep.violation(format!("the crate does not compile for {t}:\n{}", head(&d.err, 60))); continue }
                if d.err.contains("error: Undefined Behavior") || d.timeout && !d.out.is_empty() { rep.violation(format!("on {t}: the run ended after\n{}\n{}", tail(&d.out, 2), head(&d.err, 60))); continue }
                give_up("C25", &format!("the run for {t} failed"), &d.err)
            }
            let n = compare(rep, (bc.name, &nat.out), (t, &d.out), true, |g| {
                let mut x = Command::new(bin(bc));
                x.args([if mode == "be" { "showbe" } else { "showub" }, g, "1"]);
                let a = run("C25-show", x, 60).out;
                let b = miri("C25-show-be", t, "-Zmiri-disable-isolation", "", &[if mode == "be" { "showbe" } else { "showub" }.into(), g.to_string(), "1".into()], 120).out;
                (a, b)
            });
            rep.add(n, 0, 0);
        }
    }
    // documented feature sets that have to compile
    let mut c = Command::new("cargo");
    c.args(["check", "--offline", "--quiet", "--manifest-path", "/repo/Cargo.toml", "--no-default-features", "--features", "serde", "--target-dir"]).arg(target("feat-serde"));
    let d = run("C25-feat-serde", c, limit);
    if !d.ok {
        if d.err.contains("could not compile `z80emu`") { rep.violation_keyed("build:serde-without-std", format!("feature `serde` without `std` does not compile:\n{}", head(&d.err, 40))) }
        else { give_up("C25", "cargo check with feature serde failed", &d.err) }
    }
    let mut c = Command::new("cargo");
    c.args(["check", "--offline", "--quiet", "--no-default-features", "--features", "ral", "--target-dir"]).arg(target("feat-ral"));
    let d = run("C25-feat-ral", c, limit);
    if !d.ok {
        if blames_code(&d.err) { rep.violation(format!("ral1243 does not compile against z80emu without `std`:\n{}", head(&d.err, 40))) }
        else { give_up("C25", "cargo check of ral1243 without std failed", &d.err) }
    }
    rep.bound(format!("{} build configurations: {}", CFGS.len(), CFGS.map(|c| format!("{} (profile {}, features [{}])", c.name, c.profile, c.features)).join("; ")));
    rep.bound(format!("every opcode of the 7 pages x 3 flavours x entry points execute_next, with debugger, execute_with_limit, execute_instruction, irq, nmi x {st} register/pointer/flag states; every operand pair of the 8-bit ALU; DAA and accumulator operations on all A x F; every CB operation on every value; parsers, register pairs, disassembler, clock counters, dynamic flavours"));
    rep.bound(format!("interpreted on {}: every opcode of the 7 pages (first state), parsers, register pairs, disassembler, dynamic flavours", be.iter().map(|b| b.0).collect::<Vec<_>>().join(", ")));
    rep.sample(|| head(&bd.out, 3));
    rep.note("a difference is observed through a 64-bit hash per group of executions; equal hashes of different event lists are not excluded");
}

pub fn c26(rep: &Rep) {
    let limit = rep.q(400, 5400);
    let n = nthreads().max(2) as u64;
    let nothing: Vec<String> = ["ub", "999999", "1000000", "1"].map(String::from).into();
    let d = miri("C26-build", "", FLAGS, "", &nothing, limit);
    if !d.ok {
        if d.err.contains("error: Undefined Behavior") { rep.violation(format!("undefined behaviour at start:\n{}", head(&d.err, 60))); return }
        give_up("C26", "the interpreter could not be started", &d.err)
    }
    let mut jobs: Vec<(String, Vec<String>, &str, &str)> = Vec::new();
    let st = rep.q("1", "2");
    for (k, f) in [("tb", FLAGS), ("sb", "-Zmiri-disable-isolation")].into_iter().take(rep.q(1, 2)) {
        for i in 0..n { jobs.push((format!("C26-{k}-{i}"), vec!["ub".into(), i.to_string(), n.to_string(), st.into()], f, "")) }
    }
    let d = miri("C26-build-ral", "", FLAGS, "ral", &nothing, limit);
    if d.ok {
        let m = rep.q(4, 8);
        for i in 0..m { jobs.push((format!("C26-ral-{i}"), vec!["ral".into(), i.to_string(), m.to_string(), rep.q("1", "3").into()], FLAGS, "ral")) }
        for i in 0..rep.q(2, 8) { jobs.push((format!("C26-ralw-{i}"), vec!["ralwrite".into(), i.to_string(), rep.q("2", "8").into(), rep.q("1", "3").into()], "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation", "ral")) }
        jobs.push(("C26-ralalias".into(), vec!["ralwrite".into(), "0".into(), "1".into(), "1".into()], FLAGS, "ral"));
    } else if blames_code(&d.err) { rep.note("ral1243 does not compile: its memory was not explored") }
    else { give_up("C26", "the interpreter could not be started with ral1243", &d.err) }
    let jobs = std::sync::Mutex::new(jobs.into_iter());
    std::thread::scope(|s| for _ in 0..n { s.spawn(|| loop {
        let Some((tag, args, flags, feat)) = jobs.lock().unwrap().next() else { break };
        if rep.stopped() { break }
        let d = miri(&tag, "", flags, feat, &args, limit);
        let (m, cases) = parse(&d.out);
        rep.add(m.len().max(cases as usize) as u64, m.len() as u64, m.len() as u64);
        if d.ok { rep.sample(|| head(&d.out, 2)); continue }
        if d.err.contains("error: Undefined Behavior") || d.err.contains("error: memory leaked") {
            let key = if tag == "C26-ralalias" && d.err.contains("ral1243/src/memory.rs") && d.err.contains("forbidden") { "ral-bank-alias" } else { "" };
            rep.violation_keyed(key, format!("xcfg {} (MIRIFLAGS={flags}): undefined behaviour in the group after `{}`\n{}", args.join(" "), tail(&d.out, 1), head(&d.err, 80)));
        }
        else if d.timeout { rep.violation(format!("xcfg {}: no answer within {limit} s after `{}`", args.join(" "), tail(&d.out, 1))) }
        else { give_up("C26", &format!("the interpreter failed on xcfg {} after `{}`", args.join(" "), tail(&d.out, 1)), &d.err) }
    }); });
    rep.bound(format!("{} x {st} states; interrupts with every vector; every parser code, register pair operation, one disassembly per opcode and page, dynamic flavours",
        rep.q("every opcode of the 7 pages with debugger on Z80NMOS, of the unprefixed and ED pages on Z80CMOS and Z80BM1", "every opcode of the 7 pages x 3 flavours x 6 entry points")));
    rep.bound(format!("memory of ral1243: RAM sizes 0, 1, 48 KB x 0, 2 EX-ROMs x all histories of {} bank changes x every region boundary", rep.q(2, 4)));
    rep.note("undefined behaviour is what Miri detects (Tree Borrows aliasing rules; thorough: Stacked Borrows as well)");
}
