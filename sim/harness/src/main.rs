//! Deterministic simulation of the Aptos Move language server.
mod sys;
mod model;
mod r#gen;
mod lsp;
mod plan;
mod run;
mod judge;
#[path = "../../../target/gen/server_main.rs"]
mod server_main;

use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};

fn env(k: &str) -> Option<String> { std::env::var(k).ok() }
static ARGV: std::sync::atomic::AtomicPtr<*const libc::c_char> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
extern "C" fn keep_argv(_argc: libc::c_int, argv: *mut *const libc::c_char, _envp: *const *const libc::c_char) { ARGV.store(argv, std::sync::atomic::Ordering::Relaxed); }
#[used]
#[unsafe(link_section = ".init_array.00000")]
static KEEP_ARGV: extern "C" fn(libc::c_int, *mut *const libc::c_char, *const *const libc::c_char) = keep_argv;
const ARG_SLOTS: usize = 24;
/// what `std::env::args` yields from now on
pub fn set_args(args: &[String]) {
    let p = ARGV.load(std::sync::atomic::Ordering::Relaxed);
    assert!(args.len() < ARG_SLOTS);
    for i in 0..ARG_SLOTS {
        let v = match args.get(i) { Some(a) => std::ffi::CString::new(a.as_str()).unwrap().into_raw() as *const _, None => std::ptr::null() };
        unsafe { *p.add(i + 1) = v; }
    }
}
/// re-executes with a fixed address space layout and a controlled environment and command line
fn reexec(args: &[String], cpus_note: &str) -> ! {
    use std::os::unix::process::CommandExt;
    unsafe { libc::personality(0x0040000); }
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let mut c = std::process::Command::new(exe);
    c.arg0("aptos-language-server").args(args).args(vec!["-"; ARG_SLOTS - args.len()]);
    let keep: Vec<(String, String)> = std::env::vars().filter(|(k, _)| k.starts_with("SIM_")).collect();
    c.env_clear().envs(keep).env("HOME", "/simws/home").env("PATH", "/simws/bin").env("RUST_BACKTRACE", "0").env("SIM_STAGE2", cpus_note);
    let e = c.exec();
    panic!("exec: {e}");
}

fn main() {
    if env("SIM_STAGE2").is_none() {
        let a: Vec<String> = std::env::args().skip(1).collect();
        match a.first().map(|s| s.as_str()) {
            Some("worker") => { unsafe { std::env::set_var("SIM_JOB", &a[1]); } reexec(&[], "worker") }
            Some("one") => { unsafe { std::env::set_var("SIM_JOB", &a[1]); } reexec(&[], "one") }
            Some("plan") => { let p = plan::plan(&a[1], a[2].parse().unwrap()); println!("{}", serde_json::to_string_pretty(&json!({"plan": p})).unwrap()); return; }
            _ => { eprintln!("usage: simlsp worker JOB | one FILE | plan PROP SEED"); std::process::exit(2) }
        }
    }
    let scratch = env("SIM_SCRATCH").unwrap_or_else(|| { let b = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" }; format!("{b}/simlsp-{}", std::process::id()) });
    let own = env("SIM_SCRATCH").is_none();
    std::fs::create_dir_all(&scratch).unwrap();
    sys::set_root(&format!("{scratch}/root"));
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "payload".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit("/crates/").next().unwrap_or(""), l.line())).unwrap_or_default();
        simrt::record_panic(format!("{msg} at {loc}"));
        if !simrt::in_sim() || std::env::var("SIM_BT").is_ok() { sys::real_err(&format!("panic: {msg} at {loc}\n{}\n", if std::env::var("SIM_BT").is_ok() { std::backtrace::Backtrace::force_capture().to_string() } else { String::new() })); }
    }));
    match env("SIM_STAGE2").unwrap().as_str() {
        "one" => { let r = one(&env("SIM_JOB").unwrap()); println!("{r}"); }
        _ => worker(&scratch),
    }
    if own { let _ = std::fs::remove_dir_all(&scratch); }
}

/// runs one plan and judges it
fn case(p: &plan::Plan, trace: bool, picks: Option<BTreeMap<u64, usize>>, want_picks: bool) -> Value {
    let t0 = std::time::Instant::now();
    let done = if p.mode == "cli" { run::cli_run(p, trace, picks) } else { run::main_run(p, trace, picks) };
    let v = judge::judge(p, &done);
    let s = done.sh.lock().unwrap_or_else(|e| e.into_inner());
    let st = &done.out.stats;
    let mut ops: BTreeMap<String, u64> = BTreeMap::new();
    for o in &p.ops { let k = serde_json::to_value(o).unwrap(); let mut n = k["op"].as_str().unwrap_or("").to_string(); if n == "req" { n = format!("req {}", k["kind"].as_str().unwrap_or("")); } *ops.entry(n).or_insert(0) += 1; }
    let mut r = json!({
        "prop": p.prop, "seed": p.seed, "violations": v.violations, "inconclusive": v.inconclusive,
        "steps": st.steps, "switches": st.switches, "preemptions": st.preemptions, "sim_ns": st.sim_nanos, "tasks": st.tasks, "hash": format!("{:016x}", st.sched_hash ^ if p.mode == "cli" { text_hash(&s.out.0).rotate_left(1) ^ text_hash(&s.out.1) } else { 0 }), "time_jumps": st.time_jumps,
        "refs": v.refs, "ref_steps": v.ref_steps, "ref_ns": v.ref_nanos, "compared": v.compared, "seen": v.kinds,
        "counters": s.counters, "faults": s.faults, "ops": ops, "policy": format!("{:?}", p.policy).split('(').next().unwrap_or(""), "panics": done.out.panics.iter().filter(|p| p.0 != "driver").map(|p| format!("{}: {}", p.0, p.1)).collect::<Vec<_>>(),
        "ms": t0.elapsed().as_millis() as u64, "mode": p.mode, "fmt": p.fmt, "ending": p.ending,
    });
    if want_picks { r["picks"] = json!(done.out.picks); }
    if trace { r["trace"] = json!(done.out.trace); r["stderr"] = json!(String::from_utf8_lossy(&s.out.1)); r["stdout"] = json!(String::from_utf8_lossy(&s.out.0)); }
    r
}
fn text_hash(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }
/// a replay file: {"plan", optional "picks", "trace", "want_picks"}
fn one(f: &str) -> Value {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    let p: plan::Plan = serde_json::from_value(v["plan"].clone()).unwrap();
    let picks = v["picks"].as_array().map(|a| a.iter().filter_map(|x| Some((x[0].as_u64()?, x[1].as_u64()? as usize))).collect());
    case(&p, v["trace"] == json!(true), picks, v["want_picks"] == json!(true))
}
/// reads "PROP SEED" lines, answers each with one line of JSON; every case runs in a forked child
fn worker(scratch: &str) {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { break };
        let mut it = l.split_whitespace();
        let (Some(cmd), Some(a)) = (it.next(), it.next()) else { break };
        let b = it.next().unwrap_or("0").to_string();
        let r = isolated(scratch, cmd, a, &b);
        let mut o = stdout.lock();
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
fn isolated(scratch: &str, cmd: &str, a: &str, b: &str) -> String {
    let out = format!("{scratch}/out");
    let _ = std::fs::remove_file(&out);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: 40, rlim_max: 45 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = match cmd { "file" => one(a), _ => case(&plan::plan(a, b.parse().unwrap_or(0)), false, None, false) };
            std::fs::write(&out, r.to_string()).unwrap();
            libc::_exit(0);
        }
        let mut st = 0;
        let t0 = std::time::Instant::now();
        loop {
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid { break; }
            if t0.elapsed().as_secs() > 240 { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); return json!({"prop": a, "seed": b.parse::<u64>().unwrap_or(0), "died": "wall-clock limit"}).to_string(); }
            std::thread::sleep(std::time::Duration::from_micros(300));
        }
        match std::fs::read_to_string(&out) {
            Ok(s) if libc::WIFEXITED(st) && !s.trim().is_empty() => s.trim().to_string(),
            _ => json!({"prop": a, "seed": b.parse::<u64>().unwrap_or(0), "died": if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("exit {}", libc::WEXITSTATUS(st)) }}).to_string(),
        }
    }
}
