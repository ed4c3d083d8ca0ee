mod engine;
mod val;
mod gen;
mod ctl;
mod kinds;
mod chars;
mod exprs;
mod total;
mod json;
mod wrap;
mod funcs;
mod hist;
mod files;
mod lex;
mod common;
mod ast;
mod interp;
mod mfun;
mod registry;

use engine::*;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Known {
    key: String,
    text: String,
}
fn known_findings(id: &str) -> Vec<Known> {
    // lines: known: property=<id> key=<json string> <what fails>
    let p = verif_dir().join("KNOWN_FINDINGS.txt");
    let s = std::fs::read_to_string(p).unwrap_or_default();
    let mut r = vec![];
    for l in s.lines() {
        let pre = format!("known: property={} key=", id);
        if let Some(rest) = l.strip_prefix(&pre) {
            let mut it = serde_json::Deserializer::from_str(rest).into_iter::<String>();
            if let Some(Ok(key)) = it.next() {
                let text = rest[it.byte_offset()..].trim().to_string();
                r.push(Known { key, text });
            }
        }
    }
    r
}

fn main() {
    files::set_env();
    let args: Vec<String> = std::env::args().collect();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let get = |f: &str| args.iter().position(|a| a == f).and_then(|p| args.get(p + 1)).cloned();
    match get("--tier").as_deref() {
        Some("thorough") => tier = Tier::Thorough,
        Some("quick") => tier = Tier::Quick,
        _ => {}
    }
    let scratch = get("--scratch").map(PathBuf::from);
    if args.get(1).map(|s| s.as_str()) == Some("--list") {
        for id in registry::ids() {
            println!("{}", id);
        }
        return;
    }
    if let Some(id) = get("--spaces") {
        for s in registry::spaces(&id, tier).expect("unknown id") {
            println!("{:12} {:28} {}", s.size, s.name, s.bounds);
        }
        return;
    }
    if let Some(id) = get("--worker") {
        std::process::exit(worker(&id, tier, &scratch.expect("scratch")));
    }
    if let Some(id) = get("--case") {
        let sp = get("--space").expect("space");
        let i: u64 = get("--index").expect("index").parse().expect("index");
        std::process::exit(one_case(&id, tier, &sp, i, scratch));
    }
    if let Some(f) = get("--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("json");
        let t = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        let sc = mk_scratch("replay");
        let rc = one_case(v["property"].as_str().unwrap(), t, v["space"].as_str().unwrap(), v["index"].as_u64().unwrap(), Some(sc.clone()));
        std::fs::remove_dir_all(&sc).ok();
        std::process::exit(rc);
    }
    let id = args.get(1).cloned().unwrap_or_default();
    if !registry::ids().contains(&id.as_str()) {
        eprintln!("usage: mc <property id> [--tier quick|thorough] | --replay FILE | --spaces ID | --list");
        std::process::exit(2);
    }
    std::process::exit(supervise(&id, tier));
}

fn mk_scratch(tag: &str) -> PathBuf {
    let p = std::env::temp_dir().join(format!("mc-{}-{}", tag, std::process::id()));
    std::fs::create_dir_all(&p).expect("scratch");
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).expect("chmod scratch");
    p
}

/// what the code under test does, it does as nobody, with files of its own in the scratch directory only
fn become_nobody(scratch: &Path) {
    const NOBODY: u32 = 65534;
    unsafe {
        libc::umask(0o022);
        if libc::geteuid() != 0 {
            return;
        }
    }
    std::os::unix::fs::chown(scratch, Some(NOBODY), Some(NOBODY)).expect("chown scratch");
    if let Ok(es) = std::fs::read_dir(scratch) {
        for e in es.filter_map(|e| e.ok()) {
            std::os::unix::fs::lchown(e.path(), Some(NOBODY), Some(NOBODY)).expect("chown scratch");
        }
    }
    unsafe {
        let ok = libc::setgroups(0, std::ptr::null()) == 0 && libc::setgid(NOBODY) == 0 && libc::setuid(NOBODY) == 0;
        if !ok {
            eprintln!("could not become an unprivileged user: {}", std::io::Error::last_os_error());
            std::process::exit(3);
        }
    }
    std::env::set_current_dir(scratch).expect("chdir scratch");
}

fn one_case(id: &str, tier: Tier, space: &str, index: u64, scratch: Option<PathBuf>) -> i32 {
    install_hook();
    let sc = scratch.unwrap_or_else(|| mk_scratch("case"));
    become_nobody(&sc);
    let spaces = registry::spaces(id, tier).expect("unknown property");
    for s in spaces {
        if s.name == space {
            let mut ctx = Ctx::new(0, sc.join("t0"));
            ctx.verbose = true;
            return match (s.run)(index, &mut ctx) {
                Ok(()) => {
                    println!("case {}#{}: holds", space, index);
                    0
                }
                Err(v) => {
                    println!("case {}#{}: VIOLATED\n  {}\n  {}", space, index, v.key, v.detail);
                    1
                }
            };
        }
    }
    eprintln!("no such space");
    2
}

fn worker(id: &str, tier: Tier, scratch: &Path) -> i32 {
    install_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let nc = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &nc);
    }
    let slots = map_slots(&scratch.join("slots"));
    let spaces = Arc::new(registry::spaces(id, tier).expect("unknown property"));
    let known: Vec<String> = known_findings(id).into_iter().map(|k| k.key).collect();
    become_nobody(scratch);
    unsafe {
        // some functions print
        let n = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(n, 1);
        if std::env::var("MC_STDERR").is_err() {
            libc::dup2(n, 2);
        }
    }
    let cap = Duration::from_secs(std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(400, 3000)));
    let rep = explore(spaces.clone(), slots, &known, cap, scratch);
    let vj = |v: &Vec<(usize, u64, Viol)>| {
        v.iter()
            .map(|(s, i, v)| json!({"space": spaces[*s].name, "index": i, "key": v.key, "detail": v.detail}))
            .collect::<Vec<_>>()
    };
    let j = json!({
        "states": rep.states, "transitions": rep.trans, "traces": rep.traces, "nontrivial": rep.nontrivial,
        "cases": rep.cases, "exhausted": rep.exhausted, "samples": rep.samples,
        "spaces": rep.spaces.iter().map(|(n,b,s,e)| json!({"name":n,"bounds":b,"size":s,"explored":e})).collect::<Vec<_>>(),
        "viols": vj(&rep.viols), "known": vj(&rep.known),
    });
    std::fs::write(scratch.join("report.json"), j.to_string()).expect("report");
    0
}

fn spawn(args: &[&str]) -> std::process::Child {
    Command::new(std::env::current_exe().expect("exe"))
        .args(args)
        .stdin(Stdio::null())
        .spawn()
        .expect("spawn self")
}
fn wait(mut c: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            c.kill().ok();
            c.wait().ok();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn write_replay(id: &str, tier: Tier, space: &str, index: u64, key: &str, detail: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).expect("replays dir");
    let p = dir.join(format!("{}-{}-{}.json", id, space, index));
    let j = json!({"property": id, "tier": tier.name(), "space": space, "index": index, "key": key, "detail": detail,
        "replay_with": format!("cd /verif && bash run.sh --replay {}", p.display())});
    std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
    p
}

fn supervise(id: &str, tier: Tier) -> i32 {
    let sc = mk_scratch(id);
    let rc = supervise_in(id, tier, &sc);
    std::fs::remove_dir_all(&sc).ok();
    rc
}

fn supervise_in(id: &str, tier: Tier, sc: &Path) -> i32 {
    let start = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev_path = verif_dir().join("evidence").join(format!("{}.json", id));
    std::fs::create_dir_all(ev_path.parent().unwrap()).ok();
    std::fs::remove_file(&ev_path).ok();
    let slots = map_slots(&sc.join("slots"));
    let scs = sc.to_string_lossy().to_string();
    let child = spawn(&["--worker", id, "--tier", tier.name(), "--scratch", &scs]);
    let limit = tier.pick(800, 3600);
    let st = wait(child, Duration::from_secs(limit));
    let evidence = |cov: serde_json::Value, viols: u64| {
        let j = json!({"property": id, "tier": tier.name(), "seed": seed, "level": "model_checking",
            "coverage": cov, "assumptions": registry::assumptions(id), "wall_s": start.elapsed().as_secs_f64(), "violations": viols});
        std::fs::write(&ev_path, serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
    };
    let ok = matches!(st, Some(s) if s.code() == Some(0));
    if !ok {
        // crash or hang of the code under test?  Re-execute each case that was in flight, alone.
        let names: Vec<String> = registry::spaces(id, tier).unwrap().iter().map(|s| s.name.clone()).collect();
        eprintln!("worker ended abnormally: {:?}", st);
        if matches!(st, Some(s) if s.code() == Some(3)) {
            return 3;
        }
        for s in slots {
            let sp = s.space.load(std::sync::atomic::Ordering::SeqCst);
            let i = s.case.load(std::sync::atomic::Ordering::SeqCst);
            if sp == 0 {
                continue;
            }
            let name = &names[sp as usize - 1];
            let c = spawn(&["--case", id, "--tier", tier.name(), "--space", name, "--index", &i.to_string(), "--scratch", &scs]);
            let r = wait(c, Duration::from_secs(60));
            let what = match r {
                None => "does not terminate (60 s)".to_string(),
                Some(x) if x.code().is_none() => format!("kills the process: {}", x),
                Some(x) if x.code() == Some(1) => "violates the property".to_string(),
                _ => continue,
            };
            let p = write_replay(id, tier, name, i, &format!("crash {}#{}", name, i), &what);
            println!("case {}#{} {}", name, i, what);
            println!("VIOLATION property={} replay={}", id, p.display());
            evidence(json!({"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":[format!("{}#{} {}", name, i, what)]}), 1);
            return 1;
        }
        eprintln!("engine error: worker died and no in-flight case reproduces it");
        return 3;
    }
    let rep: serde_json::Value = match std::fs::read_to_string(sc.join("report.json")).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("engine error: no report");
            return 3;
        }
    };
    let viols = rep["viols"].as_array().unwrap();
    let cov = json!({
        "states": rep["states"], "transitions": rep["transitions"], "traces_validated_against_impl": rep["traces"],
        "cases_enumerated": rep["cases"], "distinct_nontrivial": rep["nontrivial"],
        "exhaustive": rep["exhausted"], "spaces": rep["spaces"], "samples": rep["samples"],
        "explanation": registry::explanation(id),
    });
    evidence(cov, viols.len() as u64);
    let kf = known_findings(id);
    for k in rep["known"].as_array().unwrap() {
        let text = kf.iter().find(|x| x.key == k["key"].as_str().unwrap()).map(|x| x.text.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} [{}]", id, text, k["key"].as_str().unwrap());
    }
    println!(
        "{} {}: {} cases in {} spaces, states={} transitions={} traces={} exhaustive={} in {:.1}s",
        id, tier.name(), rep["cases"], rep["spaces"].as_array().unwrap().len(), rep["states"], rep["transitions"], rep["traces"], rep["exhausted"],
        start.elapsed().as_secs_f64()
    );
    if let Some(v) = viols.first() {
        let (sp, i, k, d) = (v["space"].as_str().unwrap(), v["index"].as_u64().unwrap(), v["key"].as_str().unwrap(), v["detail"].as_str().unwrap());
        // the same case must fail every time
        let c = spawn(&["--case", id, "--tier", tier.name(), "--space", sp, "--index", &i.to_string(), "--scratch", &scs]);
        let again = wait(c, Duration::from_secs(60));
        let alone = matches!(again, Some(s) if s.code() == Some(0));
        let d = &if alone {
            // every case is deterministic on its own: something was carried over from the cases before it
            format!("{}\n  (holds when this case is run alone in a fresh process: the outcome depends on what ran before)", d)
        } else {
            d.to_string()
        };
        let p = write_replay(id, tier, sp, i, k, d);
        println!("{}", k);
        println!("{}", d);
        println!("VIOLATION property={} replay={}", id, p.display());
        return 1;
    }
    if rep["traces"].as_u64() == Some(0) {
        eprintln!("engine error: vacuous exploration");
        return 3;
    }
    0
}
