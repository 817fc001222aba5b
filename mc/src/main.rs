//! Driver: `mc check <ID>` explores every scenario of a property in a child process and reports;
//! `mc replay <file>` re-executes one recorded choice vector with its trace.
#![allow(dead_code, clippy::all)]
mod alloc;
mod checks;
#[cfg(feature = "capi")]
mod cmem;
#[cfg(feature = "codecs")]
mod dec;
mod engine;
#[cfg(feature = "img")]
mod imgs;
mod refs;
#[cfg(any(feature = "procs", feature = "jxl"))]
mod sched;
mod util;

use engine::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::CheckAlloc = alloc::CheckAlloc;

pub struct Check {
    pub id:          &'static str,
    pub level:       &'static str,
    pub rule:        &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios:   fn(Tier) -> Vec<Scenario>
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c)
        }
    }
    o.push('"');
    o
}

fn verif() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

/// known_findings.jsonl lines: {"property": "...", "key": "...", "what": "..."}
/// or {"fixed": "..."} (suppresses nothing)
fn field(line: &str, name: &str) -> Option<String> {
    let pat = format!("\"{name}\":");
    let i = line.find(&pat)? + pat.len();
    let rest = line[i..].trim_start();
    let mut it = rest.chars();
    if it.next()? != '"' {
        return None;
    }
    let mut o = String::new();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                c => o.push(c)
            },
            c => o.push(c)
        }
    }
    None
}

fn known(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.jsonl", verif())).unwrap_or_default();
    t.lines()
        .filter(|l| field(l, "property").as_deref() == Some(id))
        .filter_map(|l| Some((field(l, "key")?, field(l, "what").unwrap_or_default())))
        .collect()
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick
    }
}

/// checks whose thorough bounds take a few seconds: every run uses them
const DEEP: [&str; 19] = [
    "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C15", "C17", "C18", "C19", "C21", "C24", "C28", "C29", "C30", "C31", "C32", "C27"
];
/// the bounds a check uses
fn depth(id: &str) -> Tier {
    if DEEP.contains(&id) {
        Tier::Thorough
    } else {
        tier()
    }
}

fn find(id: &str) -> Check {
    match checks::all().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => engine_error(&format!("no check {id} in this build"))
    }
}

const WORKERS: usize = 8;

/// settings for development runs
fn dev(name: &str) -> Option<u64> {
    std::env::var(name).ok()?.parse().ok()
}

fn limits() {
    unsafe {
        let gb: u64 = 1 << 30;
        let l = libc::rlimit { rlim_cur: 22 * gb, rlim_max: 22 * gb };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

/// child process: explore and print the result lines for the parent
fn child(id: &str, slots: &str, out: &str) {
    limits();
    install_panic_hook();
    let c = find(id);
    let scens = (c.scenarios)(depth(c.id));
    let deadline = match tier() {
        Tier::Quick => 150,
        Tier::Thorough => 780
    };
    let cfg = Cfg {
        tier: depth(c.id),
        workers: WORKERS,
        deadline: Duration::from_secs(dev("MC_DEADLINE").unwrap_or(deadline)),
        stop: dev("MC_STOP").unwrap_or(40) as usize,
        hang: Duration::from_secs(25),
        known: known(id).into_iter().map(|x| x.0).collect(),
        slots: Slots::map(slots, WORKERS + 1, false)
    };
    let r = explore(&scens, &cfg);
    let mut o = String::new();
    let per: Vec<String> = r
        .per_scenario
        .iter()
        .map(|(n, k, d)| format!("{{\"scenario\":{},\"executions\":{k},\"completed\":{d}}}", esc(n)))
        .collect();
    let smp: Vec<String> = r.samples.iter().map(|s| esc(s)).collect();
    let states = if r.states > 0 { r.states } else { r.nodes };
    let head = if c.level == "model_checking" {
        format!(
            "\"states\":{states},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"nontrivial_traces\":{}",
            r.transitions, r.executions, r.distinct_obs, r.nontrivial
        )
    } else {
        format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"nontrivial_executions\":{},\"choice_tree_nodes\":{}",
            r.executions, r.distinct_obs, r.nontrivial, r.nodes
        )
    };
    let _ = writeln!(
        o,
        "COV {{{head},\"rule\":{},\"exhaustive\":{},\"distinct_sets_capped\":{},\"explore_s\":{:.2},\"scenarios\":[{}],\"samples\":[{}]}}",
        esc(c.rule),
        r.exhausted,
        r.sets_capped,
        r.wall,
        per.join(","),
        smp.join(",")
    );
    for v in &r.violations {
        let cs: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
        let _ = writeln!(
            o,
            "VIO\t{}\t{}\t{}\t{}",
            v.scenario,
            cs.join(","),
            v.bad.key.replace(['\t', '\n'], " "),
            v.bad.msg.replace(['\t', '\n'], " ")
        );
    }
    std::fs::write(out, o).unwrap();
}

fn single(id: &str, scen: &str, choices: &[u32], slots: Option<&str>) -> Exec {
    let _ = slots;
    let c = find(id);
    let scens = (c.scenarios)(depth(c.id));
    let s = scens
        .iter()
        .find(|s| s.name == scen)
        .unwrap_or_else(|| engine_error(&format!("no scenario {scen}")));
    run_one(s, choices, depth(c.id), true)
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let c = find(id);
    let dir = format!("{}/replays", verif());
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(format!("{}/evidence", verif())).unwrap();
    let pid = std::process::id();
    let slotf = format!("{dir}/.slots-{id}-{pid}");
    let outf = format!("{dir}/.out-{id}-{pid}");
    let slots = Slots::map(&slotf, WORKERS + 1, true);
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["child", id, &slotf, &outf])
        .stdout(std::process::Stdio::null())
        .status()
        .unwrap();
    let scens = (c.scenarios)(depth(c.id));
    let mut vios: Vec<(String, String, String, String)> = vec![];
    let mut cov = String::new();
    if st.success() {
        let t = std::fs::read_to_string(&outf).unwrap();
        for l in t.lines() {
            if let Some(j) = l.strip_prefix("COV ") {
                cov = j.to_string();
            } else if let Some(v) = l.strip_prefix("VIO\t") {
                let f: Vec<&str> = v.splitn(4, '\t').collect();
                vios.push((f[0].into(), f[1].into(), f[2].into(), f[3].into()));
            }
        }
    } else if st.code() == Some(3) {
        let _ = std::fs::remove_file(&slotf);
        engine_error("the explorer itself failed");
    } else {
        // a hang, a signal or an abort inside the library: find which worker's case
        use std::os::unix::process::ExitStatusExt;
        let mut cands = vec![];
        for w in 0..WORKERS {
            if let Some((si, p, hung)) = slots.get(w) {
                cands.push((si, p, hung));
            }
        }
        let hang = st.code() == Some(97);
        let mut found = None;
        for (si, p, hung) in &cands {
            if hang && *hung {
                found = Some((*si, p.clone(), "hang".to_string(), "the call did not return within 25 s".to_string()));
                break;
            }
            if !hang {
                let cs: Vec<String> = p.iter().map(|c| c.to_string()).collect();
                let r = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["one", id, scens[*si].name, &cs.join(",")])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status()
                    .unwrap();
                if r.signal().is_some() {
                    found = Some((
                        *si,
                        p.clone(),
                        format!("killed:signal{}", r.signal().unwrap()),
                        "the process was killed (abort, stack overflow or memory exhaustion)".to_string()
                    ));
                    break;
                }
            }
        }
        if found.is_none() {
            if let Some((si, p, _)) = cands.first() {
                if st.signal().is_some() {
                    found = Some((
                        *si,
                        p.clone(),
                        format!("killed:signal{}", st.signal().unwrap()),
                        "the process was killed while several cases ran; first of them shown".to_string()
                    ));
                }
            }
        }
        match found {
            Some((si, p, k, m)) => {
                let cs: Vec<String> = p.iter().map(|c| c.to_string()).collect();
                vios.push((scens[si].name.into(), cs.join(","), format!("{}:{k}", scens[si].name), m));
            }
            None => {
                let _ = std::fs::remove_file(&slotf);
                let _ = std::fs::remove_file(&outf);
                engine_error(&format!("explorer process ended abnormally: {st:?}"))
            }
        }
        cov = format!(
            "{{\"evaluations\":1,\"distinct_nontrivial\":1,\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":1,\"rule\":{},\"exhaustive\":false,\"samples\":[{}]}}",
            esc(c.rule),
            esc(&format!("{:?}", vios.last()))
        );
    }
    let _ = std::fs::remove_file(&slotf);
    let _ = std::fs::remove_file(&outf);

    let kn = known(id);
    let mut code = 0;
    let mut unknown = 0;
    let mut shown = HashSet::new();
    let mut n = 0;
    for (scen, choices, key, msg) in &vios {
        if let Some((_, what)) = kn.iter().find(|k| &k.0 == key) {
            if shown.insert(key.clone()) {
                println!("KNOWN-FINDING: property={id} {what} [{key}]");
            }
            continue;
        }
        unknown += 1;
        code = 1;
        if n < 40 {
            let path = format!("{dir}/{id}-{n}.json");
            n += 1;
            let body = format!(
                "{{\"property\":\"{id}\",\"tier\":\"{}\",\"scenario\":{},\"choices\":\"{choices}\",\"key\":{},\"what\":{}}}\n",
                if tier() == Tier::Quick { "quick" } else { "thorough" },
                esc(scen),
                esc(key),
                esc(msg)
            );
            std::fs::write(&path, body).unwrap();
            println!("  {key}: {}", msg.chars().take(500).collect::<String>());
            println!("VIOLATION property={id} replay={path}");
        }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let asm: Vec<String> = c.assumptions.iter().map(|s| esc(s)).collect();
    let ev = format!(
        "{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":{seed},\"level\":\"{}\",\"coverage\":{cov},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{unknown}}}\n",
        if tier() == Tier::Quick { "quick" } else { "thorough" },
        c.level,
        asm.join(","),
        t0.elapsed().as_secs_f64()
    );
    std::fs::write(format!("{}/evidence/{id}.json", verif()), ev).unwrap();
    let short: String = cov.split(",\"scenarios\"").next().unwrap_or("").chars().take(900).collect();
    println!("{id}: {short}");
    std::io::stdout().flush().unwrap();
    code
}

fn main() {
    // this executable is the command line program too (see checks/cli.rs)
    #[cfg(feature = "cli")]
    if std::env::var_os("MC_CLI").is_some() {
        return zune_bin::main();
    }
    let a: Vec<String> = std::env::args().collect();
    let parse = |s: &str| -> Vec<u32> {
        s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
        Some("check") => std::process::exit(check(&a[2])),
        Some("child") => child(&a[2], &a[3], &a[4]),
        Some("one") => {
            limits();
            install_panic_hook();
            let (id, sc, ch) = (a[2].clone(), a[3].clone(), parse(&a[4]));
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let e = single(&id, &sc, &ch, None);
                    println!("{}", e.trace);
                    println!("{:?}", e.res);
                    e.res.is_err() as i32
                })
                .unwrap();
            std::process::exit(h.join().unwrap_or(1));
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            if field(&t, "tier").as_deref() == Some("thorough") {
                std::env::set_var("VERIF_TIER", "thorough");
            } else {
                std::env::set_var("VERIF_TIER", "quick");
            }
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args([
                    "one",
                    &field(&t, "property").unwrap(),
                    &field(&t, "scenario").unwrap(),
                    &field(&t, "choices").unwrap()
                ])
                .status()
                .unwrap();
            println!("{st:?}");
            std::process::exit(if st.success() { 0 } else { 1 });
        }
        _ => {
            eprintln!("usage: mc list | check <ID> | replay <file>");
            std::process::exit(3)
        }
    }
}
