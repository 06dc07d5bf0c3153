use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vh::engine::*;
use vh::props;

const THREADS: u64 = 8;
const STACK: usize = 256 << 20;
const STALL: Duration = Duration::from_secs(60);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2..]),
        Some("worker") => worker(&args[2..]),
        Some("one") => one(&args[2..]),
        Some("replay") => replay(&args[2..]),
        Some("literals") => println!("{}", serde_json::to_string_pretty(&vh::fresh::scan(&args[2])).unwrap()),
        Some("fresh") => println!("{:?}", vh::fresh::get()),
        Some("survey") => survey(&args[2..]),
        Some("parse-file") => parse_file(&args[2..]),
        Some("list") => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id, p.quick_cases, p.thorough_cases);
            }
        }
        _ => {
            eprintln!("usage: vh check ID --tier T --seed N --verif DIR | survey ID N SEED | replay FILE | list");
            exit(2)
        }
    }
}

fn get_prop(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            exit(2)
        }
    }
}

fn opt(args: &[String], name: &str, def: &str) -> String {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_else(|| def.to_string())
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn run_tape(p: &Prop, tape: &[u8], thorough: bool) -> (CaseResult, Ctx, Vec<u8>) {
    let mut src = Src::replay(tape.to_vec());
    let mut ctx = Ctx { thorough, ..Default::default() };
    let r = guarded(|| (p.case)(&mut src, &mut ctx));
    let used = src.consumed();
    (r, ctx, used)
}

/// Known findings: (property, case name) -> description.
fn known(verif: &str) -> Vec<(String, String, String)> {
    let f = format!("{verif}/known-findings.json");
    let Ok(t) = fs::read_to_string(&f) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known-findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|e| {
                    (
                        e["property"].as_str().unwrap().to_string(),
                        e["case"].as_str().unwrap().to_string(),
                        e["what"].as_str().unwrap().to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

// ------------------------------------------------------------------- worker

/// args: ID tier seed cases status-file result-file
fn worker(args: &[String]) {
    install_panic_hook();
    let p = get_prop(&args[0]);
    let thorough = args[1] == "thorough";
    let seed: u64 = args[2].parse().unwrap();
    let cases: u64 = args[3].parse().unwrap();
    let status = args[4].clone();
    let result = args[5].clone();
    let mut verdict = json!(null);
    let mut total = Ctx { thorough, ..Default::default() };
    let mut known_hits: Vec<Value> = vec![];

    // fixed cases, on a thread with a big stack
    let st = status.clone();
    let fixed_out = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || {
                let mut f = fs::OpenOptions::new().write(true).create(true).open(&st).unwrap();
                let mut ctx = Ctx { thorough, ..Default::default() };
                let mut fails = vec![];
                for (i, (name, run)) in (p.fixed)().into_iter().enumerate() {
                    mark(&mut f, THREADS, i as u64 + 1);
                    match guarded(|| run(&mut ctx)) {
                        CaseResult::Ok => (),
                        CaseResult::Fail(x) => fails.push((name, x)),
                        CaseResult::HarnessPanic(m) => return Err(format!("fixed case {name}: {m}")),
                    }
                }
                mark(&mut f, THREADS, 0);
                Ok((ctx, fails))
            })
            .unwrap()
            .join()
            .unwrap()
    });
    let (fctx, fails) = match fixed_out {
        Ok(x) => x,
        Err(m) => {
            fs::write(&result, json!({"error": m}).to_string()).unwrap();
            return;
        }
    };
    merge(&mut total, fctx);
    let known_list = known(&args[6]);
    for (name, f) in fails {
        if let Some(k) = known_list.iter().find(|k| k.0 == p.id && k.1 == name) {
            known_hits.push(json!({"case": name, "what": k.2}));
        } else if verdict.is_null() {
            verdict = json!({"kind":"fixed","case":name,"key":f.key,"msg":f.msg});
        }
    }

    // random cases
    if verdict.is_null() {
        let best = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<(u64, Vec<u8>, Failure)>> = Mutex::new(None);
        let herr: Mutex<Option<String>> = Mutex::new(None);
        let ctxs: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for t in 0..THREADS {
                let (p, best, found, herr, ctxs, status) = (&p, &best, &found, &herr, &ctxs, &status);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let mut f = fs::OpenOptions::new().write(true).create(true).open(status).unwrap();
                        let mut ctx = Ctx { thorough, ..Default::default() };
                        let mut i = t;
                        while i < cases {
                            if i >= best.load(Ordering::Relaxed) || herr.lock().unwrap().is_some() {
                                break;
                            }
                            mark(&mut f, t, i + 1);
                            let mut src = Src::random(case_seed(seed, p.id, i));
                            ctx.case_no = i;
                            match guarded(|| (p.case)(&mut src, &mut ctx)) {
                                CaseResult::Ok => (),
                                CaseResult::Fail(x) => {
                                    best.fetch_min(i, Ordering::Relaxed);
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().is_none_or(|(j, _, _)| i < *j) {
                                        *g = Some((i, src.consumed(), x));
                                    }
                                    break;
                                }
                                CaseResult::HarnessPanic(m) => {
                                    *herr.lock().unwrap() = Some(format!("case {i}: {m}; {}", ctx.desc));
                                    break;
                                }
                            }
                            i += THREADS;
                        }
                        mark(&mut f, t, 0);
                        ctxs.lock().unwrap().push(ctx);
                    })
                    .unwrap();
            }
        });
        if let Some(m) = herr.into_inner().unwrap() {
            fs::write(&result, json!({"error": m}).to_string()).unwrap();
            return;
        }
        for c in ctxs.into_inner().unwrap() {
            merge(&mut total, c);
        }
        if let Some((i, tape, f)) = found.into_inner().unwrap() {
            // in case shrinking itself runs into a hang or a crash
            let pre = json!({"kind":"tape","index":i,"tape":hex(&tape),"key":f.key,"msg":f.msg});
            fs::write(format!("{result}.pre"), outcome(&total, &pre, &known_hits).to_string()).unwrap();
            verdict = minimise(&p, seed, i, tape, f, thorough, &format!("{result}.tape"));
        }
    }
    fs::write(&result, outcome(&total, &verdict, &known_hits).to_string()).unwrap();
}

/// Runs one tape on a thread of its own, so with fresh environments.
fn run_fresh(p: &Prop, t: &[u8], thorough: bool) -> (CaseResult, Ctx, Vec<u8>) {
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || run_tape(p, t, thorough)).unwrap().join().unwrap())
}

/// Shrinks a failing case. What is reported fails again in a process of its
/// own: alone if it can, otherwise after the earlier cases it needs.
fn minimise(p: &Prop, seed: u64, i: u64, tape: Vec<u8>, f: Failure, thorough: bool, tf: &str) -> Value {
    let exe = std::env::current_exe().unwrap();
    let end = Instant::now() + Duration::from_secs(90);
    let child = |kind: &str, body: &str| -> bool {
        fs::write(tf, body).unwrap();
        let mut ch = Command::new(&exe).args(["one", p.id, kind, tf]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let t = Instant::now();
        let r = loop {
            match ch.try_wait().unwrap() {
                Some(s) => break s.code() == Some(1),
                None if t.elapsed() > Duration::from_secs(20) => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break false;
                }
                None => std::thread::sleep(Duration::from_millis(1)),
            }
        };
        let _ = fs::remove_file(tf);
        r
    };
    let alone = |t: &[u8]| child("tape", &hex(t));
    if alone(&tape) {
        let mut small = shrink(tape.clone(), 6000, |t| Instant::now() < end && matches!(run_fresh(p, t, thorough).0, CaseResult::Fail(_)));
        if !alone(&small) {
            small = shrink(tape, 300, |t| Instant::now() < end && alone(t));
        }
        let (r, ctx, used) = run_fresh(p, &small, thorough);
        let (t, f, desc) = match r {
            CaseResult::Fail(g) => (if used.len() < small.len() { used } else { small }, g, ctx.desc),
            _ => (small, f, ctx.desc),
        };
        return json!({"kind":"tape","index":i,"tape":hex(&t),"key":f.key,"msg":f.msg,"desc":desc});
    }
    // it depends on what came before on the same thread
    let all: Vec<u64> = (0..=i).filter(|j| j % THREADS == i % THREADS).collect();
    let fails = |v: &[u64]| child("history", &json!({"seed":seed,"cases":v}).to_string());
    let mut k = 2;
    let mut hist = loop {
        let from = all.len().saturating_sub(k);
        if fails(&all[from..]) {
            break all[from..].to_vec();
        }
        if from == 0 || Instant::now() > end {
            return json!({"kind":"tape","index":i,"tape":hex(&tape),"key":f.key,"msg":format!("{} (not when this case runs alone)", f.msg)});
        }
        k *= 2;
    };
    let mut size = hist.len() / 2;
    while size > 0 && Instant::now() < end {
        let mut at = 0;
        while at < hist.len() - 1 && Instant::now() < end {
            let mut h = hist.clone();
            h.drain(at..(at + size).min(hist.len() - 1));
            if fails(&h) {
                hist = h;
            } else {
                at += size;
            }
        }
        size /= 2;
    }
    json!({"kind":"history","index":i,"seed":seed,"cases":hist,"key":f.key,"msg":format!("{} (after {} earlier cases)", f.msg, hist.len() - 1)})
}

/// Several random cases on one thread; the result is the last one's.
fn run_history(p: &Prop, v: &Value, thorough: bool) -> (CaseResult, String) {
    let seed = v["seed"].as_u64().unwrap();
    let mut out = (CaseResult::Ok, String::new());
    for j in v["cases"].as_array().unwrap() {
        let mut ctx = Ctx { thorough, ..Default::default() };
        let mut src = Src::random(case_seed(seed, p.id, j.as_u64().unwrap()));
        ctx.case_no = j.as_u64().unwrap();
        let r = guarded(|| (p.case)(&mut src, &mut ctx));
        println!("case {j}: {}", ctx.desc);
        out = (r, ctx.desc);
    }
    out
}

fn outcome(total: &Ctx, verdict: &Value, known_hits: &[Value]) -> Value {
    json!({
        "evals": total.evals,
        "nontrivial": total.nontrivial.len(),
        "labels": total.labels,
        "excluded": total.excluded,
        "samples": total.samples,
        "verdict": verdict,
        "known": known_hits,
    })
}

fn mark(f: &mut fs::File, slot: u64, v: u64) {
    let _ = f.seek(SeekFrom::Start(slot * 8));
    let _ = f.write_all(&v.to_le_bytes());
}

fn merge(a: &mut Ctx, b: Ctx) {
    a.evals += b.evals;
    a.nontrivial.extend(b.nontrivial);
    for (k, v) in b.labels {
        *a.labels.entry(k).or_insert(0) += v;
    }
    for (k, v) in b.excluded {
        *a.excluded.entry(k).or_insert(0) += v;
    }
    a.samples.extend(b.samples);
}

/// args: ID (seed index | tape HEXFILE | fixed NAME): run one case; exit 0 ok,
/// 1 fail, 2 harness error, killed by a signal if the code under test dies.
fn one(args: &[String]) {
    install_panic_hook();
    let p = get_prop(&args[0]);
    let thorough = std::env::var("VH_TIER").is_ok_and(|t| t == "thorough");
    let args = args.to_vec();
    let r = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut ctx = Ctx { thorough, ..Default::default() };
            let r = match args[1].as_str() {
                "tape" => {
                    let t = unhex(&fs::read_to_string(&args[2]).unwrap());
                    let (r, c, used) = run_tape(&p, &t, thorough);
                    if args.len() > 3 {
                        fs::write(&args[3], json!({"desc":c.desc,"used":used.len()}).to_string()).unwrap();
                    }
                    r
                }
                "history" => run_history(&p, &serde_json::from_str(&fs::read_to_string(&args[2]).unwrap()).unwrap(), thorough).0,
                "fixed" => {
                    let i: usize = args[2].parse().unwrap();
                    let (_, run) = (p.fixed)().into_iter().nth(i).unwrap();
                    guarded(|| run(&mut ctx))
                }
                _ => unreachable!(),
            };
            match r {
                CaseResult::Ok => 0,
                CaseResult::Fail(f) => {
                    println!("{}", f.msg);
                    1
                }
                CaseResult::HarnessPanic(m) => {
                    eprintln!("harness: {m}");
                    2
                }
            }
        })
        .unwrap()
        .join()
        .unwrap();
    exit(r)
}

/// args: PARSER FILE STACK: parses FILE's text on a thread with that stack.
/// Used as a child process for inputs that may abort the process.
fn parse_file(args: &[String]) {
    let sut = *vh::suts::Sut::ALL.iter().find(|x| x.name() == args[0]).expect("parser");
    let text = fs::read_to_string(&args[1]).unwrap();
    let r = std::thread::Builder::new()
        .stack_size(args[2].parse().unwrap())
        .spawn(move || match vh::suts::standard(sut, &text) {
            Ok(Ok(q)) => {
                std::mem::forget(q);
                "accepted".to_string()
            }
            Ok(Err(_)) => "rejected".to_string(),
            Err(f) => format!("failed: {}", f.msg),
        })
        .unwrap()
        .join()
        .unwrap();
    println!("{r}");
}

// -------------------------------------------------------------------- check

fn check(args: &[String]) {
    let id = args[0].clone();
    let tier = opt(args, "--tier", "quick");
    let seed: u64 = opt(args, "--seed", "1").parse().unwrap_or(1);
    let verif = opt(args, "--verif", "/verif");
    let p = get_prop(&id);
    let thorough = tier == "thorough";
    // for child processes that run a single case
    std::env::set_var("VH_TIER", &tier);
    let fresh = vh::fresh::to_json(vh::fresh::get());
    std::env::set_var("VH_FRESH", fresh.to_string());
    let cases = match opt(args, "--cases", "").parse::<u64>() {
        Ok(n) => n,
        Err(_) => {
            if thorough {
                p.thorough_cases
            } else {
                p.quick_cases
            }
        }
    };
    let t0 = Instant::now();
    let work = format!("{verif}/work");
    let _ = fs::create_dir_all(&work);
    let _ = fs::create_dir_all(format!("{verif}/evidence"));
    let pid = std::process::id();
    let status = format!("{work}/{id}.{pid}.status");
    let result = format!("{work}/{id}.{pid}.result");
    let _ = fs::remove_file(&result);
    fs::write(&status, vec![0u8; 8 * (THREADS as usize + 1)]).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(&exe)
        .args(["worker", &id, &tier, &seed.to_string(), &cases.to_string(), &status, &result, &verif])
        .stdin(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let limit = Duration::from_secs(if thorough { 4 * 3600 } else { 780 });
    // A case that makes no progress for STALL is a hang of the code under test
    // (cases take milliseconds); it is confirmed alone before it is reported.
    let pre = format!("{result}.pre");
    let mut seen = vec![(0u64, Instant::now()); THREADS as usize + 1];
    let mut pre_since: Option<Instant> = None;
    let mut hung: Option<(usize, u64)> = None;
    let st = loop {
        match child.try_wait().unwrap() {
            Some(s) => break Some(s),
            None => {
                if t0.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    eprintln!("{id}: no answer within {} s (not a verdict)", limit.as_secs());
                    exit(3);
                }
                let b = fs::read(&status).unwrap_or_default();
                for (i, s) in seen.iter_mut().enumerate() {
                    let v = b.get(i * 8..i * 8 + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0);
                    if v != s.0 || v == 0 {
                        *s = (v, Instant::now());
                    } else if s.1.elapsed() > STALL {
                        hung = Some((i, v - 1));
                    }
                }
                if pre_since.is_none() && std::path::Path::new(&pre).exists() {
                    pre_since = Some(Instant::now());
                }
                if hung.is_some() || pre_since.is_some_and(|t| t.elapsed() > STALL) {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    };
    let read = |f: &str| -> Value {
        fs::read_to_string(f).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(json!(null))
    };
    let mut res: Value = read(&result);
    if res.is_null() {
        res = read(&pre);
    }
    let _ = fs::remove_file(&pre);
    if let (true, Some((slot, i))) = (res.is_null(), hung) {
        match hang(&exe, &p, seed, slot, i, &work, pid) {
            Some(v) => res = v,
            None => {
                eprintln!("{id}: case {i} stalled once and not again (not a verdict)");
                exit(3);
            }
        }
    }
    if res.is_null() {
        let st = st.expect("status");
        // the worker died
        match st.signal() {
            Some(s) if [4, 6, 7, 8, 11].contains(&s) => {
                res = crash(&exe, &p, seed, &status, &work, s, pid);
            }
            s => {
                eprintln!("{id}: worker ended without a result (status {st:?}, signal {s:?})");
                exit(3);
            }
        }
    }
    let _ = fs::remove_file(&status);
    let _ = fs::remove_file(&result);
    if let Some(m) = res["error"].as_str() {
        eprintln!("{id}: harness error: {m}");
        exit(2);
    }
    let mut violations: Vec<Value> = vec![];
    let v = res["verdict"].clone();
    for k in res["known"].as_array().cloned().unwrap_or_default() {
        println!("KNOWN-FINDING: property={id} {}", k["what"].as_str().unwrap_or(""));
    }
    if !v.is_null() {
        let rp = format!("{work}/replay-{id}-{:016x}.json", fnv(v.to_string().as_bytes()));
        let body = json!({"property": id, "seed": seed, "tier": tier, "case": v, "fresh": fresh});
        fs::write(&rp, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("{}: {}", id, v["msg"].as_str().unwrap_or(""));
        if let Some(d) = v["desc"].as_str() {
            println!("case: {d}");
        }
        println!("VIOLATION property={id} replay={rp}");
        violations.push(json!({"replay": rp, "what": v["msg"]}));
    }
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": res["evals"].as_u64().unwrap_or(0),
            "distinct_nontrivial": res["nontrivial"].as_u64().unwrap_or(0),
            "rule": p.rule,
            "samples": res["samples"].as_array().map(|a| a.iter().take(24).cloned().collect::<Vec<_>>()).unwrap_or_default(),
            "cases": cases,
            "fixed_cases": (p.fixed)().len(),
            "distribution": res["labels"],
            "excluded_known": res["excluded"],
            "known_findings_seen": res["known"],
            "violations_found": violations,
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    fs::write(format!("{verif}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id} {tier}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s",
        cases,
        res["evals"],
        res["nontrivial"],
        t0.elapsed().as_secs_f64()
    );
    exit(if violations.is_empty() { 0 } else { 1 })
}

/// Runs one case alone; a violation if it does not finish in STALL either.
fn hang(exe: &std::path::Path, p: &Prop, seed: u64, slot: usize, i: u64, work: &str, pid: u32) -> Option<Value> {
    let tf = format!("{work}/hang.{pid}.tape");
    let fixed = slot == THREADS as usize;
    let tape = tape_of(seed, p.id, i);
    fs::write(&tf, hex(&tape)).unwrap();
    let n = i.to_string();
    let a: Vec<&str> = if fixed { vec!["one", p.id, "fixed", &n] } else { vec!["one", p.id, "tape", &tf] };
    let mut ch = Command::new(exe).args(&a).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    let finished = loop {
        if ch.try_wait().unwrap().is_some() {
            break true;
        }
        if t.elapsed() > STALL {
            let _ = ch.kill();
            let _ = ch.wait();
            break false;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = fs::remove_file(&tf);
    if finished {
        return None;
    }
    let s = STALL.as_secs();
    let mut e = json!({"evals":0,"nontrivial":0,"labels":{},"excluded":{},"samples":[],"known":[]});
    e["verdict"] = if fixed {
        let name = (p.fixed)().into_iter().nth(i as usize).map(|x| x.0).unwrap_or_default();
        json!({"kind":"fixed","case":name,"key":"hang","msg":format!("fixed case {name} does not finish within {s} s")})
    } else {
        json!({"kind":"tape","index":i,"tape":hex(&tape),"key":"hang","msg":format!("this case does not finish within {s} s")})
    };
    Some(e)
}

fn tape_of(seed: u64, id: &str, i: u64) -> Vec<u8> {
    let mut r = Rng::new(case_seed(seed, id, i));
    let mut tape = vec![];
    for _ in 0..4096 {
        tape.extend_from_slice(&r.next().to_le_bytes());
    }
    tape
}

/// The worker was killed by a signal raised by the code under test: find the
/// case, shrink it through child processes.
fn crash(exe: &std::path::Path, p: &Prop, seed: u64, status: &str, work: &str, sig: i32, pid: u32) -> Value {
    let b = fs::read(status).unwrap_or_default();
    let slot = |i: usize| -> u64 {
        b.get(i * 8..i * 8 + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0)
    };
    let dies = |a: &[&str]| -> bool {
        let mut ch = Command::new(exe).args(a).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let t = Instant::now();
        loop {
            match ch.try_wait().unwrap() {
                Some(s) => return s.signal().is_some_and(|s| [4, 6, 7, 8, 11].contains(&s)),
                None if t.elapsed() > Duration::from_secs(20) => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return false;
                }
                None => std::thread::sleep(Duration::from_millis(2)),
            }
        }
    };
    let empty = json!({"evals":0,"nontrivial":0,"labels":{},"excluded":{},"samples":[],"known":[]});
    let f = slot(THREADS as usize);
    if f > 0 {
        let n = (f - 1).to_string();
        if dies(&["one", p.id, "fixed", &n]) {
            let name = (p.fixed)().into_iter().nth((f - 1) as usize).map(|x| x.0).unwrap_or_default();
            let mut e = empty;
            e["verdict"] = json!({"kind":"fixed","case":name,"key":"crash","msg":format!("the process dies (signal {sig}) on fixed case {name}")});
            return e;
        }
    }
    let mut idx: Vec<u64> = (0..THREADS as usize).map(slot).filter(|v| *v > 0).map(|v| v - 1).collect();
    idx.sort();
    for i in idx {
        let tape = tape_of(seed, p.id, i);
        let tf = format!("{work}/crash.{pid}.tape");
        let mut test = |t: &[u8]| -> bool {
            fs::write(&tf, hex(t)).unwrap();
            dies(&["one", p.id, "tape", &tf])
        };
        if test(&tape) {
            let small = shrink(tape, 500, &mut test);
            let _ = fs::remove_file(&tf);
            let mut e = empty;
            e["verdict"] = json!({"kind":"tape","index":i,"tape":hex(&small),"key":"crash","msg":format!("the process dies (signal {sig}) on this case")});
            return e;
        }
        let _ = fs::remove_file(&tf);
    }
    json!({"error": format!("worker died with signal {sig} and no single case reproduces it")})
}

fn replay(args: &[String]) {
    install_panic_hook();
    let v: Value = serde_json::from_str(&fs::read_to_string(&args[0]).unwrap()).unwrap();
    if !v["fresh"].is_null() {
        std::env::set_var("VH_FRESH", v["fresh"].to_string());
    }
    let id = v["property"].as_str().unwrap().to_string();
    let p = get_prop(&id);
    let file = args[0].clone();
    let r = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let c = &v["case"];
            let thorough = v["tier"] == "thorough";
            if c["kind"] == "tape" {
                let (r, ctx, _) = run_tape(&p, &unhex(c["tape"].as_str().unwrap()), thorough);
                (r, ctx.desc)
            } else if c["kind"] == "history" {
                run_history(&p, c, thorough)
            } else {
                let name = c["case"].as_str().unwrap();
                let mut ctx = Ctx { thorough, ..Default::default() };
                match (p.fixed)().into_iter().find(|f| f.0 == name) {
                    Some((_, run)) => (guarded(|| run(&mut ctx)), name.to_string()),
                    None => (CaseResult::HarnessPanic("no such fixed case".into()), name.to_string()),
                }
            }
        })
        .unwrap()
        .join()
        .unwrap();
    println!("case: {}", r.1);
    match r.0 {
        CaseResult::Ok => {
            println!("{id}: holds on this case");
            exit(0)
        }
        CaseResult::Fail(f) => {
            println!("{}", f.msg);
            println!("VIOLATION property={id} replay={file}");
            exit(1)
        }
        CaseResult::HarnessPanic(m) => {
            eprintln!("harness error: {m}");
            exit(2)
        }
    }
}

/// Development aid: run many cases, bucket failures by class.
fn survey(args: &[String]) {
    install_panic_hook();
    let id = args[0].clone();
    let n: u64 = args.get(1).map(|s| s.parse().unwrap()).unwrap_or(10000);
    let seed: u64 = args.get(2).map(|s| s.parse().unwrap()).unwrap_or(1);
    let buckets: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
    let total: Mutex<Ctx> = Mutex::new(Ctx::default());
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for t in 0..THREADS {
            let (id, buckets, total) = (&id, &buckets, &total);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let p = get_prop(id);
                    let mut ctx = Ctx { survey: true, ..Default::default() };
                    let add = |ctx: &mut Ctx, r: CaseResult, pre: &str| {
                        let mut fs: Vec<Failure> = std::mem::take(&mut ctx.soft);
                        match r {
                            CaseResult::Ok => (),
                            CaseResult::Fail(f) => fs.push(f),
                            CaseResult::HarnessPanic(m) => fs.push(Failure::new(format!("HARNESS {m}"), format!("{m}: {}", ctx.desc))),
                        }
                        let mut b = buckets.lock().unwrap();
                        let mut seen = HashSet::new();
                        for f in fs {
                            if !seen.insert(f.key.clone()) {
                                continue;
                            }
                            let e = b.entry(f.key.clone()).or_insert((0, String::new()));
                            e.0 += 1;
                            let m = format!("{pre}{}", f.msg);
                            if e.1.is_empty() || m.len() < e.1.len() {
                                e.1 = m;
                            }
                        }
                    };
                    if t == 0 {
                        for (name, run) in (p.fixed)() {
                            let r = guarded(|| run(&mut ctx));
                            if let CaseResult::HarnessPanic(m) = &r {
                                println!("FIXED HARNESS PANIC {name}: {m}");
                            }
                            // list every fixed failure
                            let mut soft = std::mem::take(&mut ctx.soft);
                            if let CaseResult::Fail(f) = r {
                                soft.push(f);
                            }
                            if !soft.is_empty() {
                                let v: Vec<String> = soft.iter().map(|f| f.key.clone()).collect();
                                println!("FIXED {name:?}: {}", v.join(" | "));
                                if std::env::var("VH_V").is_ok() {
                                    for f in soft {
                                        println!("     {}", f.msg);
                                    }
                                }
                            }
                        }
                    }
                    let mut i = t;
                    while i < n {
                        let mut src = Src::random(case_seed(seed, p.id, i));
                        let t = Instant::now();
                        let r = guarded(|| (p.case)(&mut src, &mut ctx));
                        if t.elapsed() > Duration::from_millis(1000) {
                            println!("SLOW {:.1}s {}", t.elapsed().as_secs_f64(), ctx.desc.chars().take(400).collect::<String>());
                        }
                        add(&mut ctx, r, "");
                        i += THREADS;
                    }
                    merge(&mut total.lock().unwrap(), ctx);
                })
                .unwrap();
        }
    });
    for (k, (c, m)) in buckets.into_inner().unwrap() {
        println!("== {k}  x{c}\n   {m}");
    }
    let t = total.into_inner().unwrap();
    println!("{} cases, {} evals, {} nontrivial, {:.1}s", n, t.evals, t.nontrivial.len(), t0.elapsed().as_secs_f64());
    println!("labels: {:?}", t.labels);
    println!("excluded: {:?}", t.excluded);
}
