//! harness check <ID> | replay <FILE> | list
//! (internal: digest <seed> <n> <thread> <time>, case <ID> <part> <seed> <idx> <tier>, trace <ID> <part no> <seed> <idx> <tier>, try <ID> <part no> <choices>)

use harness::engine::*;
use harness::{alloc, crash, props};
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::exit;
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn env_tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let child = std::env::var_os(crash::CHILD).is_some();
    if child {
        crash::watch();
    }
    match a[1..] {
        ["check", id] if !child => supervised_check(id),
        ["replay", file] if !child => {
            let f = file.to_string();
            if !production() && std::fs::read_to_string(&f).map_or(false, |s| s.lines().any(|l| l == "build production")) {
                exit(other_build(&["replay", file]));
            }
            let what = match crash::run(&["replay", file], false, Some(120)).0 {
                crash::End::Code(4) => NO_BOUND.to_string(),
                crash::End::Code(c) => exit(c),
                crash::End::Crash(c) => c.text(),
                crash::End::Stuck => NO_RETURN.to_string(),
            };
            let s = std::fs::read_to_string(&f).unwrap_or_default();
            let id = s.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("?");
            println!("violated: {what}");
            println!("VIOLATION property={id} replay={f}");
            exit(1)
        }
        ["trace", id, part, seed, idx, tier] => {
            TRACE.store(true, SeqCst);
            let p = prop(id);
            let part = p.parts[part.parse::<usize>().unwrap()].name;
            exit(one_case(id, part, seed.parse().unwrap(), idx.parse().unwrap(), tier))
        }
        ["try", id, part, choices] => {
            let p = prop(id);
            let ch: Vec<u64> = choices.split(',').filter_map(|x| x.parse().ok()).collect();
            TRACE.store(true, SeqCst);
            let part = &p.parts[part.parse::<usize>().unwrap()];
            exit(on_big_stack(|| replay(part, &ch, true).0.is_err()) as i32)
        }
        // what the crate says to a row of inputs, for comparison between processes
        ["digest", seed, n, place, time, ..] => {
            for d in props::digest(seed.parse().unwrap(), n.parse().unwrap(), place, time == "time") {
                println!("digest {d}");
            }
        }
        ["dict"] => println!("{:?}", harness::dict::dict()),
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        ["check", id] => check(id),
        ["replay", file] => exit(replay_file(file)),
        ["case", id, part, seed, idx, tier] => {
            exit(one_case(id, part, seed.parse().unwrap(), idx.parse().unwrap(), tier))
        }
        _ => {
            eprintln!("usage: harness check <ID> | replay <FILE> | list");
            exit(2)
        }
    }
}

fn prop(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            exit(2)
        }
    }
}

fn verif_dir() -> std::path::PathBuf {
    // the harness lives in <verif>/harness
    std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

const NO_BOUND: &str = "a call into the crate allocated without bound (more than 3 GiB live)";
const NO_RETURN: &str = "a call into the crate did not return within 30 s of CPU time";

/// What a traced case said about its input.
fn inputs(said: &str) -> String {
    said.lines().filter_map(|l| l.strip_prefix("input ")).collect::<Vec<_>>().join("; ")
}

/// Run the production build of this program, which lies beside this one.
fn other_build(args: &[&str]) -> i32 {
    let exe = std::env::current_exe().expect("current_exe");
    let exe = exe.parent().and_then(|d| d.parent()).expect("target directory").join("production/harness");
    match std::process::Command::new(&exe).args(args).status() {
        Ok(s) => s.code().unwrap_or(3),
        Err(e) => {
            eprintln!("{}: {e}", exe.display());
            2
        }
    }
}

/// Where the production build leaves word of what it did, for the evidence.
fn production_note(id: &str) -> std::path::PathBuf {
    verif_dir().join(format!("harness/target/production-{id}.json"))
}

fn supervised_check(id: &str) {
    let p = prop(id);
    if !production() && std::env::var_os(PRODUCTION).is_some() {
        let _ = std::fs::remove_file(production_note(p.id));
        let c = other_build(&["check", id]);
        if c != 0 {
            exit(c);
        }
    }
    let t0 = Instant::now();
    let c = match crash::run(&["check", id], false, None).0 {
        crash::End::Code(c) => exit(c),
        crash::End::Crash(c) => c,
        crash::End::Stuck => unreachable!(),
    };
    let (seed, tier) = (env_seed(), env_tier());
    let part = &p.parts[c.part.min(p.parts.len() - 1)];
    let no = c.part.to_string();
    // Once more, to learn the choices and the input.
    let (end, said) = crash::run(&["trace", id, &no, &seed.to_string(), &c.idx.to_string(), &tier], true, Some(30));
    let choices = |said: &str| -> Vec<u64> { said.lines().filter_map(|l| l.strip_prefix("choice ")).filter_map(|x| x.parse().ok()).collect() };
    let mut text = inputs(&said);
    let mut body = format!("property {}\npart {}\n", p.id, part.name);
    let ch = choices(&said);
    let again = matches!(end, crash::End::Crash(_));
    let arg = |ch: &[u64]| ch.iter().map(u64::to_string).collect::<Vec<_>>().join(",");
    if again && ch.len() < 5_000 {
        let small = if part.enumerate.is_some() {
            ch
        } else {
            shrink_with(ch, Fail { msg: c.text() }, |cand| {
                let (end, said) = crash::run(&["try", id, &no, &arg(cand)], true, Some(30));
                matches!(end, crash::End::Crash(_)).then(|| (choices(&said), Fail { msg: c.text() }))
            })
            .0
        };
        text = inputs(&crash::run(&["try", id, &no, &arg(&small)], true, Some(30)).1);
        let _ = writeln!(body, "choices {}", arg(&small).replace(',', " "));
        let _ = writeln!(body, "seed {seed} tier {tier} case {}", c.idx);
    } else {
        let _ = writeln!(body, "case {seed} {} {tier}", c.idx);
    }
    let _ = writeln!(body, "message {}\ninput {}", c.text(), clip(text.clone()).replace('\n', " "));
    let file = write_replay(p.id, part.name, &body);
    let o = Outcome {
        evals: c.idx + 1,
        nontrivial: 1,
        distinct: 1,
        samples: vec![format!("[violation, part {} case {}] {}: {}", part.name, c.idx, c.text(), text)],
        parts: vec![],
        labels: vec![],
        violations: 1,
    };
    write_evidence(&p, seed, &tier, &o, t0.elapsed().as_secs_f64());
    println!("{}: {} (case {} of part {})\n  input: {}", p.id, c.text(), c.idx, part.name, clip(text));
    println!("VIOLATION property={} replay={}", p.id, file.display());
    let _ = std::io::stdout().flush();
    exit(1)
}

struct Outcome {
    evals: u64,
    nontrivial: u64,
    distinct: u64,
    samples: Vec<String>,
    parts: Vec<(String, u64, bool)>,
    labels: Vec<(String, u64)>,
    violations: u32,
}

fn write_evidence(p: &Prop, seed: u64, tier: &str, o: &Outcome, wall: f64) {
    if production() && o.violations == 0 {
        let s = format!(
            "{{\"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {wall:.2}}}",
            o.evals, o.nontrivial, o.distinct
        );
        if let Err(e) = std::fs::write(production_note(p.id), s) {
            eprintln!("cannot write evidence: {e}");
            exit(2);
        }
        return;
    }
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::new();
    let exhaustive = !o.parts.is_empty() && o.parts.iter().all(|x| x.2);
    let _ = write!(
        s,
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"nontrivial\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"exhaustive\": {},\n    \"parts\": [",
        json_str(p.id), json_str(tier), seed, o.evals, o.nontrivial, o.distinct, json_str(p.rule), exhaustive
    );
    for (i, (n, e, x)) in o.parts.iter().enumerate() {
        let _ = write!(
            s,
            "{}\n      {{\"name\": {}, \"evaluations\": {}, \"exhaustive\": {}}}",
            if i > 0 { "," } else { "" },
            json_str(n), e, x
        );
    }
    s.push_str("\n    ],\n    \"labels\": {");
    for (i, (k, v)) in o.labels.iter().enumerate() {
        let _ = write!(s, "{}\n      {}: {}", if i > 0 { "," } else { "" }, json_str(k), v);
    }
    s.push_str("\n    },\n    \"samples\": [");
    for (i, x) in o.samples.iter().enumerate() {
        let _ = write!(s, "{}\n      {}", if i > 0 { "," } else { "" }, json_str(&clip(x.clone())));
    }
    s.push_str("\n    ]");
    if !production() && std::env::var_os(PRODUCTION).is_some() {
        if let Ok(x) = std::fs::read_to_string(production_note(p.id)) {
            let _ = write!(s, ",\n    \"without_debug_assertions\": {x}");
        }
    }
    let _ = write!(s, "\n  }},\n  \"build\": \"{}\",\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", if production() { "production" } else { "checked" }, wall, o.violations);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), s) {
        eprintln!("cannot write evidence: {e}");
        exit(2);
    }
}

fn write_replay(id: &str, name: &str, body: &str) -> std::path::PathBuf {
    let body = if production() { format!("{body}build production\n") } else { body.to_string() };
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let name: String = name.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' }).collect();
    let f = dir.join(format!("{id}-{name}.replay"));
    if let Err(e) = std::fs::write(&f, body) {
        eprintln!("cannot write replay: {e}");
        exit(2);
    }
    f
}

fn check(id: &str) {
    let p = prop(id);
    let seed = env_seed();
    let tier = env_tier();
    let t0 = Instant::now();
    spawn_watchdog(t0);
    let r = run_prop(&p, seed, &tier);
    let mut o = Outcome {
        evals: r.evals,
        nontrivial: r.nontrivial,
        distinct: r.distinct,
        samples: r.samples,
        parts: r.parts,
        labels: r.labels.into_iter().collect(),
        violations: 0,
    };
    if let Some(f) = r.found {
        let part = &p.parts[f.part];
        *CURRENT.lock().unwrap() = None; // the watchdog does not follow the shrinker
        SLOTS[0].idx.store(f.idx, SeqCst); // should the shrinker end the process
        let (choices, fail) =
            if part.enumerate.is_some() { (f.choices.clone(), f.fail.clone()) } else { shrink(part, f.choices.clone(), f.fail.clone()) };
        let (_, _, text) = replay(part, &choices, true);
        let mut body = String::new();
        let _ = writeln!(body, "property {}\npart {}", p.id, part.name);
        let _ = write!(body, "choices");
        for c in &choices {
            let _ = write!(body, " {c}");
        }
        let _ = writeln!(body, "\nseed {seed} tier {tier} case {}", f.idx);
        let _ = writeln!(body, "message {}", clip(fail.msg.clone()).replace('\n', " "));
        let _ = writeln!(body, "input {}", clip(text.clone()).replace('\n', " "));
        let file = write_replay(p.id, part.name, &body);
        println!("{}: {} (case {} of part {}, shrunk from {} to {} choices)", p.id, clip(fail.msg), f.idx, part.name, f.choices.len(), choices.len());
        println!("  input: {}", clip(text.clone()));
        o.violations = 1;
        o.samples.push(format!("[violation, part {}] {}", part.name, text));
        write_evidence(&p, seed, &tier, &o, t0.elapsed().as_secs_f64());
        println!("VIOLATION property={} replay={}", p.id, file.display());
        let _ = std::io::stdout().flush();
        exit(1);
    }
    write_evidence(&p, seed, &tier, &o, t0.elapsed().as_secs_f64());
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1} s, seed {}, tier {}{}",
        p.id, o.evals, o.distinct, t0.elapsed().as_secs_f64(), seed, tier, if production() { ", production build" } else { "" }
    );
}

/// Report a case that never came back (or ran past the memory ceiling) and end the process.
fn report_stuck(slot: usize, what: &str, t0: Instant) -> ! {
    harness::capture::restore();
    let cur = CURRENT.lock().unwrap();
    let c = cur.as_ref().unwrap();
    let idx = SLOTS[slot].idx.load(SeqCst);
    let p = prop(&c.prop);
    let no = PART.load(SeqCst).to_string();
    let (_, said) = crash::run(&["trace", &c.prop, &no, &c.seed.to_string(), &idx.to_string(), &c.tier], true, Some(5));
    let text = inputs(&said);
    let body = format!(
        "property {}\npart {}\ncase {} {} {}\nmessage {}\ninput {}\n",
        c.prop, c.part, c.seed, idx, c.tier, what, clip(text.clone())
    );
    let file = write_replay(&c.prop, &c.part, &body);
    let o = Outcome {
        evals: SLOTS.iter().map(|s| s.tick.load(SeqCst)).sum(),
        nontrivial: 0,
        distinct: 0,
        samples: vec![format!("[violation, part {} case {}] {}: {}", c.part, idx, what, text)],
        parts: vec![],
        labels: vec![],
        violations: 1,
    };
    write_evidence(&p, c.seed, &c.tier, &o, t0.elapsed().as_secs_f64());
    println!("{}: {} (case {} of part {})\n  input: {}", c.prop, what, idx, c.part, clip(text));
    println!("VIOLATION property={} replay={}", c.prop, file.display());
    let _ = std::io::stdout().flush();
    exit(1)
}

const STALL: Duration = Duration::from_secs(20);

fn spawn_watchdog(t0: Instant) {
    std::thread::spawn(move || {
        let mut seen = [(0u64, Instant::now()); 16];
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let r = alloc::RUNAWAY.load(SeqCst);
            if r > 0 {
                if CURRENT.lock().unwrap().is_some() {
                    report_stuck(r - 1, NO_BOUND, t0);
                } else {
                    println!("memory ceiling reached while shrinking");
                    exit(3);
                }
            }
            if CURRENT.lock().unwrap().is_none() {
                continue;
            }
            for (i, s) in SLOTS.iter().enumerate() {
                let t = s.tick.load(SeqCst);
                if !s.busy.load(SeqCst) || t != seen[i].0 {
                    seen[i] = (t, Instant::now());
                } else if seen[i].1.elapsed() > STALL {
                    // Alone, with a limit in CPU time (not wall time): does the case still not end?
                    let cmd = {
                        let g = CURRENT.lock().unwrap();
                        let Some(c) = g.as_ref() else { continue };
                        let exe = std::env::current_exe().unwrap();
                        format!(
                            "ulimit -t 30; exec '{}' case {} '{}' {} {} {}",
                            exe.display(), c.prop, c.part, c.seed, s.idx.load(SeqCst), c.tier
                        )
                    };
                    let st = std::process::Command::new("bash").arg("-c").arg(cmd).status();
                    match st {
                        Ok(st) if st.code().is_none() => {
                            report_stuck(i, NO_RETURN, t0)
                        }
                        Ok(st) if st.code() == Some(4) => {
                            report_stuck(i, NO_BOUND, t0)
                        }
                        _ => seen[i] = (t, Instant::now()),
                    }
                }
            }
        }
    });
}

/// Exit code: 0 holds, 1 violated, 4 memory ceiling.
fn one_case(id: &str, part: &str, seed: u64, idx: u64, tier: &str) -> i32 {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(50));
        if alloc::RUNAWAY.load(SeqCst) > 0 {
            println!("memory ceiling reached");
            exit(4);
        }
    });
    let p = prop(id);
    let Some(part) = p.parts.iter().find(|x| x.name == part) else { return 2 };
    let id = p.id;
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, || {
                let mut ctx = Ctx { want_text: true, thorough: tier == "thorough", ..Ctx::default() };
                let e = [idx];
                let mut src = if part.enumerate.is_some() {
                    Src::replay(&e)
                } else {
                    Src::random(case_seed(seed, id, part.name, idx))
                };
                let r = (part.f)(&mut src, &mut ctx);
                (r, ctx.text)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    println!("input: {}", r.1);
    match r.0 {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(f) => {
            println!("violated: {}", f.msg);
            1
        }
    }
}

fn replay_file(file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).map(|r| r.trim().to_string()));
    let (Some(id), Some(pn)) = (get("property "), get("part ")) else { return 2 };
    let p = prop(&id);
    let Some(part) = p.parts.iter().find(|x| x.name == pn) else { return 2 };
    if let Some(c) = s.lines().find_map(|l| l.strip_prefix("choices")) {
        let ch: Vec<u64> = c.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let (r, _, text) = replay(part, &ch, true);
        println!("input: {text}");
        return match r {
            Ok(()) => {
                println!("holds");
                0
            }
            Err(f) => {
                println!("violated: {}", f.msg);
                println!("VIOLATION property={id} replay={file}");
                1
            }
        };
    }
    let c = get("case ").unwrap_or_default();
    let v: Vec<&str> = c.split_whitespace().collect();
    if v.len() != 3 {
        return 2;
    }
    one_case(&id, &pn, v[0].parse().unwrap(), v[1].parse().unwrap(), v[2])
}
