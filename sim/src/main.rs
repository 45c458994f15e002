//! Deterministic simulation of xml_dom: supervisor, workers and replay.

mod json;
mod known;
mod model;
#[cfg(feature = "parser")]
mod psim;
mod rng;
mod runner;
mod seams;
mod world;
mod xmlread;

use json::{n, obj, s, J};
use runner::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

struct Args(Vec<String>);

impl Args {
    fn get(&self, name: &str) -> Option<&str> {
        self.0.iter().position(|a| a == name).and_then(|i| self.0.get(i + 1)).map(|x| x.as_str())
    }
    fn num(&self, name: &str, default: u64) -> u64 {
        self.get(name).and_then(|x| x.parse().ok()).unwrap_or(default)
    }
}

fn main() {
    let args = Args(std::env::args().skip(1).collect());
    seams::install();
    let code = match args.0.first().map(|x| x.as_str()) {
        Some("check") => check(&args),
        Some("worker") => worker(&args),
        Some("minimise") => minimise_file(&args),
        Some("exec") => exec_file(&args),
        Some("replay") => replay(&args),
        Some("known") => known::run(args.0.get(1).map_or("", |x| x)),
        _ => {
            eprintln!("usage: sim check --prop ID [--tier T] [--seed N] | sim replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn hits(report: &Report, prop: &str) -> bool {
    report.viol.as_ref().is_some_and(|v| v.tags.contains(prop))
}

// ------------------------------------------------------------------------------------------ worker

fn counts(m: &BTreeMap<String, u64>) -> J {
    J::Obj(m.iter().map(|(k, v)| (k.clone(), n(*v))).collect())
}

fn counts_of(j: &J) -> BTreeMap<String, u64> {
    match j {
        J::Obj(m) => m.iter().map(|(k, v)| (k.clone(), v.int() as u64)).collect(),
        _ => BTreeMap::new(),
    }
}

fn write_u64s(path: &Path, set: &BTreeSet<u64>) {
    let bytes: Vec<u8> = set.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = std::fs::write(path, bytes);
}

fn read_u64s(path: &Path) -> Vec<u64> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

const KEEP: usize = 3_000_000;

fn worker(args: &Args) -> i32 {
    let prop = args.get("--prop").unwrap_or("").to_string();
    let seed = args.num("--seed", 1);
    let (first, stride, total) = (args.num("--first", 0), args.num("--stride", 1), args.num("--runs", 1));
    let thorough = args.get("--tier") == Some("thorough");
    let deadline = Instant::now() + Duration::from_secs(args.num("--seconds", 60));
    let base = PathBuf::from(args.get("--out").unwrap_or("/dev/null"));
    let progress = std::fs::File::create(base.with_extension("progress")).expect("progress");
    let mut total_stats = Report::default();
    let mut ops: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut states = BTreeSet::new();
    let mut traces = BTreeSet::new();
    let (mut runs, mut reruns, mut unstable) = (0u64, 0u64, 0u64);
    let mut found = J::Null;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = first;
    while i < total {
        let _ = progress.write_all_at(&(i + 1).to_le_bytes(), 0);
        let trial = generate(&prop, seed, i, thorough);
        let report = run(&trial);
        runs += 1;
        // the same run again has to be the same run
        if i % 97 == 0 {
            reruns += 1;
            let again = run(&trial);
            if again.trace != report.trace
                || again.viol.as_ref().map(|v| &v.msg) != report.viol.as_ref().map(|v| &v.msg)
            {
                unstable += 1;
            }
        }
        let st = report.stats;
        total_stats.stats.steps += st.steps;
        total_stats.stats.skipped += st.skipped;
        total_stats.stats.nested += st.nested;
        total_stats.stats.checks += st.checks;
        for (k, v) in st.ops {
            *ops.entry(k).or_insert(0) += v;
        }
        for (k, v) in st.faults {
            *faults.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in st.probes {
            *probes.entry(k.to_string()).or_insert(0) += v;
        }
        if states.len() < KEEP {
            states.extend(st.states);
        }
        if traces.len() < KEEP {
            traces.insert(report.trace);
        }
        for k in report.known.keys() {
            *known.entry(k.to_string()).or_insert(0) += 1;
        }
        if let Some(v) = &report.viol {
            if v.tags.contains(prop.as_str()) {
                found = n(i);
                break;
            }
            let tags: Vec<&str> = v.tags.iter().copied().collect();
            *foreign.entry(tags.join("+")).or_insert(0) += 1;
            if args.get("--verbose").is_some() {
                eprintln!("run {}: {:?} step {}: {}", i, v.tags, v.step, v.msg);
            }
        }
        if runs % 16 == 0 && Instant::now() >= deadline {
            break;
        }
        i += stride;
    }
    let _ = progress.write_all_at(&u64::MAX.to_le_bytes(), 0);
    write_u64s(&base.with_extension("states"), &states);
    write_u64s(&base.with_extension("traces"), &traces);
    let out = obj(vec![
        ("runs", n(runs)),
        ("reruns", n(reruns)),
        ("unstable", n(unstable)),
        ("steps", n(total_stats.stats.steps)),
        ("skipped", n(total_stats.stats.skipped)),
        ("nested", n(total_stats.stats.nested)),
        ("checks", n(total_stats.stats.checks)),
        ("ops", counts(&ops)),
        ("faults", counts(&faults)),
        ("probes", counts(&probes)),
        ("foreign", counts(&foreign)),
        ("known", counts(&known)),
        ("entropy", n(seams::entropy_calls())),
        ("found", found),
    ]);
    let _ = std::fs::write(base.with_extension("json"), out.print());
    0
}

// ------------------------------------------------------------------------------------------ replay

fn replay_json(prop: &str, seed: u64, index: u64, trial: &Trial, outcome: &str, report: Option<&Report>) -> J {
    let mut v = vec![
        ("property", s(prop)),
        ("seed", s(seed.to_string())),
        ("run", n(index)),
        ("outcome", s(outcome)),
        ("trial", trial_json(trial)),
    ];
    if let Some(r) = report {
        v.push(("trace", s(r.trace.to_string())));
        if let Some(x) = &r.viol {
            v.push(("tags", J::Arr(x.tags.iter().map(|t| s(*t)).collect())));
            v.push(("step", n(x.step as u64)));
            v.push(("violation", s(x.msg.clone())));
        }
    }
    obj(v)
}

fn load(path: &str) -> Option<(J, Trial)> {
    let text = std::fs::read_to_string(path).ok()?;
    let j = J::parse(&text).ok()?;
    let t = trial_of(j.get("trial"))?;
    Some((j, t))
}

fn save(path: &Path, j: &J) {
    let tmp = path.with_extension("tmp");
    let _ = std::fs::write(&tmp, j.print());
    let _ = std::fs::rename(&tmp, path);
}

/// Reproduce a recorded violation.
fn replay(args: &Args) -> i32 {
    let path = args.0.get(1).map_or("", |x| x);
    let (j, trial) = match load(path) {
        Some(x) => x,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let prop = j.get("property").str().to_string();
    if j.get("outcome").str() != "violation" {
        // an abort or a hang: look at it from outside
        let got = exec_outside(path, 20);
        println!("recorded: {}, now: {}", j.get("outcome").str(), got);
        if got == j.get("outcome").str() {
            println!("VIOLATION property={} replay={}", prop, path);
            return 1;
        }
        return 0;
    }
    let report = run(&trial);
    match &report.viol {
        Some(v) if v.tags.contains(prop.as_str()) => {
            println!("step {}: {} {:?}", v.step, v.msg, v.tags);
            let exact = v.msg == j.get("violation").str() && report.trace.to_string() == j.get("trace").str();
            println!("{}", if exact { "reproduced exactly" } else { "reproduced, not as recorded" });
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        other => {
            println!("does not reproduce: {:?}", other.as_ref().map(|v| &v.msg));
            0
        }
    }
}

fn exec_file(args: &Args) -> i32 {
    match load(args.0.get(1).map_or("", |x| x)) {
        Some((j, t)) => {
            if hits(&run(&t), j.get("property").str()) {
                10
            } else {
                0
            }
        }
        None => 3,
    }
}

/// Run a replay file in a process of its own: "ok", "violation", "abort" or "hang".
fn exec_outside(path: &str, seconds: u64) -> &'static str {
    let mut child = match Command::new(std::env::current_exe().expect("exe"))
        .args(["exec", path])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return "ok",
    };
    match wait(&mut child, Duration::from_secs(seconds)) {
        None => "hang",
        Some(st) if st.signal().is_some() => "abort",
        Some(st) if st.code() == Some(10) => "violation",
        _ => "ok",
    }
}

fn wait(child: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let end = Instant::now() + limit;
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            return Some(st);
        }
        if Instant::now() >= end {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Reduce a replay file, rewriting it whenever it got smaller.
fn minimise_file(args: &Args) -> i32 {
    let path = args.0.get(1).map_or("", |x| x).to_string();
    let (j, trial) = match load(&path) {
        Some(x) => x,
        None => return 3,
    };
    let prop = j.get("property").str().to_string();
    let (seed, index) = (j.get("seed").u64(), j.get("run").int() as u64);
    let outcome = j.get("outcome").str().to_string();
    let deadline = Instant::now() + Duration::from_secs(args.num("--seconds", 40));
    let file = PathBuf::from(&path);
    if outcome == "violation" {
        let mut keep = trial.clone();
        let best = minimise(
            &trial,
            &mut |t| {
                let r = run(t);
                let hit = hits(&r, &prop);
                if hit && t.size() < keep.size() {
                    keep = t.clone();
                    save(&file, &replay_json(&prop, seed, index, t, "violation", Some(&r)));
                }
                hit
            },
            deadline,
        );
        let r = run(&best);
        save(&file, &replay_json(&prop, seed, index, &best, "violation", Some(&r)));
    } else {
        let cand = file.with_extension("cand.json");
        let best = minimise(
            &trial,
            &mut |t| {
                save(&cand, &replay_json(&prop, seed, index, t, &outcome, None));
                exec_outside(cand.to_str().unwrap(), 3) == outcome
            },
            deadline,
        );
        let _ = std::fs::remove_file(&cand);
        save(&file, &replay_json(&prop, seed, index, &best, &outcome, None));
    }
    0
}

// -------------------------------------------------------------------------------------- supervisor

struct Running {
    child: Child,
    base: PathBuf,
    seen: u64,
    since: Instant,
    done: bool,
}

fn progress_of(base: &Path) -> u64 {
    let mut b = [0u8; 8];
    match std::fs::File::open(base.with_extension("progress")).and_then(|mut f| f.read_exact(&mut b)) {
        Ok(()) => u64::from_le_bytes(b),
        Err(_) => 0,
    }
}

fn check(args: &Args) -> i32 {
    let started = Instant::now();
    let prop = args.get("--prop").unwrap_or("").to_string();
    let tier = args.get("--tier").unwrap_or("quick").to_string();
    let seed = args.num("--seed", 1);
    let total = args.num("--runs", 20_000);
    let seconds = args.num("--seconds", 200);
    let verif = PathBuf::from(args.get("--verif").unwrap_or("."));
    let replays = verif.join("replays");
    let work = replays.join(format!("work-{}-{}", prop, std::process::id()));
    let _ = std::fs::create_dir_all(&work);
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    let count = args.num(
        "--workers",
        std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(1, 8),
    );

    // findings that are listed are announced, whether or not the search meets them
    let (announced, unlisted) = known::examine(&prop, &verif, &work);
    for line in &announced {
        println!("{}", line);
    }
    let mut violation: Option<(PathBuf, String)> = None;
    for (id, what) in unlisted {
        let file = replays.join(format!("{}-known-{}.json", prop, id));
        save(&file, &obj(vec![("property", s(prop.clone())), ("outcome", s("scenario")), ("scenario", s(id)), ("violation", s(what.clone()))]));
        violation = Some((file, what));
    }

    let mut workers: Vec<Running> = (0..count)
        .map(|w| {
            let base = work.join(format!("w{}", w));
            let child = Command::new(std::env::current_exe().expect("exe"))
                .args(["worker", "--prop", &prop, "--tier", &tier])
                .args(["--seed", &seed.to_string(), "--first", &w.to_string()])
                .args(["--stride", &count.to_string(), "--runs", &total.to_string()])
                .args(["--seconds", &seconds.to_string(), "--out", base.to_str().unwrap()])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("worker");
            Running { child, base, seen: 0, since: Instant::now(), done: false }
        })
        .collect();

    // (run, outcome)
    let mut worst: Option<(u64, &'static str)> = None;
    loop {
        let mut open = 0;
        for w in workers.iter_mut().filter(|w| !w.done) {
            let at = progress_of(&w.base);
            if let Ok(Some(st)) = w.child.try_wait() {
                w.done = true;
                if st.signal().is_some() || st.code() != Some(0) {
                    let at = at.saturating_sub(1);
                    if worst.is_none_or(|x| at < x.0) {
                        worst = Some((at, "abort"));
                    }
                } else if let Ok(j) = J::parse(&std::fs::read_to_string(w.base.with_extension("json")).unwrap_or_default()) {
                    if *j.get("found") != J::Null {
                        let at = j.get("found").int() as u64;
                        if worst.is_none_or(|x| at < x.0) {
                            worst = Some((at, "violation"));
                        }
                    }
                }
                continue;
            }
            open += 1;
            if at != w.seen {
                w.seen = at;
                w.since = Instant::now();
            } else if w.since.elapsed() > Duration::from_secs(45) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
                let at = at.saturating_sub(1);
                if worst.is_none_or(|x| at < x.0) {
                    worst = Some((at, "hang"));
                }
            }
            // later runs do not matter any more
            if worst.is_some_and(|x| at != u64::MAX && at > x.0 + 1) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
            }
        }
        if open == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    if let Some((index, outcome)) = worst {
        let trial = generate(&prop, seed, index, tier == "thorough");
        let file = replays.join(format!("{}-{}-{}.json", prop, seed, index));
        let report = if outcome == "violation" { Some(run(&trial)) } else { None };
        save(&file, &replay_json(&prop, seed, index, &trial, outcome, report.as_ref()));
        // a process that ended or hung has to do so again to be believed
        let again = if outcome == "violation" { "violation" } else { exec_outside(file.to_str().unwrap(), 60) };
        if again == outcome {
            if let Ok(mut c) = Command::new(std::env::current_exe().expect("exe"))
                .args(["minimise", file.to_str().unwrap(), "--seconds", "40"])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
            {
                wait(&mut c, Duration::from_secs(80));
            }
            let what = match load(file.to_str().unwrap()) {
                Some((j, _)) if outcome == "violation" => j.get("violation").str().to_string(),
                _ => format!("the process ended: {}", outcome),
            };
            violation = Some((file, what));
        } else {
            println!("note: run {} did not {} again", index, outcome);
            let _ = std::fs::remove_file(&file);
        }
    }

    // ---- evidence
    let mut sums: BTreeMap<&str, u64> = BTreeMap::new();
    let mut maps: BTreeMap<&str, BTreeMap<String, u64>> = BTreeMap::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    for w in &workers {
        if let Ok(j) = J::parse(&std::fs::read_to_string(w.base.with_extension("json")).unwrap_or_default()) {
            for k in ["runs", "reruns", "unstable", "steps", "skipped", "nested", "checks", "entropy"] {
                *sums.entry(k).or_insert(0) += j.get(k).int() as u64;
            }
            for k in ["ops", "faults", "probes", "foreign", "known"] {
                let m = maps.entry(k).or_default();
                for (a, b) in counts_of(j.get(k)) {
                    *m.entry(a).or_insert(0) += b;
                }
            }
        }
        states.extend(read_u64s(&w.base.with_extension("states")));
        traces.extend(read_u64s(&w.base.with_extension("traces")));
    }
    let _ = std::fs::remove_dir_all(&work);
    let wall = started.elapsed().as_secs_f64();
    let runs = sums.get("runs").copied().unwrap_or(0);
    let parsing = prop.starts_with('P');
    let samples: Vec<J> = (0..3u64)
        .map(|i| {
            let t = generate(&prop, seed, i, tier == "thorough");
            obj(vec![("run", n(i)), ("trial", s(trial_json(&t).compact().chars().take(1500).collect::<String>()))])
        })
        .collect();
    let get = |k: &str| n(sums.get(k).copied().unwrap_or(0));
    let map = |k: &str| counts(maps.get(k).unwrap_or(&BTreeMap::new()));
    let rule = if parsing {
        "one evaluation is one simulated run: a generated document or history, a plan of deliveries and faults, and the comparison of what was read with the oracle; non-trivial and distinct are runs whose sequence of deliveries, faults and results (a digest of all of them) occurred in no other run"
    } else {
        "one evaluation is one simulated run: a schedule of client steps and faults with the complete state compared with the reference model after every step; non-trivial and distinct are the shapes of the whole system (digest of all live trees: kinds, names, sizes of values, attributes, orphanage) that were reached"
    };
    let evidence = obj(vec![
        ("property", s(prop.clone())),
        ("tier", s(tier.clone())),
        ("seed", n(seed)),
        ("level", s("exploration")),
        (
            "coverage",
            obj(vec![
                ("evaluations", n(runs)),
                ("distinct_nontrivial", n(if parsing { traces.len() } else { states.len() } as u64)),
                ("rule", s(rule)),
                ("samples", J::Arr(samples)),
                ("distinct_executions", n(traces.len() as u64)),
                ("distinct_states", n(states.len() as u64)),
                ("seeds", n(runs)),
                ("runs_per_hour", n((runs as f64 / wall.max(0.001) * 3600.0) as u64)),
                ("simulated_steps", get("steps")),
                ("simulated_time", s("the system has no clock; time is counted in atomic steps")),
                ("steps_without_target", get("skipped")),
                ("steps_inside_output", get("nested")),
                ("full_state_comparisons", get("checks")),
                ("operations_and_outcomes", map("ops")),
                ("faults_injected", map("faults")),
                ("situations_reached", map("probes")),
                ("ended_by_other_property", map("foreign")),
                ("runs_meeting_known_findings", map("known")),
                ("repeated_runs", get("reruns")),
                ("repeated_runs_that_differed", get("unstable")),
                ("entropy_requests_served_by_the_simulator", get("entropy")),
                (
                    "components",
                    obj(vec![
                        ("real", s(if parsing { "xml_dom built from the working tree with feature quick_parser (parser, DOM, formatter), quick-xml, regex, std collections" } else { "xml_dom built from the working tree (DOM, namespaces, formatter), regex, std collections" })),
                        ("simulated", s(if parsing { "input source (BufRead), output destination (fmt::Write), storage that keeps a saved text, entropy (getrandom), logger, clients" } else { "clients and their scheduling, output destination (fmt::Write), entropy (getrandom), logger, reference drops" })),
                    ]),
                ),
            ]),
        ),
        (
            "assumptions",
            J::Arr(vec![
                s("the library is single-threaded by construction (Rc); a client step is atomic except where the library itself calls out, which is where the simulator interleaves"),
                s("the build under test has overflow checks and debug assertions on"),
                s("the reference model and the readers of the harness state the property correctly; they share no code with the crate"),
                s("search is by sampled seeds, not exhaustive"),
            ]),
        ),
        ("wall_s", J::Num(wall)),
        ("violations", n(violation.is_some() as u64)),
    ]);
    let _ = std::fs::write(verif.join("evidence").join(format!("{}.json", prop)), evidence.print());
    println!(
        "{}: {} runs, {} steps, {} states, {} executions, {:.1} s",
        prop,
        runs,
        sums.get("steps").copied().unwrap_or(0),
        states.len(),
        traces.len(),
        wall
    );
    let _ = std::io::stdout().flush();
    match violation {
        Some((file, what)) => {
            println!("{}", what);
            println!("VIOLATION property={} replay={}", prop, file.display());
            1
        }
        None => 0,
    }
}
