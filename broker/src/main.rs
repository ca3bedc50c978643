//! The model checker for the broker. See DESIGN.md.

mod b_connect;
mod b_deliver;
mod b_load;
mod b_flavour;
mod b_list;
mod b_long;
mod b_memory;
mod b_more;
mod b_session;
mod b_start;
mod b_wire;
mod client;
mod crash;
mod det;
mod explore;
mod mem;
mod oracle;
mod t_topics;
mod wire;

use explore::*;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::mc::Deviation;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

/// Not in this tier
pub const SKIP: u32 = u32::MAX;

fn scenarios(prop: &str) -> Option<Vec<Scenario>> {
    Some(match prop {
        "B01" => [b_deliver::b01(), b_more::b01(), b_flavour::b01(), b_long::b01()].concat(),
        "B02" => [b_deliver::b02(), b_long::b02()].concat(),
        "B03" => [b_deliver::b03(), b_long::b03()].concat(),
        "B04" => [b_deliver::b04(), b_more::b04(), b_long::b04()].concat(),
        "B05" => [b_connect::b05(), b_more::b05(), b_long::b05()].concat(),
        "B06" => [b_connect::b06(), b_more::b06(), b_long::b06()].concat(),
        "B07" => [b_connect::b07(), b_flavour::b07(), b_long::b07()].concat(),
        "B08" => [b_session::b08(), b_flavour::b08(), b_long::b08()].concat(),
        "B09" => [b_wire::b09(), b_more::b09(), b_long::b09()].concat(),
        "B10" => [b_wire::b10(), b_long::b10()].concat(),
        "B11" => [b_wire::b11(), b_long::b11()].concat(),
        "B12" => [b_wire::b12(), b_long::b12()].concat(),
        "B13" => [b_session::b13(), b_more::b13(), b_flavour::b13()].concat(),
        "B14" => [b_session::b14(), b_long::b14()].concat(),
        "B15" => [b_load::b15(), b_long::b15()].concat(),
        "B16" => [b_session::b16(), b_more::b16(), b_flavour::b16(), b_long::b16()].concat(),
        "B18" => b_start::b18(),
        "B19" => b_start::b19(),
        "B20" => b_list::b20(),
        "B21" => b_memory::b21(),
        "B22" => b_memory::b22(),
        "B23" => plain(),
        "B17" => [b_load::b17(), b_more::b17(), b_flavour::b17(), b_long::b17()].concat(),
        "T01" => t_topics::t01(),
        "T02" => t_topics::t02(),
        "T03" => t_topics::t03(),
        _ => return None,
    })
}

/// The other properties, for a build without the encrypted transport. The schedules of each were
/// explored further in the build with it.
fn plain() -> Vec<Scenario> {
    let mut all = Vec::new();
    for id in (1..=22).filter(|i| ![11, 12].contains(i)) {
        for mut s in scenarios(&format!("B{:02}", id)).unwrap() {
            if s.name.contains("noise") || s.name.contains("long") {
                continue;
            }
            for (t, limit) in [1, 2].into_iter().enumerate() {
                if s.bound[t] != SKIP {
                    s.bound[t] = s.bound[t].min(limit);
                }
            }
            all.push(s);
        }
    }
    all
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn script_text(s: &[Deviation]) -> String {
    s.iter()
        .map(|d| format!("{}:{}:{}", d.pos, d.n, d.alt))
        .collect::<Vec<_>>()
        .join(" ")
}

fn main() {
    if !det::self_test() {
        eprintln!("internal error: randomness is not under control");
        std::process::exit(2);
    }
    tokio::mc::install_panic_hook();
    crash::install();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("check") if args.len() >= 4 => check(&args[1], &args[2], PathBuf::from(&args[3])),
        Some("replay") if args.len() == 2 => replay(&args[1]),
        Some("list") => {
            for id in (1..=23).map(|p| format!("B{:02}", p)).chain((1..=3).map(|p| format!("T{:02}", p))) {
                for s in scenarios(&id).unwrap_or_default() {
                    println!("{} {} {:?}", id, s.name, s.bound);
                }
            }
        }
        _ => {
            eprintln!("usage: mc-broker check PROPERTY quick|thorough DIRECTORY | replay FILE");
            std::process::exit(2);
        }
    }
}

fn check(prop: &str, tier: &str, root: PathBuf) -> ! {
    let start = Instant::now();
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let _ = PROPERTY.set((prop.to_string(), dir));
    let t = match tier {
        "quick" => 0,
        "thorough" => 1,
        _ => panic!("unknown tier"),
    };
    let budget = std::env::var("MC_BUDGET")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or([240u64, 650][t]);
    let deadline = start + Duration::from_secs(budget);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let only = std::env::var("MC_ONLY").ok();
    let mut list: Vec<Arc<Scenario>> = scenarios(prop)
        .expect("unknown property")
        .into_iter()
        .filter(|s| s.bound[t] != SKIP)
        .filter(|s| only.as_ref().map(|o| s.name.contains(o.as_str())).unwrap_or(true))
        .map(Arc::new)
        .collect();
    let mut rows = Vec::new();
    let mut total = Stats::default();
    let mut found = None;
    // every scenario at a small bound first, then deeper
    let max = list.iter().map(|s| s.bound[t]).max().unwrap_or(0);
    let mut results: Vec<Option<Stats>> = list.iter().map(|_| None).collect();
    let wanted: Vec<u32> = list.iter().map(|s| s.bound[t]).collect();
    'outer: for bound in 0..=max {
        for (i, sc) in list.iter_mut().enumerate() {
            if sc.bound[t] < bound {
                continue;
            }
            if results[i].as_ref().map(|s| !s.complete).unwrap_or(false) {
                continue;
            }
            if Instant::now() > deadline {
                break 'outer;
            }
            let t0 = Instant::now();
            // an equal share of what is left for every scenario of this level
            let waiting = (i..results.len())
                .filter(|j| wanted[*j] >= bound && results[*j].as_ref().map(|s| s.complete).unwrap_or(true))
                .count() as u32;
            let share = deadline.saturating_duration_since(t0) / waiting.max(1);
            let until = if t == 1 { t0 + share.max(Duration::from_secs(1)) } else { deadline };
            let (stats, f) = explore(sc, bound, until, threads);
            if std::env::var("MC_VERBOSE").is_ok() {
                eprintln!(
                    "{} D={} executions {} points<={} distinct {} {:?} {:.1}s complete {}",
                    sc.name,
                    bound,
                    stats.executions,
                    stats.max_points,
                    stats.distinct,
                    stats.per_cost,
                    t0.elapsed().as_secs_f32(),
                    stats.complete
                );
            }
            let mut stats = stats;
            if !stats.complete {
                stats.bound = results[i].as_ref().and_then(|s| s.bound);
            }
            results[i] = Some(stats);
            if let Some(f) = f {
                found = Some((sc.clone(), f));
                break 'outer;
            }
        }
    }
    for (sc, st) in list.iter().zip(&results) {
        let st = match st {
            Some(s) => s,
            None => continue,
        };
        total.executions += st.executions;
        total.steps += st.steps;
        total.points += st.points + st.histories;
        total.histories += st.histories;
        total.evals += st.evals;
        total.distinct += st.distinct;
        total.diverged += st.diverged;
        rows.push(format!(
            "{{\"scenario\":{},\"deviation_bound_requested\":{},\"deviation_bound_completed\":{},\"complete\":{},\"executions\":{},\"executions_by_deviations\":{:?},\"task_polls\":{},\"choice_points\":{},\"longest_choice_sequence\":{},\"distinct_outcomes\":{},\"oracle_evaluations\":{},\"skipped\":{},\"enumerated_histories\":{},\"diverged\":{},\"random_stream\":{}}}",
            json_str(&sc.name), sc.bound[t], st.bound.map(|b| b.to_string()).unwrap_or("null".into()), st.complete,
            st.executions, st.per_cost, st.steps, st.points, st.max_points, st.distinct, st.evals, st.skipped, st.histories, st.diverged, sc.seed
        ));
    }
    let mut violations = String::new();
    let mut code = 0;
    if let Some((sc, f)) = &found {
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}-{}.txt", prop, sc.name));
        let mut text = format!(
            "property {}\nscenario {}\nscript {}\n",
            prop,
            sc.name,
            script_text(&f.script)
        );
        for w in &f.what {
            let _ = writeln!(text, "# {}", w.replace('\n', " "));
        }
        if let Some(o) = run_once(sc, &f.script, true) {
            for l in o.log {
                let _ = writeln!(text, "# {}", l.replace('\n', " "));
            }
            for (n, m) in o.report.panics {
                let _ = writeln!(text, "# task {} panicked: {}", n, m.replace('\n', " "));
            }
        }
        let _ = std::fs::write(&file, &text);
        println!("VIOLATION property={} replay={}", prop, file.display());
        for w in &f.what {
            println!("  {}: {}", sc.name, w);
        }
        println!("  choices that differ from the default schedule: [{}]", script_text(&f.script));
        violations = format!(
            "{{\"scenario\":{},\"what\":{},\"replay\":{}}}",
            json_str(&sc.name),
            json_str(&f.what.join("; ")),
            json_str(&file.display().to_string())
        );
        code = 1;
    }
    let mut deterministic = true;
    let samples: Vec<String> = list.iter().take(6).map(|sc| {
        // the same schedule twice must be the same execution
        let (a, b) = (run_once(sc, &[], false), run_once(sc, &[], false));
        let (n, s) = match (&a, &b) {
            (Some(a), Some(b)) => {
                if a.obs != b.obs || a.report.choices != b.report.choices || a.report.steps != b.report.steps {
                    deterministic = false;
                }
                (a.report.choices.len(), a.report.steps)
            }
            _ => (0, 0),
        };
        json_str(&format!("{}: default schedule with {} choice points in {} task polls", sc.name, n, s))
    }).collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"oracle_evaluations\": {},\n  \"diverged\": {},\n  \"same_schedule_same_execution\": {},\n  \"await_points_only\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}],\n  \"violation\": [{}],\n  \"scenarios\": [\n   {}\n  ]\n }},\n \"assumptions\": [\"states are decision points reached, transitions are polls of tasks, every trace is an execution of the implementation itself\", \"executions interleave at await points, lock operations, channel sends, notifications and socket operations\", \"the network is a simulated reliable byte stream, the clock is virtual, randomness is a fixed stream\", \"exhaustive means: all executions with at most the stated number of deviations from the default schedule, per scenario\"],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
        json_str(prop), json_str(tier), seed,
        total.points, total.steps, total.executions + total.histories, total.distinct, total.evals, total.diverged,
        deterministic,
        AWAIT_POINTS_ONLY.load(Ordering::Relaxed),
        found.is_none() && results.iter().zip(&list).all(|(r, s)| r.as_ref().map(|r| r.bound == Some(s.bound[t])).unwrap_or(false)),
        samples.join(", "),
        violations,
        rows.join(",\n   "),
        found.is_some() as u32,
        start.elapsed().as_secs_f64()
    );
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop)), json) {
        eprintln!("cannot write evidence: {}", e);
        std::process::exit(2);
    }
    if code == 0 {
        println!(
            "{} held on {} executions ({} task polls, {} decision points), {:.1}s",
            prop, total.executions + total.histories, total.steps, total.points, start.elapsed().as_secs_f32()
        );
    }
    std::process::exit(code)
}

fn replay(file: &str) -> ! {
    let text = std::fs::read_to_string(file).expect("cannot read the replay file");
    let mut prop = String::new();
    let mut name = String::new();
    let mut script = Vec::new();
    for l in text.lines() {
        if let Some(p) = l.strip_prefix("property ") {
            prop = p.to_string();
        } else if let Some(p) = l.strip_prefix("scenario ") {
            name = p.to_string();
        } else if let Some(p) = l.strip_prefix("script") {
            for d in p.split_whitespace() {
                let v: Vec<u32> = d.split(':').map(|x| x.parse().unwrap()).collect();
                script.push(Deviation { pos: v[0], n: v[1], alt: v[2] });
            }
        }
    }
    let _ = PROPERTY.set((prop.clone(), std::env::temp_dir()));
    let sc = scenarios(&prop)
        .expect("unknown property")
        .into_iter()
        .find(|s| s.name == name)
        .expect("unknown scenario");
    let o = run_once(&Arc::new(sc), &script, true);
    match o {
        None => println!("the execution hangs"),
        Some(o) => {
            for l in o.log {
                println!("{}", l);
            }
            println!("{:?}", o.report.end);
            for p in o.report.panics {
                println!("task {} panicked: {}", p.0, p.1);
            }
            if o.violations.is_empty() {
                println!("no violation");
                std::process::exit(0);
            }
            for v in o.violations {
                println!("violated: {}", v);
            }
        }
    }
    println!("VIOLATION property={} replay={}", prop, file);
    std::process::exit(1)
}
