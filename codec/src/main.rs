//! The model checker for the codec. See DESIGN.md.

mod crash;
mod det;
mod enumr;
mod gen;
mod imp;
mod known;
mod mem;
mod p;
mod refc;

use enumr::*;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

fn families(prop: &str) -> Option<Vec<Family>> {
    Some(match prop {
        "P01" => p::p01(),
        "P02" => p::p02(),
        "P03" => p::p03(),
        "P04" => p::p04(),
        "P05" => p::p05(),
        "P06" => p::p06(),
        "P07" => p::p07(),
        "P08" => p::p08(),
        "P09" => p::p09(),
        "P10" => p::p10(),
        "P11" => p::p11(),
        _ => return None,
    })
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    if !det::self_test() {
        eprintln!("internal error: randomness is not under control");
        std::process::exit(2);
    }
    install_panic_hook();
    crash::install();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("check") if args.len() >= 4 => check(&args[1], &args[2], PathBuf::from(&args[3])),
        Some("replay") if args.len() == 2 => replay(&args[1]),
        Some("list") => {
            for i in 1..=11 {
                for f in families(&format!("P{:02}", i)).unwrap() {
                    println!("P{:02} {} tier {}", i, f.name, f.tier);
                }
            }
        }
        _ => {
            eprintln!("usage: mc-codec check PROPERTY quick|thorough DIRECTORY | replay FILE");
            std::process::exit(2);
        }
    }
}

fn path_text(p: &[(u32, u32)]) -> String {
    p.iter().map(|(n, c)| format!("{}/{}", c, n)).collect::<Vec<_>>().join(" ")
}

fn head(prop: &str, root: &Path, family: &str) -> &'static crash::Head {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{}-{}.txt", prop, family));
    crash::Head::new(prop, &file, format!("property {}\nfamily {}\nchoices ", prop, family))
}

fn report(prop: &str, root: &Path, family: &str, f: &Found) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{}-{}.txt", prop, family));
    let text = format!(
        "property {}\nfamily {}\nchoices {}\n# {}\n",
        prop,
        family,
        path_text(&f.path),
        f.what.replace('\n', " ")
    );
    let _ = std::fs::write(&file, text);
    println!("VIOLATION property={} replay={}", prop, file.display());
    println!("  {}: {}", family, f.what);
    file
}

fn check(prop: &str, tier: &str, root: PathBuf) -> ! {
    let start = Instant::now();
    let t = match tier {
        "quick" => 0u8,
        "thorough" => 1,
        _ => panic!("unknown tier"),
    };
    let budget =
        std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or([300u64, 700][t as usize]);
    let deadline = start + Duration::from_secs(budget);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let only = std::env::var("MC_ONLY").ok();
    let list: Vec<Family> = families(prop)
        .expect("unknown property")
        .into_iter()
        .filter(|f| f.tier <= t)
        .filter(|f| only.as_ref().map(|o| f.name.contains(o.as_str())).unwrap_or(true))
        .collect();
    let mut violations: Vec<(String, String, PathBuf)> = Vec::new();
    // inputs with a known answer
    let known = known::Known::load(&root);
    let mut known_rows = Vec::new();
    let mut known_count = 0u64;
    for (name, r) in known::inputs(prop) {
        known_count += 1;
        if let Err(what) = r {
            if known.listed(prop, &name) {
                println!("KNOWN-FINDING: property={} {}: {}", prop, name, what);
                known_rows.push(json_str(&format!("{}: {}", name, what)));
            } else {
                let f = Found { path: vec![], what };
                let file = report(prop, &root, &format!("known-{}", name), &f);
                violations.push((name, f.what, file));
                break;
            }
        }
    }
    let mut rows = Vec::new();
    let mut total = Stats::default();
    let mut all_complete = true;
    if violations.is_empty() {
        for f in &list {
            if Instant::now() > deadline {
                all_complete = false;
                rows.push(format!("{{\"family\":{},\"complete\":false,\"leaves\":0}}", json_str(&f.name)));
                continue;
            }
            let on_hang = |x: Found| {
                report(prop, &root, &f.name, &x);
                std::process::exit(1);
            };
            let head = head(prop, &root, &f.name);
            let (st, found) = explore(f, deadline, threads, head, &on_hang);
            if std::env::var("MC_VERBOSE").is_ok() {
                eprintln!(
                    "{:40} leaves {:>10} calls {:>11} accepted {:>10} rejected {:>10} waiting {:>9} unclear {:>9} distinct {:>7} {:.2}s{}",
                    f.name, st.leaves, st.calls, st.accepted, st.rejected, st.waiting, st.unclear, st.distinct, st.secs,
                    if st.complete { "" } else { " INCOMPLETE" }
                );
            }
            rows.push(format!(
                "{{\"family\":{},\"complete\":{},\"leaves\":{},\"choices\":{},\"calls_of_the_implementation\":{},\"accepted\":{},\"rejected\":{},\"waiting\":{},\"unclear\":{},\"distinct_outcomes_counted_to_200000\":{}}}",
                json_str(&f.name), st.complete, st.leaves, st.steps, st.calls, st.accepted, st.rejected, st.waiting, st.unclear, st.distinct
            ));
            all_complete &= st.complete;
            total.leaves += st.leaves;
            total.steps += st.steps;
            total.calls += st.calls;
            total.accepted += st.accepted;
            total.rejected += st.rejected;
            total.waiting += st.waiting;
            total.unclear += st.unclear;
            total.distinct += st.distinct;
            if let Some(x) = found {
                let file = report(prop, &root, &f.name, &x);
                violations.push((f.name.clone(), x.what, file));
                break;
            }
        }
    }
    let samples: Vec<String> = list
        .iter()
        .take(5)
        .map(|f| {
            let mut ch = Ch::first();
            let _ = guarded(f, &mut ch, &mut Local::default());
            json_str(&format!("{}: first leaf by choices [{}]", f.name, path_text(ch.path())))
        })
        .chain(gen::base_frames().iter().skip(7).step_by(31).take(4).map(|b| json_str(&format!("base frame {}", p::hex(b)))))
        .collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"accepted\": {},\n  \"rejected\": {},\n  \"waiting\": {},\n  \"unclear\": {},\n  \"distinct_outcomes\": {},\n  \"inputs_with_a_known_answer\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}],\n  \"known_findings\": [{}],\n  \"violation\": [{}],\n  \"families\": [\n   {}\n  ]\n }},\n \"assumptions\": [\"states are leaves of the choice trees (inputs or call histories), transitions are choices, every leaf is run on the implementation and compared with the reference codec\", \"exhaustive means: every leaf of every family listed; bytes, strings and lengths outside the families' alphabets are not covered\", \"unclear: inputs where MQTT 5 allows both answers, or that belong to a known finding\"],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
        json_str(prop), json_str(tier), seed,
        total.leaves, total.steps, total.calls + known_count,
        total.accepted, total.rejected, total.waiting, total.unclear, total.distinct, known_count,
        violations.is_empty() && all_complete,
        samples.join(", "),
        known_rows.join(", "),
        violations.iter().map(|(a, b, c)| format!("{{\"family\":{},\"what\":{},\"replay\":{}}}", json_str(a), json_str(b), json_str(&c.display().to_string()))).collect::<Vec<_>>().join(", "),
        rows.join(",\n   "),
        violations.len(),
        start.elapsed().as_secs_f64()
    );
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop)), json) {
        eprintln!("cannot write evidence: {}", e);
        std::process::exit(2);
    }
    if violations.is_empty() {
        println!(
            "{} held on {} inputs and histories ({} calls of the implementation), {:.1}s{}",
            prop,
            total.leaves,
            total.calls,
            start.elapsed().as_secs_f32(),
            if all_complete { "" } else { ", not all families complete" }
        );
    }
    std::process::exit(!violations.is_empty() as i32)
}

fn replay(file: &str) -> ! {
    let text = std::fs::read_to_string(file).expect("cannot read the replay file");
    let (mut prop, mut name, mut path) = (String::new(), String::new(), Vec::new());
    for l in text.lines() {
        if let Some(p) = l.strip_prefix("property ") {
            prop = p.to_string();
        } else if let Some(p) = l.strip_prefix("family ") {
            name = p.to_string();
        } else if let Some(p) = l.strip_prefix("choices") {
            for d in p.split_whitespace() {
                let (c, n) = d.split_once('/').unwrap();
                path.push((n.parse().unwrap(), c.parse().unwrap()));
            }
        }
    }
    if let Some(n) = name.strip_prefix("known-") {
        for (m, r) in known::inputs(&prop) {
            if m == n {
                if let Err(w) = r {
                    println!("violated: {}\nVIOLATION property={} replay={}", w, prop, file);
                    std::process::exit(1);
                }
            }
        }
        println!("no violation");
        std::process::exit(0);
    }
    let f = families(&prop).expect("unknown property").into_iter().find(|f| f.name == name).expect("unknown family");
    // the order of properties is the hash table's choice: try several
    let head = head(&prop, &std::env::temp_dir(), &f.name);
    for i in 0..200 {
        let p = path.clone();
        let r = std::thread::scope(|s| {
            let f = &f;
            s.spawn(move || {
                det::seed(i);
                let mut ch = Ch::replay(p);
                enter(head, &ch);
                guarded(f, &mut ch, &mut Local::default())
            })
            .join()
            .unwrap()
        });
        if let Err(w) = r {
            println!("violated: {}\nVIOLATION property={} replay={}", w, prop, file);
            std::process::exit(1);
        }
    }
    println!("no violation");
    std::process::exit(0)
}
