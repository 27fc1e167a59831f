#![allow(dead_code, unused_imports)]
mod conf;
mod engine;
mod node;
mod props;
mod proto;
mod util;
mod world;

use engine::*;
use props::Tier;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
pub const VARIANT: &str = if util::SMALL {
    "model"
} else if util::BIG {
    "big"
} else if util::MIXED {
    "mixed"
} else {
    "real"
};

fn report_json(r: &Report, prop: &str, tier: &str, seed: u64, wall: f64) -> String {
    let viol: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            let c: Vec<String> = v.choices.iter().map(|c| format!("[{},{},{}]", c.0, c.1, c.2)).collect();
            format!(
                "{{\"scenario\":{},\"msg\":{},\"policy\":{},\"choices\":{}}}",
                esc(&v.scenario),
                esc(&v.msg),
                v.policy,
                list(&c)
            )
        })
        .collect();
    let known: Vec<String> = r.known.iter().map(|(k, s)| format!("{}:{}", esc(k), esc(s))).collect();
    let st: Vec<String> = r.samples.iter().map(|s| esc(s)).collect();
    let slow: Vec<String> = r.slow.iter().take(12).map(|(t, s, n)| format!("[{:.2},{},{}]", t, esc(s), n)).collect();
    let tr: Vec<String> = r.truncated.iter().map(|s| esc(s)).collect();
    format!(
        "{{\"variant\":{},\"property\":{},\"tier\":{},\"seed\":{},\"wall_s\":{:.2},\"scenarios\":{},\"executions\":{},\"ok\":{},\"skipped\":{},\"exempt\":{},\"families\":{},\"family_members\":{},\"family_accepts\":{},\"histograms\":{},\"observations\":{},\"states\":{},\"transitions\":{},\"truncated\":{},\"violations\":{},\"known\":{{{}}},\"samples\":{},\"slow\":{},\"controls\":{{{}}}}}\n",
        esc(VARIANT), esc(prop), esc(tier), seed, wall, r.scenarios, r.executions, r.ok, r.skipped, r.exempt,
        r.families, r.family_members, r.family_accepts, r.histograms, r.observations, r.states, r.transitions,
        list(&tr), list(&viol), known.join(","), list(&st), list(&slow),
        controls().iter().map(|(k, (n, a))| format!("{}:[{},{}]", esc(k), n, a)).collect::<Vec<_>>().join(",")
    )
}

fn main() {
    if std::env::var("MC_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        // check PROP tier seed out.json
        "check" => {
            let (prop, tier, seed) = (&args[2], &args[3], args[4].parse::<u64>().unwrap());
            let out = args[5].clone();
            world::set_seed(seed);
            let t0 = std::time::Instant::now();
            let mut scs = props::scenarios(prop, Tier::parse(tier));
            if let Some(f) = args.get(6) {
                scs.retain(|s| s.id.contains(f.as_str()));
            }
            let mut ids: Vec<&str> = scs.iter().map(|s| s.id.as_str()).collect();
            ids.sort();
            for w in ids.windows(2) {
                if w[0] == w[1] {
                    eprintln!("HARNESS ERROR: duplicate scenario {}", w[0]);
                    std::process::exit(4);
                }
            }
            let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
            let (p2, t2) = (prop.clone(), tier.clone());
            let o2 = out.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_secs(5));
                if let Some((s, pol)) = hanging() {
                    let mut r = Report::default();
                    r.violations.push(Violation { scenario: s, msg: "an execution does not terminate".into(), choices: vec![], policy: pol });
                    std::fs::write(&o2, report_json(&r, &p2, &t2, seed, HANG_S as f64)).unwrap();
                    std::process::exit(0);
                }
            });
            let r = run_all(scs, threads);
            std::fs::write(&out, report_json(&r, prop, tier, seed, t0.elapsed().as_secs_f64())).unwrap();
        }
        // replay PROP tier seed scenario policy c,c,c
        "replay" => {
            let (prop, tier, seed) = (&args[2], &args[3], args[4].parse::<u64>().unwrap());
            world::set_seed(seed);
            let scs = props::scenarios(prop, Tier::parse(tier));
            let s = match scs.into_iter().find(|s| s.id == args[5]) {
                Some(s) => s,
                None => {
                    eprintln!("no scenario {}", args[5]);
                    std::process::exit(3)
                }
            };
            let pol: usize = args[6].parse().unwrap();
            let pre: Vec<u32> = args[7].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let (v, notes) = engine::replay(&s, pol, &pre);
            for n in notes {
                println!("note: {}", n);
            }
            println!("single execution: {:?}", v);
            if let V::Fail(_) = v {
                std::process::exit(1);
            }
            let r = run_scenario(&s);
            for v in r.violations.iter() {
                println!("whole scenario: {}", v.msg);
            }
            if !r.violations.is_empty() {
                std::process::exit(1);
            }
        }
        "list" => {
            for s in props::scenarios(&args[2], Tier::parse(&args[3])) {
                println!("{}", s.id);
            }
        }
        "dump" => conf::dump(&args[2], &args[3], Tier::parse(&args[4])),
        "compare" => conf::compare(&args[2], &args[3], Tier::parse(&args[4])),
        "quiet" => conf::quiet_child(args[2].parse().unwrap(), Tier::parse(&args[3])),
        "quiet-large" => props::large::child(),
        "selftest" => conf::selftest(),
        _ => {
            eprintln!("usage");
            std::process::exit(3);
        }
    }
}
