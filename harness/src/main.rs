mod ast;
mod cli;
mod conf;
mod deep;
mod emit;
mod r#gen;
mod lint;
mod lint2;
mod meaning;
mod oracle;
mod parse;
mod parse2;
mod runner;
mod supervise;
mod tape;
mod typed;
mod tree;

use runner::*;
use std::path::PathBuf;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map_or("", String::as_str);
    let verif = PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()));
    let repo = PathBuf::from(std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into()));
    let bin = PathBuf::from(std::env::var("VH_BIN").unwrap_or_else(|_| "/verif/target/release/ludtwig".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough");
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 16.0 } else { 1.0 });
    let scratch = std::env::var("VH_SCRATCH").map_or_else(
        |_| {
            let shm = PathBuf::from("/dev/shm");
            let name = format!("vh-{}", std::process::id());
            // a memory file system when there is one that can be written to
            let ok = std::fs::create_dir_all(shm.join(&name)).is_ok();
            if ok { shm } else { std::env::temp_dir() }.join(name)
        },
        PathBuf::from,
    );
    let progress = std::env::var("VH_PROGRESS").ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok());
    let env = Env { seed, thorough, verif, repo, bin, scratch, scale, progress };
    match cmd {
        "check" => supervise::check(&env, &args[2]),
        "one" => {
            // a single case by its number
            let idx: u64 = args[4].parse().unwrap();
            let seed = tape::mix(&[env.seed, tape::hash_str(&args[2]), tape::hash_str(&args[3]), idx]);
            let r = Replay { prop: args[2].clone(), part: args[3].clone(), tape: vec![], seed: Some(seed) };
            let rep = run_check(&env, &args[2], Some(r));
            if let Some(f) = rep.failure {
                println!("{}", f.msg);
                std::process::exit(1);
            }
        }
        "run" => {
            let prop = args[2].clone();
            let t0 = Instant::now();
            let rep = run_check(&env, &prop, None);
            finish(&env, &prop, rep, t0.elapsed().as_secs_f64());
        }
        "replay" => {
            let r = read_replay(&PathBuf::from(&args[2]));
            let t0 = Instant::now();
            let prop = r.prop.clone();
            let rep = run_check(&env, &prop, Some(r));
            cli::wipe(&env.scratch);
            let wall = t0.elapsed().as_secs_f64();
            if let Some(f) = rep.failure {
                println!("still fails ({wall:.1}s): {}\n--- case ---\n{}", f.msg, f.sample);
                println!("VIOLATION property={prop} replay={}", args[2]);
                std::process::exit(1);
            }
            println!("replay passes");
        }
        _ => {
            eprintln!("usage: vh check <ID> | vh replay <file>");
            std::process::exit(2);
        }
    }
}

/// runs a part, or only the replayed case when it belongs to this part
pub(crate) fn part(env: &Env, rep: &mut Report, prop: &str, name: &str, n: u64, rp: Option<&Replay>, f: CaseFn) {
    if let Some(r) = rp {
        if r.part == name {
            quiet_panics();
            let o = big_stack(|| {
                let mut s = match r.seed {
                    Some(x) => tape::Src::fresh(x),
                    None => tape::Src::replay(&r.tape),
                };
                guarded(f, &mut s)
            });
            rep.stats.evals += 1;
            if let Some(m) = o.fail {
                rep.failure = Some(Failure { part: name.to_owned(), tape: r.tape.clone(), msg: m, sample: o.sample.unwrap_or_default() });
            } else {
                println!("--- case ---\n{}", o.sample.unwrap_or_default());
            }
        }
        return;
    }
    run_part(env, rep, prop, name, n, f);
}

pub(crate) fn overflow_line(rep: &mut Report) {
    if rep.stats.known > 0 {
        rep.known_lines.push("some ten thousand constructs inside of each other overflow the stack of the recursive parser and end the program".into());
    }
}

fn run_check(env: &Env, prop: &str, rp: Option<Replay>) -> Report {
    let r = rp.as_ref();
    match prop {
        "P01" => {
            let mut rep = Report::new("random token soup, damaged generated templates and random unicode; non-trivial: the tree has more than three nodes");
            part(env, &mut rep, prop, "any", 1_000_000, r, &parse::p01);
            part(env, &mut rep, prop, "deep", 1200, r, &deep::p01);
            part(env, &mut rep, prop, "overflow", 10, r, &|s: &mut tape::Src| deep::overflow(env, prop, s));
            overflow_line(&mut rep);
            rep
        }
        "P02" => {
            let mut rep = Report::new("as P01; non-trivial: at least one syntax error is reported");
            part(env, &mut rep, prop, "any", 1_000_000, r, &parse::p02);
            rep
        }
        "P03" => {
            let mut rep = Report::new("generated models written out with random layout; non-trivial: the expected tree has more than 12 nodes");
            part(env, &mut rep, prop, "model", 1_000_000, r, &parse::p03);
            rep
        }
        "P04" => {
            let mut rep = Report::new("operator chains grouped by a precedence climbing reference; non-trivial: at least two operators");
            part(env, &mut rep, prop, "chain", 500_000, r, &parse2::p04);
            rep
        }
        "P05" => {
            let mut rep = Report::new("the same model or text in two layouts; non-trivial: the two texts differ and hold several nodes");
            part(env, &mut rep, prop, "model", 500_000, r, &parse2::p05_model);
            part(env, &mut rep, prop, "any", 500_000, r, &parse2::p05_any);
            rep
        }
        "P06" => {
            let mut rep = Report::new("valid plain models with one damage from the catalogue; non-trivial: all of them");
            let listed = runner::listed(env, prop, "glued-interpolation");
            part(env, &mut rep, prop, "damage", 500_000, r, &|s: &mut tape::Src| parse2::p06(s, listed));
            part(env, &mut rep, prop, "glued", 100, r, &|s: &mut tape::Src| parse2::p06_glued(s, listed));
            if rep.stats.known > 0 {
                rep.known_lines.push("an interpolation directly followed by {, # or % in a string (\"a#{#b}\") is taken as plain text, without a syntax error".into());
            }
            cli::spec_part(env, &mut rep, prop, "cli", 200, 150, r, &lint2::P06);
            rep
        }
        "P07" => {
            let mut rep = Report::new("garbage inside a self-contained construct between valid siblings; non-trivial: siblings on both sides");
            part(env, &mut rep, prop, "garbage", 500_000, r, &parse2::p07);
            part(env, &mut rep, prop, "inner", 500_000, r, &parse2::p07_inner);
            rep
        }
        "P08" => {
            let mut rep = Report::new("generated models, every node asked through the typed API, and damaged templates against the untyped tree; non-trivial: more than three accessor answers compared");
            part(env, &mut rep, prop, "typed", 500_000, r, &typed::p08);
            part(env, &mut rep, prop, "broken", 300_000, r, &typed::p08_broken);
            rep
        }
        _ => {
            if let Some(rep) = conf::run(env, prop, r).or_else(|| lint::run(env, prop, r)) {
                return rep;
            }
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}

fn finish(env: &Env, prop: &str, rep: Report, wall: f64) {
    for l in &rep.known_lines {
        println!("KNOWN-FINDING: property={prop} {l}");
    }
    write_evidence(env, prop, &rep, wall);
    println!(
        "{prop}: {} cases, {} distinct non-trivial, {} rejected, {wall:.1} s",
        rep.stats.evals,
        rep.stats.nontrivial.len(),
        rep.stats.skipped
    );
    if let Some(f) = &rep.failure {
        let p = write_replay(env, prop, f);
        println!("--- {prop}/{}: {}\n--- case ---\n{}", f.part, f.msg, f.sample);
        println!("VIOLATION property={prop} replay={}", p.display());
        std::process::exit(1);
    }
}
