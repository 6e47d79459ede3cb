//! Runs a check in a child process with a memory limit, so that a stack overflow, an abort, a
//! memory explosion or a hang in the code under test becomes a verdict instead of ending the check.
use crate::runner::*;
use crate::tape::*;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const MEM_KB: u64 = 24 << 20;

fn child(args: &[&str], progress: Option<&std::path::Path>) -> Command {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("/bin/sh");
    c.arg("-c").arg(format!("ulimit -v {MEM_KB}; ulimit -c 0; exec \"$0\" \"$@\"")).arg(exe).args(args);
    if let Some(p) = progress {
        c.env("VH_PROGRESS", p);
    }
    c
}

/// None: did not end in time
fn run_limited(mut c: Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut ch = c.stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return Some(st);
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

pub fn check(env: &Env, prop: &str) -> ! {
    let progress = std::env::temp_dir().join(format!("vh-progress-{}", std::process::id()));
    let _ = std::fs::write(&progress, "");
    let status = child(&["run", prop], Some(&progress)).env("VH_SCRATCH", &env.scratch).status().unwrap();
    crate::cli::wipe(&env.scratch);
    let notes = std::fs::read(&progress).unwrap_or_default();
    let _ = std::fs::remove_file(&progress);
    let crashed = match status.code() {
        Some(c) if c == EXIT_HANG => true,
        Some(c) => std::process::exit(c),
        None => true,
    };
    assert!(crashed);
    eprintln!("the check process ended abnormally ({status}); looking for the case");
    let notes = String::from_utf8_lossy(&notes).replace('\0', "");
    for l in notes.lines() {
        let mut w = l.split_whitespace();
        let (Some(part), Some(idx)) = (w.next(), w.next()) else { continue };
        let Ok(i) = idx.parse::<u64>() else { continue };
        let st = run_limited(child(&["one", prop, part, idx], None), Duration::from_secs(40));
        let what = match st {
            None => "the case does not end within 40 s",
            Some(s) if s.code().is_none() => "the case ends the process by a signal (stack overflow, abort or out of memory)",
            Some(s) if s.code() == Some(1) => "the case fails",
            Some(_) => continue,
        };
        let seed = mix(&[env.seed, hash_str(prop), hash_str(part), i]);
        let dir = env.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{prop}-crash-{i}.replay"));
        let _ = std::fs::write(&file, format!("property={prop}\npart={part}\nseed={seed}\nmsg={what}\n"));
        let mut rep = Report::new("the run was ended by the code under test; see the replay file");
        rep.stats.evals = i + 1;
        rep.failure = Some(Failure { part: part.to_owned(), tape: vec![], msg: what.to_owned(), sample: format!("seed {seed}") });
        write_evidence(env, prop, &rep, 0.0);
        println!("--- {prop}/{part}: {what}");
        println!("VIOLATION property={prop} replay={}", file.display());
        std::process::exit(1);
    }
    eprintln!("no single case reproduces it");
    std::process::exit(3);
}
