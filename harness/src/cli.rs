//! Drives the ludtwig binary: configurations, runs over batches of files, parsed output.
use crate::runner::*;
use crate::tape::*;
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const RULES: &[&str] = &[
    "line-ending", "indentation", "whitespace-between-line-breaks", "html-attribute-name-kebab-case", "html-string-quotation",
    "html-duplicate-id", "twig-block-line-breaks", "twig-block-name-snake-case", "twig-block-duplicate", "twig-hash-key-no-quotes",
    "twig-logic-and", "twig-logic-or", "twig-string-quotation", "twig-use-is-same-as", "twig-use-is-not-same-as",
    "twig-variable-definition-naming", "twig-valid-filter", "twig-valid-test", "twig-valid-function", "twig-json-encode-escape-js",
    "twig-prefer-shopware-extends", "ludtwig-ignore-file-not-on-top",
];

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub rules: Vec<String>,
    pub crlf: bool,
    pub tab: bool,
    pub count: u32,
    pub indent_blocks: bool,
    pub breaks: bool,
    pub tq_double: bool,
    pub hq_double: bool,
    pub filters: Option<Vec<String>>,
    pub tests: Option<Vec<String>>,
    pub functions: Option<Vec<String>>,
}
impl Cfg {
    pub fn with(rules: &[&str]) -> Cfg {
        Cfg {
            rules: rules.iter().map(|x| (*x).to_owned()).collect(),
            crlf: false,
            tab: false,
            count: 4,
            indent_blocks: true,
            breaks: true,
            tq_double: false,
            hq_double: true,
            filters: None,
            tests: None,
            functions: None,
        }
    }
    pub fn has(&self, r: &str) -> bool {
        self.rules.iter().any(|x| x == r)
    }
    pub fn eol(&self) -> &'static str {
        if self.crlf { "\r\n" } else { "\n" }
    }
    /// random format options
    pub fn format(mut self, s: &mut Src) -> Cfg {
        self.crlf = s.chance(1, 3);
        self.tab = s.chance(1, 3);
        self.count = match s.weighted(&[8, 6, 4, 2, 2, 2, 1]) {
            6 => [5, 7, 16, 17, 65, 100, 128, 255][s.idx(8)],
            k => [4, 2, 1, 3, 0, 8][k],
        };
        self.indent_blocks = !s.chance(1, 3);
        self.breaks = !s.chance(1, 3);
        self.tq_double = s.chance(1, 3);
        self.hq_double = !s.chance(1, 3);
        self
    }
    pub fn toml(&self, version: &str) -> String {
        let list = |v: &[String]| v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", ");
        let q = |b: bool| if b { "double" } else { "single" };
        let mut t = format!("version = \"{version}\"\n[general]\nactive-rules = [{}]\n", list(&self.rules));
        t.push_str(&format!(
            "[format]\nline-ending = \"{}\"\nindentation-mode = \"{}\"\nindentation-count = {}\nindent-children-of-blocks = {}\nlinebreaks-around-blocks = {}\ntwig-quotation = \"{}\"\nhtml-quotation = \"{}\"\n",
            if self.crlf { "windows_CRLF" } else { "unix_LF" },
            if self.tab { "tab" } else { "space" },
            self.count,
            self.indent_blocks,
            self.breaks,
            q(self.tq_double),
            q(self.hq_double)
        ));
        let lists = [("valid-filters", &self.filters), ("valid-tests", &self.tests), ("valid-functions", &self.functions)];
        if lists.iter().any(|l| l.1.is_some()) {
            t.push_str("[twig]\n");
            for (k, v) in lists {
                if let Some(v) = v {
                    t.push_str(&format!("{k} = [{}]\n", list(v)));
                }
            }
        }
        t
    }
}
/// a random subset of the rules: all, one, or several
pub fn random_rules(s: &mut Src) -> Vec<String> {
    match s.weighted(&[6, 4, 6, 1, 1]) {
        0 => RULES.iter().map(|x| (*x).to_owned()).collect(),
        1 => vec![s.pick(RULES).to_owned()],
        3 => vec![],
        // any order
        4 => {
            let mut v: Vec<String> = RULES.iter().map(|x| (*x).to_owned()).collect();
            for i in (1..v.len()).rev() {
                v.swap(i, s.idx(i + 1));
            }
            v.truncate(1 + s.idx(v.len()));
            v
        }
        _ => RULES.iter().filter(|_| s.chance(1, 2)).map(|x| (*x).to_owned()).collect(),
    }
}
pub fn random_cfg(s: &mut Src) -> Cfg {
    let r = random_rules(s);
    let mut c = Cfg::with(&[]).format(s);
    c.rules = r;
    c
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Diag {
    pub line: usize,
    pub col: usize,
    pub sev: String,
    pub rule: String,
    pub msg: String,
    /// printed labels and source lines
    pub body: String,
}
impl Diag {
    pub fn show(&self) -> String {
        format!("{}[{}] {}:{} {}", self.sev, self.rule, self.line, self.col, self.msg)
    }
}
pub type DKey = (String, usize, usize);
pub fn key(d: &Diag) -> DKey {
    (d.rule.clone(), d.line, d.col)
}

#[derive(Clone, Debug, Default)]
pub struct FileRes {
    pub diags: Vec<Diag>,
    pub after: Vec<u8>,
    pub fixed_in: Option<u32>,
    /// "max suggestion apply iteration" was reported
    pub max_apply: bool,
    /// everything that could not be attributed to the file (single runs only)
    pub problems: Vec<String>,
    pub code: i32,
}
impl FileRes {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.after).into_owned()
    }
    pub fn syntax_errors(&self) -> usize {
        self.diags.iter().filter(|d| d.rule == "SyntaxError").count()
    }
    pub fn keys(&self) -> Vec<DKey> {
        let mut v: Vec<DKey> = self.diags.iter().map(key).collect();
        v.sort();
        v
    }
}

pub struct Raw {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
    pub timeout: bool,
}

/// Runs the program; stdout and stderr go through files in `tmp`.
pub fn exec(env: &Env, cwd: &Path, tmp: &Path, args: &[&str], envs: &[(String, String)], limit: Duration) -> Raw {
    let (po, pe) = (tmp.join("stdout"), tmp.join("stderr"));
    let fo = std::fs::File::create(&po).unwrap();
    let fe = std::fs::File::create(&pe).unwrap();
    let mut c = Command::new(&env.bin);
    c.args(args).current_dir(cwd).env_clear().env("NO_COLOR", "1").env("HOME", "/nonexistent").env("PATH", "/usr/bin:/bin");
    c.env("RAYON_NUM_THREADS", "2");
    for (k, v) in envs {
        c.env(k, v);
    }
    let mut ch = match c.stdin(Stdio::null()).stdout(fo).stderr(fe).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start {}: {e}", env.bin.display());
            std::process::exit(3);
        }
    };
    let t0 = Instant::now();
    let mut timeout = false;
    let mut nap = 200u64;
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            timeout = true;
            break None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap + 200).min(3000);
    };
    let rd = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    Raw { code: status.and_then(|s| s.code()), out: rd(&po), err: rd(&pe), timeout }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Summary {
    pub files: u64,
    pub errors: u64,
    pub warnings: u64,
    pub helps: u64,
    pub info: u64,
    pub total: u64,
}
fn parse_summary(l: &str) -> Option<Summary> {
    let mut v = vec![];
    for (i, k) in ["Files scanned: ", "Errors: ", "Warnings: ", "Helps: ", "Info: ", "Total: "].iter().enumerate() {
        let part = l.split(", ").nth(i)?;
        v.push(part.strip_prefix(k)?.trim().parse().ok()?);
    }
    Some(Summary { files: v[0], errors: v[1], warnings: v[2], helps: v[3], info: v[4], total: v[5] })
}

#[derive(Default, Debug)]
pub struct Parsed {
    pub diags: Vec<(String, Diag)>,
    pub fixed: Vec<(String, u32)>,
    pub other: Vec<String>,
    pub summary: Option<Summary>,
    pub summary_on_stderr: bool,
    /// remaining lines of stdout
    pub out_lines: Vec<String>,
}
fn header(l: &str) -> Option<(&str, &str, &str)> {
    for sev in ["error", "warning", "help", "note", "bug"] {
        if let Some(r) = l.strip_prefix(sev) {
            if let Some(r) = r.strip_prefix('[') {
                let (rule, msg) = r.split_once("]: ")?;
                return Some((sev, rule, msg));
            }
        }
    }
    None
}
pub fn parse_output(raw: &Raw) -> Parsed {
    let mut p = Parsed::default();
    let mut cur: Option<(String, Diag)> = None;
    for l in raw.err.split('\n') {
        if let Some((sev, rule, msg)) = header(l) {
            if let Some(d) = cur.take() {
                p.diags.push(d);
            }
            cur = Some((
                String::new(),
                Diag { line: 0, col: 0, sev: sev.into(), rule: rule.into(), msg: msg.into(), body: String::new() },
            ));
            continue;
        }
        if let Some((file, d)) = &mut cur {
            if let Some(loc) = l.trim_start().strip_prefix("┌─ ") {
                if d.line == 0 && l.starts_with(' ') {
                    let mut it = loc.rsplitn(3, ':');
                    let (c, ln, f) = (it.next(), it.next(), it.next());
                    d.col = c.and_then(|x| x.trim().parse().ok()).unwrap_or(0);
                    d.line = ln.and_then(|x| x.parse().ok()).unwrap_or(0);
                    f.unwrap_or("").clone_into(file);
                    continue;
                }
            }
            // labels may hold line breaks: everything up to the next known kind of line
            if !["Error: ", "Error ", "Warning: ", "Files scanned: ", "thread '"].iter().any(|x| l.starts_with(x)) {
                d.body.push_str(l);
                d.body.push('\n');
                continue;
            }
        }
        if let Some(s) = parse_summary(l) {
            p.summary = Some(s);
            p.summary_on_stderr = true;
            continue;
        }
        if !l.trim().is_empty() {
            p.other.push(l.to_owned());
        }
    }
    if let Some(d) = cur.take() {
        p.diags.push(d);
    }
    for (_, d) in &mut p.diags {
        d.body.truncate(d.body.trim_end().len());
    }
    for l in raw.out.split('\n') {
        if let Some(s) = parse_summary(l) {
            p.summary = Some(s);
            p.summary_on_stderr = false;
        } else if let Some(r) = l.strip_prefix("fixed ") {
            if let Some((f, n)) = r.rsplit_once(" in ") {
                let n = n.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                p.fixed.push((f.to_owned(), n));
            }
        } else if !l.is_empty() {
            p.out_lines.push(l.to_owned());
        }
    }
    p
}

pub fn version(env: &Env) -> &'static str {
    static V: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let o = Command::new(&env.bin).arg("--version").env_clear().output().expect("run ludtwig --version");
        String::from_utf8_lossy(&o.stdout).split_whitespace().last().unwrap_or("").to_owned()
    })
}

fn file_name(i: usize) -> String {
    format!("f{i}.html.twig")
}
fn file_index(path: &str) -> Option<usize> {
    let n = path.rsplit('/').next()?;
    n.strip_prefix('f')?.strip_suffix(".html.twig")?.parse().ok()
}

pub fn wipe(dir: &Path) {
    // only ever below our own scratch directory
    if dir.components().any(|c| c.as_os_str().to_string_lossy().starts_with("vh-")) {
        let _ = std::fs::remove_dir_all(dir);
    }
}

/// One run over a set of files. None: something cannot be attributed to a single file.
fn run_files(env: &Env, dir: &Path, cfg: &Cfg, fix: bool, texts: &[&[u8]], single: bool) -> Option<Vec<FileRes>> {
    let w = dir.join("w");
    wipe(&w);
    std::fs::create_dir_all(&w).unwrap();
    std::fs::write(dir.join("cfg.toml"), cfg.toml(version(env))).unwrap();
    for (i, t) in texts.iter().enumerate() {
        std::fs::write(w.join(file_name(i)), t).unwrap();
    }
    let mut args = vec!["-c", "cfg.toml"];
    if fix {
        args.push("-f");
    }
    args.push("w");
    let raw = exec(env, dir, dir, &args, &[], Duration::from_secs(if single { 20 } else { 60 }));
    let p = parse_output(&raw);
    let mut res = vec![FileRes::default(); texts.len()];
    let mut problems: Vec<String> = p.other.clone();
    problems.retain(|l| !l.starts_with("Error: max suggestion apply iteration"));
    let max_apply = p.other.len() - problems.len();
    if raw.timeout {
        problems.push("TIMEOUT: the program did not end".into());
    }
    match raw.code {
        Some(0 | 1) => {}
        c => problems.push(format!("abnormal end, exit status {c:?}")),
    }
    let (mut e, mut wn, mut h, mut inf) = (0, 0, 0, 0);
    for (f, d) in p.diags {
        match d.sev.as_str() {
            "error" => e += 1,
            "warning" => wn += 1,
            "help" => h += 1,
            _ => inf += 1,
        }
        match file_index(&f) {
            Some(i) if i < res.len() => res[i].diags.push(d),
            _ => problems.push(format!("diagnostic without a file: {}", d.show())),
        }
    }
    for (f, n) in p.fixed {
        match file_index(&f) {
            Some(i) if i < res.len() => res[i].fixed_in = Some(n),
            _ => problems.push(format!("fixed unknown file {f}")),
        }
    }
    match &p.summary {
        None => problems.push("no summary printed".into()),
        Some(s) => {
            if s.files != texts.len() as u64 {
                problems.push(format!("{} files scanned instead of {}", s.files, texts.len()));
            }
            if (s.errors, s.warnings, s.helps, s.info) != (e + max_apply as u64, wn, h, inf) && problems.is_empty() {
                problems.push(format!("summary {s:?} but {e} errors, {wn} warnings, {h} helps, {inf} notes were printed"));
            }
        }
    }
    let n_after = std::fs::read_dir(&w).map_or(0, Iterator::count);
    if n_after != texts.len() {
        problems.push("files were created or removed".into());
    }
    for (i, r) in res.iter_mut().enumerate() {
        match std::fs::read(w.join(file_name(i))) {
            Ok(t) => r.after = t,
            Err(x) => problems.push(format!("file is gone: {x}")),
        }
        r.code = raw.code.unwrap_or(-1);
    }
    if max_apply > 0 && problems.is_empty() {
        // the message does not name the file
        let cand: Vec<usize> = (0..texts.len()).filter(|i| res[*i].diags.is_empty() && res[*i].fixed_in.is_none() && res[*i].after == texts[*i]).collect();
        if cand.len() == max_apply {
            cand.iter().for_each(|i| res[*i].max_apply = true);
        } else if !single {
            for i in cand {
                res[i].max_apply = run_files(env, dir, cfg, fix, &[texts[i]], true).is_some_and(|x| x[0].max_apply);
            }
            if res.iter().filter(|r| r.max_apply).count() != max_apply {
                return None;
            }
        } else {
            problems.push("max suggestion apply iteration, but the file was changed or has diagnostics".into());
        }
    }
    if single {
        res[0].problems = problems;
        Some(res)
    } else if problems.is_empty() {
        Some(res)
    } else {
        if std::env::var("VH_DEBUG").is_ok() {
            eprintln!("batch not attributable: {problems:?}");
        }
        None
    }
}

#[derive(Clone, Debug)]
pub enum In {
    Text(usize),
    After(usize),
}
#[derive(Clone, Debug)]
pub struct Run {
    pub cfg: Cfg,
    pub fix: bool,
    pub input: In,
}
pub fn lint(cfg: &Cfg, i: usize) -> Run {
    Run { cfg: cfg.clone(), fix: false, input: In::Text(i) }
}
pub fn fixrun(cfg: &Cfg, i: usize) -> Run {
    Run { cfg: cfg.clone(), fix: true, input: In::Text(i) }
}

/// A property checked over files that are processed in batches sharing the configurations.
pub trait Spec: Sync {
    /// the drawn configuration of a batch
    type P;
    /// what the judge needs to know about a case
    type D;
    fn plan(&self, s: &mut Src) -> Self::P;
    fn runs(&self, p: &Self::P) -> Vec<Run>;
    /// the texts of a case; None: rejected
    fn case(&self, s: &mut Src, p: &Self::P) -> Option<(Self::D, Vec<String>)>;
    fn judge(&self, p: &Self::P, d: &Self::D, texts: &[String], r: &[FileRes]) -> Out;
    /// may a fix run give up because suggestions keep coming?
    fn max_apply_ok(&self) -> bool {
        false
    }
    /// are problems of the run itself (internal errors, crashes) part of the judgement?
    fn problems_are_mine(&self) -> bool {
        true
    }
}

fn note_case(texts: &[String], cfgs: &[Run]) -> String {
    let mut s = texts.join("\n--- variant ---\n");
    if let Some(r) = cfgs.first() {
        s.push_str(&format!("\n--- configuration ---\n{}", r.cfg.toml("x")));
    }
    s
}

fn judge_one<S: Spec>(sp: &S, p: &S::P, d: &S::D, texts: &[String], runs: &[Run], r: &[FileRes]) -> Out {
    for (i, x) in r.iter().enumerate() {
        if let Some(m) = x.problems.first() {
            // a hang, a crash or an internal error is always a failure to do what was asked
            let o = Out::fail(&note_case(texts, runs), format!("run {i}: {m}"));
            return if sp.problems_are_mine() { o } else { Out::skip() };
        }
    }
    if r.iter().any(|x| x.max_apply) && !sp.max_apply_ok() {
        return Out::fail(&note_case(texts, runs), "the fixes do not converge (max suggestion apply iteration)");
    }
    let mut o = sp.judge(p, d, texts, r);
    if o.fail.is_some() {
        o.sample = Some(note_case(texts, runs));
    }
    o
}

pub struct Scratch {
    pub dir: PathBuf,
}
static SCRATCH_N: AtomicU64 = AtomicU64::new(0);
pub fn scratch(env: &Env) -> Scratch {
    let n = SCRATCH_N.fetch_add(1, Ordering::Relaxed);
    let dir = env.scratch.join(format!("d{n}"));
    std::fs::create_dir_all(&dir).unwrap();
    Scratch { dir }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        wipe(&self.dir);
    }
}

/// the whole case alone, in a directory of its own
pub fn single<S: Spec>(env: &Env, sp: &S, s: &mut Src) -> Out {
    let p = sp.plan(s);
    let Some((d, texts)) = sp.case(s, &p) else { return Out::skip() };
    let runs = sp.runs(&p);
    let sc = scratch(env);
    let mut res: Vec<FileRes> = vec![];
    for r in &runs {
        let input: Vec<u8> = match r.input {
            In::Text(i) => texts[i].clone().into_bytes(),
            In::After(i) => res[i].after.clone(),
        };
        let x = run_files(env, &sc.dir, &r.cfg, r.fix, &[&input], true).unwrap();
        res.push(x.into_iter().next().unwrap());
    }
    judge_one(sp, &p, &d, &texts, &runs, &res)
}

/// Runs `batches` x `size` cases.
pub fn run_batches<S: Spec>(env: &Env, rep: &mut Report, prop: &str, part: &str, batches: u64, size: usize, sp: &S) {
    if rep.failure.is_some() {
        return;
    }
    quiet_panics();
    let _ = version(env);
    let n = ((batches as f64) * env.scale).max(1.0) as u64;
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    type Fail = (u64, Vec<u32>, String, String);
    let fails: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let agg: Mutex<(u64, HashSet<u64>, u64, u64, Vec<(u64, String)>, u64)> = Mutex::new((0, HashSet::new(), 0, 0, vec![], 0));
    let base = mix(&[env.seed, hash_str(prop), hash_str(part)]);
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            let (next, stop_at, fails, agg) = (&next, &stop_at, &fails, &agg);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let dir = scratch(env);
                    loop {
                        let b = next.fetch_add(1, Ordering::Relaxed);
                        if b >= n || b > stop_at.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut cs = Src::fresh(mix(&[base, b]));
                        let plan = sp.plan(&mut cs);
                        let prefix = cs.tape.clone();
                        let runs = sp.runs(&plan);
                        let mut cases = vec![];
                        let mut skipped = 0;
                        for i in 0..size {
                            let mut s = Src::prefixed(&prefix, mix(&[base, b, i as u64 + 1]));
                            let p2 = sp.plan(&mut s);
                            match sp.case(&mut s, &p2) {
                                Some((d, t)) => cases.push((s.tape, d, t)),
                                None => skipped += 1,
                            }
                        }
                        let mut results: Option<Vec<Vec<FileRes>>> = Some(vec![]);
                        for r in &runs {
                            let Some(done) = &mut results else { break };
                            let input: Vec<&[u8]> = cases
                                .iter()
                                .enumerate()
                                .map(|(k, c)| match r.input {
                                    In::Text(i) => c.2[i].as_bytes(),
                                    In::After(i) => &done[i][k].after[..],
                                })
                                .collect();
                            match run_files(env, &dir.dir, &r.cfg, r.fix, &input, false) {
                                Some(x) => done.push(x),
                                None => results = None,
                            }
                        }
                        let mut ev = 0;
                        let mut nontriv = vec![];
                        let mut kn = 0;
                        let mut samples = vec![];
                        let mut singles = 0;
                        for (k, (tape, d, texts)) in cases.iter().enumerate() {
                            let mut o = match &results {
                                Some(r) => {
                                    let rr: Vec<FileRes> = r.iter().map(|x| x[k].clone()).collect();
                                    judge_one(sp, &plan, d, texts, &runs, &rr)
                                }
                                None => {
                                    singles += 1;
                                    single(env, sp, &mut Src::replay(tape))
                                }
                            };
                            if o.skipped {
                                skipped += 1;
                                continue;
                            }
                            ev += 1;
                            kn += o.known;
                            if let Some(m) = o.fail.take() {
                                // confirm alone
                                let c = if results.is_some() { single(env, sp, &mut Src::replay(tape)) } else { Out { fail: Some(m.clone()), ..o.clone() } };
                                let id = b * size as u64 + k as u64;
                                if let Some(m2) = c.fail {
                                    stop_at.fetch_min(b, Ordering::Relaxed);
                                    fails.lock().unwrap().push((id, tape.clone(), m2, c.sample.unwrap_or_default()));
                                } else {
                                    stop_at.fetch_min(b, Ordering::Relaxed);
                                    fails.lock().unwrap().push((
                                        id,
                                        tape.clone(),
                                        format!("only together with other files in one run: {m}"),
                                        o.sample.clone().unwrap_or_default(),
                                    ));
                                }
                                break;
                            }
                            if o.nontrivial {
                                nontriv.push(o.key);
                                if b < 6 && samples.len() < 1 {
                                    if let Some(s) = o.sample {
                                        samples.push((b, s));
                                    }
                                }
                            }
                        }
                        let mut a = agg.lock().unwrap();
                        a.0 += ev;
                        a.1.extend(nontriv);
                        a.2 += skipped;
                        a.3 += kn;
                        a.4.extend(samples);
                        a.5 += singles;
                    }
                })
                .unwrap();
        }
    });
    let (ev, nontriv, sk, kn, mut samples, singles) = agg.into_inner().unwrap();
    samples.sort();
    rep.stats.evals += ev;
    rep.stats.skipped += sk;
    rep.stats.known += kn;
    rep.stats.per_part.push((part.to_owned(), ev, nontriv.len() as u64));
    if singles > 0 {
        rep.stats.notes.push(format!("{part}: {singles} cases judged in single runs"));
    }
    rep.stats.nontrivial.extend(nontriv);
    rep.stats.samples.extend(samples.into_iter().take(4).map(|(_, s)| (part.to_owned(), s)));
    let mut fails = fails.into_inner().unwrap();
    fails.sort();
    if let Some((_, tape, msg, sample)) = fails.into_iter().next() {
        eprintln!("failing case found in {prop}/{part}: {msg}; shrinking ...");
        let f = |s: &mut Src| single(env, sp, s);
        let (tape, msg, sample) = big_stack(|| shrink_failure(&f, tape, msg, sample));
        rep.failure = Some(Failure { part: part.to_owned(), tape, msg, sample });
    }
}

/// as `run_batches`, or only the replayed case
pub fn spec_part<S: Spec>(env: &Env, rep: &mut Report, prop: &str, name: &str, batches: u64, size: usize, rp: Option<&Replay>, sp: &S) {
    if rp.is_some() {
        let f = |s: &mut Src| single(env, sp, s);
        crate::part(env, rep, prop, name, 0, rp, &f);
        return;
    }
    run_batches(env, rep, prop, name, batches, size, sp);
}

/// multiset comparison with a readable message
pub fn diff_keys(exp: &[DKey], got: &[DKey]) -> Option<String> {
    let mut a = exp.to_vec();
    let mut b = got.to_vec();
    a.sort();
    b.sort();
    if a == b {
        return None;
    }
    let mut missing = a.clone();
    let mut extra = vec![];
    for x in &b {
        if let Some(i) = missing.iter().position(|y| y == x) {
            missing.remove(i);
        } else {
            extra.push(x.clone());
        }
    }
    let f = |v: &[DKey]| v.iter().take(4).map(|(r, l, c)| format!("{r}@{l}:{c}")).collect::<Vec<_>>().join(" ");
    Some(format!("not reported: [{}], wrongly reported: [{}]", f(&missing), f(&extra)))
}
pub fn diff_text(exp: &str, got: &str) -> Option<String> {
    if exp == got {
        return None;
    }
    let i = exp.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let mut a = i.saturating_sub(15).min(s.len());
        while !s.is_char_boundary(a) {
            a -= 1;
        }
        let mut b = (i + 40).min(s.len());
        while !s.is_char_boundary(b) {
            b += 1;
        }
        s[a..b].to_owned()
    };
    Some(format!("text differs at byte {i}: expected {:?} got {:?}", cut(exp), cut(got)))
}
