//! Checks C01..C07: configuration, file selection, exit code, runs over several files.
use crate::cli::*;
use crate::emit::Style;
use crate::r#gen::*;
use crate::parse::{any_text, emit, gen_doc, sized};
use crate::part;
use crate::runner::*;
use crate::tape::Src;
use std::collections::BTreeMap;
use std::os::unix::fs::{PermissionsExt, symlink};
use std::path::{Path, PathBuf};
use std::time::Duration;

// ------------------------------------------------------------------ helpers
#[derive(Debug, PartialEq, Clone)]
enum Ent {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
}
type Snap = BTreeMap<String, Ent>;
fn snapshot(root: &Path) -> Snap {
    fn walk(root: &Path, dir: &Path, m: &mut Snap) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let k = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            let t = e.file_type().unwrap();
            if t.is_symlink() {
                m.insert(k, Ent::Link(std::fs::read_link(&p).unwrap_or_default()));
            } else if t.is_dir() {
                m.insert(k, Ent::Dir);
                walk(root, &p, m);
            } else {
                m.insert(k, Ent::File(std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    let mut m = Snap::new();
    walk(root, root, &mut m);
    m
}
fn diff_snap(a: &Snap, b: &Snap) -> Option<String> {
    let mut v = vec![];
    for (k, x) in a {
        match b.get(k) {
            None => v.push(format!("{k} is gone")),
            Some(y) if x != y => v.push(format!("{k} was changed")),
            _ => {}
        }
    }
    v.extend(b.keys().filter(|k| !a.contains_key(*k)).map(|k| format!("{k} was created")));
    (!v.is_empty()).then(|| v.join(", "))
}
fn put(p: &Path, t: &[u8]) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, t).unwrap();
}

/// A finished run.
struct Done {
    raw: Raw,
    p: Parsed,
    code: i32,
}
fn go(env: &Env, cwd: &Path, io: &Path, args: &[&str], envs: &[(String, String)]) -> Done {
    std::fs::create_dir_all(io).unwrap();
    let raw = exec(env, cwd, io, args, envs, Duration::from_secs(15));
    let p = parse_output(&raw);
    let code = raw.code.unwrap_or(-1);
    Done { raw, p, code }
}
impl Done {
    /// crashes and hangs
    fn abnormal(&self) -> Option<String> {
        if self.raw.timeout {
            return Some("the program did not end".into());
        }
        if !matches!(self.code, 0 | 1) {
            return Some(format!("abnormal end, exit status {:?}: {}", self.raw.code, tail(&self.raw.err)));
        }
        None
    }
    fn by_path(&self) -> Vec<(String, Diag)> {
        let mut v = self.p.diags.clone();
        v.sort();
        v
    }
    /// diagnostics per path, paths reduced by `f`
    fn per_file(&self, f: &dyn Fn(&str) -> String) -> BTreeMap<String, Vec<Diag>> {
        let mut m: BTreeMap<String, Vec<Diag>> = BTreeMap::new();
        for (p, d) in &self.p.diags {
            m.entry(f(p)).or_default().push(d.clone());
        }
        m.values_mut().for_each(|v| v.sort());
        m
    }
    fn fatal(&self) -> Vec<&String> {
        self.p.other.iter().filter(|l| l.starts_with("Error")).collect()
    }
    fn warned(&self) -> bool {
        self.p.other.iter().any(|l| l.starts_with("Warning"))
    }
    /// the printed configuration (with -v)
    fn shown_config(&self) -> Vec<&String> {
        let v = &self.p.out_lines;
        let a = v.iter().position(|l| l.starts_with("Used config values"));
        let b = v.iter().rposition(|l| l.starts_with("Scanning files"));
        match (a, b) {
            (Some(a), Some(b)) if a < b => v[a..b].iter().collect(),
            _ => vec![],
        }
    }
    /// counts, exit code and stream of the summary
    fn summary_wrong(&self, errors_besides: u64) -> Option<String> {
        let Some(s) = &self.p.summary else { return Some("no summary was printed".into()) };
        let n = |x: &str| self.p.diags.iter().filter(|d| d.1.sev == x).count() as u64;
        let want = Summary {
            files: s.files,
            errors: n("error") + errors_besides,
            warnings: n("warning"),
            helps: n("help"),
            info: n("note"),
            total: self.p.diags.len() as u64 + errors_besides,
        };
        if *s != want {
            return Some(format!("the summary says {s:?}, printed were {want:?}"));
        }
        let bad = want.errors + want.warnings + want.helps > 0;
        if self.code != i32::from(bad) {
            return Some(format!("exit code {} with {want:?}", self.code));
        }
        None
    }
}
fn tail(s: &str) -> String {
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(300)).collect()
}
fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(String::as_str).collect()
}

/// every option shows in the reports or the fixed text of this template
const PROBE: &str = "<div class='a' data_Foo=\"b\" id=\"x\">\n   <p id=\"x\">\r\n  {% block a-b %}\n\n   {{ a && b || c === d !== e }}\n \n{% set FooBar = {'k': \"s\"}|json_encode|raw %}\n  {% block ab %}{% endblock %}{% block ab %}x{% endblock %}\n {{ a|foo|abs|trans }}{% if a is odd and b is foo %}\n{{ foo() }}{{ max(1) }}\n{% endif %}\n{% endblock %}\n<span\n\ta='1'\n b=2>x</span></p>\n{# ludtwig-ignore-file indentation #}\n<pre>\n a</pre></div>\n{% set a = b|foo %}";

fn small_doc(s: &mut Src) -> String {
    let p = sized(s, Prof { fuel: 15, dirs: true, w: [5, 4, 2, 4, 6, 1], ..Prof::default() });
    let doc = gen_doc(s, &p);
    let st = Style::random(s);
    emit(s, &doc, st).text
}

// ------------------------------------------------------------------ C01
struct Key {
    section: &'static str,
    name: &'static str,
    default: &'static str,
    valid: &'static [&'static str],
    /// not a value of this key in a file, in the environment
    bad_file: &'static [&'static str],
    bad_env: &'static [&'static str],
}
const ALL_RULES: &str = "@rules";
const KEYS: &[Key] = &[
    Key {
        section: "general",
        name: "active-rules",
        default: ALL_RULES,
        valid: &[],
        bad_file: &["[\"no-such-rule\"]", "\"indentation\"", "[\"indentation\", \"Indentation\"]", "[1]", "[\"\"]", "[\"twig-logic-and\", \"twig-logic\"]"],
        bad_env: &["[no-such-rule]", "indentation", "[indentation, line_ending]", "[1]", "[indentation, indentatio]"],
    },
    Key {
        section: "format",
        name: "line-ending",
        default: "\"unix_LF\"",
        valid: &["\"unix_LF\"", "\"windows_CRLF\""],
        bad_file: &["\"unix_lf\"", "\"\"", "1", "\"LF\"", "[\"unix_LF\"]"],
        bad_env: &["unix", "CRLF", "windows_crlf", "1"],
    },
    Key {
        section: "format",
        name: "indentation-mode",
        default: "\"space\"",
        valid: &["\"space\"", "\"tab\""],
        bad_file: &["\"Tab\"", "\"tabs\"", "4", "true"],
        bad_env: &["tabs", "Space", "4"],
    },
    Key {
        section: "format",
        name: "indentation-count",
        default: "4",
        valid: &["0", "1", "2", "3", "4", "5", "8", "255"],
        bad_file: &["256", "-1", "\"4\"", "1.5", "[4]"],
        bad_env: &["256", "-1", "four", "1.5"],
    },
    Key {
        section: "format",
        name: "indent-children-of-blocks",
        default: "true",
        valid: &["true", "false"],
        bad_file: &["\"true\"", "1", "\"no\""],
        bad_env: &["yes", "1", "no"],
    },
    Key {
        section: "format",
        name: "linebreaks-around-blocks",
        default: "true",
        valid: &["true", "false"],
        bad_file: &["\"false\"", "2", "0"],
        bad_env: &["on", "2", "0"],
    },
    Key {
        section: "format",
        name: "twig-quotation",
        default: "\"single\"",
        valid: &["\"single\"", "\"double\""],
        bad_file: &["\"Single\"", "\"'\"", "true"],
        bad_env: &["Double", "quotes", "1"],
    },
    Key {
        section: "format",
        name: "html-quotation",
        default: "\"double\"",
        valid: &["\"single\"", "\"double\""],
        bad_file: &["\"dbl\"", "2", "[]"],
        bad_env: &["SINGLE", "none", "2"],
    },
    Key { section: "twig", name: "valid-filters", default: "", valid: &[], bad_file: &["\"abs\"", "[1]", "true"], bad_env: &["abs", "[1]", "3"] },
    Key { section: "twig", name: "valid-tests", default: "", valid: &[], bad_file: &["\"odd\"", "[[]]", "1"], bad_env: &["odd", "[1]", "true"] },
    Key { section: "twig", name: "valid-functions", default: "", valid: &[], bad_file: &["\"max\"", "[true]", "1"], bad_env: &["max", "[2]", "x"] },
];
fn env_name(k: &Key) -> String {
    format!("LUDTWIG_{}__{}", k.section.to_uppercase(), k.name.replace('-', "_").to_uppercase())
}
fn toml_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", "))
}
/// a valid value, in the spelling of TOML
fn key_value(s: &mut Src, i: usize) -> String {
    match i {
        0 => toml_list(&random_rules(s)),
        8 => toml_list(&["abs", "foo", "trans", "json_encode", "raw", "date_modify"].iter().filter(|_| s.chance(1, 2)).map(|x| (*x).to_owned()).collect::<Vec<_>>()),
        9 => toml_list(&["odd", "divisible by", "foo", "same as"].iter().filter(|_| s.chance(1, 2)).map(|x| (*x).to_owned()).collect::<Vec<_>>()),
        10 => toml_list(&["max", "foo", "block", "html_cva"].iter().filter(|_| s.chance(1, 2)).map(|x| (*x).to_owned()).collect::<Vec<_>>()),
        _ => s.pick(KEYS[i].valid).to_owned(),
    }
}
/// the same value for an environment variable
fn env_spelling(s: &mut Src, v: &str) -> String {
    let bare = v.strip_prefix('"').and_then(|x| x.strip_suffix('"'));
    match bare {
        Some(b) if !s.chance(1, 4) => b.to_owned(),
        _ => v.to_owned(),
    }
}
fn layer_toml(vals: &[Option<String>], version: Option<&str>) -> String {
    let mut t = String::new();
    if let Some(v) = version {
        t.push_str(&format!("version = \"{v}\"\n"));
    }
    for sec in ["general", "format", "twig"] {
        let ks: Vec<usize> = (0..KEYS.len()).filter(|i| KEYS[*i].section == sec && vals[*i].is_some()).collect();
        if !ks.is_empty() {
            t.push_str(&format!("[{sec}]\n"));
            for k in ks {
                t.push_str(&format!("{} = {}\n", KEYS[k].name, vals[k].as_ref().unwrap()));
            }
        }
    }
    t
}

fn c01(env: &Env, s: &mut Src) -> Out {
    let dens = [2, 4, 8, 1];
    let (df, de) = (dens[s.idx(4)], dens[s.idx(3)]);
    let has_file = !s.chance(1, 5);
    let n = KEYS.len();
    let mut file: Vec<Option<String>> = vec![None; n];
    let mut envv: Vec<Option<String>> = vec![None; n];
    let (mut both, mut set) = (0, 0);
    for i in 0..n {
        if has_file && s.chance(1, df) {
            file[i] = Some(key_value(s, i));
        }
        if s.chance(1, de) {
            envv[i] = Some(key_value(s, i));
        }
        both += usize::from(file[i].is_some() && envv[i].is_some());
        set += usize::from(file[i].is_some() || envv[i].is_some());
    }
    // spelling of the environment values before anything invalid comes in
    let mut env_text: Vec<Option<String>> = envv.iter().map(|v| v.as_ref().map(|v| env_spelling(s, v))).collect();
    let mut fatal = false;
    if s.chance(1, 4) {
        let i = s.idx(n);
        if has_file && s.chance(1, 2) {
            file[i] = Some(s.pick(KEYS[i].bad_file).to_owned());
            // an overriding value makes it harmless
            fatal = envv[i].is_none();
        } else {
            env_text[i] = Some(s.pick(KEYS[i].bad_env).to_owned());
            envv[i] = None;
            fatal = true;
        }
    }
    let file_version = [Some(version(env)), None, Some("0.0.1")][s.idx(3)];
    let env_version = [None, None, Some("0.1.0"), Some(version(env))][s.idx(4)];
    let sc = scratch(env);
    // a decoy where the file is not looked for
    let up = sc.dir.join("up");
    let cwd = up.join("cwd");
    let (w, rf) = (cwd.join("w"), sc.dir.join("ref"));
    let texts = [PROBE.to_owned(), small_doc(s), small_doc(s)];
    for (k, t) in texts.iter().enumerate() {
        put(&w.join(format!("{k}.twig")), t.as_bytes());
        put(&rf.join(format!("w/{k}.twig")), t.as_bytes());
    }
    let place = s.idx(3);
    let toml = layer_toml(&file, file_version);
    let cpath = match place {
        0 => cwd.join("ludtwig-config.toml"),
        1 => cwd.join("conf/my.toml"),
        _ => sc.dir.join("abs/other.toml"),
    };
    if has_file {
        put(&cpath, toml.as_bytes());
    }
    let decoy = "[general]\nactive-rules = []\n[format]\nindentation-count = 7\nindentation-mode = \"tab\"\n";
    if s.chance(1, 3) {
        put(&up.join("ludtwig-config.toml"), decoy.as_bytes());
        put(&up.join("conf/my.toml"), decoy.as_bytes());
    }
    if place != 0 && s.chance(1, 2) {
        put(&cwd.join("ludtwig-config.toml"), decoy.as_bytes());
    }
    let mut args: Vec<String> = vec!["-v".into()];
    match place {
        0 => {}
        1 => args.extend(["-c".into(), "conf/my.toml".into()]),
        _ => args.push(format!("--config-path={}", cpath.display())),
    }
    let mut envs: Vec<(String, String)> = (0..n).filter_map(|i| env_text[i].clone().map(|v| (env_name(&KEYS[i]), v))).collect();
    if let Some(v) = env_version {
        envs.push(("LUDTWIG_VERSION".into(), format!("\"{v}\"")));
    }
    if s.chance(1, 4) {
        envs.push(("LUDTWIGFOO".into(), "1".into()));
        envs.push(("INDENTATION_COUNT".into(), "9".into()));
    }
    let fix = s.chance(1, 2);
    if fix {
        args.push("-f".into());
    }
    args.push("w".into());
    let sample = format!("args {args:?}\nenvironment {envs:?}\n--- file ({}) ---\n{toml}", if has_file { cpath.display().to_string().replace(&sc.dir.display().to_string(), "…") } else { "none".into() });
    let before = snapshot(&up);
    let got = go(env, &cwd, &sc.dir.join("io"), &strs(&args), &envs);
    if let Some(m) = got.abnormal() {
        return Out::fail(&sample, m);
    }
    if fatal {
        if got.code != 1 {
            return Out::fail(&sample, format!("an invalid value is accepted: exit code {}", got.code));
        }
        if got.fatal().is_empty() {
            return Out::fail(&sample, "the run fails without an error message");
        }
        if let Some(m) = diff_snap(&before, &snapshot(&up)) {
            return Out::fail(&sample, format!("invalid configuration, but {m}"));
        }
        if !got.p.diags.is_empty() || got.p.summary.as_ref().is_some_and(|x| x.files > 0) {
            return Out::fail(&sample, "files are scanned in spite of an invalid configuration");
        }
        return Out::ok(true, &sample);
    }
    // the same as one complete file
    let base: Vec<Option<String>> = (0..n)
        .map(|i| {
            let d = match KEYS[i].default {
                "" => None,
                ALL_RULES => Some(toml_list(&RULES.iter().map(|x| (*x).to_owned()).collect::<Vec<_>>())),
                x => Some(x.to_owned()),
            };
            envv[i].clone().or_else(|| file[i].clone()).or(d)
        })
        .collect();
    let eff_version = env_version.or(if has_file { file_version } else { None }).unwrap_or(version(env));
    put(&rf.join("full.toml"), layer_toml(&base, Some(eff_version)).as_bytes());
    let mut rargs = vec!["-v", "-c", "full.toml"];
    if fix {
        rargs.push("-f");
    }
    rargs.push("w");
    let want = go(env, &rf, &sc.dir.join("io2"), &rargs, &[]);
    if let Some(m) = want.abnormal() {
        return Out::fail(&sample, format!("complete configuration: {m}"));
    }
    if !want.fatal().is_empty() {
        return Out::fail(&sample, format!("complete configuration: {:?}", want.fatal()));
    }
    // what the defaults are: the order of the rules in the default list is of no matter
    let norm = |d: &Done| -> Vec<String> {
        let mut v: Vec<String> = d.shown_config().iter().map(|x| x.trim().to_owned()).collect();
        if let (Some(a), true) = (v.iter().position(|x| x.starts_with("active_rules")), base[0].as_deref() == base_default()) {
            let b = v[a..].iter().position(|x| x.starts_with(']')).map_or(v.len(), |x| a + x);
            v[a..b].sort();
        }
        v
    };
    let (a, b) = (norm(&want), norm(&got));
    if a != b {
        let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        return Out::fail(&sample, format!("the effective configuration differs: expected {:?}, used {:?}", a.get(k), b.get(k)));
    }
    if !got.fatal().is_empty() {
        return Out::fail(&sample, format!("a valid configuration is refused: {:?}", got.fatal()));
    }
    if want.code != got.code {
        return Out::fail(&sample, format!("exit code {} instead of {}", got.code, want.code));
    }
    let strip = |d: &Done| d.by_path();
    if strip(&want) != strip(&got) {
        return Out::fail(&sample, "the diagnostics differ from those with the complete configuration");
    }
    let (sw, sr) = (snapshot(&w), snapshot(&rf.join("w")));
    if let Some(m) = diff_snap(&sr, &sw) {
        return Out::fail(&sample, format!("differently fixed than with the complete configuration: {m}"));
    }
    if eff_version != version(env) && !got.warned() {
        return Out::fail(&sample, format!("no warning about version {eff_version}"));
    }
    // which settings are used is said
    for (mark, is) in [("Loaded configuration file", has_file), ("Using default config", !has_file)] {
        if got.raw.out.contains(mark) != is {
            return Out::fail(&sample, format!("{mark:?} is{} said", if is { " not" } else { "" }));
        }
    }
    // and which variables override it: no others are shown
    let mut told: Vec<&str> = got.raw.out.lines().filter(|l| l.starts_with("Found environment variable")).filter_map(|l| l.split_once(": ")).map(|x| x.1).collect();
    told.sort_unstable();
    let mut vars: Vec<String> = envs.iter().filter(|(k, _)| k.starts_with("LUDTWIG_")).map(|(k, v)| format!("{k}={v}")).collect();
    vars.sort_unstable();
    if told != vars {
        return Out::fail(&sample, format!("the environment variables {vars:?} are set, {told:?} are said to be found"));
    }
    if !fix {
        if let Some(m) = diff_snap(&before, &snapshot(&up)) {
            return Out::fail(&sample, m);
        }
    }
    Out::ok(both > 0 || (set > 0 && set < n), &sample)
}
fn base_default() -> Option<&'static str> {
    static D: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    Some(D.get_or_init(|| toml_list(&RULES.iter().map(|x| (*x).to_owned()).collect::<Vec<_>>())))
}

// ------------------------------------------------------------------ C02
fn c02(env: &Env, s: &mut Src) -> Out {
    let sc = scratch(env);
    let cwd = sc.dir.join("cwd");
    std::fs::create_dir_all(cwd.join("sub dir")).unwrap();
    let texts = [PROBE.to_owned(), small_doc(s)];
    for (k, t) in texts.iter().enumerate() {
        put(&cwd.join(format!("w/{k}.twig")), t.as_bytes());
    }
    let path = ["ludtwig-config.toml", "my.toml", "sub dir/c.toml", "noext", ".hidden.toml", "missing/c.toml", "w"][s.idx(7)];
    let abs = s.chance(1, 3);
    let given = if abs { cwd.join(path).display().to_string() } else { path.to_owned() };
    let mut args: Vec<String> = vec![["-C", "--create-config"][s.idx(2)].to_owned()];
    // the option spelling is checked by the program itself
    let implicit = path == "ludtwig-config.toml" && !abs && s.chance(1, 2);
    if !implicit {
        args.extend(["-c".to_owned(), given.clone()]);
    }
    for o in ["-v", "-f", "-i"] {
        if s.chance(1, 4) {
            args.push(o.into());
        }
    }
    let exists = s.idx(5);
    let target = cwd.join(path);
    match (path, exists) {
        ("missing/c.toml" | "w", _) | (_, 0) => {}
        (_, 1) => put(&target, b""),
        (_, 2) => put(&target, b"[format]\nindentation-count = 2\n"),
        (_, 3) => std::fs::create_dir_all(&target).unwrap(),
        _ => {
            put(&cwd.join("real.toml"), b"version = \"0\"\n");
            symlink(cwd.join("real.toml"), &target).unwrap();
        }
    }
    let there = path == "w" || (path != "missing/c.toml" && exists != 0);
    let writable = path != "missing/c.toml";
    let mut envs = vec![];
    if s.chance(1, 3) {
        envs.push(("LUDTWIG_FORMAT__INDENTATION_COUNT".to_owned(), ["2", "nonsense"][s.idx(2)].to_owned()));
    }
    if s.chance(1, 4) && path != "ludtwig-config.toml" {
        // another configuration has no influence
        put(&cwd.join("ludtwig-config.toml"), b"[general]\nactive-rules = [\"no-such\"]\n");
    }
    let sample = format!("args {args:?} environment {envs:?} exists {there} ({exists})");
    let before = snapshot(&cwd);
    let d = go(env, &cwd, &sc.dir.join("io"), &strs(&args), &envs);
    if d.raw.timeout || (d.raw.code == Some(2) && d.raw.err.contains("unexpected argument")) {
        return Out::fail(&sample, "the option is not known");
    }
    if let Some(m) = d.abnormal() {
        return Out::fail(&sample, m);
    }
    let after = snapshot(&cwd);
    if there || !writable {
        if d.code != 1 {
            return Out::fail(&sample, format!("exit code {} although nothing can be created", d.code));
        }
        return match diff_snap(&before, &after) {
            Some(m) => Out::fail(&sample, m),
            None => Out::ok(there, &format!("{sample}{texts:?}")),
        };
    }
    if d.code != 0 {
        return Out::fail(&sample, format!("exit code {}: {}", d.code, tail(&d.raw.err)));
    }
    let mut expect = before.clone();
    let Some(c @ Ent::File(_)) = after.get(path) else { return Out::fail(&sample, "no configuration was written") };
    expect.insert(path.to_owned(), c.clone());
    if let Some(m) = diff_snap(&expect, &after) {
        return Out::fail(&sample, m);
    }
    // same behaviour as without
    let other = sc.dir.join("other");
    for (k, t) in texts.iter().enumerate() {
        put(&other.join(format!("w/{k}.twig")), t.as_bytes());
    }
    let mut envs = vec![];
    if s.chance(1, 3) {
        envs.push(("LUDTWIG_FORMAT__TWIG_QUOTATION".to_owned(), "double".to_owned()));
    }
    let fix = s.chance(1, 2);
    let mut a: Vec<&str> = vec!["-v"];
    if fix {
        a.push("--fix");
    }
    let b: Vec<&str> = a.iter().copied().chain(["w"]).collect();
    if path != "ludtwig-config.toml" || abs {
        a.extend(["-c", &given]);
    }
    a.push("w");
    let with = go(env, &cwd, &sc.dir.join("io"), &a, &envs);
    let without = go(env, &other, &sc.dir.join("io2"), &b, &envs);
    if with.warned() {
        return Out::fail(&sample, format!("the created configuration is loaded with a warning: {}", tail(&with.raw.err)));
    }
    if let Some(m) = with.abnormal().or_else(|| without.abnormal()) {
        return Out::fail(&sample, m);
    }
    if with.shown_config() != without.shown_config() {
        return Out::fail(&sample, "the created configuration is not the default one");
    }
    if with.by_path() != without.by_path() || with.code != without.code || with.p.summary != without.p.summary {
        return Out::fail(&sample, "diagnostics with the created configuration differ from those without a configuration");
    }
    if let Some(m) = diff_snap(&snapshot(&other.join("w")), &snapshot(&cwd.join("w"))) {
        return Out::fail(&sample, format!("fixed differently with the created configuration: {m}"));
    }
    Out::ok(true, &format!("{sample}{texts:?}"))
}

// ------------------------------------------------------------------ C03, C04: several files
/// contents that are told apart by what they cause
fn any_content(s: &mut Src) -> Vec<u8> {
    let t: String = match s.weighted(&[2, 2, 2, 2, 3, 2, 1]) {
        0 => "<p>hello</p>\n".into(),
        1 => ["{{ a && b }}", "{{ a|nope }}", "{% set fooBar = {'a': 1} %}", "<p a=1></p>", "{% block A %}x{% endblock %}", "{% extends 'a' %}", "{# ludtwig-ignore-file #}\n{{ a && b }}", "<!-- ludtwig-ignore --><p a='1'>{{ a && b }}</p>"][s.idx(8)].into(),
        2 => ["<p>", "{{ }}", "{% endif %}", "</p>", "<div {{ >", "{% block %}", "{{ 'a }}"][s.idx(7)].into(),
        // long ones that turn up again, with characters of several bytes
        3 if s.chance(1, 4) => [
            "{% block a_block_with_a_rather_long_name_that_is_unlikely %}{% endblock %}",
            "<p id=\"an-id-with-a-rather-long-value-that-is-unlikely\"></p>",
            "<p id='äöüäöüäöüäöüäöüäöüäöüäöüäöüäöü'></p><b id='äöüäöüäöüäöüäöüäöüäöüäöüäöüäöü'></b>",
            "{% set a_variable_with_a_rather_long_name_that_is_unlikely = 'x'|a_filter_with_a_rather_long_name_that_is_unlikely %}",
        ][s.idx(4)]
        .into(),
        3 => ["", "\n", "a\r\n", "\t\n\n", "  x", "\u{e4}"][s.idx(6)].into(),
        4 => small_doc(s),
        5 => any_text(s),
        _ => PROBE.into(),
    };
    // files of several kilobytes
    if !t.is_empty() && s.chance(1, 12) {
        let want = s.range(1_000, 16_000) as usize;
        // what is left open nests
        let most = if crate::parse::parse(&t).errors.is_empty() { usize::MAX } else { 12 };
        let line = if t.ends_with('\n') { t.clone() } else { format!("{t}\n") };
        let long = line.repeat((want / line.len() + 1).min(most));
        if crate::parse::parse(&long).errors.len() < 40 {
            return long.into_bytes();
        }
    }
    t.into_bytes()
}
const NOT_UTF8: &[&[u8]] = &[b"\xff", b"<p>\xc3</p>", b"{{ a && b }}\xed\xa0\x80", b"a\xf5b", b"\xfe\xff\0<\0p"];

fn c03(env: &Env, s: &mut Src) -> Out {
    let sc = scratch(env);
    let cwd = sc.dir.join("cwd");
    std::fs::create_dir_all(cwd.join("w")).unwrap();
    let mut c = random_cfg(s);
    if s.chance(1, 3) {
        // rules of one severity only
        c.rules = [vec!["ludtwig-ignore-file-not-on-top"], vec!["twig-block-duplicate"], vec!["indentation"], vec![], vec!["twig-hash-key-no-quotes"]][s.idx(5)].iter().map(|x| (*x).to_owned()).collect();
    }
    put(&cwd.join("cfg.toml"), c.toml(version(env)).as_bytes());
    let n = s.range(0, 8);
    let (mut bad, mut unreadable) = (0, 0);
    let mut sample = String::new();
    let mut named: Vec<String> = vec![];
    for k in 0..n {
        let (t, kind) = if s.chance(1, 12) {
            bad += 1;
            unreadable += 1;
            (NOT_UTF8[s.idx(NOT_UTF8.len())].to_vec(), "not UTF-8")
        } else {
            (any_content(s), "")
        };
        // a file that is named itself can have any name
        let name = if s.chance(1, 6) {
            named.push(format!("x/{k}{}", s.pick(&["", ".txt", ".twig", ".TWIG", ".twig.bak", "."])));
            named.last().unwrap().clone()
        } else {
            format!("w/{k}.twig")
        };
        sample.push_str(&format!("--- {name} {kind}\n{}\n", String::from_utf8_lossy(&t)));
        put(&cwd.join(name), &t);
    }
    let mut args = vec!["-c", "cfg.toml"];
    let fix = s.chance(1, 2);
    if fix {
        args.push("-f");
    }
    if s.chance(1, 4) {
        args.push("-v");
    }
    let inspect = s.chance(1, 4);
    if inspect {
        args.push("-i");
    }
    args.push("w");
    args.extend(named.iter().map(String::as_str));
    if s.chance(1, 8) {
        args.push("nowhere");
        bad += 1;
    }
    let sample = format!("{args:?}\n{sample}--- configuration ---\n{}", c.toml("x"));
    if s.chance(1, 20) {
        // an ignore file that cannot be used is an error as well
        let ig = cwd.join(".ludtwig-ignore");
        match s.pick(&["", "{a\n", "[z-a]\n", "w/0.twig\n\\\n", "# x\n\n**{\nb\n"]) {
            "" => std::fs::create_dir_all(&ig).unwrap(),
            t => put(&ig, t.as_bytes()),
        }
        let d = go(env, &cwd, &sc.dir.join("io"), &args, &[]);
        if let Some(m) = d.abnormal() {
            return Out::fail(&sample, m);
        }
        let said = d.p.other.iter().any(|l| l.starts_with("Error:") && l.contains(".ludtwig-ignore"));
        if d.code != 1 || !said {
            return Out::fail(&sample, format!("exit code {} with an unusable .ludtwig-ignore, reported: {said}", d.code));
        }
        return Out::ok(true, &sample);
    }
    let d = go(env, &cwd, &sc.dir.join("io"), &args, &[]);
    if let Some(m) = d.abnormal() {
        return Out::fail(&sample, m);
    }
    let gave_up = d.p.other.iter().filter(|l| l.starts_with("Error: max suggestion")).count() as u64;
    let errs = d.fatal().len() as u64;
    if errs != bad + gave_up {
        return Out::fail(&sample, format!("{bad} files cannot be processed, {errs} such errors are printed: {:?}", d.fatal()));
    }
    if let Some(m) = d.summary_wrong(errs) {
        return Out::fail(&sample, m);
    }
    let notes = d.p.diags.iter().filter(|x| x.1.rule == "SyntaxTree").count();
    if inspect && notes != n as usize - unreadable || !inspect && notes != 0 {
        return Out::fail(&sample, format!("{notes} syntax trees for {n} files, {unreadable} of them unreadable"));
    }
    if d.p.summary.as_ref().unwrap().files != u64::from(n) {
        return Out::fail(&sample, format!("{} files scanned instead of {n}", d.p.summary.as_ref().unwrap().files));
    }
    Out::ok(n > 0 && !(d.p.diags.is_empty() && errs == 0), &sample)
}

const DIRS: &[&str] = &["", "a/", "a/b/", "z z/", "x.twig/", "\u{e4}/"];
const NAMES: &[&str] = &["1.twig", "index.html.twig", "b.html", "\u{fc}.twig", "with space.twig", "A.twig", "-x.twig"];

/// some words in other letters
fn recased(s: &mut Src, t: &[u8]) -> Vec<u8> {
    let mut o = t.to_vec();
    let mut i = 0;
    while i < o.len() {
        let n = o[i..].iter().take_while(|b| b.is_ascii_alphanumeric() || **b == b'_').count();
        if n >= 4 && s.chance(1, 3) {
            for b in &mut o[i..i + n] {
                if s.chance(1, 3) {
                    *b ^= if b.is_ascii_alphabetic() { 0x20 } else { 0 };
                }
            }
        }
        i += n.max(1);
    }
    o
}

fn c04(env: &Env, s: &mut Src) -> Out {
    let sc = scratch(env);
    let c = random_cfg(s);
    let n = s.range(2, 10) as usize;
    let mut texts: Vec<Vec<u8>> = (0..n).map(|_| any_content(s)).collect();
    if s.chance(1, 3) {
        // almost the same text as another one
        let a = s.idx(n);
        let b = (a + 1) % n;
        texts[b] = recased(s, &texts[a]);
    }
    let fix = s.chance(1, 2);
    let copies = s.chance(1, 3);
    let mut sample = format!("fix {fix}\n");
    for t in &texts {
        sample.push_str(&format!("---\n{}\n", String::from_utf8_lossy(t)));
    }
    sample.push_str(&format!("--- configuration ---\n{}", c.toml("x")));
    // each alone
    let mut alone: Vec<(Vec<Diag>, Vec<u8>, bool)> = vec![];
    for (k, t) in texts.iter().enumerate() {
        let dir = sc.dir.join(format!("s{k}"));
        put(&dir.join("f.twig"), t);
        put(&dir.join("cfg.toml"), c.toml(version(env)).as_bytes());
        let mut a = vec!["-c", "cfg.toml"];
        if fix {
            a.push("-f");
        }
        a.push("f.twig");
        let d = go(env, &dir, &sc.dir.join("io"), &a, &[]);
        if let Some(m) = d.abnormal() {
            return Out::fail(&sample, format!("alone: {m}"));
        }
        let mut v: Vec<Diag> = d.p.diags.iter().map(|x| x.1.clone()).collect();
        v.sort();
        let after = std::fs::read(dir.join("f.twig")).unwrap_or_default();
        alone.push((v, after, d.p.other.iter().any(|l| l.starts_with("Error:"))));
    }
    // all together, twice, in other places and ways
    for round in 0..2 {
        let cwd = sc.dir.join(format!("m{round}"));
        let root = cwd.join("t");
        std::fs::create_dir_all(&root).unwrap();
        put(&cwd.join("cfg.toml"), c.toml(version(env)).as_bytes());
        let mut place: Vec<(String, usize)> = vec![];
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, s.idx(i + 1));
        }
        if copies {
            // now and then very many files
            for _ in 0..if s.chance(1, 12) { 60 / n } else { 1 } {
                order.extend(0..n);
            }
        }
        if s.chance(1, 4) {
            // only some of them
            order.truncate(1 + s.idx(order.len()));
        }
        let way = s.idx(5);
        for (j, i) in order.iter().enumerate() {
            let end = if way >= 3 && s.chance(1, 4) { s.pick(&["", ".txt", ".", ".twig.bak"]) } else { s.pick(NAMES) };
            let name = format!("{}{j}{end}", s.pick(DIRS));
            put(&root.join(&name), &texts[*i]);
            place.push((name, *i));
        }
        let mut args: Vec<String> = vec![];
        match way {
            0 => args.push("t".into()),
            1 => args.push("./t/".into()),
            2 => args.push(root.display().to_string()),
            3 => args.extend(place.iter().map(|p| format!("t/{}", p.0))),
            _ => args.extend(place.iter().map(|p| root.join(&p.0).display().to_string())),
        }
        let mut a: Vec<String> = vec!["-c".into(), "cfg.toml".into()];
        if fix {
            a.push("-f".into());
        }
        a.extend(args);
        let threads = ["1", "2", "3", "8"][s.idx(4)];
        let d = go(env, &cwd, &sc.dir.join("io"), &strs(&a), &[("RAYON_NUM_THREADS".into(), threads.into())]);
        if let Some(m) = d.abnormal() {
            return Out::fail(&sample, format!("together: {m}"));
        }
        let marker = "/t/";
        let rel = |p: &str| -> String {
            let p = p.strip_prefix("./").unwrap_or(p);
            p.strip_prefix("t/").map_or_else(|| p.split_once(&format!("m{round}{marker}")).map_or(p.to_owned(), |x| x.1.to_owned()), str::to_owned)
        };
        let got = d.per_file(&rel);
        if let Some(k) = got.keys().find(|k| !place.iter().any(|p| p.0 == **k)) {
            return Out::fail(&sample, format!("diagnostics for {k}, which is none of the files"));
        }
        let mut errs = 0;
        for (name, i) in &place {
            let w = &alone[*i];
            errs += usize::from(w.2);
            let none = vec![];
            let g = got.get(name).unwrap_or(&none);
            if *g != w.0 {
                let x: Vec<String> = w.0.iter().filter(|x| !g.contains(x)).map(Diag::show).collect();
                let y: Vec<String> = g.iter().filter(|x| !w.0.contains(x)).map(Diag::show).collect();
                return Out::fail(&sample, format!("file {i} as {name} (way {way}): only alone {x:?}, only together {y:?}"));
            }
            let after = std::fs::read(root.join(name)).unwrap_or_default();
            if after != w.1 {
                return Out::fail(&sample, format!("file {i} as {name} (way {way}) is fixed differently: {}", diff_text(&String::from_utf8_lossy(&w.1), &String::from_utf8_lossy(&after)).unwrap_or_default()));
            }
        }
        if d.fatal().len() != errs {
            return Out::fail(&sample, format!("{errs} files are given up alone, together: {:?}", d.fatal()));
        }
        if snapshot(&root).values().filter(|e| matches!(e, Ent::File(_))).count() != place.len() {
            return Out::fail(&sample, "files were created or removed");
        }
    }
    Out::ok(alone.iter().filter(|x| !x.0.is_empty()).count() > 1, &sample)
}

// ------------------------------------------------------------------ C05
/// one line of an ignore file
#[derive(Debug, Clone)]
struct Pat {
    not: bool,
    dir_only: bool,
    anchored: bool,
    parts: Vec<String>,
}
fn glob(p: &str, t: &str) -> bool {
    match p.split_once('*') {
        None => p == t,
        Some((a, rest)) => {
            let Some(t) = t.strip_prefix(a) else { return false };
            t.char_indices().map(|x| x.0).chain([t.len()]).any(|i| glob(rest, &t[i..]))
        }
    }
}
fn parse_pats(text: &str) -> Vec<Pat> {
    text.lines()
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .map(|l| {
            let (not, l) = l.strip_prefix('!').map_or((false, l), |x| (true, x));
            let (dir_only, l) = l.strip_suffix('/').map_or((false, l), |x| (true, x));
            let anchored = l.contains('/') && !l.starts_with("**/");
            let l = l.strip_prefix('/').or_else(|| l.strip_prefix("**/")).unwrap_or(l);
            Pat { not, dir_only, anchored, parts: l.split('/').map(str::to_owned).collect() }
        })
        .collect()
}
/// Some(true): ignored, Some(false): taken in
fn decide(pats: &[Pat], rel: &[&str], is_dir: bool) -> Option<bool> {
    pats.iter().rev().find_map(|p| {
        if p.dir_only && !is_dir {
            return None;
        }
        let t = if p.anchored {
            if p.parts.len() != rel.len() {
                return None;
            }
            rel
        } else {
            &rel[rel.len().checked_sub(p.parts.len())?..]
        };
        p.parts.iter().zip(t).all(|(p, t)| glob(p, t)).then_some(!p.not)
    })
}
struct World {
    /// relative paths; directories end with a slash
    dirs: Vec<String>,
    files: Vec<String>,
    git: Vec<String>,
    gi: BTreeMap<String, Vec<Pat>>,
    li: BTreeMap<String, Vec<Pat>>,
    cwd_pats: Option<Vec<Pat>>,
}
impl World {
    fn ignored(&self, path: &str, is_dir: bool) -> Option<bool> {
        let comps: Vec<&str> = path.trim_end_matches('/').split('/').collect();
        let dirs: Vec<(String, &[&str])> =
            (0..comps.len()).rev().map(|k| (if k == 0 { String::new() } else { format!("{}/", comps[..k].join("/")) }, &comps[k..])).collect();
        for (d, rel) in &dirs {
            if let Some(x) = self.li.get(d).and_then(|p| decide(p, rel, is_dir)) {
                return Some(x);
            }
        }
        if dirs.iter().any(|d| self.git.contains(&d.0)) {
            for (d, rel) in &dirs {
                if let Some(x) = self.gi.get(d).and_then(|p| decide(p, rel, is_dir)) {
                    return Some(x);
                }
                if self.git.contains(d) {
                    break;
                }
            }
        }
        self.cwd_pats.as_ref().and_then(|p| decide(p, &comps, is_dir))
    }
    fn walk(&self, dir: &str, out: &mut Vec<String>) {
        for d in self.dirs.iter().filter(|d| parent(d) == dir && **d != dir) {
            let name = d[dir.len()..].trim_end_matches('/');
            match self.ignored(d, true) {
                Some(true) => {}
                None if name.starts_with('.') => {}
                _ => self.walk(d, out),
            }
        }
        for f in self.files.iter().filter(|f| parent(f) == dir) {
            let name = &f[dir.len()..];
            if self.ignored(f, false) != Some(true) && [".twig", ".html", ".htm", ".ejs"].iter().any(|e| name.ends_with(e)) {
                out.push(f.clone());
            }
        }
    }
}
fn parent(p: &str) -> &str {
    let t = p.trim_end_matches('/');
    t.rfind('/').map_or("", |i| &p[..=i])
}
const DNAMES: &[&str] = &["a", "b", "vendor", ".hid", "x.twig", "sub dir", "b.html"];
const FNAMES: &[&str] = &["1.twig", "2.html.twig", "3.html", "4.htm", "5.ejs", "6.txt", "7.twig.bak", ".8.twig", "twig", "9.TWIG", "html", "b", "1.twigs", "xtwig", "x.xhtml", ".twig"];
const PATS: &[&str] = &[
    "1.twig", "*.html", "*.twig", "/1.twig", "a/", "/a/", "vendor/", "b", "/b", "a/1.twig", "!1.twig", "!*.html.twig", "*", "# 1.twig", "", "!a/", "**/2.html.twig", "a/b/", "/a/b/1.twig", "x.twig/", "!.hid/",
    "!.hid", "2*", "b/*.twig", "/a/*.twig", "b/1.twig", "a/*.html", "/sub dir/1.twig", "*.t*g", "sub dir/", "/*.html", "a/*.twig", "/vendor", "b/", "!b", ".8.twig",
];
fn pat_file(s: &mut Src, simple: bool) -> String {
    let n = s.range(1, 4);
    let mut t = String::new();
    for _ in 0..n {
        let p = s.pick(PATS);
        if simple && p.trim_end_matches('/').trim_start_matches("**/").contains('/') {
            continue;
        }
        t.push_str(p);
        t.push('\n');
    }
    t
}
fn c05(env: &Env, s: &mut Src) -> Out {
    let sc = scratch(env);
    let r = sc.dir.join("r");
    let mut w = World { dirs: vec![String::new()], files: vec![], git: vec![], gi: BTreeMap::new(), li: BTreeMap::new(), cwd_pats: None };
    let deep = s.chance(1, 8);
    let nd = if deep { s.range(6, 14) } else { s.range(0, 7) };
    for _ in 0..nd {
        let p = if deep { w.dirs.last().unwrap().clone() } else { w.dirs[s.idx(w.dirs.len())].clone() };
        let d = format!("{p}{}/", s.pick(DNAMES));
        if (deep || p.matches('/').count() < 4) && !w.dirs.contains(&d) && !w.files.contains(&d[..d.len() - 1].to_owned()) {
            w.dirs.push(d);
        }
    }
    let nf = if s.chance(1, 30) { s.range(40, 160) } else { s.range(1, 16) };
    for _ in 0..nf {
        let mut f = format!("{}{}", w.dirs[s.idx(w.dirs.len())], s.pick(FNAMES));
        if nf >= 40 {
            // enough names for that many
            let at = f.rfind('/').map_or(0, |i| i + 1);
            f.insert_str(at, &format!("f{}", s.draw(60)));
        }
        if !w.files.contains(&f) && !w.dirs.contains(&format!("{f}/")) {
            w.files.push(f);
        }
    }
    // ignore files and repositories
    let mut text: BTreeMap<String, String> = BTreeMap::new();
    if s.chance(2, 3) {
        w.git.push(String::new());
    }
    for d in w.dirs.clone() {
        if !d.is_empty() && s.chance(1, 12) {
            w.git.push(d.clone());
        }
        if s.chance(1, 4) {
            let t = pat_file(s, false);
            w.gi.insert(d.clone(), parse_pats(&t));
            text.insert(format!("{d}.gitignore"), t);
        }
        if s.chance(1, 5) {
            let t = pat_file(s, false);
            w.li.insert(d.clone(), parse_pats(&t));
            text.insert(format!("{d}.ludtwig-ignore"), t);
        }
    }
    std::fs::create_dir_all(&r).unwrap();
    for d in &w.dirs {
        std::fs::create_dir_all(r.join(d)).unwrap();
    }
    for g in &w.git {
        std::fs::create_dir_all(r.join(g).join(".git")).unwrap();
        put(&r.join(g).join(".git/HEAD"), b"ref: refs/heads/main\n");
    }
    let body = b"{{ a && b }}\n";
    // one of them may be huge
    let (big, n) = if s.chance(1, 40) { (s.idx(w.files.len().max(1)), s.range(10_000, 40_000)) } else { (usize::MAX, 0) };
    let tail = "<br>\n".repeat(n as usize);
    let tail = tail.as_bytes();
    let text_of = |f: &String, body: &[u8]| -> Vec<u8> {
        if w.files.get(big) == Some(f) { [body, tail].concat() } else { body.to_vec() }
    };
    // a link to a file counts as that file; the files linked to live outside of the tree
    let with_links = s.chance(1, 4);
    let mut links: BTreeMap<String, PathBuf> = BTreeMap::new();
    for f in &w.files {
        if with_links && s.chance(1, 4) {
            let to = sc.dir.join(format!("real/{}", links.len()));
            put(&to, &text_of(f, body));
            symlink(&to, r.join(f)).unwrap();
            links.insert(f.clone(), to);
        } else {
            put(&r.join(f), &text_of(f, body));
        }
    }
    for (p, t) in &text {
        put(&r.join(p), t.as_bytes());
    }
    if s.chance(1, 4) {
        // a link to a directory is not followed
        let _ = symlink(&r, r.join("lnk"));
    }
    // from where, and how it is given
    let outside = s.chance(1, 4);
    let cwd = if outside {
        let c = sc.dir.join("else");
        std::fs::create_dir_all(&c).unwrap();
        if s.chance(2, 3) {
            let t = pat_file(s, true);
            w.cwd_pats = Some(parse_pats(&t));
            put(&c.join(".ludtwig-ignore"), t.as_bytes());
            text.insert("(working directory)/.ludtwig-ignore".into(), t);
        }
        c
    } else {
        r.clone()
    };
    let mut given: Vec<String> = vec![];
    if s.chance(1, 3) {
        given.push(String::new());
    } else {
        // paths that do not overlap
        let n = s.range(1, 4);
        for _ in 0..n {
            let pool: Vec<String> = w.dirs.iter().skip(1).chain(&w.files).filter(|x| !given.iter().any(|g| x.starts_with(g.as_str()) || g.starts_with(x.as_str()))).cloned().collect();
            if pool.is_empty() {
                break;
            }
            given.push(pool[s.idx(pool.len())].clone());
        }
        if given.is_empty() {
            given.push(String::new());
        }
    }
    let absolute = s.chance(1, 3);
    let as_arg = |g: &String| -> String {
        let g = g.trim_end_matches('/');
        if absolute {
            r.join(g).display().to_string()
        } else if outside {
            format!("../r/{g}")
        } else if g.is_empty() {
            ".".into()
        } else {
            g.to_owned()
        }
    };
    let mut want: Vec<String> = vec![];
    for g in &given {
        if w.files.contains(g) {
            want.push(g.clone());
        } else {
            w.walk(g, &mut want);
        }
    }
    want.sort();
    let cfg = Cfg::with(&["twig-logic-and"]);
    put(&sc.dir.join("cfg.toml"), cfg.toml(version(env)).as_bytes());
    let mut args: Vec<String> = vec!["-c".into(), sc.dir.join("cfg.toml").display().to_string()];
    args.extend(given.iter().map(as_arg));
    let sample = format!(
        "files {:?}\nlinks among them {:?}\nrepositories {:?}\nignore files {text:?}\ngiven {given:?} outside {outside} absolute {absolute}",
        w.files,
        links.keys().collect::<Vec<_>>(),
        w.git
    );
    let rel = |p: &str| -> String {
        let p = p.strip_prefix("./").unwrap_or(p);
        let p = p.strip_prefix("../r/").unwrap_or(p);
        p.strip_prefix(&format!("{}/", r.display())).unwrap_or(p).to_owned()
    };
    let before = snapshot(&sc.dir.join("r"));
    let d = go(env, &cwd, &sc.dir.join("io"), &strs(&args), &[]);
    if let Some(m) = d.abnormal() {
        return Out::fail(&sample, m);
    }
    if !d.fatal().is_empty() {
        return Out::fail(&sample, format!("{:?}", d.fatal()));
    }
    let mut got: Vec<String> = d.p.diags.iter().map(|x| rel(&x.0)).collect();
    got.sort();
    if got != want {
        let a: Vec<&String> = want.iter().filter(|x| !got.contains(x)).collect();
        let b: Vec<&String> = got.iter().filter(|x| !want.contains(x)).collect();
        return Out::fail(&sample, format!("not scanned: {a:?}, wrongly scanned: {b:?} (all: {got:?})"));
    }
    if d.p.summary.as_ref().is_none_or(|x| x.files != want.len() as u64) {
        return Out::fail(&sample, format!("{} files selected, summary {:?}", want.len(), d.p.summary));
    }
    if let Some(m) = diff_snap(&before, &snapshot(&r)) {
        return Out::fail(&sample, format!("without --fix, {m}"));
    }
    let linked = |fixed: bool| {
        links.iter().find_map(|(f, to)| {
            let exp = text_of(f, if fixed && want.contains(f) { b"{{ a and b }}\n" } else { body });
            (std::fs::read(to).ok().as_deref() != Some(&exp)).then(|| format!("the file {f} links to has another content than expected"))
        })
    };
    if let Some(m) = linked(false) {
        return Out::fail(&sample, format!("without --fix, {m}"));
    }
    args.insert(0, "-f".into());
    let d = go(env, &cwd, &sc.dir.join("io"), &strs(&args), &[]);
    if let Some(m) = d.abnormal() {
        return Out::fail(&sample, m);
    }
    let mut exp = before.clone();
    for f in want.iter().filter(|f| !links.contains_key(*f)) {
        exp.insert(f.clone(), Ent::File(text_of(f, b"{{ a and b }}\n")));
    }
    if let Some(m) = linked(true) {
        return Out::fail(&sample, format!("with --fix: {m}"));
    }
    if let Some(m) = diff_snap(&exp, &snapshot(&r)) {
        return Out::fail(&sample, format!("with --fix: {m} (against the expected outcome)"));
    }
    Out::ok(!want.is_empty() && want.len() < w.files.len(), &sample)
}

// ------------------------------------------------------------------ C06
/// an account without privileges to run the program as
fn nobody(env: &Env) -> Option<PathBuf> {
    static N: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        use std::os::unix::process::CommandExt;
        let b = env.scratch.join("ludtwig");
        std::fs::create_dir_all(&env.scratch).ok()?;
        std::fs::copy(&env.bin, &b).ok()?;
        std::fs::set_permissions(&b, std::fs::Permissions::from_mode(0o755)).ok()?;
        let o = std::process::Command::new(&b).arg("--version").uid(65534).gid(65534).env_clear().output().ok()?;
        o.status.success().then_some(b)
    })
    .clone()
}
fn chown(p: &Path) {
    let _ = std::os::unix::fs::lchown(p, Some(65534), Some(65534));
}
fn chown_all(root: &Path) {
    chown(root);
    if let Ok(rd) = std::fs::read_dir(root) {
        for e in rd.flatten() {
            if e.file_type().is_ok_and(|t| t.is_dir()) {
                chown_all(&e.path());
            } else {
                chown(&e.path());
            }
        }
    }
}
fn go_nobody(bin: &Path, cwd: &Path, io: &Path, args: &[&str], pre: &str) -> Done {
    use std::os::unix::process::CommandExt;
    std::fs::create_dir_all(io).unwrap();
    let (po, pe) = (io.join("stdout"), io.join("stderr"));
    let mut c = std::process::Command::new("/bin/sh");
    c.arg("-c").arg(format!("{pre} exec \"$0\" \"$@\"")).arg(bin).args(args);
    c.current_dir(cwd).env_clear().env("NO_COLOR", "1").env("HOME", "/nonexistent").env("PATH", "/usr/bin:/bin").env("RAYON_NUM_THREADS", "2");
    c.stdin(std::process::Stdio::null()).stdout(std::fs::File::create(&po).unwrap()).stderr(std::fs::File::create(&pe).unwrap());
    c.uid(65534).gid(65534);
    let mut ch = c.spawn().expect("start the program as nobody");
    let t0 = std::time::Instant::now();
    let (mut timeout, mut code) = (false, None);
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            code = st.code();
            break;
        }
        if t0.elapsed() > Duration::from_secs(15) {
            let _ = ch.kill();
            let _ = ch.wait();
            timeout = true;
            break;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
    let rd = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let raw = Raw { code, out: rd(&po), err: rd(&pe), timeout };
    let p = parse_output(&raw);
    Done { code: code.unwrap_or(-1), raw, p }
}

fn c06(env: &Env, s: &mut Src) -> Out {
    let sc = scratch(env);
    let c = random_cfg(s);
    let user = nobody(env);
    let fix = s.chance(1, 2);
    let n = s.range(1, 7) as usize;
    let mut good: Vec<(String, Vec<u8>)> = vec![];
    let mut bad: Vec<(String, usize, Vec<u8>)> = vec![];
    for k in 0..n {
        let name = format!("{}{k}.twig", s.pick(&["", "a/", "a/b/", "c d/"]));
        if s.chance(1, 2) && bad.len() < 4 {
            let kind = s.idx(if user.is_some() { 7 } else { 4 });
            let t = match kind {
                0 => NOT_UTF8[s.idx(NOT_UTF8.len())].to_vec(),
                // has something to fix under every configuration with the rule in question
                6 => b"{{ a && b }}\n".to_vec(),
                _ => any_content(s),
            };
            bad.push((name, kind, t));
        } else {
            good.push((name, any_content(s)));
        }
    }
    let mut c = c;
    if bad.iter().any(|b| b.1 == 6) && !c.has("twig-logic-and") {
        c.rules.push("twig-logic-and".into());
    }
    let explicit = s.chance(1, 3);
    let kinds = ["not UTF-8", "dangling link", "link to itself", "link to a directory", "no permission to read", "directory without permission", "read-only"];
    let mut sample = format!("fix {fix} explicit {explicit}\n");
    for (p, k, t) in &bad {
        sample.push_str(&format!("--- {p}: {}\n{}\n", kinds[*k], String::from_utf8_lossy(t)));
    }
    for (p, t) in &good {
        sample.push_str(&format!("--- {p}\n{}\n", String::from_utf8_lossy(t)));
    }
    sample.push_str(&format!("--- configuration ---\n{}", c.toml("x")));
    let mut res = vec![];
    let mut faults = 0u64;
    let mut named: Vec<String> = vec![];
    let mut kept: Vec<(PathBuf, Vec<u8>)> = vec![];
    for with_bad in [false, true] {
        let cwd = sc.dir.join(if with_bad { "bad" } else { "good" });
        let root = cwd.join("t");
        std::fs::create_dir_all(&root).unwrap();
        put(&cwd.join("cfg.toml"), c.toml(version(env)).as_bytes());
        let mut paths: Vec<String> = vec![];
        for (p, t) in &good {
            put(&root.join(p), t);
            paths.push(format!("t/{p}"));
        }
        let mut modes: Vec<(PathBuf, u32)> = vec![];
        if with_bad {
            for (p, kind, t) in &bad {
                let f = root.join(p);
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                let mut name = format!("t/{p}");
                match kind {
                    0 => put(&f, t),
                    1 => symlink("nowhere.twig", &f).unwrap(),
                    2 => symlink(f.file_name().unwrap(), &f).unwrap(),
                    3 => {
                        // (an explicitly given link would be followed: into a directory of our own)
                        std::fs::create_dir_all(sc.dir.join("bare")).unwrap();
                        symlink(sc.dir.join("bare"), &f).unwrap();
                    }
                    4 => {
                        put(&f, t);
                        modes.push((f.clone(), 0));
                    }
                    5 => {
                        let d = root.join(format!("{p}.d"));
                        put(&d.join("x.twig"), t);
                        modes.push((d.clone(), 0));
                        kept.push((d.join("x.twig"), t.clone()));
                        name = format!("t/{p}.d");
                    }
                    _ => {
                        put(&f, t);
                        modes.push((f.clone(), 0o444));
                    }
                }
                if matches!(kind, 0 | 4 | 6) {
                    kept.push((f.clone(), t.clone()));
                }
                // without --fix nothing is wrong with a file that cannot be written
                if (*kind != 6 || fix) && (*kind != 3 || !explicit) {
                    faults += 1;
                    named.push(name.clone());
                }
                paths.push(name);
            }
        }
        let mut args: Vec<String> = vec!["-c".into(), "cfg.toml".into()];
        if fix {
            args.push("--fix".into());
        }
        if explicit && !paths.is_empty() {
            args.extend(paths);
        } else {
            args.push("t".into());
        }
        let io = sc.dir.join("io");
        let d = if let Some(b) = &user {
            chown_all(&cwd);
            for (p, m) in &modes {
                std::fs::set_permissions(p, std::fs::Permissions::from_mode(*m)).unwrap();
            }
            let d = go_nobody(b, &cwd, &io, &strs(&args), "");
            for (p, _) in &modes {
                std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).unwrap();
            }
            d
        } else {
            go(env, &cwd, &io, &strs(&args), &[])
        };
        if let Some(m) = d.abnormal() {
            return Out::fail(&sample, m);
        }
        res.push(d);
    }
    let gave_up = |d: &Done| d.p.other.iter().filter(|l| l.starts_with("Error: max suggestion")).count() as u64;
    let (a, b) = (&res[0], &res[1]);
    let ok = |p: &str| bad.iter().any(|x| x.1 == 6 && !fix && p == format!("t/{}", x.0));
    let mut with: Vec<(String, Diag)> = b.by_path();
    with.retain(|x| !ok(&x.0));
    if with != a.by_path() {
        let x: Vec<String> = a.by_path().iter().filter(|x| !with.contains(x)).map(|x| format!("{} {}", x.0, x.1.show())).collect();
        let y: Vec<String> = with.iter().filter(|x| !a.by_path().contains(x)).map(|x| format!("{} {}", x.0, x.1.show())).collect();
        return Out::fail(&sample, format!("only without the faulty files: {x:?}, only with them: {y:?}"));
    }
    if gave_up(a) != gave_up(b) {
        return Out::fail(&sample, "a good file is given up only together with faulty ones");
    }
    for (p, _) in &good {
        let (x, y) = (std::fs::read(sc.dir.join("good/t").join(p)), std::fs::read(sc.dir.join("bad/t").join(p)));
        if x.is_err() || x.ok() != y.ok() {
            return Out::fail(&sample, format!("{p} ends up differently next to faulty files"));
        }
    }
    for (p, t) in &kept {
        if std::fs::read(p).ok().as_ref() != Some(t) {
            return Out::fail(&sample, format!("{} was changed", p.display()));
        }
    }
    let errs: Vec<&String> = b.fatal().into_iter().filter(|l| !l.starts_with("Error: max suggestion")).collect();
    for p in &named {
        if !errs.iter().any(|l| l.contains(p.as_str())) {
            return Out::fail(&sample, format!("no error names {p}: {errs:?}"));
        }
    }
    if errs.len() as u64 != faults {
        return Out::fail(&sample, format!("{faults} faulty files, but: {errs:?}"));
    }
    if let Some(m) = b.summary_wrong(faults + gave_up(b)) {
        return Out::fail(&sample, m);
    }
    if faults > 0 && b.code != 1 {
        return Out::fail(&sample, "exit code 0 in spite of a faulty file");
    }
    Out::ok(faults > 0 && !good.is_empty(), &sample)
}

/// The file cannot be written completely (limit of the file size).
/// Known finding: what is left is the beginning of the fixed text.
fn c06_partial(env: &Env, s: &mut Src) -> Out {
    let Some(user) = nobody(env) else { return Out::skip() };
    let sc = scratch(env);
    let cwd = sc.dir.join("w");
    // blocks of 512 bytes
    let blocks = s.range(20, 40) as usize;
    let limit = blocks * 512;
    let line = ["{{ a && b }}\n", "{{ a|b && c }} x\n", "<p>{{ a && b }}</p>\n"][s.idx(3)];
    let big = s.chance(1, 2);
    let reps = if big { limit / line.len() + s.range(2, 60) as usize } else { s.range(1, 30) as usize };
    let text = line.repeat(reps);
    let fixed = text.replace("&&", "and");
    let other = "{{ x && y }}\n";
    put(&cwd.join("big.twig"), text.as_bytes());
    put(&cwd.join("good.twig"), other.as_bytes());
    put(&cwd.join("cfg.toml"), Cfg::with(&["twig-logic-and"]).toml(version(env)).as_bytes());
    chown_all(&cwd);
    let args = ["-c", "cfg.toml", "-f", "good.twig", "big.twig"];
    let d = go_nobody(&user, &cwd, &sc.dir.join("io"), &args, &format!("trap '' XFSZ; ulimit -f {blocks};"));
    let sample = format!("file size limit {limit}; {reps} times {line:?} ({} bytes fixed)", fixed.len());
    if let Some(m) = d.abnormal() {
        return Out::fail(&sample, m);
    }
    let after = std::fs::read(cwd.join("big.twig")).unwrap_or_default();
    if std::fs::read(cwd.join("good.twig")).unwrap_or_default() != b"{{ x and y }}\n" {
        return Out::fail(&sample, "the other file was not fixed");
    }
    if fixed.len() <= limit {
        if after != fixed.as_bytes() || d.code != 0 || !d.fatal().is_empty() {
            return Out::fail(&sample, format!("a file that fits is not fixed: {:?}", d.fatal()));
        }
        return Out::ok(false, &sample);
    }
    if !d.fatal().iter().any(|l| l.contains("big.twig")) || d.code != 1 {
        return Out::fail(&sample, format!("the failed write is not reported: {:?}, exit code {}", d.fatal(), d.code));
    }
    if let Some(m) = d.summary_wrong(1) {
        return Out::fail(&sample, m);
    }
    if after == text.as_bytes() {
        return Out::ok(true, &sample);
    }
    if after == fixed.as_bytes()[..limit] && listed(env, "C06", "partial-write") {
        return Out { known: 1, ..Out::ok(true, &sample) };
    }
    Out::fail(&sample, format!("the file holds something else after the failed write ({} bytes)", after.len()))
}

// ------------------------------------------------------------------ L01, seen from outside
/// Whatever the options and the configuration, a run without --fix leaves a whole tree of files alone.
pub fn l01_outside(env: &Env, s: &mut Src) -> Out {
    let sc = scratch(env);
    let cwd = sc.dir.join("cwd");
    std::fs::create_dir_all(cwd.join("t")).unwrap();
    let c = random_cfg(s);
    let n = s.range(0, 6);
    let mut sample = String::new();
    for k in 0..n {
        let t = if s.chance(1, 12) { NOT_UTF8[s.idx(NOT_UTF8.len())].to_vec() } else { any_content(s) };
        let name = format!("{}{k}{}", s.pick(&["", "t/", "t/u/", "o/"]), s.pick(&[".twig", ".html", ".twig.bak", ".txt"]));
        sample.push_str(&format!("--- {name}\n{}\n", String::from_utf8_lossy(&t)));
        put(&cwd.join(&name), &t);
    }
    let mut args: Vec<String> = vec![];
    let mut envs: Vec<(String, String)> = vec![];
    match s.idx(5) {
        0 => {}
        1 => put(&cwd.join("ludtwig-config.toml"), c.toml(version(env)).as_bytes()),
        2 => {
            put(&cwd.join("t/cfg.toml"), c.toml(version(env)).as_bytes());
            args.extend(["-c".into(), "t/cfg.toml".into()]);
        }
        3 => args.extend(["-c".into(), "t/missing.toml".into()]),
        _ => put(&cwd.join("ludtwig-config.toml"), s.pick(&["", "version = 1", "[general", "[general]\nactive-rules = [\"x\"]", "version = \"0.0.1\"\n"]).as_bytes()),
    }
    if s.chance(1, 6) {
        envs.push(("LUDTWIG_FORMAT.LINE_ENDING".into(), s.pick(&["windows_CRLF", "nope"]).into()));
    }
    for o in [&["-v"][..], &["-i"], &["--verbose"], &["--inspect"]] {
        if s.chance(1, 4) && !(o[0].ends_with("verbose") && args.iter().any(|a| a == "-v")) && !(o[0].ends_with("inspect") && args.iter().any(|a| a == "-i")) {
            args.insert(0, o[0].into());
        }
    }
    args.push(s.pick(&["t", ".", "t/0.twig", "o", "nowhere"]).into());
    let sample = format!("{args:?} {envs:?}\n{sample}--- configuration ---\n{}", c.toml("x"));
    let before = snapshot(&cwd);
    let mut seen = vec![];
    for _ in 0..2 {
        let d = go(env, &cwd, &sc.dir.join("io"), &strs(&args), &envs);
        if d.raw.timeout || !matches!(d.code, 0 | 1) {
            return Out::fail(&sample, format!("abnormal end: {}", tail(&d.raw.err)));
        }
        if let Some(m) = diff_snap(&before, &snapshot(&cwd)) {
            return Out::fail(&sample, format!("a run without --fix: {m}"));
        }
        let mut l: Vec<(String, Diag)> = d.by_path();
        l.sort();
        seen.push((l, d.code));
    }
    if seen[0] != seen[1] {
        return Out::fail(&sample, "the second run reports something else");
    }
    Out::ok(!seen[0].0.is_empty(), &sample)
}

// ------------------------------------------------------------------ C07
fn c07(env: &Env, s: &mut Src) -> Out {
    let sc = scratch(env);
    let c = random_cfg(s);
    let n = s.range(1, 5) as usize;
    let texts: Vec<Vec<u8>> = (0..n).map(|_| any_content(s)).collect();
    let fix = s.chance(1, 2);
    let opts: &[&str] = [&["-i"][..], &["-v"], &["-i", "-v"], &["--inspect"], &["--verbose"]][s.idx(5)];
    let mut sample = format!("fix {fix} options {opts:?}\n");
    for t in &texts {
        sample.push_str(&format!("---\n{}\n", String::from_utf8_lossy(t)));
    }
    sample.push_str(&format!("--- configuration ---\n{}", c.toml("x")));
    // where the settings come from
    let source = s.weighted(&[4, 1, 1, 1]);
    let mut envs: Vec<(String, String)> = vec![];
    if source > 1 {
        for i in 0..KEYS.len() {
            if s.chance(1, 4) {
                let v = key_value(s, i);
                envs.push((env_name(&KEYS[i]), env_spelling(s, &v)));
            }
        }
        sample.push_str(&format!("environment {envs:?}\n"));
    }
    let mut res = vec![];
    for o in [&[][..], opts] {
        let cwd = sc.dir.join(format!("o{}", res.len()));
        if source != 2 {
            put(&cwd.join(if source == 3 { "ludtwig-config.toml" } else { "cfg.toml" }), c.toml(version(env)).as_bytes());
        }
        for (k, t) in texts.iter().enumerate() {
            put(&cwd.join(format!("w/{k}.twig")), t);
        }
        let mut a = if source < 2 { vec!["-c", "cfg.toml"] } else { vec![] };
        if fix {
            a.push("-f");
        }
        a.extend(o);
        a.push("w");
        let d = go(env, &cwd, &sc.dir.join("io"), &a, &envs);
        if let Some(m) = d.abnormal() {
            return Out::fail(&sample, m);
        }
        res.push((d, snapshot(&cwd)));
    }
    let ((a, sa), (b, sb)) = (&res[0], &res[1]);
    // only errors and warnings have to agree: the tree is printed as notes or lines of its own
    let strip = |d: &Done| -> Vec<(String, Diag)> { d.by_path().into_iter().filter(|x| x.1.rule != "Debug" && !x.1.body.contains("ROOT@0")).collect() };
    if strip(a) != strip(b) {
        return Out::fail(&sample, "the diagnostics differ");
    }
    if a.code != b.code {
        return Out::fail(&sample, format!("exit code {} and {}", a.code, b.code));
    }
    let (Some(x), Some(y)) = (&a.p.summary, &b.p.summary) else { return Out::fail(&sample, "no summary") };
    if (x.files, x.errors, x.warnings, x.helps) != (y.files, y.errors, y.warnings, y.helps) {
        return Out::fail(&sample, format!("the summaries {x:?} and {y:?} differ"));
    }
    let sorted = |v: &[(String, u32)]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    if sorted(&a.p.fixed) != sorted(&b.p.fixed) {
        return Out::fail(&sample, "other files are said to be fixed");
    }
    let other = |d: &Done| {
        let mut v = d.p.other.clone();
        v.sort();
        v
    };
    if other(a) != other(b) {
        return Out::fail(&sample, format!("other messages: {:?} and {:?}", other(a), other(b)));
    }
    if let Some(m) = diff_snap(sa, sb) {
        return Out::fail(&sample, m);
    }
    Out::ok(!a.p.diags.is_empty(), &sample)
}

// ------------------------------------------------------------------ C08
/// the printed form of a syntax tree, as documented by `debug_tree` of the parser
fn tree_text(root: &ludtwig_parser::syntax::untyped::SyntaxNode) -> String {
    fn walk(e: &ludtwig_parser::syntax::untyped::SyntaxElement, depth: usize, at: &mut usize, out: &mut String) {
        use std::fmt::Write;
        out.push_str(&"  ".repeat(depth));
        let start = *at;
        match e {
            ludtwig_parser::syntax::untyped::SyntaxElement::Node(n) => {
                let len: usize = n.descendants_with_tokens().filter_map(|x| x.into_token().map(|t| t.text().len())).sum();
                writeln!(out, "{:?}@{start}..{}", n.kind(), start + len).unwrap();
                for c in n.children_with_tokens() {
                    walk(&c, depth + 1, at, out);
                }
            }
            ludtwig_parser::syntax::untyped::SyntaxElement::Token(t) => {
                let x = t.text();
                *at += x.len();
                let cut = if x.len() < 25 {
                    x.to_owned()
                } else {
                    let i = (21..25).find(|i| x.is_char_boundary(*i)).unwrap();
                    format!("{} ...", &x[..i])
                };
                writeln!(out, "{:?}@{start}..{} {cut:?}", t.kind(), *at).unwrap();
            }
        }
    }
    let (mut out, mut at) = (String::new(), 0);
    walk(&ludtwig_parser::syntax::untyped::SyntaxElement::Node(root.clone()), 0, &mut at, &mut out);
    out
}

fn c08(env: &Env, s: &mut Src) -> Out {
    let sc = scratch(env);
    let mut c = random_cfg(s);
    if s.chance(1, 4) {
        c.rules = vec![];
    }
    let n = s.range(1, 4) as usize;
    let mut texts: Vec<String> = (0..n).map(|_| any_content(s)).filter_map(|t| String::from_utf8(t).ok()).collect();
    for t in &mut texts {
        if s.chance(1, 3) {
            // directives do not hide syntax errors
            let d = ["{# ludtwig-ignore-file #}", "<!-- ludtwig-ignore-file -->", "{# ludtwig-ignore #}", "<!-- ludtwig-ignore twig-logic-and -->", "{# ludtwig-ignore-file indentation, twig-logic-and #}"][s.idx(5)];
            t.insert_str(0, &format!("{d}{}", s.pick(&["", "\n", " ", "\r\n"])));
        }
    }
    let inspect = s.chance(3, 4);
    let mut sample = format!("inspect {inspect}\n");
    for t in &texts {
        sample.push_str(&format!("---\n{t}\n"));
    }
    sample.push_str(&format!("--- configuration ---\n{}", c.toml("x")));
    let cwd = sc.dir.join("w");
    put(&cwd.join("cfg.toml"), c.toml(version(env)).as_bytes());
    for (k, t) in texts.iter().enumerate() {
        put(&cwd.join(format!("t/{k}.twig")), t.as_bytes());
    }
    let mut a = vec!["-c", "cfg.toml"];
    if inspect {
        a.push(s.pick(&["-i", "--inspect"]));
    }
    a.push("t");
    let d = go(env, &cwd, &sc.dir.join("io"), &a, &[]);
    if let Some(m) = d.abnormal() {
        return Out::fail(&sample, m);
    }
    let (mut trees, mut bad) = (vec![], false);
    for (k, t) in texts.iter().enumerate() {
        let (root, errs) = ludtwig_parser::parse(t).split();
        let exp: Vec<(usize, usize, String)> = errs
            .iter()
            .map(|e| {
                let (l, c) = crate::tree::line_col(t, usize::from(e.range.start()));
                (l, c, e.expected_message())
            })
            .collect();
        bad |= !exp.is_empty();
        let path = format!("t/{k}.twig");
        let got: Vec<&Diag> = d.p.diags.iter().filter(|x| x.1.rule == "SyntaxError" && x.0 == path).map(|x| &x.1).collect();
        if got.len() != exp.len() {
            return Out::fail(&sample, format!("{path}: {} syntax errors are printed, the parser has {}: {exp:?}", got.len(), exp.len()));
        }
        for (g, e) in got.iter().zip(&exp) {
            if (g.line, g.col) != (e.0, e.1) || g.sev != "error" || !g.body.lines().any(|l| l.ends_with(e.2.trim_end())) {
                return Out::fail(&sample, format!("{path}: expected the syntax error {e:?}, found {}\n{}", g.show(), g.body));
            }
        }
        for (g, e) in got.iter().zip(&errs) {
            let (a, b) = (usize::from(e.range.start()), usize::from(e.range.end()));
            let from = t[..a].rfind('\n').map_or(0, |x| x + 1);
            let to = t[b..].find('\n').map_or(t.len(), |x| b + x);
            if t[from..to].bytes().all(|x| (b' '..127).contains(&x)) {
                let marks = g.body.lines().filter(|l| l.ends_with(&*e.expected_message())).filter_map(|l| l.strip_suffix(&*e.expected_message())).map(|l| l.chars().filter(|c| *c == '^').count()).max();
                if marks != Some((b - a).max(1)) {
                    return Out::fail(&sample, format!("{path}: bytes {a}..{b} should be marked by the syntax error, found {}\n{}", g.show(), g.body));
                }
            }
        }
        trees.push(tree_text(&root));
    }
    let mut got: Vec<String> = d.p.diags.iter().filter(|x| x.1.rule == "SyntaxTree").map(|x| x.1.body.clone()).collect();
    let mut exp: Vec<String> = if inspect { trees.iter().map(|t| format!(" = {}", t.trim_end().replace('\n', "\n   "))).collect() } else { vec![] };
    got.sort();
    exp.sort();
    if got != exp {
        let (g, e) = (got.iter().find(|x| !exp.contains(x)), exp.iter().find(|x| !got.contains(x)));
        return Out::fail(&sample, format!("other syntax trees are printed: expected {} of them, found {}\nexpected\n{}\nfound\n{}", exp.len(), got.len(), e.map_or("", |x| x), g.map_or("", |x| x)));
    }
    Out::ok(bad || (inspect && texts.iter().any(|t| t.len() > 20)), &sample)
}

pub fn run(env: &Env, prop: &str, rp: Option<&Replay>) -> Option<Report> {
    let _ = version(env);
    let one = |rule: &str, n: u64, f: &(dyn Fn(&Env, &mut Src) -> Out + Sync)| {
        let mut rep = Report::new(rule);
        let g = |s: &mut Src| f(env, s);
        part(env, &mut rep, prop, "runs", n, rp, &g);
        rep
    };
    Some(match prop {
        "C01" => one("random configuration file and environment against one complete file with the effective values; non-trivial: keys come from different layers, or an invalid value", 6000, &c01),
        "C02" => one("creating the configuration at various places, then runs with and without it; non-trivial: the path could be written or exists already", 10_000, &c02),
        "C03" => one("random sets of files, exit code and summary against the printed diagnostics; non-trivial: something is reported", 12_000, &c03),
        "C04" => one("every file alone against two runs over all of them in other places, order, thread number; non-trivial: more than one file with diagnostics", 2500, &c04),
        "C05" => one("random directory trees with ignore files against a reference walk, lint and fix; non-trivial: some but not all files are selected", 10_000, &c05),
        "C06" => {
            let mut rep = Report::new("files that cannot be read or written between good ones against a run without them; non-trivial: faulty and good files");
            part(env, &mut rep, prop, "faulty", 6000, rp, &|s: &mut Src| c06(env, s));
            part(env, &mut rep, prop, "partial", 300, rp, &|s: &mut Src| c06_partial(env, s));
            if rep.stats.known > 0 {
                rep.known_lines.push("a write that fails half-way under --fix leaves only the beginning of the fixed text in the file (file size limit, full disk)".into());
            }
            if nobody(env).is_none() {
                rep.assumptions.push("no unprivileged account could be used: permission faults were not exercised in this run".into());
            }
            rep
        }
        "C07" => one("the same run with and without -v / -i; non-trivial: something is reported", 5000, &c07),
        "C08" => one("printed syntax errors and trees against those of the parser; non-trivial: a syntax error, or a tree of a text of more than 20 bytes", 9000, &c08),
        _ => return None,
    })
}
