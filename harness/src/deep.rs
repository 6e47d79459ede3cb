//! Deeply nested templates (P01, L18): the same few constructs inside of each other, many times.
use crate::cli::*;
use crate::lint2::full_cfg;
use crate::parse::parse;
use crate::runner::*;
use crate::tape::*;
use std::time::Duration;

/// opening and closing text of constructs that hold nodes
const NODES: &[(&str, &str)] = &[
    ("<div>", "</div>"),
    ("<p class=\"a {{ b }}\">", "</p>"),
    ("<a {% if a %}b{% endif %}>", "</a>"),
    ("<twig:Alert>", "</twig:Alert>"),
    ("{% block b# %}", "{% endblock %}"),
    ("{% if a %}", "{% endif %}"),
    ("{% if a %}b{% else %}", "{% endif %}"),
    ("{% for a in b %}", "{% endfor %}"),
    ("{% set a %}", "{% endset %}"),
    ("{% apply upper %}", "{% endapply %}"),
    ("{% autoescape %}", "{% endautoescape %}"),
    ("{% with a %}", "{% endwith %}"),
    ("{% sandbox %}", "{% endsandbox %}"),
    ("{% embed 'a' %}{% block b# %}", "{% endblock %}{% endembed %}"),
    ("{% macro a() %}", "{% endmacro %}"),
    ("{% cache 'a' %}", "{% endcache %}"),
    ("{% sw_silent_feature_call 'a' %}", "{% endsw_silent_feature_call %}"),
];
/// the same for expressions
const EXPRS: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]"),
    ("[1, ", ", 2]"),
    ("{'a': ", " }"),
    ("f(", ")"),
    ("a[", "]"),
    ("\"#{", "}\""),
    ("not ", ""),
    ("- ", ""),
    ("a ? ", " : b"),
    ("a ? b : ", ""),
    ("a ** ", ""),
    ("a ?? ", ""),
    ("", ".b"),
    ("", "|f"),
    ("", "|f(1)"),
    ("", "[0]"),
    ("", " + a"),
    ("", " ~ 'x'"),
    ("a and (", ")"),
    ("", " is defined and b"),
];
pub struct Deep {
    pub text: String,
    /// the text up to which everything is closed again
    pub valid: bool,
    pub sample: String,
}
fn nest(s: &mut Src, table: &[(&str, &str)], depth: usize, inner: String, sep: &str, close: usize) -> (String, String) {
    let kinds: Vec<usize> = (0..s.range(1, 3)).map(|_| s.idx(table.len())).collect();
    let mut t = String::new();
    for k in 0..depth {
        t.push_str(&table[kinds[k % kinds.len()]].0.replace('#', &format!("{k}")));
        t.push_str(sep);
    }
    t.push_str(&inner);
    for k in (depth - close..depth).rev() {
        t.push_str(sep);
        t.push_str(table[kinds[k % kinds.len()]].1);
    }
    (t, format!("{:?}", kinds.iter().map(|k| table[*k]).collect::<Vec<_>>()))
}
/// one kind only: mixed up constructs are not always an expression
fn nest_expr(s: &mut Src, depth: usize, close: usize) -> (String, String) {
    let k = s.idx(EXPRS.len());
    let (a, b) = EXPRS[k];
    (format!("{}a{}", a.repeat(depth), b.repeat(close)), format!("{:?}", EXPRS[k]))
}
pub fn deep(s: &mut Src, max: u32, sep: &str) -> Deep {
    let damaged = s.chance(1, 3);
    let size = |s: &mut Src| -> usize { (if s.chance(1, 2) { s.range(1, max) } else { s.range(max / 2, max) }) as usize };
    let (mut text, mut what) = ("x".to_owned(), String::new());
    let mode = s.idx(3);
    let mut valid = true;
    if mode != 0 {
        let n = size(s);
        let close = if damaged { s.range(0, n as u32) as usize } else { n };
        let (t, w) = nest_expr(s, n, close);
        valid &= close == n;
        text = format!("{{{{ {t} }}}}");
        what = format!("{n} times {w}, closed {close} times");
    }
    if mode != 1 {
        let n = size(s);
        let close = if damaged { s.range(0, n as u32) as usize } else { n };
        let (t, w) = nest(s, NODES, n, text, sep, close);
        valid &= close == n;
        text = t;
        what.push_str(&format!(" inside of {n} times {w}, closed {close} times"));
    }
    let sample = format!("{what}\n{}", if text.len() > 3000 { "(long text)".to_owned() } else { text.clone() });
    Deep { text, valid, sample }
}

pub fn p01(s: &mut Src) -> Out {
    let sep = s.pick(&["\n", ""]);
    let d = deep(s, 1500, sep);
    let p = parse(&d.text);
    if p.tree.text != d.text {
        return Out::fail(&d.sample, "tree text differs from the input");
    }
    if d.valid && !p.errors.is_empty() {
        return Out::fail(&d.sample, format!("the nested constructs are all closed, but the parser reports {:?}", p.errors[0]));
    }
    Out::ok(true, &d.sample)
}

fn run_on(env: &Env, text: &str, cfg: &Cfg, fix: bool, limit: u64) -> Raw {
    let sc = scratch(env);
    std::fs::write(sc.dir.join("cfg.toml"), cfg.toml(version(env))).unwrap();
    std::fs::write(sc.dir.join("a.html.twig"), text).unwrap();
    std::fs::create_dir_all(sc.dir.join("io")).unwrap();
    let mut a = vec!["-c", "cfg.toml", "a.html.twig"];
    if fix {
        a.push("-f");
    }
    exec(env, &sc.dir, &sc.dir.join("io"), &a, &[], Duration::from_secs(limit))
}

pub fn l18(env: &Env, s: &mut Src) -> Out {
    let d = deep(s, 150, "\n");
    let cfg = full_cfg(s);
    for fix in [false, true] {
        let r = run_on(env, &d.text, &cfg, fix, 60);
        let p = parse_output(&r);
        if r.timeout || !matches!(r.code, Some(0 | 1)) {
            return Out::fail(&d.sample, format!("fix {fix}: {}", if r.timeout { "the program did not end".into() } else { format!("exit status {:?}: {}", r.code, r.err.chars().take(300).collect::<String>()) }));
        }
        if p.summary.is_none_or(|x| x.files != 1) {
            return Out::fail(&d.sample, "the file is not accounted for in the summary");
        }
    }
    Out::ok(true, &d.sample)
}

/// far deeper than any template: the recursive parser overflows its stack (known finding)
pub fn overflow(env: &Env, prop: &str, s: &mut Src) -> Out {
    let table: Vec<(&str, &str)> = NODES.iter().take(6).map(|x| (x.0, x.1)).collect();
    let n = 40_000;
    let text = if s.chance(1, 2) {
        let (a, b) = table[s.idx(table.len())];
        format!("{}{}", a.repeat(n), b.repeat(n))
    } else {
        let (a, b) = EXPRS[s.idx(4)];
        format!("{{{{ {}a{} }}}}", a.repeat(n), b.repeat(n))
    };
    let sample = format!("nested {n} times: {}", text.chars().take(60).collect::<String>());
    let r = run_on(env, &text, &Cfg::with(&[]), false, 60);
    if !r.timeout && matches!(r.code, Some(0 | 1)) {
        return Out::ok(true, &sample);
    }
    if r.err.contains("has overflowed its stack") && listed(env, prop, "deep-nesting") {
        let mut o = Out::ok(true, &sample);
        o.known = 1;
        return o;
    }
    Out::fail(&sample, format!("status {:?} timeout {}: {}", r.code, r.timeout, r.err.chars().take(300).collect::<String>()))
}
