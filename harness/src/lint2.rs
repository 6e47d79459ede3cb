//! Checks over whole runs of the linter: L01..L04, L15..L18 and the command line side of P06.
use crate::ast::*;
use crate::cli::*;
use crate::emit::Style;
use crate::r#gen::*;
use crate::lint::*;
use crate::oracle::{self, Exp, Lines};
use crate::parse::*;
use crate::runner::*;
use crate::tape::Src;
use crate::tree::*;
use std::collections::HashSet;

fn lists(mut c: Cfg, s: &mut Src) -> Cfg {
    match s.idx(3) {
        0 => {}
        1 => {
            c.filters = Some(vec![]);
            c.tests = Some(vec![]);
            c.functions = Some(vec![]);
        }
        _ => {
            c.filters = Some(subset(s, FILTERS));
            c.tests = Some(subset(s, TESTS));
            c.functions = Some(subset(s, FUNCS));
        }
    }
    c
}
pub fn full_cfg(s: &mut Src) -> Cfg {
    let c = random_cfg(s);
    lists(c, s)
}
/// templates of every kind the rules have something to say about
fn some_prof(s: &mut Src) -> Prof {
    let f: [fn(&mut Src) -> Prof; 8] = [base, html_prof, block_prof, name_prof, op_prof, hash_prof, dup_prof, dir_prof];
    f[s.idx(8)](s)
}
fn model(s: &mut Src, dirs: bool) -> Tree {
    let mut p = some_prof(s);
    if !dirs {
        p.dirs = false;
        p.w[5] = 0;
    }
    let doc = gen_doc(s, &p);
    let st = if s.chance(1, 2) { airy(s) } else { Style::random(s) };
    emit(s, &doc, st)
}
fn model_or_any(s: &mut Src) -> String {
    if s.chance(1, 2) { model(s, true).text } else { any_text(s) }
}
/// files of up to 150 KB: a few valid templates again and again, sometimes with a damaged one among
/// them
fn large(s: &mut Src, bad: bool) -> String {
    let parts: Vec<String> = (0..s.range(1, 4)).map(|_| model(s, false).text).collect();
    let target = s.range(5_000, 150_000) as usize;
    let sep = s.pick(&["\n", " ", "\n\n"]);
    let damaged = if bad && s.chance(1, 2) { Some(any_text(s)) } else { None };
    let mut t = String::new();
    let mut i = 0;
    // blank templates do not fill a file
    let want = if parts.iter().all(|p| p.len() < 8) { 400 } else { target };
    while t.len() < want {
        t.push_str(&parts[i % parts.len()]);
        t.push_str(sep);
        i += 1;
        if i == 5 {
            if let Some(d) = &damaged {
                t.push_str(d);
                t.push_str(sep);
            }
        }
    }
    t
}
fn sorted(v: &[Diag]) -> Vec<Diag> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn same_diags(a: &[Diag], b: &[Diag]) -> Option<String> {
    let (a, b) = (sorted(a), sorted(b));
    if a == b {
        return None;
    }
    for x in &a {
        if a.iter().filter(|y| *y == x).count() > b.iter().filter(|y| *y == x).count() {
            return Some(format!("missing in the second: {}\n{}", x.show(), x.body));
        }
    }
    b.iter().find(|x| b.iter().filter(|y| y == x).count() > a.iter().filter(|y| y == x).count()).map(|x| format!("only in the second: {}\n{}", x.show(), x.body))
}

// ------------------------------------------------------------------ L01
struct L01;
impl Spec for L01 {
    type P = Cfg;
    type D = ();
    fn plan(&self, s: &mut Src) -> Cfg {
        full_cfg(s)
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![lint(p, 0), lint(p, 0)]
    }
    fn case(&self, s: &mut Src, _: &Cfg) -> Option<((), Vec<String>)> {
        Some(((), vec![model_or_any(s)]))
    }
    fn judge(&self, _: &Cfg, (): &(), texts: &[String], r: &[FileRes]) -> Out {
        for x in r {
            if x.after != texts[0].as_bytes() {
                return Out::fail(&texts[0], format!("a run without --fix changed the file: {}", diff_text(&texts[0], &x.text()).unwrap_or_default()));
            }
            if x.fixed_in.is_some() {
                return Out::fail(&texts[0], "a run without --fix claims to have fixed the file");
            }
        }
        if let Some(m) = same_diags(&r[0].diags, &r[1].diags) {
            return Out::fail(&texts[0], format!("the second run reports something else: {m}"));
        }
        Out::ok(!r[0].diags.is_empty(), &texts[0])
    }
}

// ------------------------------------------------------------------ L02
struct L02 {
    any: bool,
    large: bool,
}
impl Spec for L02 {
    type P = Cfg;
    type D = ();
    fn plan(&self, s: &mut Src) -> Cfg {
        full_cfg(s)
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![fixrun(p, 0), Run { cfg: p.clone(), fix: false, input: In::After(0) }, Run { cfg: p.clone(), fix: true, input: In::After(0) }]
    }
    fn case(&self, s: &mut Src, _: &Cfg) -> Option<((), Vec<String>)> {
        Some(((), vec![if self.large { large(s, false) } else if self.any { any_text(s) } else { model(s, true).text }]))
    }
    fn max_apply_ok(&self) -> bool {
        self.any
    }
    fn judge(&self, _: &Cfg, (): &(), texts: &[String], r: &[FileRes]) -> Out {
        let t = &texts[0];
        let fail = |m: String| Out::fail(t, format!("{m}\n--- fixed ---\n{}", r[0].text()));
        if r[0].max_apply {
            if parse(t).errors.is_empty() {
                return fail("the fixes of a valid template do not converge".into());
            }
            if r[0].after != t.as_bytes() || r[0].fixed_in.is_some() {
                return fail("the file was changed although processing it ended in an error".into());
            }
            return Out::ok(false, t);
        }
        if (r[0].after != t.as_bytes()) != r[0].fixed_in.is_some() {
            return fail(format!("'fixed' printed: {}, file changed: {}", r[0].fixed_in.is_some(), r[0].after != t.as_bytes()));
        }
        if r[2].after != r[0].after {
            return fail(format!("a second --fix run changes the file again: {}", diff_text(&r[0].text(), &r[2].text()).unwrap_or_default()));
        }
        if r[2].fixed_in.is_some() {
            return fail("a second --fix run claims to have fixed something".into());
        }
        if let Some(m) = same_diags(&r[0].diags, &r[1].diags) {
            return fail(format!("the fix run reports something else than a lint run of its result: {m}"));
        }
        if let Some(m) = same_diags(&r[0].diags, &r[2].diags) {
            return fail(format!("the second fix run reports something else: {m}"));
        }
        // what is left has no fix: labels of fixes are only printed for those
        for d in &r[0].diags {
            if let Some(l) = FIX_LABELS.iter().find(|l| d.body.contains(**l) && !t.contains(**l)) {
                return fail(format!("a fix is left after --fix ('{l}'): {}", d.show()));
            }
        }
        Out::ok(r[0].fixed_in.is_some(), t)
    }
}
const FIX_LABELS: &[&str] = &[
    "Try this quote instead", "Try this name instead", "Try this operator instead", "Try this filter instead", "Try this keyword instead", "remove this quote",
    "Remove whitespace", "line breaks before this: ", "Change indentation to",
];

// ------------------------------------------------------------------ L18
struct L18 {
    large: bool,
}
impl Spec for L18 {
    type P = Cfg;
    type D = ();
    fn plan(&self, s: &mut Src) -> Cfg {
        full_cfg(s)
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![lint(p, 0), fixrun(p, 0)]
    }
    fn case(&self, s: &mut Src, _: &Cfg) -> Option<((), Vec<String>)> {
        if self.large {
            return Some(((), vec![large(s, true)]));
        }
        let t = match s.idx(6) {
            0 => model(s, true).text,
            1 | 2 => {
                let t = model(s, true).text;
                crate::parse::stretch(s, &t)
            }
            _ => any_text(s),
        };
        Some(((), vec![t]))
    }
    fn max_apply_ok(&self) -> bool {
        true
    }
    fn judge(&self, _: &Cfg, (): &(), texts: &[String], r: &[FileRes]) -> Out {
        // everything else is a problem of the run
        if r[1].max_apply && (r[1].after != texts[0].as_bytes() || parse(&texts[0]).errors.is_empty()) {
            return Out::fail(&texts[0], "the fix run ends in an error for a valid template, or changes the file in spite of it");
        }
        Out::ok(!r[0].diags.is_empty(), &texts[0])
    }
}

// ------------------------------------------------------------------ L03
struct L03;
impl Spec for L03 {
    type P = Cfg;
    type D = Tree;
    fn plan(&self, s: &mut Src) -> Cfg {
        full_cfg(s)
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![fixrun(p, 0)]
    }
    fn case(&self, s: &mut Src, p: &Cfg) -> Option<(Tree, Vec<String>)> {
        let t = model(s, true);
        if (p.has("twig-prefer-shopware-extends") && odd_extends(&t)) || !no_apply_json(&t, p) {
            return None;
        }
        let text = t.text.clone();
        Some((t, vec![text]))
    }
    fn judge(&self, p: &Cfg, t: &Tree, texts: &[String], r: &[FileRes]) -> Out {
        let after = r[0].text();
        let got = parse(&after);
        if let Some(e) = got.errors.first() {
            return Out::fail(&texts[0], format!("the fixed text has a syntax error: {e}\n--- fixed ---\n{after}"));
        }
        let (a, b) = (crate::meaning::meaning(t, p), crate::meaning::meaning(&got.tree, p));
        if a != b {
            return Out::fail(&texts[0], format!("the meaning changes {}\n--- fixed ---\n{after}", first_diff(&a, &b)));
        }
        Out::ok(after != texts[0], &texts[0])
    }
}

// ------------------------------------------------------------------ L04
const FORMAT: &[&str] = &["line-ending", "indentation", "whitespace-between-line-breaks", "twig-block-line-breaks"];
struct L04;
impl Spec for L04 {
    type P = Cfg;
    type D = Tree;
    fn plan(&self, s: &mut Src) -> Cfg {
        let mut c = Cfg::with(&[]).format(s);
        c.rules = if s.chance(1, 3) { FORMAT.iter().map(|x| (*x).to_owned()).collect() } else { FORMAT.iter().filter(|_| s.chance(1, 2)).map(|x| (*x).to_owned()).collect() };
        c
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![fixrun(p, 0)]
    }
    fn case(&self, s: &mut Src, _: &Cfg) -> Option<(Tree, Vec<String>)> {
        let mut p = some_prof(s);
        p.sensitive = s.chance(3, 4);
        p.dirs = false;
        p.w[5] = 0;
        let doc = gen_doc(s, &p);
        let st = airy(s);
        let t = emit(s, &doc, st);
        let text = t.text.clone();
        Some((t, vec![text]))
    }
    fn judge(&self, p: &Cfg, t: &Tree, texts: &[String], r: &[FileRes]) -> Out {
        let after = r[0].text();
        let got = parse(&after);
        if let Some(e) = got.errors.first() {
            return Out::fail(&texts[0], format!("the fixed text has a syntax error: {e}\n--- fixed ---\n{after}"));
        }
        let lf = p.has("line-ending");
        let (a, b) = (crate::meaning::sensitive_content(t, lf), crate::meaning::sensitive_content(&got.tree, lf));
        if a.len() != b.len() {
            return Out::fail(&texts[0], format!("{} pieces of sensitive content became {}\n--- fixed ---\n{after}", a.len(), b.len()));
        }
        for (x, y) in a.iter().zip(&b) {
            if let Some(m) = diff_text(x, y) {
                return Out::fail(&texts[0], format!("sensitive content changed: {m}\n--- fixed ---\n{after}"));
            }
        }
        Out::ok(after != texts[0] && a.iter().any(|x| x.contains('\n')), &texts[0])
    }
}

// ------------------------------------------------------------------ ignore directives
/// rules named by a directive, as written
fn dir_rules(t: &Tree, n: usize) -> Vec<String> {
    let mut below: Vec<usize> = (n..t.nodes.len()).filter(|x| t.ancestors(*x).any(|a| a == n)).collect();
    below.sort_by_key(|x| t.nodes[*x].start);
    below
        .into_iter()
        .flat_map(|x| t.code_toks(x))
        .map(|k| t.tok_text(k))
        .filter(|x| x.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && !matches!(*x, "ludtwig-ignore" | "ludtwig-ignore-file"))
        .map(str::to_owned)
        .collect()
}
/// (node in the scope of a directive, rules)
fn scopes(t: &Tree) -> Vec<(usize, Vec<String>)> {
    oracle::nodes(t, "LUDTWIG_DIRECTIVE_IGNORE").filter_map(|n| Some((t.next_sib(n)?, dir_rules(t, n)))).collect()
}
/// a directive with something behind it that is not a node, or nothing at all
fn dangling(t: &Tree) -> bool {
    oracle::nodes(t, "LUDTWIG_DIRECTIVE_IGNORE").any(|n| match t.next_sib_el(n) {
        None => false,
        Some(C::N(_)) => false,
        Some(C::T(_)) => true,
    })
}
/// the directives with an underscore instead of the dash: ordinary comments of the same length
fn neutral(t: &Tree, kind: &str, only_root: bool) -> String {
    let word = if kind.contains("FILE") { "ludtwig-ignore-file" } else { "ludtwig-ignore" };
    let mut v = vec![];
    for n in oracle::nodes(t, kind) {
        if only_root && t.parent(n) != Some(0) {
            continue;
        }
        if let Some(k) = t.code_toks(n).find(|k| t.tok_text(*k) == word) {
            v.push(Exp { rule: "", sev: "", lo: 0, hi: 0, edits: vec![(t.toks[k].start, t.toks[k].end, word.replacen('-', "_", 1))], name: None, first: None });
        }
    }
    oracle::apply(&t.text, &v)
}
fn hidden_at(t: &Tree, sc: &[(usize, Vec<String>)], rule: &str, off: usize) -> bool {
    sc.iter().any(|(n, r)| (t.nodes[*n].start..t.nodes[*n].end).contains(&off) && (r.is_empty() || r.iter().any(|x| x == rule)))
}
fn skips(sc: &[(usize, Vec<String>)], rule: &str) -> HashSet<usize> {
    sc.iter().filter(|(_, r)| r.is_empty() || r.iter().any(|x| x == rule)).map(|x| x.0).collect()
}
const BY_NODE: &[&str] = &["twig-block-line-breaks", "twig-block-duplicate", "html-duplicate-id"];
/// reports of the rules whose reports are not simply dropped by position
fn by_node(t: &Tree, c: &Cfg, sc: &[(usize, Vec<String>)]) -> Vec<Exp> {
    let mut v = vec![];
    if c.has("twig-block-line-breaks") {
        let hide = skips(sc, "twig-block-line-breaks");
        v.extend(oracle::block_breaks_of(t, c).into_iter().filter(|(b, _)| !t.ancestors(*b).any(|a| hide.contains(&a))).map(|x| x.1));
    }
    if c.has("twig-block-duplicate") {
        v.extend(oracle::dup_blocks(t, &skips(sc, "twig-block-duplicate")));
    }
    if c.has("html-duplicate-id") {
        v.extend(oracle::dup_ids(t, &skips(sc, "html-duplicate-id")));
    }
    v
}
fn ignore_model(s: &mut Src, file: bool) -> Tree {
    let mut p = some_prof(s);
    p.dirs = true;
    p.file_dir = if file { 8 } else { 1 };
    p.w[5] = [2, 5, 10][s.idx(3)];
    let doc = gen_doc(s, &p);
    let st = if s.chance(1, 2) { airy(s) } else { Style::random(s) };
    emit(s, &doc, st)
}

struct L15;
impl Spec for L15 {
    type P = Cfg;
    type D = Tree;
    fn plan(&self, s: &mut Src) -> Cfg {
        full_cfg(s)
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![lint(p, 0), lint(p, 1), fixrun(p, 0)]
    }
    fn case(&self, s: &mut Src, _: &Cfg) -> Option<(Tree, Vec<String>)> {
        let t = ignore_model(s, false);
        if has_loose(&t) || dangling(&t) || scopes(&t).is_empty() {
            return None;
        }
        let texts = vec![t.text.clone(), neutral(&t, "LUDTWIG_DIRECTIVE_IGNORE", false)];
        Some((t, texts))
    }
    fn judge(&self, p: &Cfg, t: &Tree, texts: &[String], r: &[FileRes]) -> Out {
        let sc = scopes(t);
        // rules switched off for the whole file
        let off = file_rules(t);
        let mut c = p.clone();
        match &off {
            Some(v) if v.is_empty() => c.rules.clear(),
            Some(v) => c.rules.retain(|x| !v.contains(x)),
            None => {}
        }
        let lines = Lines::new(&texts[0]);
        let want: Vec<DKey> = r[1]
            .diags
            .iter()
            .filter(|d| !BY_NODE.contains(&d.rule.as_str()))
            .filter(|d| d.rule == "SyntaxError" || !lines.off(d.line, d.col).is_some_and(|o| hidden_at(t, &sc, &d.rule, o)))
            .map(key)
            .collect();
        let rest: Vec<Diag> = r[0].diags.iter().filter(|d| !BY_NODE.contains(&d.rule.as_str())).cloned().collect();
        let mut got: Vec<DKey> = rest.iter().map(key).collect();
        got.sort();
        if let Some(m) = diff_keys(&want, &got) {
            return Out::fail(&texts[0], m);
        }
        let other: Vec<Diag> = r[0].diags.iter().filter(|d| BY_NODE.contains(&d.rule.as_str())).cloned().collect();
        if let Some(m) = oracle::compare(&texts[0], &by_node(t, &c, &sc), &other) {
            return Out::fail(&texts[0], m);
        }
        // what is ignored entirely stays as it is
        let after = r[2].text();
        if !sc.iter().any(|x| x.1.is_empty()) {
            return Out::ok(r[0].diags.len() < r[1].diags.len(), &texts[0]);
        }
        let g = parse(&after).tree;
        let (a, b) = (scopes(t), scopes(&g));
        if a.len() != b.len() {
            return Out::fail(&texts[0], format!("--fix changes the number of directives\n--- fixed ---\n{after}"));
        }
        for (x, y) in a.iter().zip(&b).filter(|(x, _)| x.1.is_empty()) {
            let (x, y) = (&t.text[t.content_start(x.0)..t.nodes[x.0].end], &g.text[g.content_start(y.0)..g.nodes[y.0].end]);
            if x != y {
                return Out::fail(&texts[0], format!("--fix changes an ignored node: {}\n--- fixed ---\n{after}", diff_text(x, y).unwrap_or_default()));
            }
        }
        Out::ok(r[0].diags.len() < r[1].diags.len(), &texts[0])
    }
}
/// rules named by the file directives at the top level; Some(empty): all of them
fn file_rules(t: &Tree) -> Option<Vec<String>> {
    let mut v = vec![];
    let mut any = false;
    for n in oracle::nodes(t, "LUDTWIG_DIRECTIVE_FILE_IGNORE").filter(|n| t.parent(*n) == Some(0)) {
        any = true;
        let r = dir_rules(t, n);
        if r.is_empty() {
            return Some(vec![]);
        }
        v.extend(r);
    }
    any.then_some(v)
}

/// fixes of rules whose outcome is known exactly, with directives
const EXACT: &[&str] = &[
    "line-ending", "indentation", "whitespace-between-line-breaks", "twig-block-line-breaks", "html-string-quotation", "twig-string-quotation",
    "twig-hash-key-no-quotes",
];
struct L15Fix;
impl Spec for L15Fix {
    type P = Cfg;
    type D = Tree;
    fn plan(&self, s: &mut Src) -> Cfg {
        let r = s.pick(EXACT);
        Cfg::with(&[r]).format(s)
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![fixrun(p, 0)]
    }
    fn case(&self, s: &mut Src, p: &Cfg) -> Option<(Tree, Vec<String>)> {
        let mut pr = some_prof(s);
        pr.dirs = true;
        pr.file_dir = 0;
        pr.w[5] = [2, 5, 10][s.idx(3)];
        pr.dir_rule = Some(RULES.iter().position(|x| *x == p.rules[0]).unwrap());
        let doc = gen_doc(s, &pr);
        let st = if s.chance(1, 2) { airy(s) } else { Style::random(s) };
        let t = emit(s, &doc, st);
        if has_loose(&t) || dangling(&t) || scopes(&t).is_empty() {
            return None;
        }
        let text = t.text.clone();
        Some((t, vec![text]))
    }
    fn judge(&self, p: &Cfg, t: &Tree, texts: &[String], r: &[FileRes]) -> Out {
        let sc = scopes(t);
        let rule = p.rules[0].as_str();
        let all = oracle::expected(t, rule, p);
        let n = all.len();
        let want: Vec<Exp> = if rule == "twig-block-line-breaks" { by_node(t, p, &sc) } else { all.into_iter().filter(|e| !hidden_at(t, &sc, rule, e.hi)).collect() };
        if let Some(m) = diff_text(&oracle::apply(&texts[0], &want), &r[0].text()) {
            return Out::fail(&texts[0], format!("fixed {m}"));
        }
        Out::ok(want.len() < n, &texts[0])
    }
}
/// syntax errors are reported whatever the directives say
struct Errors {
    file: bool,
}
impl Spec for Errors {
    type P = Cfg;
    type D = usize;
    fn plan(&self, s: &mut Src) -> Cfg {
        full_cfg(s)
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![lint(p, 0), lint(p, 1)]
    }
    fn case(&self, s: &mut Src, _: &Cfg) -> Option<(usize, Vec<String>)> {
        let t = any_text(s);
        let rules = if s.chance(1, 2) { String::new() } else { format!(" {}", s.pick(RULES)) };
        let word = if self.file { "ludtwig-ignore-file" } else { "ludtwig-ignore" };
        let (a, b) = if s.chance(1, 2) { ("{#", "#}") } else { ("<!--", "-->") };
        let mk = |w: &str| format!("{a} {w}{rules} {b}<div>{t}");
        let text = mk(word);
        let n = parse(&text).errors.len();
        let other = mk(&word.replacen('-', "_", 1));
        Some((n, vec![text, other]))
    }
    fn judge(&self, _: &Cfg, n: &usize, texts: &[String], r: &[FileRes]) -> Out {
        if r[0].syntax_errors() != *n || r[1].syntax_errors() != *n {
            return Out::fail(&texts[0], format!("{n} syntax errors, {} reported with the directive, {} with a comment in its place", r[0].syntax_errors(), r[1].syntax_errors()));
        }
        if *n > 0 && r[0].code != 1 {
            return Out::fail(&texts[0], format!("exit code {} in spite of syntax errors", r[0].code));
        }
        Out::ok(*n > 0, &texts[0])
    }
}

// ------------------------------------------------------------------ L16
struct L16;
impl Spec for L16 {
    type P = (Cfg, Vec<String>);
    type D = (usize, usize);
    fn plan(&self, s: &mut Src) -> (Cfg, Vec<String>) {
        let c = full_cfg(s);
        let mut off = match s.idx(4) {
            0 => vec![],
            1 => vec![s.pick(RULES).to_owned()],
            _ => RULES.iter().filter(|_| s.chance(1, 3)).map(|x| (*x).to_owned()).collect(),
        };
        if s.chance(1, 3) {
            // names that are nearly those of rules
            for _ in 0..s.range(1, 4) {
                let r = s.pick(RULES);
                off.push(crate::r#gen::near(s, r));
            }
        }
        (c, off)
    }
    fn runs(&self, p: &Self::P) -> Vec<Run> {
        let mut c = p.0.clone();
        if p.1.is_empty() {
            c.rules.clear();
        } else {
            c.rules.retain(|x| !p.1.contains(x));
        }
        vec![lint(&p.0, 0), lint(&c, 1), fixrun(&p.0, 0), fixrun(&c, 1)]
    }
    fn case(&self, s: &mut Src, p: &Self::P) -> Option<(Self::D, Vec<String>)> {
        let mut pr = some_prof(s);
        pr.dirs = s.chance(1, 2);
        pr.file_dir = 6;
        let mut doc = gen_doc(s, &pr);
        let at = if s.chance(1, 2) { 0 } else { s.idx(doc.len() + 1) };
        doc.insert(at, Nd::Dir { html: s.chance(1, 2), file: true, rules: p.1.clone(), commas: s.draw(3) });
        let st = Style::random(s);
        let t = emit(s, &doc, st);
        // (known finding of L12: the rewritten extends tag is a syntax error)
        if has_loose(&t) || (p.0.has("twig-prefer-shopware-extends") && odd_extends(&t)) {
            return None;
        }
        // only that one becomes a comment
        let n = oracle::nodes(&t, "LUDTWIG_DIRECTIVE_FILE_IGNORE").find(|n| t.parent(*n) == Some(0) && dir_rules(&t, *n) == p.1)?;
        let k = t.code_toks(n).find(|k| t.tok_text(*k) == "ludtwig-ignore-file")?;
        let (a, b) = (t.toks[k].start, t.toks[k].end);
        let other = format!("{}ludtwig_ignore-file{}", &t.text[..a], &t.text[b..]);
        Some(((a, b), vec![t.text.clone(), other]))
    }
    fn judge(&self, _: &Self::P, _: &Self::D, texts: &[String], r: &[FileRes]) -> Out {
        let strip = |v: &[Diag]| -> Vec<Diag> { v.iter().map(|d| Diag { body: d.body.replace("ludtwig_ignore-file", "ludtwig-ignore-file"), ..d.clone() }).collect() };
        if let Some(m) = same_diags(&strip(&r[0].diags), &strip(&r[1].diags)) {
            return Out::fail(&texts[0], format!("with the directive / with these rules inactive: {m}"));
        }
        let back = r[3].text().replacen("ludtwig_ignore-file", "ludtwig-ignore-file", 1);
        if let Some(m) = diff_text(&back, &r[2].text()) {
            return Out::fail(&texts[0], format!("--fix with the directive differs from --fix with these rules inactive: {m}"));
        }
        if let Some(m) = same_diags(&strip(&r[2].diags), &strip(&r[3].diags)) {
            return Out::fail(&texts[0], format!("fix run with the directive / with these rules inactive: {m}"));
        }
        Out::ok(!r[0].diags.is_empty() || r[3].after != texts[1].as_bytes(), &texts[0])
    }
}
/// directives below the top level do nothing but are reported
struct L16Nested;
impl Spec for L16Nested {
    type P = Cfg;
    type D = Tree;
    fn plan(&self, s: &mut Src) -> Cfg {
        let mut c = full_cfg(s);
        if s.chance(3, 4) && !c.has("ludtwig-ignore-file-not-on-top") {
            c.rules.push("ludtwig-ignore-file-not-on-top".into());
        }
        c
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![lint(p, 0), lint(p, 1)]
    }
    fn case(&self, s: &mut Src, _: &Cfg) -> Option<(Tree, Vec<String>)> {
        let t = ignore_model(s, true);
        if has_loose(&t) || dangling(&t) || file_rules(&t).is_some() || !oracle::nodes(&t, "LUDTWIG_DIRECTIVE_FILE_IGNORE").any(|_| true) {
            return None;
        }
        let texts = vec![t.text.clone(), neutral(&t, "LUDTWIG_DIRECTIVE_FILE_IGNORE", false)];
        Some((t, texts))
    }
    fn judge(&self, p: &Cfg, t: &Tree, texts: &[String], r: &[FileRes]) -> Out {
        let rule = "ludtwig-ignore-file-not-on-top";
        let (own, rest): (Vec<Diag>, Vec<Diag>) = r[0].diags.iter().cloned().partition(|d| d.rule == rule);
        let keys = |v: &[Diag]| v.iter().map(key).collect::<Vec<_>>();
        if let Some(m) = diff_keys(&keys(&r[1].diags), &keys(&rest)) {
            return Out::fail(&texts[0], m);
        }
        let sc = scopes(t);
        let want: Vec<Exp> = if p.has(rule) { oracle::expected(t, rule, p).into_iter().filter(|e| !hidden_at(t, &sc, rule, e.hi)).collect() } else { vec![] };
        if let Some(m) = oracle::compare(&texts[0], &want, &own) {
            return Out::fail(&texts[0], m);
        }
        Out::ok(!want.is_empty(), &texts[0])
    }
}

// ------------------------------------------------------------------ L17
struct L17;
impl Spec for L17 {
    type P = Vec<Cfg>;
    type D = ();
    fn plan(&self, s: &mut Src) -> Vec<Cfg> {
        let mut c = full_cfg(s);
        if c.rules.len() > 9 && s.chance(3, 4) {
            // fewer runs
            let keep = s.range(2, 8) as usize;
            while c.rules.len() > keep {
                let i = s.idx(c.rules.len());
                c.rules.remove(i);
            }
        }
        let mut mixed = c.clone();
        for i in (1..mixed.rules.len()).rev() {
            let j = s.idx(i + 1);
            mixed.rules.swap(i, j);
        }
        let mut v = vec![c.clone(), mixed];
        for r in &c.rules {
            v.push(Cfg { rules: vec![r.clone()], ..c.clone() });
        }
        v
    }
    fn runs(&self, p: &Vec<Cfg>) -> Vec<Run> {
        p.iter().map(|c| lint(c, 0)).collect()
    }
    fn case(&self, s: &mut Src, _: &Vec<Cfg>) -> Option<((), Vec<String>)> {
        Some(((), vec![model_or_any(s)]))
    }
    fn judge(&self, p: &Vec<Cfg>, (): &(), texts: &[String], r: &[FileRes]) -> Out {
        let t = &texts[0];
        if let Some(m) = same_diags(&r[0].diags, &r[1].diags) {
            return Out::fail(t, format!("the order of the rules matters: {m}"));
        }
        let errs = |v: &[Diag]| v.iter().filter(|d| d.rule == "SyntaxError").cloned().collect::<Vec<_>>();
        let first = errs(&r[0].diags);
        let mut union = first.clone();
        for (x, c) in r[2..].iter().zip(&p[2..]) {
            if let Some(d) = x.diags.iter().find(|d| d.rule != "SyntaxError" && d.rule != c.rules[0]) {
                return Out::fail(t, format!("only {} is active, but there is {}", c.rules[0], d.show()));
            }
            if let Some(m) = same_diags(&first, &errs(&x.diags)) {
                return Out::fail(t, format!("syntax errors depend on the active rules: {m}"));
            }
            union.extend(x.diags.iter().filter(|d| d.rule != "SyntaxError").cloned());
        }
        if let Some(m) = same_diags(&union, &r[0].diags) {
            return Out::fail(t, format!("each rule alone / all together: {m}"));
        }
        Out::ok(union.len() > first.len(), t)
    }
}

// ------------------------------------------------------------------ P06 on the command line
pub struct P06;
impl Spec for P06 {
    type P = Cfg;
    type D = (String, usize);
    fn plan(&self, s: &mut Src) -> Cfg {
        full_cfg(s)
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![lint(p, 0), lint(p, 1)]
    }
    fn case(&self, s: &mut Src, _: &Cfg) -> Option<(Self::D, Vec<String>)> {
        let p = crate::parse2::plain_prof();
        let doc = gen_doc(s, &p);
        let t = emit(s, &doc, Style::canonical());
        let ds = crate::parse2::damages(&t);
        if ds.is_empty() {
            return None;
        }
        let d = &ds[s.idx(ds.len())];
        let hide = s.pick(&["{# ludtwig-ignore-file #}\n", "<!-- ludtwig-ignore-file -->", "{# ludtwig-ignore #}", "{# ludtwig-ignore-file indentation #}"]);
        let n = parse(&d.text).errors.len();
        Some(((d.what.to_string(), n), vec![d.text.clone(), format!("{hide}{}", d.text)]))
    }
    fn judge(&self, _: &Cfg, d: &Self::D, texts: &[String], r: &[FileRes]) -> Out {
        for (x, t) in r.iter().zip(texts) {
            if x.syntax_errors() == 0 {
                return Out::fail(t, format!("no syntax error printed: {}", d.0));
            }
            if x.code != 1 {
                return Out::fail(t, format!("exit code {} for a damaged template: {}", x.code, d.0));
            }
        }
        if r[0].syntax_errors() != d.1 {
            return Out::fail(&texts[0], format!("{} of {} syntax errors printed", r[0].syntax_errors(), d.1));
        }
        Out::ok(true, &format!("{}\n--- {}", texts[0], d.0))
    }
}

pub fn run(env: &Env, prop: &str, rp: Option<&Replay>) -> Option<Report> {
    let mut rep;
    macro_rules! go {
        ($name:expr, $n:expr, $size:expr, $spec:expr) => {
            spec_part(env, &mut rep, prop, $name, $n, $size, rp, &$spec)
        };
    }
    match prop {
        "L01" => {
            rep = Report::new("generated templates and damaged text, random configurations, two lint runs; non-trivial: something is reported");
            go!("lint", 800, 150, L01);
            crate::part(env, &mut rep, prop, "outside", 4000, rp, &|s: &mut Src| crate::conf::l01_outside(env, s));
        }
        "L02" => {
            rep = Report::new("fix, lint, fix over the same file, random configurations; non-trivial: the first run changes the file");
            go!("model", 700, 150, L02 { any: false, large: false });
            go!("any", 500, 150, L02 { any: true, large: false });
            go!("large", 16, 4, L02 { any: false, large: true });
        }
        "L03" => {
            rep = Report::new("generated templates, random rule sets and formats, one fix run; trees compared without layout and documented spellings; non-trivial: the fix run changes the file");
            go!("fix", 1500, 150, L03);
        }
        "L04" => {
            rep = Report::new("generated templates full of whitespace-sensitive content, subsets of the formatting rules; non-trivial: the file changes and holds sensitive content with line breaks");
            go!("fix", 1500, 150, L04);
        }
        "L15" => {
            rep = Report::new("generated templates with ignore comments against the same text with ordinary comments; non-trivial: something is suppressed");
            go!("lint", 1000, 150, L15);
            go!("fix", 700, 150, L15Fix);
            go!("errors", 200, 150, Errors { file: false });
        }
        "L16" => {
            rep = Report::new("generated templates with a file directive against the same text with a comment and a configuration without these rules; nested directives; non-trivial: something is reported or fixed");
            go!("file", 700, 150, L16);
            go!("nested", 500, 300, L16Nested);
            go!("errors", 200, 150, Errors { file: true });
        }
        "L17" => {
            rep = Report::new("random rule sets: all at once, in another order, and each rule alone; non-trivial: some rule reports something");
            go!("union", 500, 150, L17);
        }
        "L18" => {
            rep = Report::new("damaged templates, token soup and random unicode with random configurations, lint and fix; non-trivial: something is reported");
            go!("any", 1500, 150, L18 { large: false });
            go!("large", 16, 6, L18 { large: true });
            crate::part(env, &mut rep, prop, "deep", 400, rp, &|s: &mut Src| crate::deep::l18(env, s));
            crate::part(env, &mut rep, prop, "overflow", 10, rp, &|s: &mut Src| crate::deep::overflow(env, prop, s));
            crate::overflow_line(&mut rep);
        }
        _ => return None,
    }
    Some(rep)
}
