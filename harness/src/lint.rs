//! Checks L01..L18: the linter, driven through the command line.
use crate::ast::*;
use crate::cli::*;
use crate::emit::Style;
use crate::r#gen::*;
use crate::oracle;
use crate::parse::*;
use crate::runner::*;
use crate::tape::Src;
use crate::tree::*;

// ------------------------------------------------------------------ single rules against their oracle
/// Configured rules, lists and how templates for them look.
pub struct RuleSpec {
    pub rules: &'static [&'static str],
    pub prof: fn(&mut Src) -> Prof,
    pub style: fn(&mut Src) -> Style,
    pub accept: fn(&Tree, &Cfg) -> bool,
    /// the fixed text is known exactly
    pub exact: bool,
    pub extra: fn(&Cfg, &Tree, &str) -> Option<String>,
}
pub struct DocCase {
    pub t: Tree,
}
pub fn no_extra(_: &Cfg, _: &Tree, _: &str) -> Option<String> {
    None
}
pub fn any_doc(_: &Tree, _: &Cfg) -> bool {
    true
}
/// a body or the file itself has characters as direct children (text starting with a non-ASCII character)
pub fn has_loose(t: &Tree) -> bool {
    t.toks.iter().any(|k| k.tr == Tr::No && matches!(t.kind(k.parent), "ROOT" | "BODY"))
}
pub fn code_style(s: &mut Src) -> Style {
    Style::random(s)
}
pub fn subset(s: &mut Src, of: &[&str]) -> Vec<String> {
    // nothing but one of them
    if s.chance(1, 8) {
        return vec![s.pick(of).to_owned()];
    }
    let den = [2, 3, 8][s.idx(3)];
    of.iter().filter(|_| !s.chance(1, den)).map(|x| (*x).to_owned()).collect()
}
impl Spec for RuleSpec {
    type P = Cfg;
    type D = DocCase;
    fn plan(&self, s: &mut Src) -> Cfg {
        let rule = self.rules[s.idx(self.rules.len())];
        let mut c = Cfg::with(&[rule]).format(s);
        c.filters = Some(subset(s, FILTERS));
        c.tests = Some(subset(s, TESTS));
        c.functions = Some(subset(s, FUNCS));
        c
    }
    fn runs(&self, p: &Cfg) -> Vec<Run> {
        vec![lint(p, 0), fixrun(p, 0)]
    }
    fn case(&self, s: &mut Src, p: &Cfg) -> Option<(DocCase, Vec<String>)> {
        let pr = (self.prof)(s);
        let doc = gen_doc(s, &pr);
        let st = (self.style)(s);
        let t = emit(s, &doc, st);
        if !(self.accept)(&t, p) {
            return None;
        }
        let text = t.text.clone();
        Some((DocCase { t }, vec![text]))
    }
    fn judge(&self, p: &Cfg, d: &DocCase, texts: &[String], r: &[FileRes]) -> Out {
        let text = &texts[0];
        let want = oracle::all(&d.t, p);
        if let Some(m) = oracle::compare(text, &want, &r[0].diags) {
            return Out::fail(text, m);
        }
        if r[0].text() != *text {
            return Out::fail(text, "a run without --fix changed the file");
        }
        let after = r[1].text();
        if p.has("twig-prefer-shopware-extends") && odd_extends(&d.t) {
            // known finding: sw_extends only takes plain strings; the rewrite itself is all that may happen
            if let Some(m) = diff_text(&extends_rewritten(&d.t), &after) {
                return Out::fail(text, format!("fixed {m}"));
            }
            return Out { known: 1, ..Out::ok(true, text) };
        }
        if self.exact {
            if let Some(m) = diff_text(&oracle::apply(text, &want), &after) {
                return Out::fail(text, format!("fixed {m}"));
            }
        }
        // what the fix run reports has to fit the text it left behind
        let got = parse(&after);
        if let Some(e) = got.errors.first() {
            return Out::fail(text, format!("the fixed text has a syntax error: {e}\n{after}"));
        }
        let want2 = oracle::all(&got.tree, p);
        if let Some(m) = oracle::compare(&after, &want2, &r[1].diags) {
            return Out::fail(text, format!("report of the fix run: {m}\n--- fixed ---\n{after}"));
        }
        if let Some(m) = (self.extra)(p, &d.t, &after) {
            return Out::fail(text, format!("{m}\n--- fixed ---\n{after}"));
        }
        Out::ok(!want.is_empty(), text)
    }
}
/// an `extends` whose template is not given by a plain string
pub fn odd_extends(t: &Tree) -> bool {
    oracle::nodes(t, "TWIG_EXTENDS").any(|n| {
        let s = t.kid(n, "TWIG_EXPRESSION").and_then(|e| t.kid(e, "TWIG_LITERAL_STRING")).and_then(|x| t.kid(x, "TWIG_LITERAL_STRING_INNER"));
        s.is_none_or(|x| t.kids(x).next().is_some())
    })
}
fn extends_rewritten(t: &Tree) -> String {
    let v: Vec<oracle::Exp> = oracle::nodes(t, "TWIG_EXTENDS")
        .filter_map(|n| t.code_toks(n).find(|k| t.tok_text(*k) == "extends"))
        .map(|k| oracle::Exp { rule: "", sev: "", lo: 0, hi: 0, edits: vec![(t.toks[k].start, t.toks[k].end, "sw_extends".into())], name: None, first: None })
        .collect();
    oracle::apply(&t.text, &v)
}
pub fn base(s: &mut Src) -> Prof {
    sized(s, Prof::default())
}

// ------------------------------------------------------------------ what the rules need
fn plain_style(s: &mut Src) -> Style {
    let mut st = Style::random(s);
    if s.chance(1, 2) {
        st.wild = 0;
    }
    st
}
/// odd layout, or hardly any
fn any_style(s: &mut Src) -> Style {
    if s.chance(1, 2) {
        return airy(s);
    }
    let mut st = plain_style(s);
    if s.chance(1, 2) {
        st.wild = 0;
        st.ctrl = 0;
    }
    st
}
/// more line breaks everywhere
pub fn airy(s: &mut Src) -> Style {
    let mut st = Style::random(s);
    st.sib_wild = [8, 12, 16][s.idx(3)];
    st.code_nl = !s.chance(1, 4);
    st.wild = [1, 3, 6, 12][s.idx(4)];
    st.attr_nl = s.chance(1, 2);
    st
}
pub fn html_prof(s: &mut Src) -> Prof {
    let mut p = base(s);
    p.w = [8, 4, 2, 2, 5, 0];
    p
}
pub fn block_prof(s: &mut Src) -> Prof {
    let mut p = base(s);
    p.w = [3, 4, 4, 2, 9, 0];
    p.block_bias = [16, 40, 90][s.idx(3)];
    p.dirs = s.chance(1, 8);
    p
}
pub fn op_prof(s: &mut Src) -> Prof {
    let mut p = expr_prof(s);
    p.calls = true;
    p
}
pub fn hash_prof(s: &mut Src) -> Prof {
    let mut p = expr_prof(s);
    p.hashes = true;
    p
}
pub fn expr_prof(s: &mut Src) -> Prof {
    let mut p = base(s);
    p.w = [2, 3, 1, 8, 5, 0];
    p
}
pub fn name_prof(s: &mut Src) -> Prof {
    let mut p = base(s);
    p.names = true;
    p.w = [6, 2, 1, 1, 9, 0];
    p.block_bias = [4, 12][s.idx(2)];
    p
}
pub fn dup_prof(s: &mut Src) -> Prof {
    let mut p = base(s);
    p.ids = true;
    p.w = [8, 2, 1, 1, 8, 0];
    p.fuel = p.fuel.max(20);
    p.ex_depth = 1;
    p.inner_twig = s.chance(1, 3);
    p.block_bias = [8, 24][s.idx(2)];
    p
}
pub fn dir_prof(s: &mut Src) -> Prof {
    let mut p = base(s);
    p.dirs = true;
    p.file_dir = 8;
    p.w = [3, 5, 1, 2, 6, 3];
    p
}
pub fn no_apply_json(t: &Tree, _: &Cfg) -> bool {
    // `{% apply json_encode|raw %}` is not specified
    !oracle::nodes(t, "TWIG_FILTER").any(|n| oracle::in_apply_chain(t, n) && t.node_text(n).contains("json_encode"))
}
pub fn not_loose(t: &Tree, _: &Cfg) -> bool {
    !has_loose(t)
}
fn no_multi_constant(t: &Tree, _: &Cfg) -> bool {
    !oracle::nodes(t, "TWIG_ASSIGNMENT").any(|n| t.kids(n).filter(|k| t.kind(*k) == "TWIG_LITERAL_NAME").count() > 1 && t.node_text(n).contains("constant"))
}
/// names may change, and only they: each into one of the convention with the same letters
fn renamed(c: &Cfg, t: &Tree, after: &str) -> Option<String> {
    let (kind, attr) = match c.rules[0].as_str() {
        "twig-block-name-snake-case" => ("TWIG_BLOCK", false),
        "html-attribute-name-kebab-case" => ("HTML_ATTRIBUTE", true),
        _ => return diff_text(&t.text, after),
    };
    let g = parse(after).tree;
    let names = |t: &Tree| -> Vec<Option<usize>> {
        oracle::nodes(t, kind).map(|n| if attr { oracle::attr_name_tok(t, n) } else { oracle::block_name_tok(t, n) }).collect()
    };
    let (a, b) = (names(t), names(&g));
    if a.len() != b.len() {
        return Some("a named construct is gone".into());
    }
    let blocks: Vec<usize> = oracle::nodes(t, kind).collect();
    let mut want: Vec<oracle::Exp> = vec![];
    let mut edit = |k: usize, w: &str| {
        want.push(oracle::Exp {
            rule: "",
            sev: "",
            lo: 0,
            hi: 0,
            edits: vec![(t.toks[k].start, t.toks[k].end, w.to_owned())],
            name: None,
            first: None,
        });
    };
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        let (Some(x), Some(y)) = (x, y) else { continue };
        let (old, new) = (t.tok_text(*x), g.tok_text(*y));
        if attr && oracle::in_component(t, blocks[i]) {
            if old != new {
                return Some(format!("attribute {old} of a component was renamed"));
            }
            continue;
        }
        let good = |s: &str| if attr { oracle::kebab(s) } else { oracle::snake(s, false) };
        let letters = |s: &str| s.chars().filter(|c| c.is_ascii_alphanumeric() || ":@#$".contains(*c)).map(|c| c.to_ascii_lowercase()).collect::<String>();
        if old == new {
            let body = if attr { old.strip_prefix([':', '@', '#']).unwrap_or(old) } else { old };
            let simple = body.starts_with(|c: char| c.is_ascii_alphabetic()) && body.split(['-', '_']).all(|p| !p.is_empty() && p.chars().all(|c| c.is_ascii_alphanumeric()));
            if !good(old) && simple {
                return Some(format!("no name suggested for {old}"));
            }
            continue;
        }
        if good(old) {
            return Some(format!("the conforming name {old} was changed to {new}"));
        }
        if !good(new) {
            return Some(format!("{old} was renamed to {new}, which does not conform"));
        }
        if letters(old) != letters(new) {
            return Some(format!("{old} was renamed to {new}"));
        }
        edit(*x, new);
        if !attr {
            // the name repeated behind endblock
            if let Some(e) = t.kid(blocks[i], "TWIG_ENDING_BLOCK") {
                if let Some(k) = t.code_toks(e).nth(2).filter(|k| t.tok_text(*k) == old) {
                    edit(k, new);
                }
            }
        }
    }
    diff_text(&oracle::apply(&t.text, &want), after)
}
fn same_meaning(c: &Cfg, t: &Tree, after: &str) -> Option<String> {
    let g = parse(after).tree;
    let (a, b) = (crate::meaning::meaning(t, c), crate::meaning::meaning(&g, c));
    (a != b).then(|| format!("the meaning changes: {}", first_diff(&a, &b)))
}
fn unchanged(_: &Cfg, t: &Tree, after: &str) -> Option<String> {
    diff_text(&t.text, after)
}

fn spec(rules: &'static [&'static str], prof: fn(&mut Src) -> Prof, style: fn(&mut Src) -> Style) -> RuleSpec {
    RuleSpec { rules, prof, style, accept: any_doc, exact: true, extra: no_extra }
}

pub fn run(env: &Env, prop: &str, rp: Option<&Replay>) -> Option<Report> {
    let mut known = false;
    let go = |rule: &str, sp: &RuleSpec| {
        let mut rep = Report::new(rule);
        spec_part(env, &mut rep, prop, "rule", 1400, 150, rp, sp);
        rep
    };
    if prop == "L12" && rp.is_none() {
        // the listed input, first of all
        let mut rep = Report::new("");
        let f = |_: &mut Src| extends_case(env);
        crate::part(env, &mut rep, prop, "extends", 1, None, &f);
        if rep.failure.is_some() {
            return Some(rep);
        }
        known = rep.stats.known > 0;
    }
    if prop == "L12" && rp.is_some_and(|r| r.part == "extends") {
        let mut rep = Report::new("");
        let f = |_: &mut Src| extends_case(env);
        crate::part(env, &mut rep, prop, "extends", 1, rp, &f);
        return Some(rep);
    }
    let r = Some(match prop {
        "L05" => go(
            "generated templates in odd layouts, one rule active; expected reports and fixed text computed from the model's tree; non-trivial: at least one report expected",
            &RuleSpec { ..spec(&["indentation"], base, airy) },
        ),
        "L06" => go("as L05, for line-ending", &spec(&["line-ending"], base, airy)),
        "L07" => go("as L05, for twig-block-line-breaks", &RuleSpec { accept: not_loose, ..spec(&["twig-block-line-breaks"], block_prof, airy) }),
        "L08" => go("as L05, for whitespace-between-line-breaks", &spec(&["whitespace-between-line-breaks"], base, airy)),
        "L09" => go("as L05, for html-string-quotation and twig-string-quotation", &spec(&["html-string-quotation", "twig-string-quotation"], html_prof, plain_style)),
        "L10" => go("as L05, for twig-hash-key-no-quotes", &spec(&["twig-hash-key-no-quotes"], hash_prof, plain_style)),
        "L11" => go(
            "as L05, for the three naming rules, with names put together from odd pieces",
            &RuleSpec {
                accept: no_multi_constant,
                exact: false,
                extra: renamed,
                ..spec(&["twig-block-name-snake-case", "html-attribute-name-kebab-case", "twig-variable-definition-naming"], name_prof, plain_style)
            },
        ),
        "L12" => go(
            "as L05, for the operator, json_encode and extends rules; the fixed text is compared by meaning",
            &RuleSpec {
                accept: no_apply_json,
                exact: false,
                extra: same_meaning,
                ..spec(
                    &["twig-logic-and", "twig-logic-or", "twig-use-is-same-as", "twig-use-is-not-same-as", "twig-json-encode-escape-js", "twig-prefer-shopware-extends"],
                    op_prof,
                    plain_style,
                )
            },
        ),
        "L13" => go(
            "as L05, for the two duplicate rules; no fix is allowed to happen",
            &RuleSpec { exact: false, extra: unchanged, ..spec(&["twig-block-duplicate", "html-duplicate-id"], dup_prof, any_style) },
        ),
        "L14" => go(
            "as L05, for the three allowlist rules with random lists; no fix is allowed to happen",
            &RuleSpec { exact: false, extra: unchanged, ..spec(&["twig-valid-filter", "twig-valid-test", "twig-valid-function"], expr_prof, plain_style) },
        ),
        _ => return crate::lint2::run(env, prop, rp),
    });
    r.map(|mut r| {
        if known {
            r.known_lines.push("{% extends foo %} is rewritten to {% sw_extends foo %}, which is a syntax error for ludtwig itself".into());
        }
        r
    })
}

/// The rewrite of `{% extends foo %}` is either readable again or the listed finding.
fn extends_case(env: &Env) -> Out {
    let sc = scratch(env);
    let text = "{% extends foo %}\n";
    std::fs::write(sc.dir.join("a.twig"), text).unwrap();
    std::fs::write(sc.dir.join("cfg.toml"), Cfg::with(&["twig-prefer-shopware-extends"]).toml(version(env))).unwrap();
    let io = sc.dir.join("io");
    std::fs::create_dir_all(&io).unwrap();
    let raw = exec(env, &sc.dir, &io, &["-c", "cfg.toml", "-f", "a.twig"], &[], std::time::Duration::from_secs(15));
    let after = std::fs::read_to_string(sc.dir.join("a.twig")).unwrap_or_default();
    if !matches!(raw.code, Some(0 | 1)) {
        return Out::fail(text, "abnormal end");
    }
    if parse(&after).errors.is_empty() {
        return Out::ok(true, text);
    }
    if after == "{% sw_extends foo %}\n" && listed(env, "L12", "extends-of-an-expression") {
        return Out { known: 1, ..Out::ok(true, text) };
    }
    Out::fail(text, format!("the fixed text has a syntax error: {after}"))
}
