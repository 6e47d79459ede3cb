//! What each rule has to report for a template whose tree is known, and what its fixes change.
//! Written from the documentation of the rules; it never looks at the linter.
use crate::cli::*;
use crate::tree::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Exp {
    pub rule: K,
    pub sev: K,
    /// acceptable start positions of the report
    pub lo: usize,
    pub hi: usize,
    pub edits: Vec<(usize, usize, String)>,
    /// the message has to name this
    pub name: Option<String>,
    /// the report has to point at this first occurrence
    pub first: Option<usize>,
}
fn exp(rule: K, sev: K, at: usize) -> Exp {
    Exp { rule, sev, lo: at, hi: at, edits: vec![], name: None, first: None }
}

pub const SENSITIVE: &[&str] = &["pre", "textarea", "script", "style"];
pub fn tag_name(t: &Tree, tag: usize) -> Option<String> {
    let st = if t.kind(tag) == "HTML_TAG" { t.kid(tag, "HTML_STARTING_TAG")? } else { tag };
    let x = t.code_toks(st).nth(1)?;
    Some(t.tok_text(x).to_owned())
}
pub fn is_sensitive(t: &Tree, n: usize) -> bool {
    match t.kind(n) {
        "HTML_STRING_INNER" | "TWIG_LITERAL_STRING_INNER" => true,
        "HTML_TAG" => tag_name(t, n).is_some_and(|x| SENSITIVE.contains(&x.to_ascii_lowercase().as_str())),
        _ => false,
    }
}
/// per token: inside of whitespace-sensitive content
pub fn sensitive_toks(t: &Tree) -> Vec<bool> {
    let sens = sensitive_nodes(t);
    t.toks.iter().map(|x| sens[x.parent]).collect()
}
/// per node: itself or an ancestor is whitespace-sensitive
pub fn sensitive_nodes(t: &Tree) -> Vec<bool> {
    let mut sens = vec![false; t.nodes.len()];
    for n in 0..t.nodes.len() {
        let p = t.nodes[n].parent;
        sens[n] = (p != NONE && sens[p]) || is_sensitive(t, n);
    }
    sens
}
/// `n`'s operator token
pub fn operator(t: &Tree, n: usize) -> Option<usize> {
    t.code_toks(n).next()
}
fn name_of(t: &Tree, n: usize) -> Option<usize> {
    // the token of a TWIG_LITERAL_NAME child
    let x = t.kid(n, "TWIG_LITERAL_NAME")?;
    t.code_toks(x).next()
}
fn call_name(t: &Tree, call: usize) -> Option<usize> {
    name_of(t, t.kid(call, "TWIG_OPERAND")?)
}

pub fn snake(s: &str, upper: bool) -> bool {
    let ok = |c: char| if upper { c.is_ascii_uppercase() } else { c.is_ascii_lowercase() } || c.is_ascii_digit();
    s.split('_').all(|p| !p.is_empty() && p.chars().all(ok))
}
pub fn kebab(s: &str) -> bool {
    let body = s.strip_prefix([':', '@', '#']).unwrap_or(s);
    let ok = |c: char| c.is_ascii_lowercase() || c.is_ascii_digit();
    let mut parts = body.split('-').enumerate().peekable();
    while let Some((i, p)) = parts.next() {
        let special_only = i == 0 && body.len() < s.len() && p.is_empty();
        if (p.is_empty() && !special_only) || !p.chars().all(ok) {
            return false;
        }
    }
    true
}
pub fn camel(s: &str) -> bool {
    let b = s.trim_start_matches('_');
    b.is_empty() || (b.starts_with(|c: char| c.is_ascii_lowercase()) && !b.contains(['_', '-']))
}
pub fn plain_key(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && c.all(|c| c.is_ascii_alphanumeric() || c == '_')
}

/// everything the active rules have to report
pub fn all(t: &Tree, cfg: &Cfg) -> Vec<Exp> {
    let mut v = vec![];
    for r in RULES {
        if cfg.has(r) {
            v.extend(expected(t, r, cfg));
        }
    }
    v
}

pub fn expected(t: &Tree, rule: &str, cfg: &Cfg) -> Vec<Exp> {
    match rule {
        "line-ending" => line_ending(t, cfg),
        "indentation" => indentation(t, cfg),
        "whitespace-between-line-breaks" => ws_between(t),
        "twig-block-line-breaks" => block_breaks(t, cfg),
        "html-string-quotation" => html_quotes(t, cfg),
        "twig-string-quotation" => twig_quotes(t, cfg),
        "twig-hash-key-no-quotes" => hash_keys(t),
        "twig-block-name-snake-case" => block_names(t),
        "html-attribute-name-kebab-case" => attr_names(t),
        "twig-variable-definition-naming" => var_names(t),
        "twig-logic-and" => ops(t, "twig-logic-and", "&&"),
        "twig-logic-or" => ops(t, "twig-logic-or", "||"),
        "twig-use-is-same-as" => ops(t, "twig-use-is-same-as", "==="),
        "twig-use-is-not-same-as" => ops(t, "twig-use-is-not-same-as", "!=="),
        "twig-json-encode-escape-js" => json_raw(t),
        "twig-prefer-shopware-extends" => {
            let rule = "twig-prefer-shopware-extends";
            nodes(t, "TWIG_EXTENDS").map(|n| Exp { hi: t.content_start(n), ..exp(rule, "warning", t.nodes[n].start) }).collect()
        }
        "twig-block-duplicate" => dup_blocks(t, &HashSet::new()),
        "html-duplicate-id" => dup_ids(t, &HashSet::new()),
        "twig-valid-filter" => filters(t, cfg),
        "twig-valid-test" => tests(t, cfg),
        "twig-valid-function" => functions(t, cfg),
        "ludtwig-ignore-file-not-on-top" => nodes(t, "LUDTWIG_DIRECTIVE_FILE_IGNORE")
            .filter(|n| t.parent(*n) != Some(0))
            .map(|n| Exp { hi: t.content_start(n), ..exp("ludtwig-ignore-file-not-on-top", "error", t.nodes[n].start) })
            .collect(),
        _ => unreachable!("{rule}"),
    }
}
pub fn nodes<'a>(t: &'a Tree, kind: &'a str) -> impl Iterator<Item = usize> + 'a {
    (0..t.nodes.len()).filter(move |n| t.nodes[*n].kind == kind)
}

fn line_ending(t: &Tree, cfg: &Cfg) -> Vec<Exp> {
    let b = t.text.as_bytes();
    let mut v = vec![];
    for i in 0..b.len() {
        if b[i] == b'\n' {
            let crlf = i > 0 && b[i - 1] == b'\r';
            if crlf != cfg.crlf {
                let at = if crlf { i - 1 } else { i };
                let mut e = exp("line-ending", "warning", at);
                e.edits.push((at, i + 1, cfg.eol().to_owned()));
                v.push(e);
            }
        }
    }
    v
}

fn indentation(t: &Tree, cfg: &Cfg) -> Vec<Exp> {
    let mut level = vec![(0usize, 0usize); t.nodes.len()];
    for n in 0..t.nodes.len() {
        let p = t.nodes[n].parent;
        let (mut l, mut s) = if p == NONE { (0, 0) } else { level[p] };
        match t.kind(n) {
            "BODY" if !cfg.indent_blocks && p != NONE && t.kind(p) == "TWIG_BLOCK" => {}
            "BODY" | "TWIG_ARGUMENTS" | "TWIG_LITERAL_ARRAY_INNER" | "TWIG_LITERAL_HASH_ITEMS" | "TWIG_PROP_DECLARATION" => l += 1,
            "HTML_ATTRIBUTE_LIST" => {
                if let Some(x) = t.parent(n).and_then(|p| tag_name(t, p)) {
                    s += 2 + x.chars().count();
                }
            }
            _ => {}
        }
        level[n] = (l, s);
    }
    let own: Vec<bool> = (0..t.nodes.len()).map(|n| is_sensitive(t, n)).collect();
    let sens = sensitive_toks(t);
    let mut v = vec![];
    let mut first = true;
    for (i, k) in t.toks.iter().enumerate() {
        if k.tr == Tr::Lb {
            // a line break at the end of sensitive content (before a closing quote) is content
            let left = t.toks.get(i + 1).is_some_and(|nx| {
                let now: HashSet<usize> = t.ancestors(nx.parent).collect();
                t.ancestors(k.parent).any(|a| own[a] && !now.contains(&a))
            });
            first = !left;
            continue;
        }
        if !first {
            continue;
        }
        first = false;
        if sens[i] {
            continue;
        }
        let (l, s) = level[k.parent];
        let mut want = (if cfg.tab { "\t" } else { " " }).repeat(l * cfg.count as usize);
        want.push_str(&" ".repeat(s));
        let mut e = exp("indentation", "help", k.start);
        if k.tr == Tr::Ws {
            if t.tok_text(i) != want {
                e.edits.push((k.start, k.end, want));
                v.push(e);
            }
        } else if !want.is_empty() {
            e.edits.push((k.start, k.start, want));
            v.push(e);
        }
    }
    v
}

fn ws_between(t: &Tree) -> Vec<Exp> {
    let sens = sensitive_toks(t);
    let mut v = vec![];
    for i in 1..t.toks.len().saturating_sub(1) {
        let (a, b, c) = (&t.toks[i - 1], &t.toks[i], &t.toks[i + 1]);
        if a.tr == Tr::Lb && b.tr == Tr::Ws && c.tr == Tr::Lb && !sens[i - 1] {
            let mut e = exp("whitespace-between-line-breaks", "help", b.start);
            e.edits.push((b.start, b.end, String::new()));
            v.push(e);
        }
    }
    v
}

fn is_comment(k: &str) -> bool {
    matches!(k, "TWIG_COMMENT" | "HTML_COMMENT" | "LUDTWIG_DIRECTIVE_IGNORE" | "LUDTWIG_DIRECTIVE_FILE_IGNORE")
}
fn subtree_toks(t: &Tree, n: usize) -> Option<(usize, usize)> {
    let first = t.nodes[n].ch.iter().find_map(|c| match c {
        C::T(x) => Some(*x),
        C::N(x) => subtree_toks(t, *x).map(|r| r.0),
    })?;
    let last = t.nodes[n].ch.iter().rev().find_map(|c| match c {
        C::T(x) => Some(*x),
        C::N(x) => subtree_toks(t, *x).map(|r| r.1),
    })?;
    Some((first, last))
}
/// the reports for one block, as (block, expectation)
pub fn block_breaks_of(t: &Tree, cfg: &Cfg) -> Vec<(usize, Exp)> {
    let sens = sensitive_nodes(t);
    let mut v = vec![];
    for n in nodes(t, "TWIG_BLOCK") {
        let Some(end) = t.kid(n, "TWIG_ENDING_BLOCK") else { continue };
        if sens[n] {
            continue;
        }
        let prev = t.prev_sib(n);
        let comment = prev.filter(|p| is_comment(t.kind(*p)));
        let real_prev = if let Some(c) = comment { t.prev_sib(c) } else { prev };
        let next = t.next_sib(n);
        let real_next = match next {
            Some(x) if is_comment(t.kind(x)) => t.next_sib(x),
            x => x,
        };
        if t.nodes[n].parent == 0 && real_prev.is_none() {
            continue;
        }
        let many = if cfg.breaks { 2 } else { 1 };
        let start = subtree_toks(t, comment.unwrap_or(n)).unwrap().0;
        let mut places = vec![(start, if real_prev.is_some() { many } else { 1 })];
        let after = subtree_toks(t, end).unwrap().1 + 1;
        if after < t.toks.len() && !real_next.is_some_and(|x| t.kind(x) == "TWIG_BLOCK") {
            places.push((after, if next.is_some() { many } else { 1 }));
        }
        for (tok, amount) in places {
            let want = cfg.eol().repeat(amount);
            let mut stop = tok;
            while stop < t.toks.len() && t.toks[stop].tr != Tr::No {
                stop += 1;
            }
            let lbs: Vec<usize> = (tok..stop).filter(|x| t.toks[*x].tr == Tr::Lb).collect();
            if let (Some(a), Some(b)) = (lbs.first(), lbs.last()) {
                let (a, b) = (t.toks[*a].start, t.toks[*b].end);
                if t.text[a..b] != want {
                    let mut e = exp("twig-block-line-breaks", "help", a);
                    e.edits.push((a, b, want));
                    v.push((n, e));
                }
            } else {
                let at = t.toks[tok].start;
                let mut e = exp("twig-block-line-breaks", "help", at);
                e.edits.push((at, at, want));
                v.push((n, e));
            }
        }
    }
    v
}
fn block_breaks(t: &Tree, cfg: &Cfg) -> Vec<Exp> {
    block_breaks_of(t, cfg).into_iter().map(|x| x.1).collect()
}

fn html_quotes(t: &Tree, cfg: &Cfg) -> Vec<Exp> {
    let q = if cfg.hq_double { '"' } else { '\'' };
    let mut v = vec![];
    for n in nodes(t, "HTML_STRING") {
        let quotes: Vec<usize> = t.code_toks(n).collect();
        if quotes.len() == 2 && t.tok_text(quotes[0]).starts_with(q) {
            continue;
        }
        let inner = t.kid(n, "HTML_STRING_INNER").expect("inner");
        let mut e = exp("html-string-quotation", "help", t.content_start(n));
        if !t.node_text(inner).contains(q) {
            let w = q.to_string();
            if quotes.len() == 2 {
                for k in &quotes {
                    e.edits.push((t.toks[*k].start, t.toks[*k].end, w.clone()));
                }
            } else {
                let a = t.content_start(inner);
                e.edits.push((a, a, w.clone()));
                e.edits.push((t.nodes[inner].end, t.nodes[inner].end, w));
            }
        }
        v.push(e);
    }
    v
}
fn twig_quotes(t: &Tree, cfg: &Cfg) -> Vec<Exp> {
    let q = if cfg.tq_double { '"' } else { '\'' };
    let mut v = vec![];
    for n in nodes(t, "TWIG_LITERAL_STRING") {
        let quotes: Vec<usize> = t.code_toks(n).collect();
        if t.tok_text(quotes[0]).starts_with(q) {
            continue;
        }
        let inner = t.kid(n, "TWIG_LITERAL_STRING_INNER").expect("inner");
        if !cfg.tq_double && t.kid(inner, "TWIG_LITERAL_STRING_INTERPOLATION").is_some() {
            continue;
        }
        let mut e = exp("twig-string-quotation", "help", t.toks[quotes[0]].start);
        // double quotes would turn "#{" into an interpolation
        let interpolates = cfg.tq_double && t.node_text(inner).contains("#{");
        if !t.node_text(inner).contains(q) && !interpolates {
            for k in &quotes {
                e.edits.push((t.toks[*k].start, t.toks[*k].end, q.to_string()));
            }
        }
        v.push(e);
    }
    v
}
fn hash_keys(t: &Tree) -> Vec<Exp> {
    let mut v = vec![];
    for n in nodes(t, "TWIG_LITERAL_HASH_KEY") {
        let Some(s) = t.kid(n, "TWIG_LITERAL_STRING") else { continue };
        let Some(inner) = t.kid(s, "TWIG_LITERAL_STRING_INNER") else { continue };
        if !plain_key(t.node_text(inner)) {
            continue;
        }
        let quotes: Vec<usize> = t.code_toks(s).collect();
        let mut e = exp("twig-hash-key-no-quotes", "help", t.toks[quotes[0]].start);
        for k in &quotes {
            e.edits.push((t.toks[*k].start, t.toks[*k].end, String::new()));
        }
        v.push(e);
    }
    v
}

/// (starting block, name token)
pub fn block_name_tok(t: &Tree, block: usize) -> Option<usize> {
    let st = t.kid(block, "TWIG_STARTING_BLOCK")?;
    t.code_toks(st).nth(2)
}
fn block_names(t: &Tree) -> Vec<Exp> {
    nodes(t, "TWIG_BLOCK")
        .filter_map(|n| block_name_tok(t, n))
        .filter(|k| !snake(t.tok_text(*k), false))
        .map(|k| exp("twig-block-name-snake-case", "help", t.toks[k].start))
        .collect()
}
pub fn attr_name_tok(t: &Tree, n: usize) -> Option<usize> {
    t.code_toks(n).next().filter(|x| t.tok_text(*x) != "=")
}
/// the attribute's tag is a Twig component
pub fn in_component(t: &Tree, n: usize) -> bool {
    t.ancestors(n).find(|a| t.kind(*a) == "HTML_STARTING_TAG").and_then(|a| tag_name(t, a)).is_some_and(|x| x.starts_with("twig:"))
}
fn attr_names(t: &Tree) -> Vec<Exp> {
    nodes(t, "HTML_ATTRIBUTE")
        .filter(|n| !in_component(t, *n))
        .filter_map(|n| attr_name_tok(t, n))
        .filter(|k| !kebab(t.tok_text(*k)))
        .map(|k| exp("html-attribute-name-kebab-case", "help", t.toks[k].start))
        .collect()
}
fn var_names(t: &Tree) -> Vec<Exp> {
    let mut v = vec![];
    for n in 0..t.nodes.len() {
        let k = t.kind(n);
        if k != "TWIG_ASSIGNMENT" && k != "TWIG_FOR_BLOCK" {
            continue;
        }
        let constant = k == "TWIG_ASSIGNMENT"
            && t.kid(n, "TWIG_EXPRESSION")
                .and_then(|e| t.kid(e, "TWIG_FUNCTION_CALL"))
                .and_then(|c| call_name(t, c))
                .is_some_and(|x| t.tok_text(x) == "constant");
        for x in t.kids(n).filter(|x| t.kind(*x) == "TWIG_LITERAL_NAME") {
            let Some(tok) = t.code_toks(x).next() else { continue };
            let s = t.tok_text(tok);
            if if constant { !snake(s, true) } else { !camel(s) } {
                let mut e = exp("twig-variable-definition-naming", "help", t.toks[tok].start);
                e.name = Some((if constant { "constant" } else { "variable" }).to_owned());
                v.push(e);
            }
        }
    }
    v
}
fn ops(t: &Tree, rule: K, op: &str) -> Vec<Exp> {
    nodes(t, "TWIG_BINARY_EXPRESSION")
        .filter_map(|n| operator(t, n))
        .filter(|k| t.tok_text(*k) == op)
        .map(|k| exp(rule, "error", t.toks[k].start))
        .collect()
}
/// operands of a filter node: (left, right)
fn filter_ops(t: &Tree, n: usize) -> (usize, usize) {
    let o: Vec<usize> = t.kids(n).filter(|x| t.kind(*x) == "TWIG_OPERAND").collect();
    (o[0], o[1])
}
/// `... | json_encode ... | raw` as one chain
pub fn is_json_raw(t: &Tree, n: usize) -> bool {
    let (mut l, r) = filter_ops(t, n);
    if name_of(t, r).is_none_or(|k| t.tok_text(k) != "raw") {
        return false;
    }
    while let Some(f) = t.kid(l, "TWIG_FILTER") {
        let (l2, r2) = filter_ops(t, f);
        if name_of(t, r2).is_some_and(|k| t.tok_text(k) == "json_encode") {
            return true;
        }
        l = l2;
    }
    false
}
fn json_raw(t: &Tree) -> Vec<Exp> {
    nodes(t, "TWIG_FILTER")
        .filter(|n| is_json_raw(t, *n))
        .map(|n| exp("twig-json-encode-escape-js", "warning", t.content_start(filter_ops(t, n).1)))
        .collect()
}
/// `skip`: nodes whose subtree is not looked at
pub fn dup_blocks(t: &Tree, skip: &HashSet<usize>) -> Vec<Exp> {
    let mut seen: HashMap<&str, usize> = HashMap::new();
    let mut v = vec![];
    for n in nodes(t, "TWIG_BLOCK") {
        if t.ancestors(n).any(|a| skip.contains(&a)) {
            continue;
        }
        let Some(k) = block_name_tok(t, n) else { continue };
        let at = t.toks[k].start;
        match seen.get(t.tok_text(k)) {
            Some(first) => v.push(Exp { first: Some(*first), ..exp("twig-block-duplicate", "error", at) }),
            None => {
                seen.insert(t.tok_text(k), at);
            }
        }
    }
    v
}
pub fn dup_ids(t: &Tree, skip: &HashSet<usize>) -> Vec<Exp> {
    let mut seen: HashMap<&str, usize> = HashMap::new();
    let mut v = vec![];
    for n in nodes(t, "HTML_ATTRIBUTE") {
        if t.ancestors(n).any(|a| skip.contains(&a)) || attr_name_tok(t, n).is_none_or(|k| t.tok_text(k) != "id") {
            continue;
        }
        let Some(s) = t.kid(n, "HTML_STRING") else { continue };
        let Some(inner) = t.kid(s, "HTML_STRING_INNER") else { continue };
        if t.kids(inner).next().is_some() {
            continue;
        }
        let quoted = t.code_toks(s).next().is_some();
        let (lo, hi) = (t.nodes[inner].start, t.content_start(inner));
        let id = if quoted { t.node_text(inner) } else { t.node_text(inner).trim() };
        if id.is_empty() {
            continue;
        }
        match seen.get(id) {
            // (a label over several lines is drawn differently)
            Some(first) => v.push(Exp { first: Some(*first).filter(|_| !id.contains('\n')), hi, ..exp("html-duplicate-id", "warning", lo) }),
            None => {
                seen.insert(id, hi);
            }
        }
    }
    v
}

fn unknown(list: Option<&Vec<String>>, name: &str) -> bool {
    list.is_some_and(|l| !l.iter().any(|x| x == name))
}
fn filters(t: &Tree, cfg: &Cfg) -> Vec<Exp> {
    let mut v = vec![];
    let mut add = |k: usize| {
        if unknown(cfg.filters.as_ref(), t.tok_text(k)) {
            v.push(Exp { name: Some(format!("'{}'", t.tok_text(k))), ..exp("twig-valid-filter", "warning", t.toks[k].start) });
        }
    };
    for n in nodes(t, "TWIG_FILTER") {
        let (l, r) = filter_ops(t, n);
        if let Some(k) = name_of(t, r) {
            add(k);
        }
        // the first filter of a chain behind apply
        if t.parent(n).is_some() && in_apply_chain(t, n) {
            if let Some(k) = name_of(t, l) {
                add(k);
            }
        }
    }
    for n in nodes(t, "TWIG_APPLY_STARTING_BLOCK") {
        if let Some(k) = name_of(t, n) {
            add(k);
        }
    }
    v
}
/// `n` is the filter chain of an apply tag (not an expression inside of it)
pub fn in_apply_chain(t: &Tree, n: usize) -> bool {
    let mut cur = n;
    loop {
        let p = t.nodes[cur].parent;
        match t.kind(p) {
            "TWIG_APPLY_STARTING_BLOCK" => return true,
            "TWIG_OPERAND" => {
                // left operand of an outer filter
                let f = t.nodes[p].parent;
                if t.kind(f) != "TWIG_FILTER" || filter_ops(t, f).0 != p {
                    return false;
                }
                cur = f;
            }
            _ => return false,
        }
    }
}
/// the right hand side of `is` / `is not`
fn test_rhs(t: &Tree, n: usize) -> Option<usize> {
    let op = operator(t, n)?;
    if !matches!(t.tok_text(op), "is" | "is not") {
        return None;
    }
    t.kids(n).nth(1)
}
fn tests(t: &Tree, cfg: &Cfg) -> Vec<Exp> {
    let mut v = vec![];
    for n in nodes(t, "TWIG_BINARY_EXPRESSION") {
        let Some(r) = test_rhs(t, n) else { continue };
        let k = name_of(t, r).or_else(|| t.kid(r, "TWIG_FUNCTION_CALL").and_then(|c| call_name(t, c)));
        if let Some(k) = k {
            if unknown(cfg.tests.as_ref(), t.tok_text(k)) {
                v.push(Exp { name: Some(format!("'{}'", t.tok_text(k))), ..exp("twig-valid-test", "warning", t.toks[k].start) });
            }
        }
    }
    v
}
fn functions(t: &Tree, cfg: &Cfg) -> Vec<Exp> {
    let mut v = vec![];
    for n in nodes(t, "TWIG_FUNCTION_CALL") {
        let p = t.nodes[n].parent;
        if t.kind(p) == "TWIG_EXPRESSION" {
            let g = t.nodes[p].parent;
            if t.kind(g) == "TWIG_BINARY_EXPRESSION" && test_rhs(t, g) == Some(p) {
                continue;
            }
        }
        if let Some(k) = call_name(t, n) {
            if unknown(cfg.functions.as_ref(), t.tok_text(k)) {
                v.push(Exp { name: Some(format!("'{}'", t.tok_text(k))), ..exp("twig-valid-function", "warning", t.toks[k].start) });
            }
        }
    }
    v
}

/// (line, column) -> byte offset
pub struct Lines<'a> {
    text: &'a str,
    starts: Vec<usize>,
}
impl<'a> Lines<'a> {
    pub fn new(text: &'a str) -> Self {
        let mut starts = vec![0];
        starts.extend(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
        Lines { text, starts }
    }
    pub fn off(&self, line: usize, col: usize) -> Option<usize> {
        let s = *self.starts.get(line.checked_sub(1)?)?;
        let l = &self.text[s..];
        let k = col.checked_sub(1)?;
        if let Some((i, _)) = l.char_indices().nth(k) {
            return Some(s + i);
        }
        (l.chars().count() == k).then(|| self.text.len())
    }
    pub fn line(&self, off: usize) -> usize {
        self.starts.partition_point(|s| *s <= off)
    }
}

/// Compare the reports of the given rules with what is expected.
pub fn compare(text: &str, want: &[Exp], got: &[Diag]) -> Option<String> {
    let lines = Lines::new(text);
    let mut got: Vec<(usize, &Diag)> = got.iter().map(|d| (lines.off(d.line, d.col).unwrap_or(usize::MAX), d)).collect();
    got.sort_by_key(|g| g.0);
    let mut used = vec![false; got.len()];
    let mut want: Vec<&Exp> = want.iter().collect();
    want.sort_by_key(|e| (e.hi, e.lo));
    let at = |o: usize| {
        let (l, c) = line_col(text, o.min(text.len()));
        format!("{l}:{c}")
    };
    for e in want {
        let hit = got.iter().enumerate().position(|(i, (o, d))| !used[i] && d.rule == e.rule && (e.lo..=e.hi).contains(o));
        let Some(i) = hit else {
            return Some(format!("{} does not report {}", e.rule, at(e.hi)));
        };
        used[i] = true;
        let d = got[i].1;
        if d.sev != e.sev {
            return Some(format!("{} reports {} as {} instead of {}", e.rule, at(e.hi), d.sev, e.sev));
        }
        if let Some(n) = &e.name {
            if !d.msg.contains(n.as_str()) {
                return Some(format!("{} at {}: message {:?} does not mention {n}", e.rule, at(e.hi), d.msg));
            }
        }
        if let Some(f) = e.first {
            // the line printed above the "first defined here" mark
            let mut num = None;
            let mut seen = None;
            for l in d.body.lines() {
                let head = l.split('│').next().unwrap_or("").trim();
                if let Ok(x) = head.parse::<usize>() {
                    num = Some(x);
                }
                if l.contains("first defined here") {
                    seen = num;
                    break;
                }
            }
            if seen != Some(lines.line(f)) {
                return Some(format!("{} at {}: refers to line {seen:?} as the first definition, which is in line {}", e.rule, at(e.hi), lines.line(f)));
            }
        }
    }
    got.iter().zip(&used).find(|(_, u)| !**u).map(|((_, d), _)| format!("wrongly reported: {}", d.show()))
}

/// the text after all edits
pub fn apply(text: &str, want: &[Exp]) -> String {
    let mut e: Vec<&(usize, usize, String)> = want.iter().flat_map(|x| &x.edits).collect();
    e.sort();
    let mut o = String::new();
    let mut at = 0;
    for (a, b, r) in e {
        o.push_str(&text[at..*a]);
        o.push_str(r);
        at = *b;
    }
    o.push_str(&text[at..]);
    o
}
