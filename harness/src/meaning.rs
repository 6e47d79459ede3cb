//! The meaning of a template: its tree without layout and without the spellings that the active
//! rules are documented to change.
use crate::cli::*;
use crate::oracle::*;
use crate::tree::*;

struct M<'a> {
    t: &'a Tree,
    c: &'a Cfg,
    o: String,
}
fn squash(s: &str) -> String {
    s.split([' ', '\t', '\n', '\r']).filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ")
}
fn letters(s: &str) -> String {
    s.chars().filter(char::is_ascii_alphanumeric).map(|c| c.to_ascii_lowercase()).collect()
}
impl M<'_> {
    fn line(&mut self, d: usize, s: &str) {
        self.o.push_str(&" ".repeat(d));
        self.o.push_str(s);
        self.o.push('\n');
    }
    fn kids(&mut self, n: usize, d: usize) {
        let content = is_content(self.t.kind(n));
        let mut chunk = String::new();
        for c in &self.t.nodes[n].ch {
            match c {
                C::T(k) => {
                    if content {
                        chunk.push_str(self.t.tok_text(*k));
                    } else if self.t.toks[*k].tr == Tr::No {
                        let x = self.shown(*k);
                        self.line(d, &format!("'{x}'"));
                    }
                }
                C::N(x) => {
                    let w = squash(&std::mem::take(&mut chunk));
                    if !w.is_empty() {
                        self.line(d, &format!("\"{w}\""));
                    }
                    self.node(*x, d);
                }
            }
        }
        let w = squash(&chunk);
        if !w.is_empty() {
            self.line(d, &format!("\"{w}\""));
        }
    }
    /// a token outside of content (whitespace control belongs to the meaning)
    fn shown(&self, k: usize) -> String {
        let (t, c) = (self.t, self.c);
        let n = t.toks[k].parent;
        let x = t.tok_text(k);
        match t.kind(n) {
            "TWIG_STARTING_BLOCK" | "TWIG_ENDING_BLOCK" if c.has("twig-block-name-snake-case") && t.code_toks(n).nth(2) == Some(k) && !x.ends_with("%}") => letters(x),
            "HTML_ATTRIBUTE" if c.has("html-attribute-name-kebab-case") && attr_name_tok(t, n) == Some(k) && !in_component(t, n) => {
                let prefix: String = x.chars().filter(|c| ":@#".contains(*c)).collect();
                format!("{prefix}{}", letters(x))
            }
            "SHOPWARE_TWIG_SW_EXTENDS" if c.has("twig-prefer-shopware-extends") && x == "sw_extends" => "extends".to_owned(),
            _ => squash(x),
        }
    }
    fn node(&mut self, n: usize, d: usize) {
        let (t, c) = (self.t, self.c);
        match t.kind(n) {
            "TWIG_EXPRESSION" => {
                let kids: Vec<usize> = t.kids(n).collect();
                for k in kids {
                    self.node(k, d);
                }
            }
            "TWIG_PARENTHESES_EXPRESSION" => {
                let kids: Vec<usize> = t.kids(n).collect();
                for k in kids {
                    self.node(k, d);
                }
            }
            "TWIG_BINARY_EXPRESSION" => {
                let op = operator(t, n).map_or("", |k| t.tok_text(k));
                let kids: Vec<usize> = t.kids(n).collect();
                let same = (op == "===" && c.has("twig-use-is-same-as")) || (op == "!==" && c.has("twig-use-is-not-same-as"));
                let shown = match op {
                    "&&" if c.has("twig-logic-and") => "and",
                    "||" if c.has("twig-logic-or") => "or",
                    "===" if same => "is",
                    "!==" if same => "is not",
                    x => x,
                };
                self.line(d, &format!("binary {shown}"));
                if same && kids.len() == 2 {
                    self.node(kids[0], d + 1);
                    for (i, l) in ["TWIG_FUNCTION_CALL", "TWIG_OPERAND", "TWIG_LITERAL_NAME", "'same as'"].iter().enumerate() {
                        self.line(d + 1 + i, l);
                    }
                    self.line(d + 2, "TWIG_ARGUMENTS");
                    self.line(d + 3, "'('");
                    self.node(kids[1], d + 3);
                    self.line(d + 3, "')'");
                } else {
                    for k in kids {
                        self.node(k, d + 1);
                    }
                }
            }
            "TWIG_FILTER" if c.has("twig-json-encode-escape-js") && is_json_raw(t, n) => {
                self.line(d, "TWIG_FILTER");
                let l = t.kids(n).next().unwrap();
                self.node(l, d + 1);
                self.line(d + 1, "'|'");
                self.line(d + 1, "TWIG_OPERAND");
                self.line(d + 2, "TWIG_LITERAL_NAME");
                self.line(d + 3, "'escape'");
                self.line(d + 2, "TWIG_ARGUMENTS");
                self.line(d + 3, "'('");
                self.line(d + 3, "TWIG_LITERAL_STRING");
                if !c.has("twig-string-quotation") {
                    self.line(d + 4, "'''");
                }
                self.line(d + 4, "TWIG_LITERAL_STRING_INNER");
                self.line(d + 5, "\"js\"");
                if !c.has("twig-string-quotation") {
                    self.line(d + 4, "'''");
                }
                self.line(d + 3, "')'");
            }
            "TWIG_EXTENDS" | "SHOPWARE_TWIG_SW_EXTENDS" if c.has("twig-prefer-shopware-extends") => {
                self.line(d, "extends");
                self.kids(n, d + 1);
            }
            "TWIG_LITERAL_STRING" if c.has("twig-string-quotation") => {
                self.line(d, "TWIG_LITERAL_STRING");
                if let Some(i) = t.kid(n, "TWIG_LITERAL_STRING_INNER") {
                    self.node(i, d + 1);
                }
            }
            "HTML_STRING" if c.has("html-string-quotation") => {
                self.line(d, "HTML_STRING");
                if let Some(i) = t.kid(n, "HTML_STRING_INNER") {
                    self.node(i, d + 1);
                }
            }
            "TWIG_LITERAL_HASH_KEY" if c.has("twig-hash-key-no-quotes") => {
                let w = t.node_text(n).trim_matches(|x: char| x.is_whitespace() || x == '"' || x == '\'');
                if plain_key(w) && t.kid(n, "TWIG_EXPRESSION").is_none() {
                    self.line(d, "TWIG_LITERAL_HASH_KEY");
                    self.line(d + 1, &format!("'{w}'"));
                } else {
                    self.line(d, "TWIG_LITERAL_HASH_KEY");
                    self.kids(n, d + 1);
                }
            }
            k => {
                self.line(d, k);
                self.kids(n, d + 1);
            }
        }
    }
}
pub fn meaning(t: &Tree, c: &Cfg) -> String {
    let mut m = M { t, c, o: String::new() };
    m.node(0, 0);
    m.o
}

/// Everything inside of whitespace-sensitive content, one entry per outermost sensitive node,
/// line endings normalised if wanted. Elements count from behind their starting tag.
pub fn sensitive_content(t: &Tree, lf: bool) -> Vec<String> {
    let all = sensitive_nodes(t);
    let mut v = vec![];
    for n in 0..t.nodes.len() {
        let p = t.nodes[n].parent;
        if all[n] && (p == NONE || !all[p]) {
            let s = if t.kind(n) == "HTML_TAG" { t.content_start(n) } else { t.nodes[n].start };
            let c = &t.text[s..t.nodes[n].end];
            v.push(if lf { c.replace("\r\n", "\n") } else { c.to_owned() });
        }
    }
    v
}
