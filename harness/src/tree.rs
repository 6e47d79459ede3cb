//! A concrete syntax tree with spans: built by the generator (the reference) or converted from
//! the real parser's tree.
use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxKind, SyntaxNode};
use std::cell::RefCell;
use std::collections::HashMap;

pub type K = &'static str;
pub const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum C {
    N(usize),
    T(usize),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tr {
    No,
    Ws,
    Lb,
}
#[derive(Clone, Debug)]
pub struct Node {
    pub kind: K,
    pub parent: usize,
    pub ch: Vec<C>,
    pub start: usize,
    pub end: usize,
}
#[derive(Clone, Debug)]
pub struct Tk {
    pub parent: usize,
    pub tr: Tr,
    pub start: usize,
    pub end: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Tree {
    pub nodes: Vec<Node>,
    pub toks: Vec<Tk>,
    pub text: String,
}

pub fn intern(s: &str) -> K {
    thread_local!(static M: RefCell<HashMap<String, K>> = RefCell::new(HashMap::new()));
    M.with(|m| {
        if let Some(k) = m.borrow().get(s) {
            return *k;
        }
        let k: K = Box::leak(s.to_owned().into_boxed_str());
        m.borrow_mut().insert(s.to_owned(), k);
        k
    })
}
pub fn kind_name(k: SyntaxKind) -> K {
    thread_local!(static M: RefCell<Vec<(SyntaxKind, K)>> = const { RefCell::new(Vec::new()) });
    M.with(|m| {
        if let Some((_, n)) = m.borrow().iter().find(|(x, _)| *x == k) {
            return *n;
        }
        let n = intern(&format!("{k:?}"));
        m.borrow_mut().push((k, n));
        n
    })
}

impl Tree {
    pub fn tok_text(&self, t: usize) -> &str {
        &self.text[self.toks[t].start..self.toks[t].end]
    }
    pub fn node_text(&self, n: usize) -> &str {
        &self.text[self.nodes[n].start..self.nodes[n].end]
    }
    pub fn kind(&self, n: usize) -> K {
        self.nodes[n].kind
    }
    pub fn parent(&self, n: usize) -> Option<usize> {
        let p = self.nodes[n].parent;
        if p == NONE { None } else { Some(p) }
    }
    pub fn kids(&self, n: usize) -> impl Iterator<Item = usize> + '_ {
        self.nodes[n].ch.iter().filter_map(|c| if let C::N(x) = c { Some(*x) } else { None })
    }
    pub fn kid(&self, n: usize, kind: &str) -> Option<usize> {
        self.kids(n).find(|x| self.nodes[*x].kind == kind)
    }
    pub fn toks_of(&self, n: usize) -> impl Iterator<Item = usize> + '_ {
        self.nodes[n].ch.iter().filter_map(|c| if let C::T(x) = c { Some(*x) } else { None })
    }
    /// non trivia direct tokens
    pub fn code_toks(&self, n: usize) -> impl Iterator<Item = usize> + '_ {
        self.toks_of(n).filter(|t| self.toks[*t].tr == Tr::No)
    }
    pub fn pos_in_parent(&self, n: usize) -> usize {
        let p = self.nodes[n].parent;
        self.nodes[p].ch.iter().position(|c| *c == C::N(n)).unwrap()
    }
    pub fn prev_sib_el(&self, n: usize) -> Option<C> {
        let p = self.parent(n)?;
        let i = self.pos_in_parent(n);
        if i == 0 { None } else { Some(self.nodes[p].ch[i - 1]) }
    }
    pub fn next_sib_el(&self, n: usize) -> Option<C> {
        let p = self.parent(n)?;
        let i = self.pos_in_parent(n);
        self.nodes[p].ch.get(i + 1).copied()
    }
    pub fn prev_sib(&self, n: usize) -> Option<usize> {
        let p = self.parent(n)?;
        let i = self.pos_in_parent(n);
        self.nodes[p].ch[..i].iter().rev().find_map(|c| if let C::N(x) = c { Some(*x) } else { None })
    }
    pub fn next_sib(&self, n: usize) -> Option<usize> {
        let p = self.parent(n)?;
        let i = self.pos_in_parent(n);
        self.nodes[p].ch[i + 1..].iter().find_map(|c| if let C::N(x) = c { Some(*x) } else { None })
    }
    pub fn ancestors(&self, n: usize) -> Anc<'_> {
        Anc { t: self, cur: Some(n) }
    }
    pub fn has_anc(&self, n: usize, kind: &str) -> bool {
        self.ancestors(n).any(|a| self.nodes[a].kind == kind)
    }
    /// start of the first non-trivia token below n
    pub fn content_start(&self, n: usize) -> usize {
        self.first_code_tok(n).map_or(self.nodes[n].start, |t| self.toks[t].start)
    }
    pub fn first_code_tok(&self, n: usize) -> Option<usize> {
        for c in &self.nodes[n].ch {
            match c {
                C::T(t) if self.toks[*t].tr == Tr::No => return Some(*t),
                C::T(_) => {}
                C::N(x) => {
                    if let Some(t) = self.first_code_tok(*x) {
                        return Some(t);
                    }
                }
            }
        }
        None
    }
    /// Shape: node kinds and text without white space, as a canonical string
    pub fn shape(&self, opts: &ShapeOpts) -> String {
        let mut s = String::new();
        if !self.nodes.is_empty() {
            self.shape_of(0, opts, &mut s, 0);
        }
        s
    }
    pub fn shape_node(&self, n: usize, opts: &ShapeOpts) -> String {
        let mut s = String::new();
        self.shape_of(n, opts, &mut s, 0);
        s
    }
    fn shape_of(&self, n: usize, o: &ShapeOpts, s: &mut String, d: usize) {
        for _ in 0..d {
            s.push(' ');
        }
        s.push_str(self.nodes[n].kind);
        s.push('\n');
        // merge adjacent tokens into one chunk
        let content = is_content(self.nodes[n].kind);
        let mut chunk = String::new();
        let flush = |chunk: &mut String, s: &mut String| {
            if !chunk.is_empty() {
                for _ in 0..=d {
                    s.push(' ');
                }
                s.push('"');
                s.push_str(chunk);
                s.push_str("\"\n");
                chunk.clear();
            }
        };
        for c in &self.nodes[n].ch {
            match c {
                C::T(t) => {
                    let tx = self.tok_text(*t);
                    if self.toks[*t].tr == Tr::No {
                        let tx = if o.norm_ctrl { norm_ctrl(tx) } else { tx };
                        let st: String = tx.chars().filter(|c| !c.is_whitespace()).collect();
                        chunk.push_str(&st);
                        if !content {
                            chunk.push(' ');
                        }
                    }
                }
                C::N(x) => {
                    flush(&mut chunk, s);
                    self.shape_of(*x, o, s, d + 1);
                }
            }
        }
        flush(&mut chunk, s);
    }
    pub fn from_syntax(root: &SyntaxNode) -> Tree {
        let mut t = Tree { nodes: vec![], toks: vec![], text: root.text().to_string() };
        t.add(root, NONE);
        t
    }
    fn add(&mut self, n: &SyntaxNode, parent: usize) -> usize {
        let r = n.text_range();
        let id = self.nodes.len();
        self.nodes.push(Node {
            kind: kind_name(n.kind()),
            parent,
            ch: vec![],
            start: usize::from(r.start()),
            end: usize::from(r.end()),
        });
        for c in n.children_with_tokens() {
            match c {
                SyntaxElement::Node(x) => {
                    let k = self.add(&x, id);
                    self.nodes[id].ch.push(C::N(k));
                }
                SyntaxElement::Token(x) => {
                    let r = x.text_range();
                    let k = self.toks.len();
                    let tr = match kind_name(x.kind()) {
                        "TK_WHITESPACE" => Tr::Ws,
                        "TK_LINE_BREAK" => Tr::Lb,
                        _ => Tr::No,
                    };
                    self.toks.push(Tk { parent: id, tr, start: usize::from(r.start()), end: usize::from(r.end()) });
                    self.nodes[id].ch.push(C::T(k));
                }
            }
        }
        id
    }
}

pub struct Anc<'a> {
    t: &'a Tree,
    cur: Option<usize>,
}
impl Iterator for Anc<'_> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        let c = self.cur?;
        self.cur = self.t.parent(c);
        Some(c)
    }
}

pub struct ShapeOpts {
    pub norm_ctrl: bool,
}

pub fn is_content(kind: &str) -> bool {
    matches!(
        kind,
        "HTML_TEXT" | "HTML_RAW_TEXT" | "HTML_COMMENT" | "TWIG_COMMENT" | "HTML_STRING_INNER" | "TWIG_LITERAL_STRING_INNER" | "BODY" | "ROOT"
    )
}

pub fn norm_ctrl(t: &str) -> &str {
    match t {
        "{%-" | "{%~" => "{%",
        "-%}" | "~%}" => "%}",
        "{{-" | "{{~" => "{{",
        "-}}" | "~}}" => "}}",
        "{#-" | "{#~" => "{#",
        "-#}" | "~#}" => "#}",
        x => x,
    }
}

/// Builder used by the emitter: trivia is kept pending and attached before the next token, the
/// way the parser attaches it.
#[derive(Default)]
pub struct Builder {
    pub t: Tree,
    stack: Vec<usize>,
    pending: String,
}

impl Builder {
    pub fn open(&mut self, kind: K) -> usize {
        let parent = self.stack.last().copied().unwrap_or(NONE);
        let id = self.t.nodes.len();
        let at = self.t.text.len();
        self.t.nodes.push(Node { kind, parent, ch: vec![], start: at, end: at });
        if parent != NONE {
            self.t.nodes[parent].ch.push(C::N(id));
        }
        self.stack.push(id);
        id
    }
    pub fn close(&mut self) {
        let id = self.stack.pop().unwrap();
        // spans: computed in finish()
        let _ = id;
    }
    pub fn trivia(&mut self, s: &str) {
        self.pending.push_str(s);
    }
    pub fn pending(&self) -> &str {
        &self.pending
    }
    fn push_tok(&mut self, tr: Tr, s: &str) {
        let parent = *self.stack.last().unwrap();
        let start = self.t.text.len();
        self.t.text.push_str(s);
        let id = self.t.toks.len();
        self.t.toks.push(Tk { parent, tr, start, end: start + s.len() });
        self.t.nodes[parent].ch.push(C::T(id));
    }
    pub fn flush(&mut self) {
        let p = std::mem::take(&mut self.pending);
        for (tr, s) in split_trivia(&p) {
            self.push_tok(tr, s);
        }
    }
    pub fn tok(&mut self, s: &str) {
        self.flush();
        self.push_tok(Tr::No, s);
    }
    pub fn finish(mut self) -> Tree {
        self.flush();
        while self.stack.pop().is_some() {}
        // compute spans bottom-up; empty nodes sit where the next content starts in the tree
        fn span(t: &mut Tree, n: usize, at: usize) -> usize {
            let ch = t.nodes[n].ch.clone();
            let mut pos = at;
            for c in ch {
                pos = match c {
                    C::T(k) => t.toks[k].end,
                    C::N(k) => span(t, k, pos),
                };
            }
            t.nodes[n].start = at;
            t.nodes[n].end = pos;
            pos
        }
        if !self.t.nodes.is_empty() {
            span(&mut self.t, 0, 0);
        }
        self.t
    }
}

pub fn split_trivia(p: &str) -> Vec<(Tr, &str)> {
    let b = p.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let s = i;
        if b[i] == b' ' || b[i] == b'\t' {
            while i < b.len() && (b[i] == b' ' || b[i] == b'\t') {
                i += 1;
            }
            out.push((Tr::Ws, &p[s..i]));
        } else {
            while i < b.len() && (b[i] == b'\n' || b[i] == b'\r') {
                i += 1;
            }
            assert!(i > s, "not trivia: {p:?}");
            out.push((Tr::Lb, &p[s..i]));
        }
    }
    out
}

/// byte offset -> (line, column) as printed by the linter (1-based, columns in characters)
pub fn line_col(text: &str, off: usize) -> (usize, usize) {
    let before = &text[..off];
    let line = before.matches('\n').count() + 1;
    let ls = before.rfind('\n').map_or(0, |i| i + 1);
    (line, text[ls..off].chars().count() + 1)
}
