//! Writes a model out as source text, together with the tree the parser is expected to produce.
use crate::ast::*;
use crate::tape::Src;
use crate::tree::*;

/// How white space is chosen.
#[derive(Clone, Debug)]
pub struct Style {
    /// 0..=16: how often a gap inside code deviates from its canonical form
    pub wild: u32,
    /// may gaps inside code contain line breaks
    pub code_nl: bool,
    /// gaps between siblings deviate (0..=16)
    pub sib_wild: u32,
    /// 0 LF, 1 CRLF, 2 mixed
    pub eol: u32,
    /// 0..=16: whitespace control marks
    pub ctrl: u32,
    pub tabs: bool,
    pub attr_nl: bool,
}
impl Style {
    pub fn canonical() -> Self {
        Style { wild: 0, code_nl: false, sib_wild: 0, eol: 0, ctrl: 0, tabs: false, attr_nl: false }
    }
    pub fn random(s: &mut Src) -> Self {
        Style {
            wild: [0, 1, 3, 6, 12][s.idx(5)],
            code_nl: s.chance(1, 2),
            sib_wild: [0, 4, 8, 12][s.idx(4)],
            eol: [0, 0, 0, 1, 1, 2][s.idx(6)],
            ctrl: [0, 0, 2, 6][s.idx(4)],
            tabs: s.chance(1, 3),
            attr_nl: s.chance(1, 3),
        }
    }
    pub fn lf(mut self) -> Self {
        self.eol = 0;
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum G {
    /// glued to the previous token
    N,
    /// canonically no gap
    T,
    /// canonically one space
    S,
    /// at least one blank
    R,
}

pub struct Em<'a> {
    pub b: Builder,
    pub s: &'a mut Src,
    pub st: Style,
    prev: String,
    /// depth of bodies, used for canonical layout only
    depth: usize,
}

fn wordy(c: char) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | '@' | '#' | '$') || !c.is_ascii()
}
fn opch(c: char) -> bool {
    matches!(c, '.' | ':' | '!' | '?' | '%' | '~' | '|' | '&' | '/' | '<' | '>' | '=' | '+' | '-' | '*' | '\\' | '{' | '}' | '#' | ';' | '`')
}

pub fn needs_space(prev: &str, next: &str) -> bool {
    let (Some(p), Some(n)) = (prev.chars().last(), next.chars().next()) else { return false };
    if wordy(p) && wordy(n) {
        return true;
    }
    if p.is_ascii_digit() && n == '.' {
        return next != "..";
    }
    if p == '.' && n.is_ascii_digit() {
        return prev != "." && prev != "..";
    }
    opch(p) && opch(n)
}
/// between siblings on the HTML level
fn needs_space_sib(prev: &str, next: &str) -> bool {
    let (Some(p), Some(n)) = (prev.chars().last(), next.chars().next()) else { return false };
    (prev == "{" || prev == "<" || p == '{') || (p == '>' && n == '=') || (prev.ends_with('<'))
}

impl<'a> Em<'a> {
    pub fn new(s: &'a mut Src, st: Style) -> Self {
        Em { b: Builder::default(), s, st, prev: String::new(), depth: 0 }
    }
    fn nl(&mut self) -> &'static str {
        match self.st.eol {
            0 => "\n",
            1 => "\r\n",
            _ => {
                if self.s.chance(1, 2) {
                    "\r\n"
                } else {
                    "\n"
                }
            }
        }
    }
    fn blank(&mut self) -> String {
        match self.s.idx(6) {
            0 => " ".into(),
            1 => "  ".into(),
            2 => "    ".into(),
            3 if self.st.tabs => "\t".into(),
            4 if self.st.tabs => " \t ".into(),
            5 if self.s.chance(1, 12) => " ".repeat(self.s.range(10, 90) as usize),
            5 => " ".repeat(self.s.range(3, 9) as usize),
            _ => " ".into(),
        }
    }
    /// a gap inside code, before token `next`
    fn gap(&mut self, g: G, next: &str) {
        if g == G::N {
            return;
        }
        let need = g == G::R || needs_space(&self.prev, next);
        let canon = match g {
            G::S | G::R => " ",
            _ => "",
        };
        let mut out = String::new();
        if self.st.wild > 0 && self.s.chance(self.st.wild, 16) {
            let k = self.s.idx(if self.st.code_nl { 9 } else { 4 });
            match k {
                0 => {}
                1 => out.push(' '),
                2 | 3 => out = self.blank(),
                4 | 5 => out.push_str(self.nl()),
                6 => {
                    out.push_str(self.nl());
                    out.push_str(&self.blank());
                }
                7 => {
                    out.push(' ');
                    out.push_str(self.nl());
                    out.push_str(self.nl());
                    out.push_str(&self.blank());
                }
                _ => {
                    out.push_str(self.nl());
                    out.push_str(&self.blank());
                    out.push_str(self.nl());
                }
            }
        } else {
            out.push_str(canon);
        }
        if out.is_empty() && need {
            out.push(' ');
        }
        self.b.trivia(&out);
    }
    pub fn t(&mut self, g: G, s: &str) {
        if self.b.pending().is_empty() {
            self.gap(g, s);
        } else if g != G::N {
            // a gap is already pending (after an empty node)
        }
        self.b.tok(s);
        s.clone_into(&mut self.prev);
    }
    fn o(&mut self, k: K) {
        self.b.open(k);
    }
    fn c(&mut self) {
        self.b.close();
    }
    fn ctrl(&mut self) -> usize {
        if self.st.ctrl > 0 && self.s.chance(self.st.ctrl, 16) { 1 + self.s.idx(2) } else { 0 }
    }
    /// open delimiter: gap before it was chosen by the caller
    fn open_delim(&mut self, which: u8) {
        let i = self.ctrl();
        let d = match which {
            b'%' => ["{%", "{%-", "{%~"][i],
            b'{' => ["{{", "{{-", "{{~"][i],
            _ => ["{#", "{#-", "{#~"][i],
        };
        self.t(G::N, d);
    }
    fn close_delim(&mut self, which: u8) {
        let i = self.ctrl();
        let d = match which {
            b'%' => ["%}", "-%}", "~%}"][i],
            b'{' => ["}}", "-}}", "~}}"][i],
            _ => ["#}", "-#}", "~#}"][i],
        };
        self.t(G::S, d);
    }

    // ---------------------------------------------------------------- expressions
    /// full expression: TWIG_EXPRESSION
    pub fn ex(&mut self, e: &Ex, g: G) {
        match e {
            Ex::Tern(c, t, f) => {
                self.o("TWIG_EXPRESSION");
                self.o("TWIG_CONDITIONAL_EXPRESSION");
                self.ex(c, g);
                self.t(G::S, "?");
                if let Some(t) = t {
                    self.ex(t, G::S);
                }
                if let Some(f) = f {
                    self.t(if t.is_none() { G::T } else { G::S }, ":");
                    self.ex(f, G::S);
                }
                self.c();
                self.c();
            }
            Ex::Bin(..) => {
                self.o("TWIG_EXPRESSION");
                self.bin(e, g);
                self.c();
            }
            _ => {
                self.o("TWIG_EXPRESSION");
                self.prim(e, g);
                self.c();
            }
        }
    }
    /// a binary expression without the outer wrapper
    fn bin(&mut self, e: &Ex, g: G) {
        let Ex::Bin(op, l, r) = e else { unreachable!() };
        self.o("TWIG_BINARY_EXPRESSION");
        if let Ex::Bin(..) = **l {
            self.bin(l, g);
        } else {
            self.ex(l, g);
        }
        self.op(op);
        self.ex(r, G::S);
        self.c();
    }
    fn op(&mut self, op: &str) {
        self.t(G::S, op);
    }
    fn prim(&mut self, e: &Ex, g: G) {
        match e {
            Ex::Num(s) => {
                self.o("TWIG_LITERAL_NUMBER");
                self.t(g, s);
                self.c();
            }
            Ex::Str(s) => self.string(s, g),
            Ex::Arr(v, trailing) => {
                self.o("TWIG_LITERAL_ARRAY");
                self.t(g, "[");
                self.o("TWIG_LITERAL_ARRAY_INNER");
                for (i, x) in v.iter().enumerate() {
                    self.ex(x, if i == 0 { G::T } else { G::S });
                    if i + 1 < v.len() || *trailing {
                        self.t(G::T, ",");
                    }
                }
                self.c();
                self.t(G::T, "]");
                self.c();
            }
            Ex::Null(s) => {
                self.o("TWIG_LITERAL_NULL");
                self.t(g, s);
                self.c();
            }
            Ex::Bool(s) => {
                self.o("TWIG_LITERAL_BOOLEAN");
                self.t(g, s);
                self.c();
            }
            Ex::Hash(v, trailing) => {
                self.o("TWIG_LITERAL_HASH");
                self.t(g, "{");
                self.o("TWIG_LITERAL_HASH_ITEMS");
                for (i, (k, x)) in v.iter().enumerate() {
                    let g = if i == 0 { G::T } else { G::S };
                    self.o("TWIG_LITERAL_HASH_PAIR");
                    self.o("TWIG_LITERAL_HASH_KEY");
                    match k {
                        Key::Bare(n) => self.t(g, n),
                        Key::Num(n) => {
                            self.o("TWIG_LITERAL_NUMBER");
                            self.t(g, n);
                            self.c();
                        }
                        Key::Str(s) => self.string(s, g),
                        Key::Paren(e) => {
                            self.t(g, "(");
                            self.ex(e, G::T);
                            self.t(G::T, ")");
                        }
                    }
                    self.c();
                    if let Some(x) = x {
                        self.t(G::T, ":");
                        self.ex(x, G::S);
                    }
                    self.c();
                    if i + 1 < v.len() || *trailing {
                        self.t(G::T, ",");
                    }
                }
                self.c();
                self.t(G::T, "}");
                self.c();
            }
            Ex::Name(n) => self.name(n, g),
            Ex::Call(f, a) => {
                self.o("TWIG_FUNCTION_CALL");
                self.o("TWIG_OPERAND");
                self.prim(f, g);
                self.c();
                self.args(a);
                self.c();
            }
            Ex::Implicit(n, x) => {
                self.o("TWIG_FUNCTION_CALL");
                self.o("TWIG_OPERAND");
                self.name(n, g);
                self.c();
                self.o("TWIG_ARGUMENTS");
                self.ex(x, G::R);
                self.c();
                self.c();
            }
            Ex::Arrow { params, paren, body } => {
                self.o("TWIG_ARROW_FUNCTION");
                self.o("TWIG_ARGUMENTS");
                if *paren {
                    self.t(g, "(");
                    for (i, p) in params.iter().enumerate() {
                        self.name(p, if i == 0 { G::T } else { G::S });
                        if i + 1 < params.len() {
                            self.t(G::T, ",");
                        }
                    }
                    self.t(G::T, ")");
                } else {
                    self.name(&params[0], g);
                }
                self.c();
                self.t(G::S, "=>");
                self.ex(body, G::S);
                self.c();
            }
            Ex::Paren(x) => {
                self.o("TWIG_PARENTHESES_EXPRESSION");
                self.t(g, "(");
                self.ex(x, G::T);
                self.t(G::T, ")");
                self.c();
            }
            Ex::Un(op, x) => {
                self.o("TWIG_UNARY_EXPRESSION");
                self.t(g, op);
                self.ex(x, if *op == "not" { G::S } else { G::T });
                self.c();
            }
            Ex::Filter(x, n, a) => {
                self.o("TWIG_FILTER");
                self.o("TWIG_OPERAND");
                self.prim(x, g);
                self.c();
                self.t(G::T, "|");
                self.o("TWIG_OPERAND");
                self.name(n, G::T);
                if let Some(a) = a {
                    self.args(a);
                }
                self.c();
                self.c();
            }
            Ex::Idx(x, i) => {
                self.o("TWIG_INDEX_LOOKUP");
                self.o("TWIG_OPERAND");
                self.prim(x, g);
                self.c();
                self.t(G::T, "[");
                self.o("TWIG_INDEX");
                self.ex(i, G::T);
                self.c();
                self.t(G::T, "]");
                self.c();
            }
            Ex::Slice(x, a, b) => {
                self.o("TWIG_INDEX_LOOKUP");
                self.o("TWIG_OPERAND");
                self.prim(x, g);
                self.c();
                self.t(G::T, "[");
                self.o("TWIG_INDEX_RANGE");
                if let Some(a) = a {
                    self.ex(a, G::T);
                }
                self.t(G::T, ":");
                if let Some(b) = b {
                    self.ex(b, G::T);
                }
                self.c();
                self.t(G::T, "]");
                self.c();
            }
            Ex::Acc(x, n) => {
                self.o("TWIG_ACCESSOR");
                self.o("TWIG_OPERAND");
                self.prim(x, g);
                self.c();
                self.t(G::T, ".");
                self.o("TWIG_OPERAND");
                self.name(n, G::T);
                self.c();
                self.c();
            }
            Ex::AccNum(x, n) => {
                self.o("TWIG_INDEX_LOOKUP");
                self.o("TWIG_OPERAND");
                self.prim(x, g);
                self.c();
                self.t(G::T, ".");
                self.o("TWIG_INDEX");
                self.o("TWIG_EXPRESSION");
                self.o("TWIG_LITERAL_NUMBER");
                self.t(G::T, n);
                self.c();
                self.c();
                self.c();
                self.c();
            }
            Ex::Tern(..) | Ex::Bin(..) => unreachable!("not a primary: {e:?}"),
        }
    }
    fn name(&mut self, n: &str, g: G) {
        self.o("TWIG_LITERAL_NAME");
        self.t(g, n);
        self.c();
    }
    fn args(&mut self, a: &Args) {
        self.o("TWIG_ARGUMENTS");
        self.t(G::T, "(");
        for (i, x) in a.items.iter().enumerate() {
            let g = if i == 0 { G::T } else { G::S };
            match x {
                Arg::Pos(e) => self.ex(e, g),
                Arg::Named(n, e) => {
                    self.o("TWIG_NAMED_ARGUMENT");
                    self.t(g, n);
                    self.t(G::T, "=");
                    self.ex(e, G::T);
                    self.c();
                }
            }
            if i + 1 < a.items.len() || a.trailing {
                self.t(G::T, ",");
            }
        }
        self.t(G::T, ")");
        self.c();
    }
    pub fn string(&mut self, s: &Str, g: G) {
        self.o("TWIG_LITERAL_STRING");
        let q = s.q.to_string();
        self.t(g, &q);
        self.o("TWIG_LITERAL_STRING_INNER");
        for p in &s.parts {
            match p {
                SPart::Text(t) => self.raw_text(t),
                SPart::Interp(e) => {
                    self.b.flush();
                    self.o("TWIG_LITERAL_STRING_INTERPOLATION");
                    self.t(G::N, "#");
                    self.t(G::N, "{");
                    self.ex(e, G::T);
                    self.t(G::T, "}");
                    self.c();
                }
            }
        }
        self.b.flush();
        self.c();
        self.t(G::N, &q);
        self.c();
    }
    /// verbatim text: split into trivia and other pieces
    fn raw_text(&mut self, t: &str) {
        let mut i = 0;
        let is_ws = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r');
        while i < t.len() {
            let rest = &t[i..];
            let ws: usize = rest.chars().take_while(|c| is_ws(*c)).map(char::len_utf8).sum();
            if ws > 0 {
                self.b.trivia(&rest[..ws]);
                i += ws;
                continue;
            }
            let w: usize = rest.chars().take_while(|c| !is_ws(*c)).map(char::len_utf8).sum();
            self.b.tok(&rest[..w]);
            rest[..w].clone_into(&mut self.prev);
            i += w;
        }
    }

    // ---------------------------------------------------------------- siblings
    fn sib_gap(&mut self, next_first: &str, must: bool) {
        let mut out = String::new();
        if self.st.sib_wild > 0 && self.s.chance(self.st.sib_wild, 16) {
            match self.s.idx(10) {
                0 => {}
                1 => out.push(' '),
                2 => out = self.blank(),
                3 | 4 => {
                    out.push_str(self.nl());
                    out.push_str(&self.blank());
                }
                5 => {
                    out.push_str(self.nl());
                    out.push_str(self.nl());
                    out.push_str(&"    ".repeat(self.depth.min(6)));
                }
                6 => {
                    out.push_str(self.nl());
                    out.push_str(&self.blank());
                    out.push_str(self.nl());
                    out.push_str(&self.blank());
                }
                7 => {
                    // now and then a long run
                    let many = if self.s.chance(1, 20) { self.s.range(20, 140) } else { self.s.range(1, 4) };
                    for _ in 0..many {
                        out.push_str(self.nl());
                    }
                }
                8 => {
                    out.push_str(&self.blank());
                    out.push_str(self.nl());
                    out.push_str(&"    ".repeat(self.depth.min(6)));
                }
                _ => {
                    out.push_str(self.nl());
                    out.push('\t');
                }
            }
        } else {
            out.push_str(self.nl());
            out.push_str(&"    ".repeat(self.depth.min(6)));
        }
        if out.is_empty() && (must || needs_space_sib(&self.prev, next_first)) {
            out.push(' ');
        }
        if self.prev.is_empty() && self.b.t.text.is_empty() && self.st.sib_wild == 0 {
            out.clear();
        }
        self.b.trivia(&out);
    }
    fn first_char(n: &Nd) -> &str {
        match n {
            Nd::Text(p) | Nd::Raw(p) => p.first().map_or("", String::as_str),
            Nd::Attr(_) => "a",
            _ => "<",
        }
    }
    pub fn doc(mut self, body: &[Nd]) -> Tree {
        self.o("ROOT");
        for n in body {
            self.sib_gap(Self::first_char(n), false);
            self.node(n, Ctx::Html);
        }
        if self.st.sib_wild > 0 || !body.is_empty() {
            self.sib_gap("", false);
        }
        self.b.finish()
    }
    fn body(&mut self, v: &[Nd], ctx: Ctx) {
        self.o("BODY");
        self.depth += 1;
        match ctx {
            Ctx::Html => {
                for n in v {
                    self.sib_gap(Self::first_char(n), false);
                    self.node(n, ctx);
                }
            }
            Ctx::Attrs => {
                for n in v {
                    self.sib_gap("a", true);
                    self.node(n, ctx);
                }
            }
            Ctx::Value => {
                for n in v {
                    self.value_gap();
                    self.node(n, ctx);
                }
            }
            Ctx::Raw => {
                if !v.is_empty() {
                    self.o("HTML_RAW_TEXT");
                    for n in v {
                        self.raw_gap();
                        self.node(n, ctx);
                    }
                    self.c();
                }
            }
        }
        self.depth -= 1;
        self.c();
        match ctx {
            Ctx::Html | Ctx::Attrs => self.sib_gap("<", false),
            Ctx::Value => self.value_gap(),
            Ctx::Raw => self.raw_gap(),
        }
    }
    fn value_gap(&mut self) {
        let mut out = String::new();
        if self.st.sib_wild > 0 && self.s.chance(self.st.sib_wild, 16) {
            match self.s.idx(4) {
                0 => out.push(' '),
                1 => out = self.blank(),
                2 => {
                    out.push_str(self.nl());
                    out.push_str(&self.blank());
                }
                _ => out.push_str(self.nl()),
            }
        }
        if out.is_empty() && (self.prev.ends_with('{') || self.prev.ends_with('<')) {
            out.push(' ');
        }
        self.b.trivia(&out);
    }
    fn raw_gap(&mut self) {
        let mut out = String::new();
        if self.st.sib_wild > 0 && self.s.chance(self.st.sib_wild, 16) {
            match self.s.idx(5) {
                0 => {}
                1 => out.push(' '),
                2 => {
                    out.push_str(self.nl());
                    out.push_str(&self.blank());
                }
                3 => {
                    out.push_str(self.nl());
                    out.push_str(&self.blank());
                    out.push_str(self.nl());
                }
                _ => out.push_str(self.nl()),
            }
        } else {
            out.push_str(self.nl());
            out.push_str(&"    ".repeat(self.depth.min(6)));
        }
        if out.is_empty() && (self.prev.ends_with('{') || self.prev.ends_with('<') || self.prev.ends_with('>')) {
            out.push(' ');
        }
        self.b.trivia(&out);
    }
    fn pieces(&mut self, p: &[String]) {
        for (i, x) in p.iter().enumerate() {
            if i > 0 {
                let prev = self.prev.clone();
                self.prev.clear();
                self.gap(G::R, x);
                self.prev = prev;
                if self.b.pending().is_empty() {
                    self.b.trivia(" ");
                }
            }
            self.b.tok(x);
            x.clone_into(&mut self.prev);
        }
    }
    /// gap before it was already emitted by the caller
    fn node(&mut self, n: &Nd, ctx: Ctx) {
        match n {
            Nd::Text(p) => {
                // characters the lexer does not know stay outside of the text node when leading
                let first = &p[0];
                let lead: usize = first.chars().take_while(|c| !c.is_ascii()).map(char::len_utf8).sum();
                if lead > 0 {
                    self.b.tok(&first[..lead]);
                    first[..lead].clone_into(&mut self.prev);
                }
                let mut p2 = p.clone();
                p2[0] = first[lead..].to_owned();
                if p2[0].is_empty() {
                    p2.remove(0);
                    if p2.is_empty() {
                        return;
                    }
                    // leading characters of the following pieces too
                    self.b.trivia(" ");
                    return self.node(&Nd::Text(p2), ctx);
                }
                self.o("HTML_TEXT");
                self.pieces(&p2);
                self.c();
            }
            Nd::Raw(p) => self.pieces(p),
            Nd::Cmt(p) => {
                self.o("HTML_COMMENT");
                self.t(G::N, "<!--");
                for x in p {
                    self.gap(G::R, x);
                    self.b.tok(x);
                    x.clone_into(&mut self.prev);
                }
                self.t(G::R, "-->");
                self.c();
            }
            Nd::TCmt(p) => {
                self.o("TWIG_COMMENT");
                self.open_delim(b'#');
                for x in p {
                    self.gap(G::R, x);
                    self.b.tok(x);
                    x.clone_into(&mut self.prev);
                }
                self.gap(G::R, "#}");
                self.close_delim(b'#');
                self.c();
            }
            Nd::Dir { html, file, rules, commas } => {
                self.o(if *file { "LUDTWIG_DIRECTIVE_FILE_IGNORE" } else { "LUDTWIG_DIRECTIVE_IGNORE" });
                if *html {
                    self.t(G::N, "<!--");
                } else {
                    self.open_delim(b'#');
                }
                self.t(G::S, if *file { "ludtwig-ignore-file" } else { "ludtwig-ignore" });
                self.o("LUDTWIG_DIRECTIVE_RULE_LIST");
                for (i, r) in rules.iter().enumerate() {
                    self.t(G::S, r);
                    let comma = match commas {
                        0 => i + 1 < rules.len(),
                        1 => true,
                        _ => false,
                    };
                    if comma {
                        self.t(G::T, ",");
                    }
                }
                self.c();
                self.gap(G::R, "-->");
                if *html {
                    self.t(G::S, "-->");
                } else {
                    self.close_delim(b'#');
                }
                self.c();
            }
            Nd::Doctype(kw, name) => {
                self.o("HTML_DOCTYPE");
                self.t(G::N, "<!");
                self.t(G::N, kw);
                self.t(G::R, name);
                self.t(G::T, ">");
                self.c();
            }
            Nd::Var(e) => {
                if ctx == Ctx::Attrs {
                    self.o("HTML_ATTRIBUTE");
                }
                self.var(e);
                if ctx == Ctx::Attrs {
                    self.c();
                }
            }
            Nd::El(el) => self.element(el),
            Nd::Attr(a) => self.attr(a),
            Nd::Tag(t) => self.tag(t, ctx),
        }
    }
    fn var(&mut self, e: &Ex) {
        self.o("TWIG_VAR");
        self.open_delim(b'{');
        self.ex(e, G::S);
        self.close_delim(b'{');
        self.c();
    }
    fn attr(&mut self, a: &Attr) {
        self.o("HTML_ATTRIBUTE");
        match &a.name {
            AName::Word(w) => self.t(G::N, w),
            AName::Var(e) => self.var(e),
        }
        if let Some(v) = &a.val {
            self.t(G::T, "=");
            self.o("HTML_STRING");
            match v {
                AVal::Q(q, parts) => {
                    let q = q.to_string();
                    self.t(G::T, &q);
                    self.o("HTML_STRING_INNER");
                    for n in parts {
                        self.value_gap();
                        self.node(n, Ctx::Value);
                    }
                    self.value_gap();
                    self.b.flush();
                    self.c();
                    self.t(G::N, &q);
                }
                AVal::Word(w) => {
                    self.o("HTML_STRING_INNER");
                    self.t(G::T, w);
                    self.c();
                }
                AVal::Var(e) => {
                    self.o("HTML_STRING_INNER");
                    self.gap(G::T, "{{");
                    self.var(e);
                    self.c();
                }
            }
            self.c();
        }
        self.c();
    }
    fn element(&mut self, el: &El) {
        self.o("HTML_TAG");
        self.o("HTML_STARTING_TAG");
        self.t(G::N, "<");
        self.t(G::N, &el.name);
        self.o("HTML_ATTRIBUTE_LIST");
        for a in &el.attrs {
            let mut out = String::from(" ");
            if self.st.attr_nl && self.s.chance(1, 2) {
                out = self.nl().to_owned();
                if self.s.chance(1, 2) {
                    out.push_str(&self.blank());
                } else {
                    out.push_str(&"    ".repeat(self.depth.min(6)));
                    out.push_str(&" ".repeat(2 + el.name.len()));
                }
            } else if self.st.wild > 0 && self.s.chance(self.st.wild, 16) {
                out = self.blank();
            }
            self.b.trivia(&out);
            self.node(a, Ctx::Attrs);
        }
        self.c();
        let end = match &el.close {
            Close::Void(s) if *s => "/>",
            Close::SelfClose => "/>",
            _ => ">",
        };
        // an unquoted value or a name must not swallow the end
        let g = if end == "/>" { G::S } else { G::T };
        self.t(g, end);
        self.c();
        match &el.close {
            Close::Void(_) | Close::SelfClose => {}
            Close::Body(b) => {
                self.body(b, Ctx::Html);
                self.end_tag(&el.name);
            }
            Close::RawBody(b) => {
                self.o("BODY");
                self.o("HTML_RAW_TEXT");
                self.depth += 1;
                for n in b {
                    self.raw_gap();
                    self.node(n, Ctx::Raw);
                }
                self.depth -= 1;
                self.c();
                self.c();
                self.raw_gap();
                self.end_tag(&el.name);
            }
        }
        self.c();
    }
    fn end_tag(&mut self, name: &str) {
        self.o("HTML_ENDING_TAG");
        self.t(G::N, "</");
        self.t(G::T, name);
        self.t(G::T, ">");
        self.c();
    }
    fn tag_open(&mut self, kw: &str) {
        self.open_delim(b'%');
        self.t(G::S, kw);
    }
    fn simple_end(&mut self, kind: K, kw: &str, name: Option<&str>) {
        self.o(kind);
        self.tag_open(kw);
        if let Some(n) = name {
            self.t(G::R, n);
        }
        self.close_delim(b'%');
        self.c();
    }
    fn over(&mut self, ov: &Over) {
        for (i, (a, b)) in ov.iter().enumerate() {
            self.o("TWIG_OVERRIDE");
            self.name(a, G::S);
            if let Some(b) = b {
                self.t(G::S, "as");
                self.name(b, G::S);
            }
            self.c();
            if i + 1 < ov.len() {
                self.t(G::T, ",");
            }
        }
    }
    fn with(&mut self, e: &Ex, kind: K) {
        self.o(kind);
        self.t(G::S, "with");
        self.ex(e, G::S);
        self.c();
    }
    fn inc_args(&mut self, e: &Ex, ignore: bool, with: &Option<Ex>, only: bool) {
        self.ex(e, G::S);
        if ignore {
            self.t(G::S, "ignore missing");
        }
        if let Some(w) = with {
            self.with(w, "TWIG_INCLUDE_WITH");
        }
        if only {
            self.t(G::S, "only");
        }
    }
    fn tag(&mut self, t: &Tag, ctx: Ctx) {
        match t {
            Tag::Block { name, body, end_name } => {
                self.o("TWIG_BLOCK");
                self.o("TWIG_STARTING_BLOCK");
                self.tag_open("block");
                self.t(G::S, name);
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                self.simple_end("TWIG_ENDING_BLOCK", "endblock", if *end_name { Some(name) } else { None });
                self.c();
            }
            Tag::BlockShort { name, e } => {
                self.o("TWIG_BLOCK");
                self.o("TWIG_STARTING_BLOCK");
                self.tag_open("block");
                self.t(G::S, name);
                self.ex(e, G::S);
                self.close_delim(b'%');
                self.c();
                self.c();
            }
            Tag::If { branches, els } => {
                self.o("TWIG_IF");
                for (i, (e, b)) in branches.iter().enumerate() {
                    self.o(if i == 0 { "TWIG_IF_BLOCK" } else { "TWIG_ELSE_IF_BLOCK" });
                    self.tag_open(if i == 0 { "if" } else { "elseif" });
                    self.ex(e, G::S);
                    self.close_delim(b'%');
                    self.c();
                    self.body(b, ctx);
                }
                if let Some(b) = els {
                    self.simple_end("TWIG_ELSE_BLOCK", "else", None);
                    self.body(b, ctx);
                }
                self.simple_end("TWIG_ENDIF_BLOCK", "endif", None);
                self.c();
            }
            Tag::SetEq { names, vals } => {
                self.o("TWIG_SET");
                self.o("TWIG_SET_BLOCK");
                self.tag_open("set");
                self.o("TWIG_ASSIGNMENT");
                for (i, n) in names.iter().enumerate() {
                    self.name(n, G::S);
                    if i + 1 < names.len() {
                        self.t(G::T, ",");
                    }
                }
                self.t(G::S, "=");
                for (i, e) in vals.iter().enumerate() {
                    self.ex(e, G::S);
                    if i + 1 < vals.len() {
                        self.t(G::T, ",");
                    }
                }
                self.c();
                self.close_delim(b'%');
                self.c();
                self.c();
            }
            Tag::SetCap { name, body } => {
                self.o("TWIG_SET");
                self.o("TWIG_SET_BLOCK");
                self.tag_open("set");
                self.o("TWIG_ASSIGNMENT");
                self.name(name, G::S);
                self.c();
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                self.simple_end("TWIG_ENDSET_BLOCK", "endset", None);
                self.c();
            }
            Tag::For { k, v, e, body, els } => {
                self.o("TWIG_FOR");
                self.o("TWIG_FOR_BLOCK");
                self.tag_open("for");
                if let Some(k) = k {
                    self.name(k, G::S);
                    self.t(G::T, ",");
                }
                self.name(v, G::S);
                self.t(G::S, "in");
                self.ex(e, G::S);
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                if let Some(b) = els {
                    self.simple_end("TWIG_FOR_ELSE_BLOCK", "else", None);
                    self.body(b, ctx);
                }
                self.simple_end("TWIG_ENDFOR_BLOCK", "endfor", None);
                self.c();
            }
            Tag::Extends(e) => {
                self.o("TWIG_EXTENDS");
                self.tag_open("extends");
                self.ex(e, G::S);
                self.close_delim(b'%');
                self.c();
            }
            Tag::SwExtends(s) => {
                self.o("SHOPWARE_TWIG_SW_EXTENDS");
                self.tag_open("sw_extends");
                self.string(s, G::S);
                self.close_delim(b'%');
                self.c();
            }
            Tag::Include { sw, e, ignore, with, only } => {
                self.o(if *sw { "SHOPWARE_TWIG_SW_INCLUDE" } else { "TWIG_INCLUDE" });
                self.tag_open(if *sw { "sw_include" } else { "include" });
                self.inc_args(e, *ignore, with, *only);
                self.close_delim(b'%');
                self.c();
            }
            Tag::Embed { sw, e, ignore, with, only, body } => {
                self.o("TWIG_EMBED");
                self.o("TWIG_EMBED_STARTING_BLOCK");
                self.tag_open(if *sw { "sw_embed" } else { "embed" });
                self.inc_args(e, *ignore, with, *only);
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                self.simple_end("TWIG_EMBED_ENDING_BLOCK", if *sw { "sw_end_embed" } else { "endembed" }, None);
                self.c();
            }
            Tag::Use { sw, s, ov } => {
                self.o("TWIG_USE");
                self.tag_open(if *sw { "sw_use" } else { "use" });
                self.string(s, G::S);
                if !ov.is_empty() {
                    self.t(G::S, "with");
                    self.over(ov);
                }
                self.close_delim(b'%');
                self.c();
            }
            Tag::From { sw, e, sw_import, ov } => {
                self.o("TWIG_FROM");
                self.tag_open(if *sw { "sw_from" } else { "from" });
                self.ex(e, G::S);
                self.t(G::S, if *sw_import { "sw_import" } else { "import" });
                self.over(ov);
                self.close_delim(b'%');
                self.c();
            }
            Tag::Import { sw, e, name } => {
                self.o("TWIG_IMPORT");
                self.tag_open(if *sw { "sw_import" } else { "import" });
                self.ex(e, G::S);
                self.t(G::S, "as");
                self.name(name, G::S);
                self.close_delim(b'%');
                self.c();
            }
            Tag::Apply { filters, body } => {
                self.o("TWIG_APPLY");
                self.o("TWIG_APPLY_STARTING_BLOCK");
                self.tag_open("apply");
                self.apply_filters(filters);
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                self.simple_end("TWIG_APPLY_ENDING_BLOCK", "endapply", None);
                self.c();
            }
            Tag::Autoescape { strat, body } => {
                self.o("TWIG_AUTOESCAPE");
                self.o("TWIG_AUTOESCAPE_STARTING_BLOCK");
                self.tag_open("autoescape");
                match strat {
                    None => {}
                    Some(Ok(s)) => self.string(s, G::S),
                    Some(Err(())) => self.t(G::S, "false"),
                }
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                self.simple_end("TWIG_AUTOESCAPE_ENDING_BLOCK", "endautoescape", None);
                self.c();
            }
            Tag::Deprecated(s) => {
                self.o("TWIG_DEPRECATED");
                self.tag_open("deprecated");
                self.string(s, G::S);
                self.close_delim(b'%');
                self.c();
            }
            Tag::Do(e) => {
                self.o("TWIG_DO");
                self.tag_open("do");
                self.ex(e, G::S);
                self.close_delim(b'%');
                self.c();
            }
            Tag::Flush => {
                self.simple_end("TWIG_FLUSH", "flush", None);
            }
            Tag::Sandbox(b) => self.plain("TWIG_SANDBOX", "sandbox", b, ctx),
            Tag::Verbatim(b) => self.plain("TWIG_VERBATIM", "verbatim", b, ctx),
            Tag::Trans(b) => self.plain("TWIG_TRANS", "trans", b, ctx),
            Tag::Macro { name, params, body, end_name } => {
                self.o("TWIG_MACRO");
                self.o("TWIG_MACRO_STARTING_BLOCK");
                self.tag_open("macro");
                self.t(G::S, name);
                self.args(params);
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                self.simple_end("TWIG_MACRO_ENDING_BLOCK", "endmacro", if *end_name { Some(name) } else { None });
                self.c();
            }
            Tag::With { e, only, body } => {
                self.o("TWIG_WITH");
                self.o("TWIG_WITH_STARTING_BLOCK");
                self.tag_open("with");
                if let Some(e) = e {
                    self.ex(e, G::S);
                    if *only {
                        self.t(G::S, "only");
                    }
                }
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                self.simple_end("TWIG_WITH_ENDING_BLOCK", "endwith", None);
                self.c();
            }
            Tag::Cache { e, ttl, tags, body } => {
                self.o("TWIG_CACHE");
                self.o("TWIG_CACHE_STARTING_BLOCK");
                self.tag_open("cache");
                self.ex(e, G::S);
                for (x, kw, kind) in [(ttl, "ttl", "TWIG_CACHE_TTL"), (tags, "tags", "TWIG_CACHE_TAGS")] {
                    if let Some(x) = x {
                        self.o(kind);
                        self.t(G::S, kw);
                        self.t(G::T, "(");
                        self.ex(x, G::T);
                        self.t(G::T, ")");
                        self.c();
                    }
                }
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                self.simple_end("TWIG_CACHE_ENDING_BLOCK", "endcache", None);
                self.c();
            }
            Tag::Component { name, with, body } => {
                self.o("TWIG_COMPONENT");
                self.o("TWIG_COMPONENT_STARTING_BLOCK");
                self.tag_open("component");
                self.name(name, G::S);
                if let Some(h) = with {
                    self.t(G::S, "with");
                    self.prim(h, G::S);
                }
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                self.simple_end("TWIG_COMPONENT_ENDING_BLOCK", "endcomponent", None);
                self.c();
            }
            Tag::Props(v) => {
                self.o("TWIG_PROPS");
                self.tag_open("props");
                for (i, (n, e)) in v.iter().enumerate() {
                    self.o("TWIG_PROP_DECLARATION");
                    self.name(n, G::S);
                    if let Some(e) = e {
                        self.t(G::S, "=");
                        self.ex(e, G::S);
                    }
                    self.c();
                    if i + 1 < v.len() {
                        self.t(G::T, ",");
                    }
                }
                self.close_delim(b'%');
                self.c();
            }
            Tag::SwSilent { s, body } => {
                self.o("SHOPWARE_SILENT_FEATURE_CALL");
                self.o("SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK");
                self.tag_open("sw_silent_feature_call");
                self.string(s, G::S);
                self.close_delim(b'%');
                self.c();
                self.body(body, ctx);
                self.simple_end("SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK", "endsw_silent_feature_call", None);
                self.c();
            }
            Tag::Return(e) => {
                self.o("SHOPWARE_RETURN");
                self.tag_open("return");
                if let Some(e) = e {
                    self.ex(e, G::S);
                }
                self.close_delim(b'%');
                self.c();
            }
            Tag::SwIcon { e, style } => {
                self.o("SHOPWARE_ICON");
                self.tag_open("sw_icon");
                self.ex(e, G::S);
                if let Some(x) = style {
                    self.o("SHOPWARE_ICON_STYLE");
                    self.t(G::S, "style");
                    self.ex(x, G::S);
                    self.c();
                }
                self.close_delim(b'%');
                self.c();
            }
            Tag::SwThumb { e, with } => {
                self.o("SHOPWARE_THUMBNAILS");
                self.tag_open("sw_thumbnails");
                self.ex(e, G::S);
                if let Some(x) = with {
                    self.with(x, "SHOPWARE_THUMBNAILS_WITH");
                }
                self.close_delim(b'%');
                self.c();
            }
        }
    }
    fn plain(&mut self, kind: K, kw: &str, b: &[Nd], ctx: Ctx) {
        self.o(kind);
        let sk = intern(&format!("{kind}_STARTING_BLOCK"));
        let ek = intern(&format!("{kind}_ENDING_BLOCK"));
        self.simple_end(sk, kw, None);
        self.body(b, ctx);
        self.simple_end(ek, &format!("end{kw}"), None);
        self.c();
    }
    fn apply_filters(&mut self, f: &[(String, Option<Args>)]) {
        // f1(args)|f2|f3 -> FILTER[OPERAND[FILTER[OPERAND[NAME ARGS] | OPERAND[..]]] | OPERAND[..]]
        let n = f.len();
        for _ in 1..n {
            self.o("TWIG_FILTER");
            self.o("TWIG_OPERAND");
        }
        self.name(&f[0].0, G::S);
        if let Some(a) = &f[0].1 {
            self.args(a);
        }
        for (name, a) in &f[1..] {
            self.c(); // operand
            self.t(G::T, "|");
            self.o("TWIG_OPERAND");
            self.name(name, G::T);
            if let Some(a) = a {
                self.args(a);
            }
            self.c();
            self.c(); // filter
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ctx {
    Html,
    Attrs,
    Value,
    Raw,
}
