//! Random templates (as models) drawn from a choice tape.
use crate::ast::*;
use crate::tape::Src;

#[derive(Clone, Debug)]
pub struct Prof {
    /// number of nodes / expression parts that may still be spent
    pub fuel: i32,
    pub max_depth: u32,
    pub unicode: bool,
    pub comments: bool,
    pub dirs: bool,
    /// `===`, `&&`, ... as well
    pub unofficial: bool,
    /// template inside attribute lists / values / raw text
    pub inner_twig: bool,
    pub raw: bool,
    pub shopware: bool,
    /// more hostile names, strings, keys
    pub spicy: bool,
    /// line breaks in template strings
    pub multiline: bool,
    /// plain words only in text, comments and strings
    pub plain: bool,
    /// weights: html, text, comment, var, tag
    pub w: [u32; 6],
    pub block_bias: u32,
    pub ex_depth: u32,
    /// odd names for blocks, attributes and variables
    pub names: bool,
    /// many static ids
    pub ids: bool,
    /// of 12 directives so many are for the whole file
    pub file_dir: u32,
    /// many of the operators and filters that rules look for
    pub calls: bool,
    /// many hashes with quoted keys
    pub hashes: bool,
    /// mostly whitespace-sensitive elements
    pub sensitive: bool,
    /// directives often name this rule
    pub dir_rule: Option<usize>,
}
impl Default for Prof {
    fn default() -> Self {
        Prof {
            fuel: 40,
            max_depth: 5,
            unicode: true,
            comments: true,
            dirs: false,
            unofficial: true,
            inner_twig: true,
            raw: true,
            shopware: true,
            spicy: true,
            multiline: true,
            plain: false,
            w: [5, 4, 2, 4, 6, 0],
            block_bias: 4,
            ex_depth: 4,
            names: false,
            ids: false,
            file_dir: 2,
            calls: false,
            hashes: false,
            sensitive: false,
            dir_rule: None,
        }
    }
}

pub const NAMES: &[&str] = &[
    "a", "b", "item", "product", "fooBar", "_x", "loop", "page", "index", "note", "nothing", "order", "android", "inner",
    "isNew", "notes", "oracle", "iffy", "setup", "format", "blocked", "x1", "user_name", "Foo", "_self", "_context", "truth",
    "nullable", "nonesuch", "island", "matchesx", "as_is", "within", "source_code", "onlyx", "importer",
];
/// keyword tokens that are ordinary names in Twig
pub const SOFT: &[&str] = &["block", "source", "random", "date", "max", "min", "range", "cycle", "constant", "tags", "ttl", "style", "even", "odd", "empty", "iterable", "include", "flush", "trans", "props", "component", "cache"];
pub const FUNCS: &[&str] = &[
    "parent", "path", "asset", "block", "source", "random", "date", "max", "min", "range", "cycle", "constant", "include",
    "dump", "url", "seoUrl", "config", "feature", "attribute", "template_from_string", "fooFn", "_helper", "sw_icon_url", "constants", "_constant", "constan",
];
pub const FILTERS: &[&str] = &[
    "trans", "upper", "lower", "raw", "json_encode", "escape", "e", "default", "merge", "date", "length", "sw_sanitize",
    "replace", "join", "keys", "format", "fooFilter", "first", "currency", "map", "filter", "reduce", "sort", "slice", "abs",
];
pub const TESTS: &[&str] = &["defined", "empty", "even", "odd", "iterable", "null", "none", "fooTest", "same as", "divisible by", "constant", "callable"];
pub const ELS: &[&str] = &["div", "span", "p", "ul", "li", "a", "button", "h1", "table", "section", "pre", "custom-el", "twig:Alert", "Div", "form", "label", "svg", "template"];
pub const ATTRS: &[&str] = &[
    "class", "id", "title", "href", "data-foo", "style", "name", "value", "@click", ":foo", "aria-label", "disabled", "type",
    "for", "checked", "v-if", "alt", "role", "required", "source", "data-set", "fooBar", "date", "#ref",
];
pub const WORDS: &[&str] = &[
    "hello", "world", "foo", "Lorem", "a", "x1", "data-x", "if", "block", "not", "is", "in", "true", "42", "3.14", "&amp;",
    "&#123;", "&#xAb0f;", "&NotEqualTilde;", "&frac12;", "&#0;", "&;", "&#x;", "&1;", "a-", "-b", "_", "end", "endblock", "for", "and", "#tag", "@at", "$x", "div", "class", "same", "null", "as", "with", "only",
];
pub const PLAIN: &[&str] = &["hello", "world", "Lorem", "ipsum", "x1", "foo"];
pub const PUNCT: &[&str] = &[".", ",", ":", ";", "!", "?", "(", ")", "[", "]", "-", "+", "*", "/", "~", "=", "&", "'", "\"", "\\", "`", "|", "}", "%", "#", "..", "...", "&&", "||", "==", "=>"];
pub const UNI: &[&str] = &["ü", "é", "日本", "—", "🙂", "ä", "\u{a0}", "ß"];
pub const BLOCKS: &[&str] = &["page", "page_content", "base_main", "a", "b_1", "content", "fooBar", "X", "block_a", "header_inner", "Foo-bar", "index", "footer", "_x"];

/// a name that is nearly the given one
pub fn near(s: &mut Src, x: &str) -> String {
    let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let n = x.chars().count();
    let k = s.idx(n.max(1));
    let mut y: String = match s.idx(8) {
        0 => x.chars().enumerate().map(|(i, c)| if i == 0 { flip(c) } else { c }).collect(),
        1 => x.chars().enumerate().map(|(i, c)| if i == k { flip(c) } else { c }).collect(),
        2 => x.to_uppercase(),
        3 => x.chars().take(n - 1).collect(),
        4 => x.chars().take(k.max(1)).collect(),
        5 => format!("{x}s"),
        6 => format!("{x}_"),
        _ => format!("_{x}"),
    };
    while y.ends_with('-') {
        y.pop();
    }
    const NO: &[&str] = &["", "in", "is", "not", "or", "and", "as", "if", "for", "with", "only", "from", "b", "do", "same", "divisible", "starts", "ends", "has", "null", "none", "true", "false", "ignore", "ludtwig-ignore", "ludtwig-ignore-file"];
    if NO.iter().any(|w| w.eq_ignore_ascii_case(&y)) || y.contains(' ') { x.to_owned() } else { y }
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub p: Prof,
    pub fuel: i32,
    /// enclosing quote of an attribute value, if any
    pub in_value: Option<char>,
    pub uniq: u32,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Cx {
    Html,
    Attrs,
    Value,
    Raw,
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, p: Prof) -> Self {
        let fuel = p.fuel;
        Gen { s, p, fuel, in_value: None, uniq: 0 }
    }
    /// a random word over an alphabet none of the keywords are written in
    pub fn wild(&mut self, extra: &[&'static str]) -> String {
        const A: &[&str] = &["x", "q", "Z", "B", "j", "9", "0", "7", "_", "k", "X"];
        let mut w = self.s.pick(&["x", "q", "Z", "k", "B"]).to_owned();
        let len = if self.s.chance(1, 12) { self.s.range(20, 90) } else { 1 + self.s.weighted(&[4, 4, 3, 2, 1, 1]) as u32 };
        for _ in 0..len {
            let n = A.len() + extra.len();
            let i = self.s.idx(n);
            w.push_str(if i < A.len() { A[i] } else { extra[i - A.len()] });
        }
        while w.ends_with('-') {
            w.push('x');
        }
        w
    }
    /// shall a name be taken from the whole language of names instead of a list?
    fn wildly(&mut self) -> bool {
        self.p.spicy && self.s.chance(1, 10)
    }
    fn filter(&mut self) -> String {
        if self.wildly() {
            return self.wild(&[]);
        }
        if self.p.calls && self.s.chance(2, 3) {
            return self.s.pick(&["json_encode", "raw", "raw", "escape", "json_encode", "json_encoded", "json_decode", "raw2", "Raw", "draw", "json"]).to_owned();
        }
        let f = self.s.pick(FILTERS);
        if self.s.chance(1, 12) { near(self.s, f) } else { f.to_owned() }
    }
    pub fn name(&mut self) -> String {
        if self.p.spicy && self.s.chance(1, 12) {
            return self.s.pick(SOFT).to_owned();
        }
        if self.wildly() {
            return self.wild(&[]);
        }
        self.s.pick(NAMES).to_owned()
    }
    /// a name introduced by set / for / macro parameters
    pub fn var_name(&mut self) -> String {
        if self.p.names && self.s.chance(1, 2) {
            return self.odd_name(false).replace('-', "_");
        }
        if self.wildly() {
            return self.wild(&[]);
        }
        const V: &[&str] = &["a", "item", "fooBar", "_x", "product", "index", "x1", "FooBar", "foo_bar", "FOO_BAR", "isNew", "notes", "key", "inner"];
        self.s.pick(V).to_owned()
    }
    pub fn num(&mut self) -> String {
        if self.wildly() {
            let mut w = self.s.draw(10).to_string();
            for _ in 0..self.s.weighted(&[3, 2, 1, 1]) {
                w.push_str(&self.s.draw(1000).to_string());
            }
            if self.s.chance(1, 2) {
                w.push_str(self.s.pick(&[".0", ".5", ".25", ".007", ".123456789"]));
            }
            if self.s.chance(1, 3) {
                w.push_str(self.s.pick(&["e+1", "E-1", "e-12", "E+007"]));
            }
            return w;
        }
        self.s.pick(&["0", "1", "42", "3.14", "10", "007", "1E+3", "2.5e-2", "123456789012345678901"]).to_owned()
    }
    /// source text of a string between quotes `q`
    pub fn str_text(&mut self, q: char) -> String {
        const T: &[&str] = &[
            "foo", "a", "foo.bar", "", "hello world", "x-y", "foo_bar", "@App/a.html.twig", " lead", "trail ", "12", "A1", "é",
            "a  b", "a: b", "%s", "{", "}", "(x)", "<b>", "a/b", "foo|bar", "{{ x }}", "{% x %}", "#", "if", "not", "日本 x",
            "a,b", "===", "&&", "ludtwig-ignore", "<!-- c -->", "=", "$x", "1a",
        ];
        let mut t = String::new();
        let n = if self.s.chance(1, 4) { 2 } else { 1 };
        for i in 0..n {
            if i > 0 && self.s.chance(1, 2) {
                t.push(' ');
            }
            if self.wildly() {
                const C: &[&str] = &["x", "B", "_", "-", " ", ".", "/", "@", "9", ":", "$", "Z", ",", "+", "q"];
                for _ in 0..1 + self.s.draw(6) {
                    t.push_str(self.s.pick(C));
                }
            } else {
                t.push_str(self.s.pick(if self.p.spicy { T } else { &T[..12] }));
            }
            if self.p.spicy && self.s.chance(1, 10) {
                let other = if q == '"' { '\'' } else { '"' };
                match self.s.idx(4) {
                    0 => {
                        t.push('\\');
                        t.push(q);
                    }
                    1 => t.push(other),
                    2 => t.push_str("\\\\"),
                    _ => {
                        t.push('\\');
                        t.push(other);
                    }
                }
            }
        }
        if self.p.multiline && self.s.chance(1, 10) {
            const B: &[&str] = &["\n", "\n  ", "\n  \n", " \n\n", "\n\t\n    ", "\r\n ", "\r\n\t\r\n", "\n\n\n\n"];
            let b = self.s.pick(B);
            let at = match self.s.idx(4) {
                0 => 0,
                1 => t.len(),
                _ => t.find(' ').unwrap_or(0),
            };
            t.insert_str(at, b);
        }
        if !self.p.unicode {
            t = t.chars().filter(char::is_ascii).collect();
        }
        t
    }
    pub fn string(&mut self, interp: bool, d: u32) -> Str {
        let q = if self.s.chance(2, 3) { '\'' } else { '"' };
        let mut parts = vec![SPart::Text(self.str_text(q))];
        if interp && q == '"' && d > 0 && self.s.chance(1, 4) {
            for _ in 0..1 + self.s.weighted(&[8, 2, 1]) {
                let e = self.ex(d.min(2));
                // one inside of the other
                let e = if self.s.chance(1, 10) { Ex::Str(self.interpolated(e)) } else { e };
                parts.push(SPart::Interp(e));
                if self.s.chance(1, 2) {
                    parts.push(SPart::Text(self.str_text(q)));
                }
            }
        }
        // no accidental interpolation
        let mut out: Vec<SPart> = vec![];
        let mut glue = false;
        for p in parts {
            match p {
                SPart::Text(t) => {
                    let mut t = t.replace("#{", "# {");
                    if q == '\'' && self.s.chance(1, 12) {
                        // plain text in single quotes
                        let add = self.s.pick(&["#{", "#{a}", "#{ b }", "x#{1 + 2}", "#{}"]);
                        if self.s.chance(1, 2) {
                            t = format!("{add}{t}");
                        } else if !t.ends_with(['\\', '#', '{', '@', '$']) {
                            t.push_str(add);
                        }
                    }
                    // the end of the interpolation must stay a token of its own
                    if std::mem::take(&mut glue) && t.starts_with(['}', '%', '-', '~', '#']) {
                        t.insert(0, '.');
                    }
                    if !t.is_empty() {
                        out.push(SPart::Text(t));
                    }
                }
                SPart::Interp(e) => {
                    if let Some(SPart::Text(t)) = out.last_mut() {
                        if t.ends_with(['#', '{', '@', '$']) {
                            t.push('.');
                        }
                    }
                    out.push(SPart::Interp(e));
                    glue = true;
                }
            }
        }
        Str { q, parts: out }
    }
    /// a double-quoted string around an interpolation
    fn interpolated(&mut self, e: Ex) -> Str {
        Str { q: '"', parts: if self.s.chance(1, 2) { vec![SPart::Text("x ".into()), SPart::Interp(e)] } else { vec![SPart::Interp(e)] } }
    }
    /// how many of something; a few of the lists are long
    fn len(&mut self, w: &[u32]) -> usize {
        if self.s.chance(1, 40) { self.s.range(4, 12) as usize } else { self.s.weighted(w) }
    }
    fn spend(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel >= 0
    }
    /// any expression (no arrow)
    pub fn ex(&mut self, d: u32) -> Ex {
        if d == 0 || !self.spend() {
            return self.leaf();
        }
        if self.p.hashes && self.s.chance(1, 4) {
            return self.hash(d - 1);
        }
        match self.s.weighted(&[6, 5, 6, 2, 2]) {
            0 => self.leaf(),
            1 => self.postfix(d),
            2 => self.binary(d),
            3 => {
                let (op, _) = UNOPS[self.s.weighted(&[4, 2, 1, 1])];
                let e = self.ex(d - 1);
                mk_un(op, e)
            }
            _ => self.ternary(d),
        }
    }
    fn ternary(&mut self, d: u32) -> Ex {
        let c = self.ex(d - 1);
        let c = if prec(&c) == 0 { par_ok(c) } else { c };
        let kind = self.s.weighted(&[4, 2, 2]);
        let t = if kind == 1 {
            None
        } else {
            let t = self.ex(d - 1);
            Some(Box::new(if no_else(&t) { par_ok(t) } else { t }))
        };
        let f = if kind == 2 { None } else { Some(Box::new(self.ex(d - 1))) };
        Ex::Tern(Box::new(c), t, f)
    }
    pub fn binary(&mut self, d: u32) -> Ex {
        let n_off = 17;
        let i = if self.s.chance(1, 2) {
            // the operators whose grouping is easiest to get wrong
            let op = self.s.pick(&["and", "or", "+", "~", "*", "**", "==", "is", "in", "??", "-"]);
            BINOPS.iter().position(|b| b.0 == op).unwrap()
        } else {
            self.s.idx(BINOPS.len())
        };
        let mut op = BINOPS[i].0;
        if self.p.calls && self.s.chance(1, 2) {
            op = self.s.pick(&["&&", "||", "===", "!=="]);
        }
        if !self.p.unofficial && (n_off..n_off + 4).contains(&i) {
            op = "==";
        }
        let l = self.ex(d - 1);
        if op == "is" || op == "is not" {
            if self.s.chance(1, 12) {
                // a function and a test that look the same
                let f = self.s.pick(FUNCS).to_owned();
                let a = if self.s.chance(1, 2) { Args { items: vec![], trailing: false } } else { self.args(1, false) };
                let call = Ex::Call(Box::new(Ex::Name(f)), a);
                return mk_bin(op, call.clone(), call);
            }
            let r = self.test(d - 1);
            return mk_bin(op, l, r);
        }
        let r = self.ex(d - 1);
        mk_bin(op, l, r)
    }
    pub fn test(&mut self, d: u32) -> Ex {
        let n = self.s.pick(TESTS);
        match n {
            "null" => Ex::Null(n.to_owned()),
            "same as" | "divisible by" => {
                if self.s.chance(1, 2) {
                    let e = if self.s.chance(1, 2) { Ex::Name(self.name()) } else { Ex::Num(self.num()) };
                    Ex::Implicit(if n == "same as" { "same as" } else { "divisible by" }, Box::new(e))
                } else {
                    let a = self.ex(d);
                    Ex::Call(Box::new(Ex::Name(n.to_owned())), Args { items: vec![Arg::Pos(a)], trailing: false })
                }
            }
            "constant" => Ex::Call(
                Box::new(Ex::Name(n.to_owned())),
                Args { items: vec![Arg::Pos(Ex::Str(self.string(false, 0)))], trailing: false },
            ),
            _ if self.s.chance(1, 12) => Ex::Name(near(self.s, n)),
            _ if self.s.chance(1, 5) => Ex::Call(Box::new(Ex::Name(n.to_owned())), self.args(d.min(1), false)),
            _ => Ex::Name(n.to_owned()),
        }
    }
    pub fn leaf(&mut self) -> Ex {
        match self.s.weighted(&[8, 4, 4, 1, 1]) {
            0 => Ex::Name(self.name()),
            1 => Ex::Num(self.num()),
            2 => Ex::Str(self.string(false, 0)),
            3 => Ex::Bool(self.s.pick(&["true", "false", "TRUE", "False"]).to_owned()),
            _ => Ex::Null(self.s.pick(&["null", "NULL", "Null"]).to_owned()),
        }
    }
    pub fn arrow(&mut self, d: u32) -> Ex {
        let paren = self.s.chance(1, 2);
        let n = if paren { self.s.range(1, 3) } else { 1 };
        let params = (0..n).map(|_| self.var_name()).collect();
        Ex::Arrow { params, paren, body: Box::new(self.ex(d.saturating_sub(1))) }
    }
    pub fn args(&mut self, d: u32, arrows: bool) -> Args {
        let n = self.len(&[2, 4, 2, 1]);
        let mut named = false;
        let mut items = vec![];
        for _ in 0..n {
            named = named || self.s.chance(1, 6);
            let e = if arrows && self.s.chance(1, 5) { self.arrow(d) } else { self.ex(d) };
            if named {
                let nm = self.s.pick(&["foo", "bar", "name", "value_1", "fooBar", "_x", "notice", "isle", "inset"]).to_owned();
                items.push(Arg::Named(nm, e));
            } else {
                items.push(Arg::Pos(e));
            }
        }
        let trailing = n > 0 && self.s.chance(1, 12);
        Args { items, trailing }
    }
    pub fn key(&mut self, d: u32) -> Key {
        if self.p.hashes && self.s.chance(1, 2) {
            let q = if self.s.chance(1, 2) { '\'' } else { '"' };
            if self.s.chance(1, 3) {
                // near the boundary of what a name is
                const C: &[&str] = &["x", "B", "_", "_", "-", "9", "0", "Z", "q", ".", " ", ":", "$", "é"];
                let mut k = String::new();
                for _ in 0..1 + self.s.weighted(&[1, 2, 3, 2, 1]) {
                    let n = if self.s.chance(1, 3) { C.len() } else { 9 };
                    let c = C[self.s.idx(n)];
                    // now and then a long one
                    let m = if self.s.chance(1, 24) { 1 + self.s.draw(90) as usize } else { 1 };
                    k.push_str(&c.repeat(m));
                }
                return Key::Str(Str::plain(q, &k));
            }
            let k = self.s.pick(&["a", "foo", "fooBar", "_y", "x1", "A1", "_", "foo_bar", "1a", "a-b", "a b", " a", "a ", "", "1", "é", "aé", "if", "not", "in", "true", "null", "a.b", "and", "is"]);
            return Key::Str(Str::plain(q, k));
        }
        match self.s.weighted(&[5, 4, 1, 1]) {
            0 if self.wildly() => Key::Bare(self.wild(&[])),
            0 => Key::Bare(self.s.pick(&["a", "foo", "bar", "fooBar", "foo_bar", "index", "id", "name", "x1", "_y", "notes", "true", "null", "if", "not", "in", "is", "and", "block", "TRUE", "only", "matches"]).to_owned()),
            1 => Key::Str(self.string(false, 0)),
            2 => Key::Num(self.s.pick(&["0", "1", "42"]).to_owned()),
            _ => Key::Paren(self.ex(d.min(2))),
        }
    }
    pub fn hash(&mut self, d: u32) -> Ex {
        let n = self.len(&[1, 4, 4, 2]);
        let mut v = vec![];
        for _ in 0..n {
            if self.s.chance(1, 8) {
                v.push((Key::Bare(self.s.pick(&["a", "foo", "bar", "fooBar"]).to_owned()), None));
            } else {
                let k = self.key(d);
                let e = self.ex(d.saturating_sub(1));
                v.push((k, Some(e)));
            }
        }
        let trailing = n > 0 && self.s.chance(1, 5);
        Ex::Hash(v, trailing)
    }
    pub fn array(&mut self, d: u32) -> Ex {
        let n = self.len(&[1, 3, 4, 2]);
        let v: Vec<Ex> = (0..n).map(|_| self.ex(d.saturating_sub(1))).collect();
        let trailing = n > 0 && self.s.chance(1, 5);
        Ex::Arr(v, trailing)
    }
    pub fn postfix(&mut self, d: u32) -> Ex {
        let mut e = match self.s.weighted(&[5, 2, 2, 2, 2, 2]) {
            0 => Ex::Name(self.name()),
            1 => Ex::Str(self.string(true, d - 1)),
            2 => self.array(d),
            3 => self.hash(d),
            4 => {
                let mut f = self.s.pick(FUNCS).to_owned();
                if self.s.chance(1, 12) {
                    f = near(self.s, &f);
                }
                let a = self.args(d - 1, false);
                Ex::Call(Box::new(Ex::Name(f)), a)
            }
            _ => par_ok(self.ex(d - 1)),
        };
        for _ in 0..self.len(&[3, 4, 2, 1]) {
            e = self.postfix_op(e, d);
        }
        e
    }
    fn postfix_op(&mut self, e: Ex, d: u32) -> Ex {
        let num = ends_with_number(&e);
        match self.s.weighted(&[4, 4, 2, 1, 1, 1]) {
            0 => {
                let n = self.filter();
                let a = if self.s.chance(1, 3) { Some(self.args(d - 1, true)) } else { None };
                Ex::Filter(Box::new(e), n, a)
            }
            1 if !num => {
                let n = self.name();
                let x = Ex::Acc(Box::new(e), n);
                if self.s.chance(1, 4) {
                    let a = self.args(d - 1, true);
                    Ex::Call(Box::new(x), a)
                } else {
                    x
                }
            }
            2 => {
                let i = self.ex(d - 1);
                Ex::Idx(Box::new(e), Box::new(i))
            }
            3 => {
                let k = self.s.idx(3);
                let a = if k != 1 { Some(Box::new(self.slice_part(d))) } else { None };
                let b = if k != 2 { Some(Box::new(self.slice_part(d))) } else { None };
                Ex::Slice(Box::new(e), a, b)
            }
            4 if !num => Ex::AccNum(Box::new(e), self.s.pick(&["0", "1", "12"]).to_owned()),
            _ => Ex::Filter(Box::new(e), self.filter(), None),
        }
    }
    fn slice_part(&mut self, d: u32) -> Ex {
        let e = self.ex(d - 1);
        if no_else(&e) || matches!(e, Ex::Tern(..)) { par_ok(e) } else { e }
    }

    // ------------------------------------------------------------------ template level
    pub fn doc(&mut self) -> Vec<Nd> {
        let n = 1 + self.s.weighted(&[2, 3, 3, 2, 1]);
        let mut v = vec![];
        if self.s.chance(1, 30) {
            v.push(Nd::Doctype(self.s.pick(&["DOCTYPE", "doctype", "Doctype"]).to_owned(), "html".into()));
        }
        if self.s.chance(if self.p.ids { 12 } else { 1 }, 30) {
            // a long and flat one
            self.fuel += 40;
            let n = self.s.range(8, 40) as usize;
            let d = if self.s.chance(1, 2) { 2 } else { 1 };
            self.many(&mut v, n, d);
        } else {
            self.many(&mut v, n, self.p.max_depth);
        }
        if self.p.ids && self.s.chance(1, 15) {
            // many different names before one of them comes again
            let n = self.s.range(10, 70);
            let again = self.s.draw(n);
            let blocks = self.s.chance(1, 2);
            for i in (0..n).chain([again]) {
                v.push(if blocks {
                    Nd::Tag(Box::new(Tag::Block { name: format!("nb{i}"), body: vec![], end_name: false }))
                } else {
                    let id = Attr { name: AName::Word("id".into()), val: Some(AVal::Word(format!("ni{i}"))) };
                    Nd::El(El { name: "hr".into(), attrs: vec![Nd::Attr(id)], close: Close::Void(false) })
                });
            }
        }
        v
    }
    fn many(&mut self, v: &mut Vec<Nd>, n: usize, d: u32) {
        for _ in 0..n {
            if self.fuel < 0 {
                break;
            }
            let x = self.node(d);
            // text next to text is one text
            if matches!(x, Nd::Text(_)) && matches!(v.last(), Some(Nd::Text(_))) {
                continue;
            }
            // the same thing twice in a row
            let leaf = match &x {
                Nd::Var(_) | Nd::Cmt(_) => true,
                Nd::Tag(t) => matches!(**t, Tag::Extends(_) | Tag::SwExtends(_) | Tag::Include { .. } | Tag::Use { .. } | Tag::SetEq { .. } | Tag::Import { .. }),
                _ => false,
            };
            let again = if leaf && self.s.chance(1, 12) { Some(x.clone()) } else { None };
            v.push(x);
            v.extend(again);
        }
    }
    pub fn body(&mut self, d: u32, cx: Cx) -> Body {
        match cx {
            Cx::Html => {
                let mut v = vec![];
                if d == 0 {
                    if self.s.chance(1, 2) {
                        v.push(self.text());
                    }
                    return v;
                }
                let n = self.s.weighted(&[2, 5, 4, 2, 1]);
                self.many(&mut v, n, d - 1);
                v
            }
            Cx::Attrs => self.attrs(d.saturating_sub(1), 2),
            Cx::Value => self.value(d.saturating_sub(1), self.in_value.unwrap_or('"'), 2),
            Cx::Raw => self.rawbody(d.saturating_sub(1), 2),
        }
    }
    pub fn text(&mut self) -> Nd {
        let n = 1 + self.len(&[5, 3, 2, 1]);
        let mut p: Vec<String> = vec![];
        for i in 0..n {
            let mut w = self.text_word();
            if self.p.spicy && self.s.chance(1, 30) {
                p.push("<".to_owned());
            }
            if i == 0 && (w.starts_with('=') ) {
                w.insert(0, 'a');
            }
            p.push(w);
        }
        Nd::Text(p)
    }
    pub fn text_word(&mut self) -> String {
        if self.p.plain {
            return self.s.pick(PLAIN).to_owned();
        }
        let mut w = String::new();
        for _ in 0..1 + self.s.weighted(&[6, 2, 1]) {
            match self.s.weighted(&[8, 2, if self.p.unicode { 1 } else { 0 }]) {
                0 => w.push_str(self.s.pick(WORDS)),
                1 => w.push_str(self.s.pick(PUNCT)),
                _ => w.push_str(self.s.pick(UNI)),
            }
        }
        safe(w)
    }
    pub fn comment_words(&mut self) -> Vec<String> {
        let n = self.len(&[1, 4, 3, 2]);
        (0..n)
            .map(|_| {
                if !self.p.plain && self.s.chance(1, 4) {
                    self.s.pick(&["<div>", "{{ x }}", "{%", "%}", "</p>", "'", "\"", "{{-", "TODO:", "endblock", "===", "a#b"]).to_owned()
                } else {
                    self.text_word()
                }
            })
            .collect()
    }
    fn fix_comment(v: Vec<String>, html: bool) -> Vec<String> {
        v.into_iter()
            .map(|w| {
                let mut w = w.replace("-->", "--").replace("#}", "#").replace("-#", "#").replace("{#", "{");
                if html {
                    w = w.replace("-->", "");
                }
                w
            })
            .filter(|w| !w.is_empty() && !w.starts_with("ludtwig"))
            .collect()
    }
    pub fn comment(&mut self) -> Nd {
        let v = self.comment_words();
        if self.s.chance(1, 2) { Nd::Cmt(Self::fix_comment(v, true)) } else { Nd::TCmt(Self::fix_comment(v, false)) }
    }
    pub fn node(&mut self, d: u32) -> Nd {
        if !self.spend() {
            return self.text();
        }
        let w = self.p.w;
        match self.s.weighted(&[w[1], w[0], if self.p.comments { w[2] } else { 0 }, w[3], w[4], if self.p.dirs { w[5] } else { 0 }]) {
            0 => self.text(),
            1 => Nd::El(self.element(d)),
            2 => self.comment(),
            3 => {
                let dd = self.p.ex_depth;
                Nd::Var(self.ex(dd))
            }
            4 => Nd::Tag(Box::new(self.tag(d, Cx::Html))),
            _ => self.dir(),
        }
    }
    pub fn dir(&mut self) -> Nd {
        const R: &[&str] = crate::cli::RULES;
        let n = match self.s.weighted(&[3, 3, 2, 1, 1]) {
            4 => 3 + self.s.idx(10),
            n => n,
        };
        let rules = (0..n)
            .map(|_| match self.p.dir_rule {
                Some(r) if self.s.chance(1, 2) => R[r].to_owned(),
                _ if self.s.chance(1, 9) => {
                    let r = self.s.pick(R);
                    near(self.s, r)
                }
                _ => self.s.pick(R).to_owned(),
            })
            .collect();
        Nd::Dir { html: self.s.chance(1, 2), file: self.s.chance(self.p.file_dir, 12), rules, commas: self.s.draw(3) }
    }
    pub fn element(&mut self, d: u32) -> El {
        let k = self.s.weighted(&[8, 3, 1, if self.p.sensitive { 6 } else if self.p.raw { 2 } else { 0 }]);
        match k {
            1 => {
                let any = self.s.chance(1, 2);
                let mut name = self.s.pick(if any { VOID } else { &["br", "img", "input", "hr", "link", "meta"] }).to_owned();
                if self.s.chance(1, 5) {
                    name = if self.s.chance(1, 2) { name.to_uppercase() } else { name[..1].to_uppercase() + &name[1..] };
                }
                let attrs = self.attrs(d, 3);
                El { name, attrs, close: Close::Void(self.s.chance(1, 2)) }
            }
            2 => {
                let name = self.s.pick(&["div", "custom-el", "path", "twig:Alert", "circle"]).to_owned();
                let name = if self.wildly() { self.el_name(&name) } else { name };
                let attrs = self.attrs(d, 3);
                El { name, attrs, close: Close::SelfClose }
            }
            3 => {
                let name = self.s.pick(&["script", "style", "textarea", "title", "SCRIPT", "Style"]).to_owned();
                let attrs = self.attrs(d, 2);
                let mut b = self.rawbody(d, 4);
                for n in &mut b {
                    if let Nd::Raw(p) = n {
                        p.retain(|w| !w.contains("</"));
                        if p.is_empty() {
                            p.push("x".into());
                        }
                    }
                }
                El { name, attrs, close: Close::RawBody(b) }
            }
            _ => {
                let name = if self.p.sensitive && self.s.chance(1, 2) { self.s.pick(&["pre", "Pre", "PRE"]) } else {
                    self.s.pick(ELS)
                }
                .to_owned();
                let name = if self.wildly() { self.el_name(&name) } else { name };
                let attrs = self.attrs(d, 3);
                let b = self.body(d, Cx::Html);
                El { name, attrs, close: Close::Body(b) }
            }
        }
    }
    /// any element name, of the same kind as the given one
    fn el_name(&mut self, like: &str) -> String {
        if !like.starts_with("twig:") {
            return self.wild(&["-", "-"]).replace('_', "-").trim_end_matches('-').to_owned();
        }
        let mut w = "twig".to_owned();
        for _ in 0..1 + self.s.draw(3) {
            w.push(':');
            if self.s.chance(1, 4) {
                w.push_str(self.s.pick(&["-", "9", "_"]));
            }
            w.push_str(&self.wild(&["-"]));
        }
        w
    }
    pub fn attrs(&mut self, d: u32, max: usize) -> Vec<Nd> {
        let n = if self.p.ids { self.s.weighted(&[1, 4, 1, 1]) } else { self.s.weighted(&[5, 4, 2, 1]) }.min(max);
        let mut v = vec![];
        for _ in 0..n {
            if !self.spend() {
                break;
            }
            let k = if self.p.inner_twig && d > 0 { self.s.weighted(&[10, 1, 1, 1]) } else { 0 };
            match k {
                0 => {
                    let a = self.attr(d);
                    v.push(Nd::Attr(a));
                }
                1 => v.push(Nd::Var(self.ex(2))),
                2 => {
                    let v2 = self.comment_words();
                    v.push(Nd::TCmt(Self::fix_comment(v2, false)));
                }
                _ => v.push(Nd::Tag(Box::new(self.tag(d - 1, Cx::Attrs)))),
            }
        }
        v
    }
    /// names put together from pieces, so that every boundary of the conventions is met
    pub fn odd_name(&mut self, attr: bool) -> String {
        const P: &[&str] = &["foo", "a", "B", "Bar", "_", "-", "x1", "1", "__", "--", "URL", "é", "-_", "Z9", "b", "0", "01", "10"];
        let n = 1 + self.s.weighted(&[2, 4, 4, 2, 1]);
        let mut w = String::new();
        for _ in 0..n {
            let x = self.s.pick(P);
            if x != "é" {
                w.push_str(x);
            }
        }
        // has to be one word of the lexer
        let mut w = w.trim_start_matches(|c: char| c == '-' || c.is_ascii_digit()).trim_end_matches('-').to_owned();
        if w.is_empty() {
            w.push('q');
        }
        if attr {
            // the grammar wants a letter behind one leading underscore
            if w.starts_with('_') {
                w = w.trim_start_matches(|c: char| !c.is_ascii_alphabetic()).to_owned();
                w.insert_str(0, if w.is_empty() { "_q" } else { "_" });
            }
        }
        if attr && self.s.chance(1, 4) && w.starts_with(|c: char| c.is_ascii_alphabetic()) {
            let pre = self.s.pick(&["@", ":", "#", "$"]);
            w.insert_str(0, pre);
        }
        w
    }
    pub fn attr_name(&mut self) -> String {
        if self.p.ids && self.s.chance(2, 3) {
            return if self.s.chance(1, 5) { self.s.pick(&[":id", "@id", "data-id", "id2", "id-a", "x-id", "ide", "i"]) } else { "id" }.to_owned();
        }
        if self.p.names && self.s.chance(2, 3) {
            return self.odd_name(true);
        }
        if self.wildly() {
            let w = self.wild(&["-", "_"]);
            let pre = self.s.pick(&["", "", "@", ":", "#", "$", "data-", "_"]);
            return format!("{pre}{w}");
        }
        self.s.pick(ATTRS).to_owned()
    }
    pub fn attr(&mut self, d: u32) -> Attr {
        let name = if self.p.inner_twig && self.s.chance(1, 16) {
            AName::Var(self.ex(1))
        } else {
            AName::Word(self.attr_name())
        };
        let val = match self.s.weighted(&[2, 8, 3, 1, 1]) {
            0 => None,
            1 | 2 => {
                let q = if self.s.chance(1, 4) { '\'' } else { '"' };
                Some(AVal::Q(q, self.value(d, q, 3)))
            }
            3 => Some(AVal::Word(self.s.pick(if self.p.ids { &["a", "b"] } else { &["foo", "bar1", "data-x", "checkbox", "Foo_b", "in", "is", "with", "if", "endblock", "Even", "as", "null", "true", "style"] }).to_owned())),
            _ => {
                if self.p.inner_twig {
                    Some(AVal::Var(self.ex(1)))
                } else {
                    None
                }
            }
        };
        Attr { name, val }
    }
    pub fn value(&mut self, d: u32, q: char, max: usize) -> Vec<Nd> {
        if self.p.ids && self.s.chance(1, 6) {
            // the same text, but with template code in it
            let mut v = vec![Nd::Raw(vec!["a".into()])];
            let x = match self.s.idx(4) {
                0 => Nd::TCmt(vec!["x".into()]),
                1 => Nd::Var(Ex::Name("x".into())),
                2 => Nd::TCmt(vec![]),
                _ => Nd::Tag(Box::new(Tag::If { branches: vec![(Ex::Name("x".into()), vec![])], els: None })),
            };
            v.insert(self.s.idx(2), x);
            return v;
        }
        if self.p.ids && self.s.chance(2, 3) {
            return match self.s.idx(6) {
                // much like the others
                5 => vec![Nd::Raw(match self.s.idx(8) {
                    0 => vec!["A".into()],
                    1 => vec!["B".into()],
                    2 => vec!["a_".into()],
                    3 => vec!["a-b".into()],
                    4 => vec!["ab".into()],
                    5 => vec!["b".into(), "A".into()],
                    6 => vec!["a".into(), "b".into()],
                    _ => vec!["#a".into()],
                })],
                4 => {
                    // long ones with characters of several bytes at any place
                    let mut w = String::new();
                    let n = if self.s.chance(1, 2) { 3 } else { self.s.range(10, 60) };
                    let at = self.s.draw(n);
                    for i in 0..n {
                        w.push_str(if i == at && self.p.unicode { "ä" } else { "a" });
                    }
                    vec![Nd::Raw(vec![w])]
                }
                0 => vec![Nd::Raw(vec!["a".into()])],
                1 => vec![Nd::Raw(vec!["b".into(), "a".into()])],
                2 => vec![Nd::Raw(vec!["b".into()])],
                _ => vec![],
            };
        }
        let n = self.len(&[1, 6, 3, 1]).min(max);
        let mut v: Vec<Nd> = vec![];
        let saved = self.in_value;
        self.in_value = Some(q);
        for _ in 0..n {
            let k = if self.p.inner_twig && d > 0 && self.fuel > 0 { self.s.weighted(&[8, 3, 1, 2]) } else { 0 };
            match k {
                0 => {
                    let m = 1 + self.s.weighted(&[5, 3, 1]);
                    let mut p: Vec<String> = (0..m).map(|_| self.value_word(q)).collect();
                    if matches!(v.last(), Some(Nd::Raw(_))) {
                        continue;
                    }
                    p.retain(|w| !w.is_empty());
                    if !p.is_empty() {
                        v.push(Nd::Raw(p));
                    }
                }
                1 => v.push(Nd::Var(self.ex(2))),
                2 => {
                    let v2 = self.comment_words();
                    v.push(Nd::TCmt(Self::fix_comment(v2, false)));
                }
                _ => v.push(Nd::Tag(Box::new(self.tag(d - 1, Cx::Value)))),
            }
        }
        self.in_value = saved;
        v
    }
    fn value_word(&mut self, q: char) -> String {
        const V: &[&str] = &["foo", "bar-baz", "#", "/a/b", "color:", "red;", "a", "1", "100%", "x()", "@a", "fooBar", "p-4", "is", "true"];
        let mut w = if self.s.chance(2, 3) { self.s.pick(V).to_owned() } else { self.text_word() };
        let other = if q == '"' { '\'' } else { '"' };
        w = w.replace(q, "");
        if self.p.spicy && self.s.chance(1, 14) {
            w.push(other);
        }
        let w: String = w.chars().filter(|c| !matches!(c, '<' | '>')).collect();
        safe(w).replace("=>", "=").replace('>', "")
    }
    pub fn rawbody(&mut self, d: u32, max: usize) -> Vec<Nd> {
        const W: &[&str] = &[
            "var", "x", "=", "1;", "function", "()", "{", "}", "<div>", "a<b", "</p>", "\"s\"", "'t'", "//c", ".foo", "color:red",
            "if", "(a", "&&", "b)", "=>", "console.log(1);", "/*", "*/", "<!--", "-->", "endif", "[1,2]", "#id",
        ];
        let n = self.len(&[1, 5, 3, 2]).min(max);
        let mut v: Vec<Nd> = vec![];
        for _ in 0..n {
            let k = if self.p.inner_twig && d > 0 && self.fuel > 0 { self.s.weighted(&[8, 2, 1, 2]) } else { 0 };
            match k {
                0 => {
                    if matches!(v.last(), Some(Nd::Raw(_))) {
                        continue;
                    }
                    let m = 1 + self.s.weighted(&[5, 3, 2, 2]);
                    let w = if self.p.plain { PLAIN } else { W };
                    v.push(Nd::Raw((0..m).map(|_| self.s.pick(w).to_owned()).collect()));
                }
                1 => v.push(Nd::Var(self.ex(2))),
                2 => {
                    let v2 = self.comment_words();
                    v.push(Nd::TCmt(Self::fix_comment(v2, false)));
                }
                _ => v.push(Nd::Tag(Box::new(self.tag(d - 1, Cx::Raw)))),
            }
        }
        v
    }
    fn over(&mut self) -> Over {
        let n = 1 + self.len(&[3, 2]);
        (0..n)
            .map(|_| {
                let a = self.var_name();
                let b = if self.s.chance(1, 2) { Some(self.var_name()) } else { None };
                (a, b)
            })
            .collect()
    }
    pub fn block_name(&mut self) -> String {
        if self.p.names && self.s.chance(2, 3) {
            return self.odd_name(false);
        }
        if self.p.ids && self.s.chance(2, 3) {
            // names that are much alike as well
            return if self.s.chance(1, 3) { self.s.pick(&["A", "a_", "_a", "a_B", "ab", "a1", "aa", "a__b", "Content", "content_", "contents"]) } else { self.s.pick(&["a", "b", "a_b", "content"]) }.to_owned();
        }
        if self.wildly() {
            return self.wild(&["-"]);
        }
        let n = self.s.pick(BLOCKS).to_owned();
        if self.s.chance(1, 2) {
            self.uniq += 1;
            return format!("{n}_{}", self.uniq);
        }
        n
    }
    /// a string for template references
    fn tpl(&mut self) -> Str {
        let q = if self.s.chance(2, 3) { '\'' } else { '"' };
        let t = self.s.pick(&["@Storefront/base.html.twig", "a.html.twig", "x", "@App/é.twig", "foo/bar.twig"]).to_owned();
        Str::plain(q, &t)
    }
    fn tpl_ex(&mut self) -> Ex {
        if self.s.chance(2, 3) { Ex::Str(self.tpl()) } else { self.ex(1) }
    }
    fn with_ex(&mut self) -> Ex {
        if self.s.chance(2, 3) { self.hash(2) } else { Ex::Name(self.s.pick(NAMES).to_owned()) }
    }
    pub fn tag(&mut self, d: u32, cx: Cx) -> Tag {
        let bd = d;
        let block = self.p.block_bias;
        let sw = u32::from(self.p.shopware);
        let k = self.s.weighted(&[
            block, 4, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, sw, sw, sw, sw, sw, sw, 1,
        ]);
        let ed = self.p.ex_depth.min(3);
        match k {
            0 => Tag::Block { name: self.block_name(), body: self.body(bd, cx), end_name: self.s.chance(1, 6) },
            1 => {
                let n = 1 + self.len(&[5, 2, 1]);
                let branches = (0..n)
                    .map(|_| {
                        let e = self.ex(ed);
                        (e, self.body(bd, cx))
                    })
                    .collect();
                let els = if self.s.chance(1, 3) { Some(self.body(bd, cx)) } else { None };
                Tag::If { branches, els }
            }
            2 => {
                let n = 1 + self.len(&[12, 2, 1]);
                let names = (0..n).map(|_| self.var_name()).collect();
                let vals = (0..n).map(|_| self.ex(ed)).collect();
                Tag::SetEq { names, vals }
            }
            3 => {
                let k = if self.s.chance(1, 4) { Some(self.var_name()) } else { None };
                let v = self.var_name();
                let e = self.ex(ed);
                let body = self.body(bd, cx);
                let els = if self.s.chance(1, 5) { Some(self.body(bd, cx)) } else { None };
                Tag::For { k, v, e, body, els }
            }
            4 => Tag::SetCap { name: self.var_name(), body: self.body(bd, cx) },
            5 => Tag::BlockShort { name: self.block_name(), e: self.ex(ed) },
            6 => {
                if self.s.chance(1, 2) {
                    Tag::Extends(self.tpl_ex())
                } else {
                    Tag::SwExtends(self.tpl())
                }
            }
            7 => {
                let sw = self.p.shopware && self.s.chance(1, 2);
                let e = self.tpl_ex();
                let ignore = self.s.chance(1, 4);
                let with = if self.s.chance(1, 2) { Some(self.with_ex()) } else { None };
                Tag::Include { sw, e, ignore, with, only: self.s.chance(1, 5) }
            }
            8 => {
                let sw = self.p.shopware && self.s.chance(1, 2);
                let e = self.tpl_ex();
                let ignore = self.s.chance(1, 4);
                let with = if self.s.chance(1, 2) { Some(self.with_ex()) } else { None };
                let only = self.s.chance(1, 5);
                let body = self.blocks_only(bd, cx);
                Tag::Embed { sw, e, ignore, with, only, body }
            }
            9 => {
                let sw = self.p.shopware && self.s.chance(1, 2);
                let s = self.tpl();
                let ov = if self.s.chance(1, 2) { self.over() } else { vec![] };
                Tag::Use { sw, s, ov }
            }
            10 => {
                let e = self.tpl_ex();
                Tag::From { sw: false, e, sw_import: false, ov: self.over() }
            }
            11 => Tag::Import { sw: self.p.shopware && self.s.chance(1, 3), e: self.tpl_ex(), name: self.var_name() },
            12 => {
                let n = 1 + self.len(&[3, 1, 1]);
                let filters = (0..n)
                    .map(|_| {
                        let f = self.filter();
                        let a = if self.s.chance(1, 3) { Some(self.args(2, false)) } else { None };
                        (f, a)
                    })
                    .collect();
                Tag::Apply { filters, body: self.body(bd, cx) }
            }
            13 => {
                let strat = match self.s.idx(3) {
                    0 => None,
                    1 => Some(Ok(Str::plain('\'', self.s.pick(&["html", "js"])))),
                    _ => Some(Err(())),
                };
                Tag::Autoescape { strat, body: self.body(bd, cx) }
            }
            14 => Tag::Deprecated(self.string(false, 0)),
            15 => Tag::Do(self.ex(ed)),
            16 => Tag::Flush,
            17 => Tag::Sandbox(self.body(bd, cx)),
            18 => Tag::Verbatim(self.body(bd, cx)),
            19 => {
                let name = self.s.pick(&["input", "fooBar", "row", "_m", "input_field"]).to_owned();
                let n = self.len(&[1, 2, 2]);
                let items = (0..n)
                    .map(|_| {
                        if self.s.chance(1, 3) {
                            let nm = self.s.pick(&["foo", "size", "fooBar", "_v"]).to_owned();
                            let e = self.leaf();
                            Arg::Named(nm, e)
                        } else {
                            Arg::Pos(Ex::Name(self.s.pick(&["foo", "value", "name", "label"]).to_owned()))
                        }
                    })
                    .collect();
                let body = self.body(bd, cx);
                Tag::Macro { name, params: Args { items, trailing: false }, body, end_name: self.s.chance(1, 3) }
            }
            20 => {
                let e = if self.s.chance(2, 3) { Some(self.with_ex()) } else { None };
                let only = e.is_some() && self.s.chance(1, 3);
                Tag::With { e, only, body: self.body(bd, cx) }
            }
            21 => {
                let e = self.ex(2);
                let ttl = if self.s.chance(1, 2) { Some(self.ex(1)) } else { None };
                let tags = if self.s.chance(1, 2) { Some(self.ex(1)) } else { None };
                Tag::Cache { e, ttl, tags, body: self.body(bd, cx) }
            }
            22 => Tag::Trans(self.body(bd, cx)),
            23 => {
                let name = self.s.pick(&["Alert", "fooBar", "Button"]).to_owned();
                let with = if self.s.chance(1, 2) { Some(self.hash(2)) } else { None };
                Tag::Component { name, with, body: self.body(bd, cx) }
            }
            24 => Tag::SwSilent { s: Str::plain('"', self.s.pick(&["FEATURE_A", "v6.5"])), body: self.body(bd, cx) },
            25 => match self.s.idx(3) {
                0 => Tag::Return(if self.s.chance(1, 2) { Some(self.ex(ed)) } else { None }),
                1 => {
                    let e = if self.s.chance(1, 2) { Ex::Str(Str::plain('\'', "arrow-left")) } else { self.ex(1) };
                    Tag::SwIcon { e, style: if self.s.chance(1, 2) { Some(self.hash(2)) } else { None } }
                }
                _ => {
                    let e = if self.s.chance(1, 2) { Ex::Str(Str::plain('\'', "thumb")) } else { self.ex(1) };
                    Tag::SwThumb { e, with: if self.s.chance(1, 2) { Some(self.with_ex()) } else { None } }
                }
            },
            26 => {
                let e = self.tpl_ex();
                let ov = self.over();
                Tag::From { sw: true, e, sw_import: self.s.chance(1, 2), ov }
            }
            _ => {
                let n = 1 + self.len(&[2, 2, 1]);
                Tag::Props(
                    (0..n)
                        .map(|_| {
                            let nm = self.s.pick(&["foo", "size", "fooBar", "icon"]).to_owned();
                            let e = if self.s.chance(1, 2) { Some(self.ex(2)) } else { None };
                            (nm, e)
                        })
                        .collect(),
                )
            }
        }
    }
    fn blocks_only(&mut self, d: u32, cx: Cx) -> Body {
        let n = self.len(&[1, 3, 1]);
        (0..n)
            .map(|_| {
                let name = self.block_name();
                let body = self.body(d.saturating_sub(1), cx);
                Nd::Tag(Box::new(Tag::Block { name, body, end_name: false }))
            })
            .collect()
    }
}

fn no_else(e: &Ex) -> bool {
    match e {
        Ex::Tern(_, _, None) => true,
        Ex::Tern(_, t, Some(f)) => t.as_deref().is_some_and(no_else) || no_else(f),
        Ex::Bin(_, _, r) => no_else(r),
        Ex::Un(_, r) => no_else(r),
        _ => false,
    }
}

/// remove accidental delimiters from plain text
fn safe(mut w: String) -> String {
    loop {
        let before = w.clone();
        for (a, b) in [("{{", "{"), ("{%", "{"), ("{#", "{"), ("}}", "}"), ("%}", "%"), ("#}", "#"), ("</", "/"), ("<!", "!"), ("/>", "/"), ("-->", "--"), ("<", "")] {
            w = w.replace(a, b);
        }
        if w == before {
            break;
        }
    }
    if w.starts_with("ludtwig") || w.is_empty() {
        w.insert(0, 'x');
    }
    w
}
