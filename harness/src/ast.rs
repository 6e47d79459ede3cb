//! The reference model of a template.

#[derive(Clone, Debug)]
pub enum Ex {
    Num(String),
    Str(Str),
    Arr(Vec<Ex>, bool),
    Null(String),
    Bool(String),
    Hash(Vec<(Key, Option<Ex>)>, bool),
    Name(String),
    Call(Box<Ex>, Args),
    Arrow { params: Vec<String>, paren: bool, body: Box<Ex> },
    Paren(Box<Ex>),
    Un(&'static str, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Tern(Box<Ex>, Option<Box<Ex>>, Option<Box<Ex>>),
    Filter(Box<Ex>, String, Option<Args>),
    Idx(Box<Ex>, Box<Ex>),
    Slice(Box<Ex>, Option<Box<Ex>>, Option<Box<Ex>>),
    Acc(Box<Ex>, String),
    AccNum(Box<Ex>, String),
    /// `same as 1` / `divisible by 2` without parentheses, only on the right of `is`
    Implicit(&'static str, Box<Ex>),
}

#[derive(Clone, Debug)]
pub struct Args {
    pub items: Vec<Arg>,
    pub trailing: bool,
}
#[derive(Clone, Debug)]
pub enum Arg {
    Pos(Ex),
    Named(String, Ex),
}
#[derive(Clone, Debug)]
pub enum Key {
    Bare(String),
    Num(String),
    Str(Str),
    Paren(Ex),
}
#[derive(Clone, Debug)]
pub struct Str {
    pub q: char,
    pub parts: Vec<SPart>,
}
#[derive(Clone, Debug)]
pub enum SPart {
    /// raw source text (already escaped for the quote)
    Text(String),
    Interp(Ex),
}
impl Str {
    pub fn plain(q: char, s: &str) -> Str {
        Str { q, parts: if s.is_empty() { vec![] } else { vec![SPart::Text(s.to_owned())] } }
    }
    pub fn raw(&self) -> Option<String> {
        let mut o = String::new();
        for p in &self.parts {
            match p {
                SPart::Text(t) => o.push_str(t),
                SPart::Interp(_) => return None,
            }
        }
        Some(o)
    }
}

#[derive(Clone, Debug)]
pub enum Nd {
    Text(Vec<String>),
    El(El),
    Cmt(Vec<String>),
    Doctype(String, String),
    TCmt(Vec<String>),
    Dir { html: bool, file: bool, rules: Vec<String>, commas: u32 },
    Var(Ex),
    Tag(Box<Tag>),
    Attr(Attr),
    /// raw pieces inside attribute values and raw text elements
    Raw(Vec<String>),
}
#[derive(Clone, Debug)]
pub struct El {
    pub name: String,
    pub attrs: Vec<Nd>,
    pub close: Close,
}
#[derive(Clone, Debug)]
pub enum Close {
    Void(bool),
    SelfClose,
    Body(Vec<Nd>),
    RawBody(Vec<Nd>),
}
#[derive(Clone, Debug)]
pub struct Attr {
    pub name: AName,
    pub val: Option<AVal>,
}
#[derive(Clone, Debug)]
pub enum AName {
    Word(String),
    Var(Ex),
}
#[derive(Clone, Debug)]
pub enum AVal {
    Q(char, Vec<Nd>),
    Word(String),
    Var(Ex),
}

pub type Body = Vec<Nd>;
pub type Over = Vec<(String, Option<String>)>;

#[derive(Clone, Debug)]
pub enum Tag {
    Block { name: String, body: Body, end_name: bool },
    BlockShort { name: String, e: Ex },
    If { branches: Vec<(Ex, Body)>, els: Option<Body> },
    SetEq { names: Vec<String>, vals: Vec<Ex> },
    SetCap { name: String, body: Body },
    For { k: Option<String>, v: String, e: Ex, body: Body, els: Option<Body> },
    Extends(Ex),
    SwExtends(Str),
    Include { sw: bool, e: Ex, ignore: bool, with: Option<Ex>, only: bool },
    Embed { sw: bool, e: Ex, ignore: bool, with: Option<Ex>, only: bool, body: Body },
    Use { sw: bool, s: Str, ov: Over },
    From { sw: bool, e: Ex, sw_import: bool, ov: Over },
    Import { sw: bool, e: Ex, name: String },
    Apply { filters: Vec<(String, Option<Args>)>, body: Body },
    Autoescape { strat: Option<Result<Str, ()>>, body: Body },
    Deprecated(Str),
    Do(Ex),
    Flush,
    Sandbox(Body),
    Verbatim(Body),
    Macro { name: String, params: Args, body: Body, end_name: bool },
    With { e: Option<Ex>, only: bool, body: Body },
    Cache { e: Ex, ttl: Option<Ex>, tags: Option<Ex>, body: Body },
    Trans(Body),
    Component { name: String, with: Option<Ex>, body: Body },
    Props(Vec<(String, Option<Ex>)>),
    SwSilent { s: Str, body: Body },
    Return(Option<Ex>),
    SwIcon { e: Ex, style: Option<Ex> },
    SwThumb { e: Ex, with: Option<Ex> },
}

pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source",
    "track", "wbr",
];
pub const RAWTEXT: &[&str] = &["script", "style", "textarea", "title"];

/// (operator, precedence, right associative): the documented Twig table, including the
/// unofficial spellings the linter has rules for
pub const BINOPS: &[(&str, u32, bool)] = &[
    ("or", 5, false),
    ("and", 10, false),
    ("b-or", 14, false),
    ("b-xor", 16, false),
    ("b-and", 18, false),
    ("==", 20, false),
    ("!=", 20, false),
    ("<=>", 20, false),
    ("<", 20, false),
    (">", 20, false),
    (">=", 20, false),
    ("<=", 20, false),
    ("in", 20, false),
    ("not in", 20, false),
    ("matches", 20, false),
    ("starts with", 20, false),
    ("ends with", 20, false),
    ("===", 20, false),
    ("!==", 20, false),
    ("||", 5, false),
    ("&&", 10, false),
    ("..", 25, false),
    ("+", 30, false),
    ("-", 30, false),
    ("~", 40, false),
    ("*", 60, false),
    ("/", 60, false),
    ("//", 60, false),
    ("%", 60, false),
    ("is", 100, false),
    ("is not", 100, false),
    ("**", 120, true),
    ("??", 150, true),
];
pub const UNOPS: &[(&str, u32)] = &[("not", 51), ("-", 200), ("+", 200), ("...", 210)];

pub fn binop(op: &str) -> (u32, bool) {
    let x = BINOPS.iter().find(|b| b.0 == op).unwrap();
    (x.1, x.2)
}
pub fn unop(op: &str) -> u32 {
    UNOPS.iter().find(|b| b.0 == op).unwrap().1
}
pub const ATOM: u32 = 1000;
pub fn prec(e: &Ex) -> u32 {
    match e {
        Ex::Tern(..) | Ex::Arrow { .. } => 0,
        Ex::Bin(op, ..) => binop(op).0,
        Ex::Un(op, _) => unop(op),
        _ => ATOM,
    }
}
pub fn par(e: Ex) -> Ex {
    Ex::Paren(Box::new(e))
}
pub fn mk_bin(op: &'static str, l: Ex, r: Ex) -> Ex {
    let (p, right) = binop(op);
    let l = if prec(&l) < p || (right && prec(&l) == p) { par_ok(l) } else { l };
    let r = if prec(&r) < p || (!right && prec(&r) == p) { par_ok(r) } else { r };
    Ex::Bin(op, Box::new(l), Box::new(r))
}
/// arrows cannot be parenthesised; use a name instead
pub fn par_ok(e: Ex) -> Ex {
    if let Ex::Arrow { .. } = e { Ex::Name("fn".into()) } else { par(e) }
}
pub fn mk_un(op: &'static str, e: Ex) -> Ex {
    let e = if prec(&e) < unop(op) { par_ok(e) } else { e };
    Ex::Un(op, Box::new(e))
}
pub fn atomic(e: Ex) -> Ex {
    if prec(&e) < ATOM || matches!(e, Ex::Implicit(..)) { par_ok(e) } else { e }
}
pub fn ends_with_number(e: &Ex) -> bool {
    matches!(e, Ex::Num(_) | Ex::AccNum(..))
}
