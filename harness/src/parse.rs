//! Checks P01..P08: the parser library.
use crate::ast::*;
use crate::emit::{Em, Style};
use crate::r#gen::*;
use crate::runner::*;
use crate::tape::Src;
use crate::tree::*;
use ludtwig_parser::syntax::untyped::{SyntaxNode, debug_tree};

pub struct Parsed {
    pub tree: Tree,
    pub errors: Vec<String>,
    pub root: SyntaxNode,
}
pub fn parse(text: &str) -> Parsed {
    note(text);
    let (root, errs) = ludtwig_parser::parse(text).split();
    let tree = Tree::from_syntax(&root);
    Parsed { tree, errors: errs.iter().map(ToString::to_string).collect(), root }
}
pub fn emit(s: &mut Src, doc: &[Nd], st: Style) -> Tree {
    Em::new(s, st).doc(doc)
}
/// a model that does not depend on later draws
pub fn gen_doc(s: &mut Src, p: &Prof) -> Vec<Nd> {
    Gen::new(s, p.clone()).doc()
}
pub fn sized(s: &mut Src, base: Prof) -> Prof {
    let fuel = [6, 14, 30, 60][s.weighted(&[3, 4, 3, 1])];
    let mut p = base;
    p.fuel = fuel;
    p.block_bias = [4, 8, 16][s.weighted(&[3, 1, 1])];
    p
}

pub const SOUP: &[&str] = &[
    "{%", "%}", "{%-", "-%}", "{%~", "~%}", "{{", "}}", "{{-", "-}}", "{{~", "~}}", "{#", "#}", "{#-", "-#}", "<", ">", "</", "/>", "<!",
    "<!--", "-->", "=", "\"", "'", "`", "(", ")", "[", "]", "{", "}", "#{", "#", "|", ".", "..", "...", ",", ":", ";", "?", "??", "!", "!=",
    "!==", "==", "===", "=>", "+", "-", "*", "**", "/", "//", "%", "~", "&", "&&", "||", "<=", ">=", "<=>", "\\", "$", "@", "&amp;", "block",
    "endblock", "if", "elseif", "else", "endif", "for", "endfor", "in", "set", "endset", "extends", "include", "embed", "endembed", "macro",
    "endmacro", "apply", "endapply", "autoescape", "endautoescape", "verbatim", "endverbatim", "sandbox", "endsandbox", "with", "endwith",
    "cache", "endcache", "from", "import", "use", "as", "only", "ignore missing", "not", "not in", "is", "is not", "and", "or", "b-or",
    "matches", "starts with", "ends with", "same as", "divisible by", "true", "false", "null", "none", "div", "span", "script", "style", "pre",
    "textarea", "br", "a", "foo", "x", "1", "3.14", "class", "ludtwig-ignore", "ludtwig-ignore-file", "indentation", "sw_extends",
    "sw_include", "sw_icon", "sw_thumbnails", "return", "do", "flush", "deprecated", "trans", "endtrans", "component", "endcomponent", "props",
    "DOCTYPE", "html", "twig:Alert", "\n", "\r\n", "\r", " ", "  ", "\t", "é", "日本", "🙂", "\u{a0}", "\u{feff}", "\0", "ttl", "tags",
    "{% block a %}", "{% endblock %}", "{{ a }}", "<div>", "</div>", "<div class=\"", "{% if a %}", "{% endif %}", "\u{200d}", "ÿ", "\u{7f}",
];

/// some words (all their occurrences) become long and full of multi byte characters
pub fn stretch(s: &mut Src, text: &str) -> String {
    let is_word = |c: char| c.is_alphanumeric() || c == '_';
    let mut words: Vec<&str> = text.split(|c| !is_word(c)).filter(|w| !w.is_empty()).collect();
    // words that occur again are more interesting
    let again: Vec<&str> = words.iter().filter(|w| words.iter().filter(|x| x == w).count() > 1).copied().collect();
    if !again.is_empty() && s.chance(2, 3) {
        words = again;
    }
    if words.is_empty() {
        return text.to_owned();
    }
    let mut map: Vec<(String, String)> = vec![];
    for _ in 0..s.range(1, 3) {
        let w = words[s.idx(words.len())].to_owned();
        let n = [3, 12, 30, 70, 200][s.weighted(&[3, 4, 4, 2, 1])];
        let mut new = if s.chance(1, 2) { w.clone() } else { String::new() };
        for _ in 0..s.range(1, n) {
            new.push_str(s.pick(&["a", "b", "Z", "_", "0", "-", "é", "ß", "ä", "日", "İ", "\u{301}", "🙂", "ǆ", "²", ".", "ÿ"]));
        }
        map.push((w, new));
    }
    let mut out = String::new();
    let mut rest = text;
    while let Some(c) = rest.chars().next() {
        let end = rest.find(|c: char| is_word(c) != is_word(rest.chars().next().unwrap_or('x'))).unwrap_or(rest.len());
        let (head, tail) = rest.split_at(end);
        match map.iter().find(|m| is_word(c) && m.0 == head) {
            Some(m) => out.push_str(&m.1),
            None => out.push_str(head),
        }
        rest = tail;
    }
    out
}
/// any text: soup, damaged templates, plain unicode; sometimes with long words
pub fn any_text(s: &mut Src) -> String {
    let t = any_text_plain(s);
    if s.chance(1, 7) { stretch(s, &t) } else { t }
}
fn any_text_plain(s: &mut Src) -> String {
    match s.weighted(&[4, 5, 1]) {
        0 => {
            let n = s.range(0, 40);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(s.pick(SOUP));
                if s.chance(1, 3) {
                    t.push(' ');
                }
            }
            t
        }
        1 => {
            let p = sized(s, Prof { dirs: true, ..Prof::default() });
            let doc = gen_doc(s, &p);
            let st = Style::random(s);
            let t = emit(s, &doc, st);
            mutate(s, &t)
        }
        _ => {
            let n = s.range(0, 24);
            (0..n)
                .map(|_| {
                    let v = match s.idx(4) {
                        0 => s.draw(0x80),
                        1 => s.draw(0x300),
                        2 => s.draw(0x3000),
                        _ => s.draw(0x11_0000),
                    };
                    char::from_u32(v).unwrap_or('x')
                })
                .collect()
        }
    }
}
/// token level damage
pub fn mutate(s: &mut Src, t: &Tree) -> String {
    let mut toks: Vec<String> = (0..t.toks.len()).map(|i| t.tok_text(i).to_owned()).collect();
    for _ in 0..s.weighted(&[1, 4, 3, 2, 1]) {
        if toks.is_empty() {
            break;
        }
        let i = s.idx(toks.len());
        match s.idx(7) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let x = toks[i].clone();
                toks.insert(i, x);
            }
            2 => toks.insert(i, s.pick(SOUP).to_owned()),
            3 => toks[i] = s.pick(SOUP).to_owned(),
            4 => {
                let j = s.idx(toks.len());
                toks.swap(i, j);
            }
            5 => toks.truncate(i),
            _ => {
                // cut inside a token
                let x = &toks[i];
                let k = x.chars().count();
                if k > 1 {
                    let m = 1 + s.idx(k - 1);
                    toks[i] = x.chars().take(m).collect();
                }
            }
        }
    }
    toks.concat()
}

// ------------------------------------------------------------------ P01
pub fn p01(s: &mut Src) -> Out {
    let text = any_text(s);
    let p = parse(&text);
    let mut rebuilt = String::new();
    for t in p.root.descendants_with_tokens() {
        if let Some(t) = t.as_token() {
            if usize::from(t.text_range().start()) != rebuilt.len() {
                return Out::fail(&text, format!("token {t:?} does not start where the previous one ended"));
            }
            rebuilt.push_str(t.text());
        }
    }
    if rebuilt != text || p.tree.text != text {
        return Out::fail(&text, format!("tree text differs from the input: {:?}", p.tree.text));
    }
    for n in p.root.descendants() {
        for c in n.children() {
            if !n.text_range().contains_range(c.text_range()) {
                return Out::fail(&text, "child outside of its parent");
            }
        }
    }
    let again = parse(&text);
    if again.errors != p.errors || debug_tree(&again.root) != debug_tree(&p.root) {
        return Out::fail(&text, "second parse differs from the first");
    }
    Out::ok(p.tree.nodes.len() > 3, &text)
}

// ------------------------------------------------------------------ P02
pub fn p02(s: &mut Src) -> Out {
    let text = any_text(s);
    note(&text);
    let (root, errors) = ludtwig_parser::parse(&text).split();
    for e in &errors {
        let msg = e.expected_message();
        let (a, b) = (usize::from(e.range.start()), usize::from(e.range.end()));
        if b > text.len() || a > b || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
            return Out::fail(&text, format!("range {a}..{b} of '{msg}' is not inside the input"));
        }
        if a == b {
            return Out::fail(&text, format!("range of '{msg}' at {a} is empty"));
        }
        let covered = &text[a..b];
        if let Some(found) = e.found {
            if covered.trim_matches([' ', '\t', '\n']).is_empty() {
                return Out::fail(&text, format!("'{msg}' at {a}..{b} covers only white space"));
            }
            let tok = root.token_at_offset(e.range.start()).right_biased();
            let Some(tok) = tok else { return Out::fail(&text, format!("'{msg}': no token at {a}")) };
            if !tok.text_range().contains_range(e.range) {
                return Out::fail(&text, format!("'{msg}' at {a}..{b} covers more than one token"));
            }
            let same = tok.kind() == found;
            // words are sometimes re-labelled by the parser (tag and attribute names)
            let relabelled = format!("{:?}", tok.kind()) == "TK_WORD" ;
            if !same && !relabelled {
                return Out::fail(&text, format!("'{msg}': found {found:?} but the token there is {:?}", tok.kind()));
            }
            if !msg.contains(&format!("but found {found}")) {
                return Out::fail(&text, format!("message does not name what was found: {msg}"));
            }
        } else {
            if b != text.len() {
                return Out::fail(&text, format!("'{msg}' at {a}..{b} claims the end of the file ({})", text.len()));
            }
            if !msg.contains("end of file") {
                return Out::fail(&text, format!("message at the end of the file: {msg}"));
            }
        }
        let shown = e.to_string();
        if !shown.contains(&format!("{a}..{b}")) || !shown.contains(&msg) {
            return Out::fail(&text, format!("display form {shown:?}"));
        }
    }
    Out::ok(!errors.is_empty(), &text)
}

// ------------------------------------------------------------------ P03
pub const SHAPE: ShapeOpts = ShapeOpts { norm_ctrl: false };
pub const SHAPE_NC: ShapeOpts = ShapeOpts { norm_ctrl: true };

pub fn first_diff(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            let ctx: Vec<&str> = a.lines().skip(i.saturating_sub(4)).take(i.min(4)).collect();
            return format!("after [{}]: expected '{}' got '{}'", ctx.join(" / "), x.trim(), y.trim());
        }
    }
    format!("length: expected {} lines, got {}", a.lines().count(), b.lines().count())
}

pub fn cmp_expected(text: &str, exp: &Tree, got: &Parsed) -> Option<String> {
    if got.tree.text != *text {
        return Some("text not preserved".into());
    }
    if let Some(e) = got.errors.first() {
        return Some(format!("syntax error in a valid template: {e}"));
    }
    let (a, b) = (exp.shape(&SHAPE), got.tree.shape(&SHAPE));
    if a != b {
        return Some(format!("structure differs {}", first_diff(&a, &b)));
    }
    None
}

pub fn p03(s: &mut Src) -> Out {
    let p = sized(s, Prof { dirs: true, w: [5, 4, 2, 4, 6, 1], ..Prof::default() });
    let doc = gen_doc(s, &p);
    let st = Style::random(s);
    let t = emit(s, &doc, st);
    let got = parse(&t.text);
    if let Some(m) = cmp_expected(&t.text, &t, &got) {
        return Out::fail(&t.text, m);
    }
    Out::ok(t.nodes.len() > 12, &t.text)
}
