//! Checks P04..P08.
use crate::ast::*;
use crate::emit::Style;
use crate::parse::*;
use crate::r#gen::*;
use crate::runner::*;
use crate::tape::Src;
use crate::tree::*;

// ------------------------------------------------------------------ P04
enum It {
    Op(&'static str),
    Un(&'static str),
    At(Ex),
}
fn flat(g: &mut Gen, d: u32, out: &mut Vec<It>) {
    let n = 1 + g.s.weighted(&[1, 4, 5, 4, 3, 2]);
    let mut test = false;
    for i in 0..n {
        if !test {
            while g.s.chance(1, 5) {
                out.push(It::Un(UNOPS[g.s.weighted(&[5, 3, 1, 1])].0));
            }
        }
        let a = if test { g.test(1) } else { operand(g, d) };
        out.push(It::At(a));
        if i + 1 < n {
            let op = if g.s.chance(1, 2) {
                *g.s.pick(&[&"and", &"or", &"+", &"~", &"*", &"**", &"==", &"is", &"in", &"??", &"-", &"is not", &"not in", &"..", &"b-and"])
            } else {
                BINOPS[g.s.idx(BINOPS.len())].0
            };
            let op = BINOPS.iter().find(|b| b.0 == op).unwrap().0;
            test = op == "is" || op == "is not";
            out.push(It::Op(op));
        }
    }
}
fn operand(g: &mut Gen, d: u32) -> Ex {
    if d == 0 || g.fuel <= 0 {
        return g.leaf();
    }
    g.fuel -= 1;
    match g.s.weighted(&[6, 3, 3, 2, 1]) {
        0 => g.leaf(),
        1 => g.postfix(1),
        2 => par(chain(g, d - 1)),
        3 => {
            let n = 1 + g.s.idx(2);
            let items = (0..n).map(|_| Arg::Pos(chain(g, d - 1))).collect();
            Ex::Call(Box::new(Ex::Name(g.s.pick(FUNCS).to_owned())), Args { items, trailing: false })
        }
        _ => Ex::Arr(vec![chain(g, d - 1)], false),
    }
}
/// an expression as it is read from a flat sequence of operands and operators
fn chain(g: &mut Gen, d: u32) -> Ex {
    let mut v = vec![];
    flat(g, d, &mut v);
    let mut it = v.into_iter().peekable();
    let e = climb(&mut it, 0);
    if g.s.chance(1, 6) && d > 0 {
        let kind = g.s.weighted(&[4, 2, 2]);
        // without an else part only a chain may stand in the middle
        let t = if kind == 1 {
            None
        } else {
            let mut v = vec![];
            flat(g, d - 1, &mut v);
            Some(Box::new(climb(&mut v.into_iter().peekable(), 0)))
        };
        let f = if kind == 2 { None } else { Some(Box::new(chain(g, d - 1))) };
        return Ex::Tern(Box::new(e), t, f);
    }
    e
}
/// the documented grouping: precedence climbing over the table
fn climb(it: &mut std::iter::Peekable<std::vec::IntoIter<It>>, min: u32) -> Ex {
    let mut l = match it.next().unwrap() {
        It::Un(op) => Ex::Un(op, Box::new(climb(it, unop(op)))),
        It::At(e) => e,
        It::Op(_) => unreachable!(),
    };
    while let Some(It::Op(op)) = it.peek() {
        let op = *op;
        let (p, right) = binop(op);
        if p < min {
            break;
        }
        it.next();
        let r = climb(it, if right { p } else { p + 1 });
        l = Ex::Bin(op, Box::new(l), Box::new(r));
    }
    l
}
fn fp_args(a: &Args) -> Args {
    Args {
        items: a
            .items
            .iter()
            .map(|x| match x {
                Arg::Pos(e) => Arg::Pos(fp(e)),
                Arg::Named(n, e) => Arg::Named(n.clone(), fp(e)),
            })
            .collect(),
        trailing: a.trailing,
    }
}
/// fully parenthesised
fn fp(e: &Ex) -> Ex {
    fn b(e: &Ex) -> Box<Ex> {
        Box::new(fp(e))
    }
    fn w(e: &Ex) -> Box<Ex> {
        let e = fp(e);
        Box::new(match e {
            Ex::Bin(..) | Ex::Un(..) | Ex::Tern(..) => par(e),
            _ => e,
        })
    }
    match e {
        Ex::Bin(op, l, r) => Ex::Bin(op, w(l), w(r)),
        Ex::Un(op, x) => Ex::Un(op, w(x)),
        Ex::Tern(c, t, f) => Ex::Tern(w(c), t.as_ref().map(|x| w(x)), f.as_ref().map(|x| w(x))),
        Ex::Paren(x) => Ex::Paren(b(x)),
        Ex::Arr(v, t) => Ex::Arr(v.iter().map(fp).collect(), *t),
        Ex::Call(f, a) => Ex::Call(f.clone(), fp_args(a)),
        x => x.clone(),
    }
}
/// tree without wrappers and parentheses
pub fn grouping(t: &Tree) -> String {
    fn go(t: &Tree, n: usize, d: usize, s: &mut String) {
        let k = t.kind(n);
        let paren = k == "TWIG_PARENTHESES_EXPRESSION";
        let skip = paren || k == "TWIG_EXPRESSION";
        if !skip {
            s.push_str(&" ".repeat(d));
            s.push_str(k);
            s.push('\n');
        }
        for c in &t.nodes[n].ch {
            match c {
                C::N(x) => go(t, *x, if skip { d } else { d + 1 }, s),
                C::T(x) => {
                    let tx = norm_ctrl(t.tok_text(*x)).trim();
                    if !tx.is_empty() && !(paren && (tx == "(" || tx == ")")) {
                        s.push_str(&" ".repeat(d + 1));
                        s.push_str(tx);
                        s.push('\n');
                    }
                }
            }
        }
    }
    let mut s = String::new();
    go(t, 0, 0, &mut s);
    s
}
fn emit_var(s: &mut Src, e: &Ex, st: Style) -> Tree {
    emit(s, &[Nd::Var(e.clone())], st)
}
pub fn p04(s: &mut Src) -> Out {
    let fuel = [4, 10, 20][s.idx(3)];
    let e = {
        let mut g = Gen::new(s, Prof { fuel, ex_depth: 2, ..Prof::default() });
        chain(&mut g, 2)
    };
    let st = if s.chance(1, 2) { Style::canonical() } else { Style::random(s) };
    let t = emit_var(s, &e, st);
    let got = parse(&t.text);
    if let Some(m) = cmp_expected(&t.text, &t, &got) {
        return Out::fail(&t.text, m);
    }
    let f = fp(&e);
    let t2 = emit_var(s, &f, Style::canonical());
    let got2 = parse(&t2.text);
    let both = format!("{}\n--- with all parentheses\n{}", t.text, t2.text);
    if let Some(e) = got2.errors.first() {
        return Out::fail(&both, format!("syntax error in the parenthesised form: {e}"));
    }
    let (a, b) = (grouping(&got.tree), grouping(&got2.tree));
    if a != b {
        return Out::fail(&both, format!("grouping changes with parentheses: {}", first_diff(&b, &a)));
    }
    let ops = t.nodes.iter().filter(|n| n.kind == "TWIG_BINARY_EXPRESSION" || n.kind == "TWIG_UNARY_EXPRESSION").count();
    Out::ok(ops >= 2, &t.text)
}

// ------------------------------------------------------------------ P05
pub fn p05_model(s: &mut Src) -> Out {
    let p = sized(s, Prof { dirs: true, ..Prof::default() });
    let doc = gen_doc(s, &p);
    let st = Style::random(s);
    let t1 = emit(s, &doc, st);
    let mut st = Style::random(s);
    if s.chance(1, 3) {
        st = Style { wild: 12, code_nl: true, sib_wild: 12, eol: s.draw(3), ctrl: 6, tabs: true, attr_nl: true };
    }
    let t2 = emit(s, &doc, st);
    let (a, b) = (parse(&t1.text), parse(&t2.text));
    let both = format!("{}\n--- the same template, other white space\n{}", t1.text, t2.text);
    if a.errors.is_empty() != b.errors.is_empty() {
        return Out::fail(&both, format!("accepted in one layout only: {:?} / {:?}", a.errors, b.errors));
    }
    let (x, y) = (a.tree.shape(&SHAPE_NC), b.tree.shape(&SHAPE_NC));
    if x != y {
        return Out::fail(&both, format!("structure depends on the layout: {}", first_diff(&x, &y)));
    }
    Out::ok(t1.text != t2.text && t1.nodes.len() > 8, &both)
}
const WS_WORDS: &[(&str, &str)] = &[
    ("not", "in"),
    ("is", "not"),
    ("same", "as"),
    ("divisible", "by"),
    ("starts", "with"),
    ("ends", "with"),
    ("ignore", "missing"),
];
/// replace runs of white space by other runs
fn relayout(s: &mut Src, t: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = t.chars().collect();
    let isw = |i: usize| b[i] == ' ' || b[i] == '\t' || b[i] == '\n' || (b[i] == '\r' && b.get(i + 1) == Some(&'\n'));
    let mut i = 0;
    while i < b.len() {
        if !isw(i) {
            out.push(b[i]);
            i += 1;
            continue;
        }
        let st = i;
        while i < b.len() && isw(i) {
            i += 1;
        }
        let run: String = b[st..i].iter().collect();
        let before: String = b[st.saturating_sub(9)..st].iter().collect();
        let after: String = b[i..(i + 8).min(b.len())].iter().collect();
        // operators of several words hold exactly one blank
        let glued = WS_WORDS.iter().any(|(x, y)| before.ends_with(x) && after.starts_with(y));
        if glued || before.ends_with('\r') || s.chance(1, 3) {
            out.push_str(&run);
            continue;
        }
        out.push_str(["\n", " ", "\r\n", "  ", "\t", "\n    ", " \r\n\t", "\n\n", "   \n"][s.idx(9)]);
    }
    out
}
pub fn p05_any(s: &mut Src) -> Out {
    let t1 = any_text(s);
    let t2 = relayout(s, &t1);
    let messages = |t: &str| -> (Vec<String>, Tree) {
        note(t);
        let (root, errs) = ludtwig_parser::parse(t).split();
        (errs.iter().map(|e| e.expected_message()).collect(), Tree::from_syntax(&root))
    };
    let (e1, a) = messages(&t1);
    let (e2, b) = messages(&t2);
    let both = format!("{t1}\n--- the same text, other white space\n{t2}");
    if e1 != e2 {
        return Out::fail(&both, format!("errors depend on the layout: {e1:?} / {e2:?}"));
    }
    let (x, y) = (a.shape(&SHAPE), b.shape(&SHAPE));
    if x != y {
        return Out::fail(&both, format!("structure depends on the layout: {}", first_diff(&x, &y)));
    }
    Out::ok(t1 != t2 && a.nodes.len() > 3, &both)
}

// ------------------------------------------------------------------ P06
/// plain words only, so that every delimiter in the text belongs to a construct
pub fn plain_prof() -> Prof {
    Prof { fuel: 14, max_depth: 4, unicode: false, comments: true, dirs: true, spicy: false, multiline: false, plain: true, w: [6, 3, 2, 3, 7, 0], ..Prof::default() }
}
#[derive(Clone, Debug)]
pub struct Damage {
    pub text: String,
    pub what: String,
}
/// the next thing is a closing mark or a symbol that cannot start an operand
fn no_operand_next(t: &Tree, at: usize) -> bool {
    let rest = t.text[at..].trim_start();
    ["}", ")", "]", "%}", "-}}", "-%}", "~", ":", "?", ",", "*", "==", "/", "<", ">", "|"].iter().any(|x| rest.starts_with(x))
}
fn cut(t: &str, a: usize, b: usize, ins: &str) -> String {
    format!("{}{}{}", &t[..a], ins, &t[b..])
}
/// Something stands here that can only be a new operand.
fn operand_next(t: &Tree, at: usize) -> bool {
    let rest = t.text[at..].trim_start();
    let w: String = rest.chars().take_while(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-')).collect();
    if w.is_empty() {
        return rest.starts_with(['\'', '"']);
    }
    !BINOPS.iter().any(|(o, ..)| o.split(' ').next() == Some(w.as_str())) && !matches!(w.as_str(), "not" | "same" | "divisible")
}
const ENDS: &[&str] = &[
    "endblock", "endif", "endfor", "endset", "endapply", "endautoescape", "endembed", "sw_end_embed", "endsandbox", "endverbatim", "endmacro", "endwith",
    "endcache", "endtrans", "endcomponent", "endsw_silent_feature_call", "else", "elseif x", "endblocks", "ENDIF", "end",
];
/// names that are not the given one, but close to it
fn near_names(x: &str) -> Vec<String> {
    let mut v = vec![format!("{x}x"), format!("x{x}"), format!("{x}_{x}"), format!("_{x}"), format!("{x}_"), x.trim_matches('_').to_owned()];
    let flip: String = x.chars().enumerate().map(|(i, c)| if i == 0 { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect();
    v.push(flip);
    v.push(x.to_uppercase());
    for cut in [1, x.len() / 2] {
        v.push(x[..x.len() - cut.min(x.len())].trim_end_matches('-').to_owned());
    }
    v.retain(|y| y != x && y.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_'));
    v
}
/// every damage that certainly makes the template invalid
pub fn damages(t: &Tree) -> Vec<Damage> {
    let mut v = vec![];
    let mut v_len = 0;
    let mut add = |text: String, what: String| v.push(Damage { text, what });
    let last_cmt = |kind: &str, mark: &str| -> Option<usize> {
        // the last comment end of the whole file
        (0..t.toks.len()).rev().find(|k| t.tok_text(*k).ends_with(mark) && t.kind(t.toks[*k].parent) == kind)
    };
    for n in 0..t.nodes.len() {
        let k = t.kind(n);
        let code: Vec<usize> = t.code_toks(n).collect();
        let start = t.content_start(n);
        let end = t.nodes[n].end;
        let is_tag_code = code.first().is_some_and(|x| t.tok_text(*x).starts_with("{%"));
        let ending = (k.starts_with("TWIG_END") || k.contains("_ENDING_")) && is_tag_code;
        if k == "HTML_ENDING_TAG" {
            let x = t.text[start..end].to_owned();
            add(cut(&t.text, end, end, &x), format!("closing tag {x} duplicated"));
            // raw text simply goes on up to a later closing tag of that name
            let name = t.tok_text(code[1]);
            let later = t.text[end..].split("</").skip(1).any(|y| y.trim_start().starts_with(name));
            if !RAWTEXT.iter().any(|r| r.eq_ignore_ascii_case(name)) || !later {
                add(cut(&t.text, start, end, ""), format!("closing tag {} removed", t.node_text(n).trim()));
                add(cut(&t.text, start, end, "</zz>"), format!("closing tag {x} renamed"));
                let d = code[0];
                add(cut(&t.text, t.toks[d].start, t.toks[d].end, ""), format!("'</' of {x} removed"));
            }
            let d = *code.last().unwrap();
            add(cut(&t.text, t.toks[d].start, t.toks[d].end, ""), format!("'>' of {x} removed"));
            if !RAWTEXT.iter().any(|r| r.eq_ignore_ascii_case(name)) {
                let m = code[1];
                for o in near_names(name) {
                    // not a name the surrounding elements wait for, and no other letter case
                    let outer = t.ancestors(n).any(|a| t.kid(a, "HTML_ENDING_TAG").is_some_and(|y| y != n && t.node_text(y).contains(&o)));
                    if !o.eq_ignore_ascii_case(name) && !outer {
                        add(cut(&t.text, t.toks[m].start, t.toks[m].end, &o), format!("closing tag {x} renamed to {o}"));
                    }
                }
            }
            let p = t.parent(n).unwrap();
            if !t.ancestors(p).skip(1).any(|a| t.kind(a) == t.kind(p)) {
                let st = t.content_start(p);
                let moved = cut(&t.text, start, end, "");
                add(cut(&moved, st, st, &x), format!("{x} moved in front of its starting tag"));
            }
        }
        if ending {
            let x = t.text[start..end].to_owned();
            add(cut(&t.text, start, end, ""), format!("{x} removed"));
            add(cut(&t.text, end, end, &x), format!("{x} duplicated"));
            let other = if k == "TWIG_ENDING_BLOCK" { "{% endif %}" } else { "{% endblock %}" };
            add(cut(&t.text, start, end, other), format!("{x} renamed to {other}"));
            let kw = t.tok_text(code[1]);
            // all of them in turn
            let e = ENDS[(start + v_len * 7) % ENDS.len()];
            v_len += 1;
            let fits = (k == "TWIG_ENDIF_BLOCK" && e.starts_with("else")) || (k == "TWIG_ENDFOR_BLOCK" && e == "else");
            if e != kw && !fits {
                add(cut(&t.text, t.toks[code[1]].start, t.toks[code[1]].end, e), format!("{x} renamed to {e}"));
            }
            for e in match kw { "endembed" => vec!["sw_end_embed", "embed"], "sw_end_embed" => vec!["endembed", "sw_endembed"], _ => vec!["end"] } {
                add(cut(&t.text, t.toks[code[1]].start, t.toks[code[1]].end, e), format!("{x} renamed to {e}"));
            }
            if matches!(kw, "endblock" | "endmacro") && code.len() == 4 {
                for o in near_names(t.tok_text(code[2])) {
                    add(cut(&t.text, t.toks[code[2]].start, t.toks[code[2]].end, &o), format!("name in {x} changed to {o}"));
                }
            }
            let p = t.parent(n).unwrap();
            if !t.ancestors(p).skip(1).any(|a| t.kind(a) == t.kind(p)) {
                let st = t.content_start(p);
                let moved = cut(&t.text, start, end, "");
                add(cut(&moved, st, st, &x), format!("{x} moved in front of its starting tag"));
            }
        }
        if is_tag_code {
            let x = t.text[start..end].to_owned();
            let c = *code.last().unwrap();
            if t.tok_text(c).ends_with("%}") {
                add(cut(&t.text, t.toks[c].start, t.toks[c].end, ""), format!("'%}}' of {x} removed"));
            }
            if ending || (k.contains("STARTING_BLOCK") && t.parent(n).is_some_and(|p| t.kid(p, "BODY").is_some())) || matches!(k, "TWIG_IF_BLOCK" | "TWIG_FOR_BLOCK") {
                add(cut(&t.text, t.toks[code[0]].start, t.toks[code[0]].end, ""), format!("'{{%' of {x} removed"));
            }
            // required parts
            if k == "TWIG_STARTING_BLOCK" && t.kid(n, "TWIG_EXPRESSION").is_none() {
                let m = code[2];
                add(cut(&t.text, t.toks[m].start, t.toks[m].end, ""), format!("block name of {x} removed"));
            }
            if matches!(k, "TWIG_IF_BLOCK" | "TWIG_ELSE_IF_BLOCK" | "TWIG_FOR_BLOCK" | "TWIG_EXTENDS" | "TWIG_INCLUDE" | "TWIG_DO" | "TWIG_EMBED_STARTING_BLOCK" | "TWIG_CACHE_STARTING_BLOCK" | "SHOPWARE_TWIG_SW_INCLUDE" | "TWIG_FROM" | "TWIG_IMPORT" | "SHOPWARE_ICON" | "SHOPWARE_THUMBNAILS")
            {
                if let Some(e) = t.kid(n, "TWIG_EXPRESSION") {
                    // the words behind it could be read as a name
                    let rest = t.text[t.nodes[e].end..].trim_start();
                    if !["only", "ignore missing", "ttl", "tags"].iter().any(|w| rest.starts_with(w)) {
                        add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("expression of {x} removed"));
                    }
                }
            }
            if matches!(k, "SHOPWARE_TWIG_SW_EXTENDS" | "TWIG_USE" | "TWIG_DEPRECATED" | "SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK") {
                if let Some(e) = t.kid(n, "TWIG_LITERAL_STRING") {
                    add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("string of {x} removed"));
                }
            }
            if matches!(k, "TWIG_FOR_BLOCK" | "TWIG_FROM" | "TWIG_IMPORT") {
                for m in &code {
                    if matches!(t.tok_text(*m), "in" | "import" | "sw_import" | "as") && Some(m) != code.get(1) {
                        add(cut(&t.text, t.toks[*m].start, t.toks[*m].end, ""), format!("'{}' of {x} removed", t.tok_text(*m)));
                    }
                }
            }
            if matches!(k, "TWIG_FOR_BLOCK" | "TWIG_COMPONENT_STARTING_BLOCK" | "TWIG_IMPORT") {
                if let Some(e) = t.kids(n).filter(|e| t.kind(*e) == "TWIG_LITERAL_NAME").last() {
                    add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("name of {x} removed"));
                }
            }
            if k == "TWIG_FROM" {
                let ov: Vec<usize> = t.kids(n).filter(|e| t.kind(*e) == "TWIG_OVERRIDE").collect();
                if ov.len() == 1 {
                    add(cut(&t.text, t.content_start(ov[0]), t.nodes[ov[0]].end, " "), format!("names of {x} removed"));
                }
            }
            if matches!(k, "TWIG_MACRO_STARTING_BLOCK") {
                let m = code[2];
                add(cut(&t.text, t.toks[m].start, t.toks[m].end, ""), format!("macro name of {x} removed"));
                if let Some(e) = t.kid(n, "TWIG_ARGUMENTS") {
                    add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("parameter list of {x} removed"));
                }
            }
            if k == "TWIG_APPLY_STARTING_BLOCK" {
                if let Some(e) = t.kids(n).next() {
                    add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("filter of {x} removed"));
                }
            }
            // the keyword
            if code.len() > 1 && !ending {
                add(cut(&t.text, t.toks[code[1]].start, t.toks[code[1]].end, "zzz"), format!("keyword of {x} renamed"));
            }
        }
        // separators
        for m in &code {
            let (a, b) = (t.toks[*m].start, t.toks[*m].end);
            let sep = match t.tok_text(*m) {
                "," => matches!(k, "TWIG_LITERAL_ARRAY_INNER" | "TWIG_LITERAL_HASH_ITEMS" | "TWIG_ARGUMENTS" | "TWIG_LITERAL_HASH_INNER"),
                ":" => k == "TWIG_LITERAL_HASH_PAIR" || (k == "TWIG_CONDITIONAL_EXPRESSION" && t.kids(n).count() == 3),
                "|" => k == "TWIG_FILTER",
                "=>" => k == "TWIG_ARROW_FUNCTION",
                "with" => is_tag_code && *m != code[1],
                "?" => k == "TWIG_CONDITIONAL_EXPRESSION",
                _ => false,
            };
            // nothing between two commas
            if sep && t.tok_text(*m) == "," && k != "TWIG_LITERAL_ARRAY_INNER" {
                add(cut(&t.text, a, a, ","), format!("second ',' in {}", t.node_text(n).trim()));
            }
            if sep && operand_next(t, b) {
                add(cut(&t.text, a, b, " "), format!("'{}' of {} removed", t.tok_text(*m), t.node_text(n).trim()));
            }
        }
        match k {
            "HTML_DOCTYPE" => {
                let c = *code.last().unwrap();
                add(cut(&t.text, t.toks[c].start, t.toks[c].end, ""), "end of the doctype removed".into());
            }
            "TWIG_ASSIGNMENT" => {
                let x = t.node_text(n).to_owned();
                let names: Vec<usize> = t.kids(n).filter(|e| t.kind(*e) == "TWIG_LITERAL_NAME").collect();
                add(cut(&t.text, t.content_start(names[0]), t.nodes[names[0]].end, " "), format!("variable of {x} removed"));
                if let Some(eq) = code.iter().find(|c| t.tok_text(**c) == "=") {
                    let vals: Vec<usize> = t.kids(n).filter(|e| t.kind(*e) == "TWIG_EXPRESSION").collect();
                    if vals.len() == 1 {
                        add(cut(&t.text, t.content_start(vals[0]), t.nodes[vals[0]].end, " "), format!("value of {x} removed"));
                    }
                    add(cut(&t.text, t.toks[*eq].start, t.toks[*eq].end, ""), format!("'=' of {x} removed"));
                }
            }
            "TWIG_VAR" => {
                let x = t.node_text(n).to_owned();
                let c = *code.last().unwrap();
                add(cut(&t.text, t.toks[c].start, t.toks[c].end, ""), format!("'}}}}' of {x} removed"));
                if let Some(e) = t.kid(n, "TWIG_EXPRESSION") {
                    add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("expression of {x} removed"));
                }
            }
            "TWIG_LITERAL_ARRAY" | "TWIG_LITERAL_HASH" | "TWIG_PARENTHESES_EXPRESSION" | "TWIG_INDEX_LOOKUP" | "TWIG_ARGUMENTS" | "TWIG_LITERAL_HASH_KEY" | "TWIG_CACHE_TTL" | "TWIG_CACHE_TAGS" => {
                // inside of strings an unbalanced brace ends the interpolation earlier
                let inner = t.has_anc(n, "TWIG_LITERAL_STRING_INTERPOLATION");
                for m in &code {
                    if !inner && matches!(t.tok_text(*m), "(" | ")" | "[" | "]" | "{" | "}") {
                        add(cut(&t.text, t.toks[*m].start, t.toks[*m].end, ""), format!("bracket {} of {} removed", t.tok_text(*m), t.node_text(n)));
                    }
                }
            }
            "TWIG_LITERAL_STRING" | "HTML_STRING" => {
                for m in &code {
                    if matches!(t.tok_text(*m), "'" | "\"") {
                        add(cut(&t.text, t.toks[*m].start, t.toks[*m].end, ""), format!("quote of {} at {} removed", t.node_text(n), t.toks[*m].start));
                    }
                }
            }
            "HTML_STARTING_TAG" => {
                let x = t.node_text(n).trim().to_owned();
                let c = *code.last().unwrap();
                add(cut(&t.text, t.toks[c].start, t.toks[c].end, ""), format!("end of {x} removed"));
                let p = t.parent(n).unwrap();
                if t.kid(p, "HTML_ENDING_TAG").is_some() {
                    let o = code[0];
                    add(cut(&t.text, t.toks[o].start, t.toks[o].end, ""), format!("'<' of {x} removed"));
                    let a = t.content_start(n);
                    add(cut(&t.text, a, t.nodes[n].end, " "), format!("{x} removed"));
                }
            }
            "TWIG_BINARY_EXPRESSION" => {
                let ks: Vec<usize> = t.kids(n).collect();
                let op = t.tok_text(code[0]).to_owned();
                let r = ks[1];
                if no_operand_next(t, t.nodes[r].end) { add(cut(&t.text, t.content_start(r), t.nodes[r].end, " "), format!("right operand of {} removed", t.node_text(n))); }
                // words would be read as names
                if !matches!(op.as_str(), "-" | "+") && !op.starts_with(|c: char| c.is_ascii_alphabetic()) {
                    add(cut(&t.text, t.content_start(ks[0]), t.nodes[ks[0]].end, " "), format!("left operand of {} removed", t.node_text(n)));
                }
            }
            "TWIG_UNARY_EXPRESSION" => {
                let r = t.kids(n).next().unwrap();
                if no_operand_next(t, t.nodes[r].end) { add(cut(&t.text, t.content_start(r), t.nodes[r].end, " "), format!("operand of {} removed", t.node_text(n))); }
            }
            "TWIG_FILTER" | "TWIG_ACCESSOR" => {
                let r = t.kids(n).last().unwrap();
                if matches!(t.tok_text(*code.first().unwrap_or(&0)), "|" | ".") && no_operand_next(t, t.nodes[r].end) {
                    add(cut(&t.text, t.content_start(r), t.nodes[r].end, " "), format!("right side of {} removed", t.node_text(n)));
                }
            }
            // a part behind a mark that needs one
            "TWIG_LITERAL_HASH_PAIR" | "TWIG_NAMED_ARGUMENT" | "TWIG_ARROW_FUNCTION" | "TWIG_PROP_DECLARATION" | "TWIG_INCLUDE_WITH" | "SHOPWARE_ICON_STYLE"
            | "SHOPWARE_THUMBNAILS_WITH" => {
                let x = t.node_text(n).to_owned();
                let mark = code.iter().rev().find(|c| matches!(t.tok_text(**c), ":" | "=" | "=>" | "with" | "style"));
                if let (Some(c), Some(e)) = (mark, t.kids(n).last()) {
                    let rest = t.text[t.nodes[e].end..].trim_start();
                    if t.toks[*c].end <= t.content_start(e) && !["only", "ignore missing", "ttl", "tags"].iter().any(|w| rest.starts_with(w)) {
                        add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("part behind {} of {x} removed", t.tok_text(*c)));
                    }
                    let first = t.kids(n).next().unwrap_or(e);
                    if k == "TWIG_LITERAL_HASH_PAIR" && first != e {
                        add(cut(&t.text, t.content_start(first), t.nodes[first].end, " "), format!("key of {x} removed"));
                    }
                }
                if k == "TWIG_NAMED_ARGUMENT" {
                    if let Some(m) = code.first().filter(|m| t.tok_text(**m) != "=") {
                        add(cut(&t.text, t.toks[*m].start, t.toks[*m].end, " "), format!("name of {x} removed"));
                    }
                }
            }
            // `is same as x`, `is divisible by x`
            "TWIG_FUNCTION_CALL" => {
                let args = t.kid(n, "TWIG_ARGUMENTS").filter(|a| !t.node_text(*a).trim_start().starts_with('('));
                if let Some(e) = args.filter(|e| no_operand_next(t, t.nodes[*e].end)) {
                    add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("argument of the test {} removed", t.node_text(n)));
                }
            }
            "TWIG_CONDITIONAL_EXPRESSION" => {
                let ks: Vec<usize> = t.kids(n).collect();
                let colon = code.iter().find(|c| t.tok_text(**c) == ":");
                let e = *ks.last().unwrap();
                if (ks.len() == 2 || colon.is_some()) && no_operand_next(t, t.nodes[e].end) {
                    add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("last part of {} removed", t.node_text(n)));
                }
            }
            "TWIG_INDEX" => {
                if let Some(e) = t.kids(n).next().filter(|_| t.text[..start].ends_with('[')) {
                    add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("index {} removed", t.node_text(e)));
                }
            }
            "TWIG_LITERAL_STRING_INTERPOLATION" => {
                if let Some(e) = t.kids(n).next() {
                    add(cut(&t.text, t.content_start(e), t.nodes[e].end, " "), format!("content of {} removed", t.node_text(n)));
                }
            }
            "HTML_ATTRIBUTE" => {
                if let (Some(c), Some(e)) = (code.iter().find(|c| t.tok_text(**c) == "="), t.kid(n, "HTML_STRING")) {
                    let rest = t.text[t.nodes[e].end..].trim_start();
                    if rest.starts_with('>') || rest.starts_with("/>") || rest.starts_with("{%") {
                        add(cut(&t.text, t.toks[*c].end, t.nodes[e].end, if rest.starts_with('{') { " " } else { "" }), format!("value of {} removed", t.node_text(n)));
                    }
                }
            }
            "TWIG_IF" => {
                // further branches behind the else branch
                if let (Some(_), Some(e)) = (t.kid(n, "TWIG_ELSE_BLOCK"), t.kid(n, "TWIG_ENDIF_BLOCK")) {
                    let b = t.content_start(e);
                    for x in ["{% else %}", "{% elseif x %}", "{%- else -%}b"] {
                        add(cut(&t.text, b, b, x), format!("{x} in front of the end of {}", t.node_text(n)));
                    }
                }
            }
            "TWIG_FOR" => {
                if let (Some(_), Some(e)) = (t.kid(n, "TWIG_FOR_ELSE_BLOCK"), t.kid(n, "TWIG_ENDFOR_BLOCK")) {
                    let b = t.content_start(e);
                    add(cut(&t.text, b, b, "{% else %}"), format!("second else in {}", t.node_text(n)));
                }
            }
            "TWIG_COMMENT" => {
                if let Some(c) = last_cmt(k, "#}") {
                    if t.toks[c].parent == n {
                        add(cut(&t.text, t.toks[c].start, t.toks[c].end, ""), "end of the last twig comment removed".into());
                    }
                }
            }
            "HTML_COMMENT" => {
                if let Some(c) = last_cmt(k, "-->") {
                    if t.toks[c].parent == n && !t.text[t.toks[c].end..].contains("-->") {
                        add(cut(&t.text, t.toks[c].start, t.toks[c].end, ""), "end of the last html comment removed".into());
                    }
                }
            }
            _ => {}
        }
    }
    v
}
/// `#{` glued to a following `{`, `#` or `%`: the lexer makes `{{`, `{#` or `{%` out of it and the
/// string is taken as plain text (known finding)
fn glued(text: &str) -> usize {
    ["#{{", "#{#", "#{%"].iter().map(|g| text.matches(g).count()).sum()
}

/// the known finding itself
pub fn p06_glued(s: &mut Src, listed: bool) -> Out {
    let g = s.pick(&["#{#{b' == c}", "#{{b' == c}", "#{%b' == c}", "#{#", "#{% }"]);
    let text = match s.draw(3) {
        0 => format!("{{{{ \"a{g}\" }}}}"),
        1 => format!("{{% set x = \"{g} b\" %}}"),
        _ => format!("{{{{ foo(\"a {g}\", 1) }}}}"),
    };
    if !parse(&text).errors.is_empty() {
        return Out::ok(true, &text);
    }
    if listed {
        return Out { known: 1, ..Out::ok(true, &text) };
    }
    Out::fail(&text, "no syntax error: an interpolation that starts with {, # or %")
}

pub fn p06(s: &mut Src, listed: bool) -> Out {
    let p = plain_prof();
    let doc = gen_doc(s, &p);
    let st = if s.chance(1, 2) { Style::canonical() } else { Style { wild: 3, code_nl: true, sib_wild: 4, eol: s.draw(2), ctrl: 2, tabs: true, attr_nl: true } };
    let t = emit(s, &doc, st);
    let ok = parse(&t.text);
    if !ok.errors.is_empty() {
        return Out::fail(&t.text, format!("syntax error in the undamaged template: {}", ok.errors[0]));
    }
    let ds = damages(&t);
    if ds.is_empty() {
        return Out::skip();
    }
    let mut last = None;
    for _ in 0..4 {
        let d = &ds[s.idx(ds.len())];
        let got = parse(&d.text);
        if got.errors.is_empty() {
            if listed && glued(&d.text) > glued(&t.text) {
                return Out { known: 1, ..Out::ok(true, &d.text) };
            }
            return Out::fail(&d.text, format!("no syntax error: {}\n--- undamaged\n{}", d.what, t.text));
        }
        last = Some(d.clone());
    }
    let d = last.unwrap();
    Out::ok(true, &format!("{}\n--- {}", d.text, d.what))
}

// ------------------------------------------------------------------ P07
pub const GARBAGE: &[&str] = &[
    "{{ a b }}", "{{ }}", "{{ a + }}", "{{ (a }}", "{{ a) }}", "{{ [1, }}", "{{ foo(a, }}", "{{ a ? }}", "{{ a|  }}", "{{ a. }}", "{{ a..b c }}", "{{ {a: } }}",
    "{% unknowntag %}", "{% unknowntag foo bar %}", "{% set = 1 %}", "{% set x = %}", "{% include %}", "{% do %}", "{% flush now %}", "{% extends %}", "{% from x import %}",
    "{% import x %}", "{% use %}", "{% deprecated %}", "{% do a b %}", "{% include 'a' foo %}", "{% sw_extends %}", "{% if %}x{% endif %}",
    "{% for in a %}x{% endfor %}", "{% for x a %}x{% endfor %}", "{% block %}x{% endblock %}", "{% macro () %}x{% endmacro %}", "{% if a b %}x{% endif %}",
    "{% with a b %}x{% endwith %}", "{% apply %}x{% endapply %}", "{% autoescape foo %}x{% endautoescape %}", "<div class=>x</div>", "<div =\"a\">x</div>", "<div class==\"a\">x</div>",
    "<div !>x</div>", "{% cache %}x{% endcache %}", "{% embed %}{% endembed %}", "{% 1 %}", "{{ % }}",
];
const WRAPS: &[(&str, &str)] = &[
    ("<section>", "</section>"),
    ("{% block zz_wrap %}", "{% endblock %}"),
    ("{% if zz %}", "{% endif %}"),
    ("{% if zz %}x{% elseif q %}", "{% else %}x{% endif %}"),
    ("{% if zz %}x{% else %}", "{% endif %}"),
    ("<p><span>hello ", " world</span></p>"),
    ("{% for a in b %}<i>", "</i>{% else %}x{% endfor %}"),
    ("{% for a in b %}", "{% else %}x{% endfor %}"),
    ("{% for a in b %}x{% else %}", "{% endfor %}"),
    ("<section>{{ ok }}", "<br/>{% block inner %}text{% endblock %}</section>"),
    ("{% block zz_a %}{% block zz_b %}", "{% endblock %}{% endblock %}"),
    ("{% set zz %}", "{% endset %}"),
    ("{% apply upper %}", "{% endapply %}"),
    ("{% autoescape %}", "{% endautoescape %}"),
    ("{% sandbox %}", "{% endsandbox %}"),
    ("{% verbatim %}", "{% endverbatim %}"),
    ("{% macro zz() %}", "{% endmacro %}"),
    ("{% with %}", "{% endwith %}"),
    ("{% cache 'k' %}", "{% endcache %}"),
    ("{% trans %}", "{% endtrans %}"),
    ("{% component Zz %}", "{% endcomponent %}"),
    ("{% sw_silent_feature_call 'Z' %}", "{% endsw_silent_feature_call %}"),
    ("{% embed 'z' %}{% block zz_c %}", "{% endblock %}{% endembed %}"),
    ("{% sw_embed 'z' %}{% block zz_c %}", "{% endblock %}{% sw_end_embed %}"),
];
const UNCLOSED: &[&str] = &["<b>x", "<b class=\"c\">x <i>y</i>", "<b><i>x", "<b>", "x<b>{{ y }}", "</b>", "x</b>y"];
/// One construct, damaged between its own delimiters: tokens removed, added or replaced inside of
/// one of its tags, the delimiters, keywords, names of elements and strings left alone.
fn inner_damage(s: &mut Src) -> Option<String> {
    let d = s.range(0, 2) as u32;
    let p = Prof { fuel: 10, multiline: false, spicy: false, plain: true, unicode: false, comments: false, ..Prof::default() };
    let nd = {
        let mut g = Gen::new(s, p);
        match g.s.weighted(&[2, 5, 2]) {
            0 => Nd::Var(g.ex(d + 1)),
            1 => Nd::Tag(Box::new(g.tag(d, Cx::Html))),
            _ => Nd::El(g.element(d)),
        }
    };
    let st = Style::random(s);
    let t = emit(s, &[nd], st);
    // the tags: opening token, keyword, inner tokens
    let mut tags: Vec<(usize, Vec<usize>)> = vec![];
    for n in 0..t.nodes.len() {
        let k = t.kind(n);
        if t.ancestors(n).any(|a| matches!(t.kind(a), "HTML_STRING" | "TWIG_LITERAL_STRING" | "TWIG_COMMENT" | "HTML_COMMENT" | "LUDTWIG_DIRECTIVE_IGNORE")) {
            continue;
        }
        let Some(first) = t.code_toks(n).next() else { continue };
        let f = t.tok_text(first);
        let html = k == "HTML_STARTING_TAG";
        // with another number of parts these are tags without an end, or with one
        if !(html || f.starts_with("{%") || f.starts_with("{{")) || k.contains("END") || matches!(k, "TWIG_STARTING_BLOCK" | "TWIG_SET_STARTING_BLOCK" | "TWIG_SET_BLOCK" | "TWIG_SET") {
            continue;
        }
        let mut inner = vec![];
        let mut ok = false;
        for x in first + 1..t.toks.len() {
            let w = t.tok_text(x);
            if t.toks[x].tr != Tr::No {
                continue;
            }
            if t.toks[x].parent == n && (w.ends_with("%}") || w.ends_with("}}") || html && matches!(w, ">" | "/>")) {
                ok = true;
                break;
            }
            inner.push(x);
        }
        // errors between attributes and template code in the list end the tag
        if !ok || html && t.kid(n, "HTML_ATTRIBUTE_LIST").is_some_and(|l| t.node_text(l).contains('{')) {
            continue;
        }
        if !f.starts_with("{{") && !inner.is_empty() {
            inner.remove(0);
        }
        // behind an error this is the beginning of an element
        if inner.iter().any(|x| t.tok_text(*x) == "<") {
            continue;
        }
        inner.retain(|x| t.toks[*x].parent == n || !t.ancestors(t.toks[*x].parent).take_while(|a| *a != n).any(|a| matches!(t.kind(a), "HTML_STRING" | "TWIG_LITERAL_STRING") || html && t.kind(a).starts_with("TWIG") || t.kind(a).contains("COMMENT")));
        tags.push((n, inner));
    }
    if tags.is_empty() {
        return None;
    }
    let (n, inner) = &tags[s.idx(tags.len())];
    let html = t.kind(*n) == "HTML_STARTING_TAG";
    const W: &[&str] = &["zz", "1", "+", "|", ",", ".", ":", "?", "(", ")", "[", "]", "=>", "..", "is", "in", "and", "not", "if", "with", "only", "as", "=", "*", "??", "...", "}", "{", "zz zz", "1 2"];
    const H: &[&str] = &["=", "zz", "==", "!", "(", "1", ".", "= =", "%", ",", "zz = =", "=zz=zz"];
    let words = if html { H } else { W };
    let mut edits: Vec<(usize, usize, String)> = vec![];
    for _ in 0..s.range(1, 2) {
        let at = if inner.is_empty() { None } else { Some(inner[s.idx(inner.len())]) };
        let w = s.pick(words);
        match (at, s.idx(3)) {
            (Some(x), 0) => edits.push((t.toks[x].start, t.toks[x].end, " ".into())),
            (Some(x), 1) => edits.push((t.toks[x].start, t.toks[x].end, format!(" {w} "))),
            (Some(x), _) => edits.push((t.toks[x].end, t.toks[x].end, format!(" {w} "))),
            (None, _) => {
                // in front of the closing delimiter
                let e = t.code_toks(*n).last()?;
                edits.push((t.toks[e].start, t.toks[e].start, format!(" {w} ")));
            }
        }
    }
    edits.sort();
    edits.dedup_by(|b, a| b.0 < a.1);
    let mut o = String::new();
    let mut i = 0;
    for (a, b, w) in edits {
        if a < i {
            continue;
        }
        o.push_str(&t.text[i..a]);
        o.push_str(&w);
        i = b;
    }
    o.push_str(&t.text[i..]);
    Some(o)
}

/// without their ends
const OPEN: &[&str] = &["{{ a.", "{{ a +", "{{ a|", "{{", "{% set x =", "{% do", "{% include", "{{ (a", "{{ [a,", "{{ a ?", "{{ f(a", "{% extends 'a'", "{{ a"];
pub fn p07(s: &mut Src) -> Out {
    p07_case(s, false)
}
pub fn p07_inner(s: &mut Src) -> Out {
    p07_case(s, true)
}
fn p07_case(s: &mut Src, inner: bool) -> Out {
    let mut p = Prof { fuel: 8, dirs: false, ..Prof::default() };
    let before = gen_doc(s, &p);
    p.fuel = 8;
    let after = gen_doc(s, &p);
    let st = Style::random(s);
    let a = emit(s, &before, st.clone());
    let b = emit(s, &after, st);
    // the constructs the damage sits in, from the outside
    let mut l = String::new();
    let mut r = String::new();
    let mut inner_tag = false;
    for _ in 0..s.weighted(&[2, 5, 3, 1]) {
        let (x, y) = WRAPS[s.idx(WRAPS.len())];
        l.push_str(x);
        r.insert_str(0, y);
        inner_tag = x.ends_with("%}");
    }
    // an element that is not closed ends with the tag around it
    let junk = if inner_tag && s.chance(1, 3) { s.pick(UNCLOSED) } else { s.pick(GARBAGE) };
    let sep = ["\n", " ", "\n\n", "\r\n"][s.idx(4)];
    // the marks keep neighbouring text apart
    let mark = s.pick(&["<hr/>", "<hr/>", "<i>q</i>", "{{ q }}", "{{- q -}}", "{{~ q ~}}", "{# q #}", "{#- q -#}", "{#~ q ~#}", "<!-- q -->", "{% do q %}", "{%- do q -%}", "{%~ do q ~%}"]);
    // not even ended: the next construct ends it
    let (junk, after_junk) = match s.draw(8) {
        1 if inner_tag => (s.pick(OPEN), ""),
        2 if mark.starts_with('{') => (s.pick(OPEN), mark),
        _ => (junk, ""),
    };
    let own;
    let (junk, after_junk) = if inner {
        let Some(x) = inner_damage(s) else { return Out::skip() };
        own = x;
        (own.as_str(), "")
    } else {
        (junk, after_junk)
    };
    let text = format!("{}{sep}<hr/>{sep}{l}{junk}{after_junk}{r}{sep}{mark}{sep}{}", a.text, b.text);
    if a.text.ends_with('<') || a.text.ends_with('{') {
        return Out::skip();
    }
    let pre = parse(&format!("{}{sep}<hr/>", a.text));
    let post = parse(&format!("{mark}{sep}{}", b.text));
    if !pre.errors.is_empty() || !post.errors.is_empty() {
        return Out::skip(); // P03 decides that
    }
    let got = parse(&text);
    if got.errors.is_empty() && inner {
        return Out::skip(); // some are harmless
    }
    if got.errors.is_empty() {
        return Out::fail(&text, "the damage is not reported at all");
    }
    let kids = |t: &Tree| -> Vec<String> { t.nodes[0].ch.iter().filter_map(|c| if let C::N(x) = c { Some(t.shape_node(*x, &SHAPE)) } else { None }).collect() };
    let g = kids(&got.tree);
    let (x, y) = (kids(&pre.tree), kids(&post.tree));
    if g.len() < x.len() || g[..x.len()] != x[..] {
        let i = x.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(g.len());
        return Out::fail(&text, format!("a construct in front of the damage is parsed differently: {:?}", x.get(i)));
    }
    if g.len() < y.len() || g[g.len() - y.len()..] != y[..] {
        let i = y.iter().rev().zip(g.iter().rev()).position(|(a, b)| a != b).unwrap_or(0);
        return Out::fail(&text, format!("a construct behind the damage is parsed differently: {:?}", y.iter().rev().nth(i)));
    }
    // errors are only reported at the damage or up to the next complete construct
    let (lo, hi) = (pre.tree.text.len(), text.len() - post.tree.text.len());
    for e in ludtwig_parser::parse(&text).split().1 {
        let at = usize::from(e.range.start());
        if at < lo || at >= hi + 4 {
            return Out::fail(&text, format!("error reported away from the damage ({lo}..{hi}): {e}"));
        }
    }
    Out::ok(x.len() > 1 && y.len() > 1, &text)
}
