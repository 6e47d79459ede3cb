//! Check P08: the typed accessors against the written parts.
use crate::emit::Style;
use crate::parse::*;
use crate::r#gen::*;
use crate::runner::*;
use crate::tape::Src;
use crate::tree::*;
use ludtwig_parser::syntax::untyped::TemplateLanguage;
use ludtwig_parser::syntax::typed::*;
use ludtwig_parser::syntax::untyped::{SyntaxElement as rowan_element, SyntaxNode, SyntaxToken};

type Part = Option<(usize, String)>;
fn tk(t: Option<SyntaxToken>) -> Part {
    t.map(|t| (usize::from(t.text_range().start()), t.text().to_owned()))
}
fn nd<N: AstNode<Language = TemplateLanguage>>(n: Option<N>) -> Part {
    n.map(|n| node_part(n.syntax()))
}
fn node_part(n: &SyntaxNode) -> (usize, String) {
    let text = n.text().to_string();
    let lead = text.len() - text.trim_start_matches([' ', '\t', '\r', '\n']).len();
    let body = text.trim_matches([' ', '\t', '\r', '\n']).to_owned();
    (usize::from(n.text_range().start()) + if body.is_empty() { 0 } else { lead }, body)
}
fn ws(w: Option<WhitespaceTrimming>) -> &'static str {
    match w {
        None => "",
        Some(WhitespaceTrimming::RemoveAll) => "-",
        Some(WhitespaceTrimming::RemoveExceptNewLines) => "~",
    }
}

pub fn p08(s: &mut Src) -> Out {
    let p = sized(s, Prof { dirs: true, w: [5, 3, 2, 5, 7, 2], ..Prof::default() });
    let doc = gen_doc(s, &p);
    let st = if s.chance(1, 4) { Style::canonical() } else { Style::random(s) };
    let t = emit(s, &doc, st);
    let got = parse(&t.text);
    if cmp_expected(&t.text, &t, &got).is_some() {
        return Out::skip(); // P03 decides that
    }
    let mut checks = 0u64;
    for (i, n) in got.root.descendants().enumerate() {
        if let Some(m) = node(&t, i, &n, &mut checks) {
            return Out::fail(&t.text, format!("{}: {m}", t.node_text(i).trim()));
        }
    }
    if let Some(m) = casts(&got.root) {
        return Out::fail(&t.text, m);
    }
    Out::ok(checks > 3, &t.text)
}

fn node(t: &Tree, i: usize, n: &SyntaxNode, checks: &mut u64) -> Option<String> {
    let xt = |k: Option<usize>| -> Part { k.map(|k| (t.toks[k].start, t.tok_text(k).to_owned())) };
    let xn = |k: Option<usize>| -> Part {
        k.map(|k| {
            let body = t.node_text(k).trim_matches([' ', '\t', '\r', '\n']).to_owned();
            let at = if body.is_empty() { n.text_range().start().into() } else { t.content_start(k) };
            (at, body)
        })
    };
    // the place of an empty node is not part of the comparison
    let eq = |a: &Part, b: &Part| match (a, b) {
        (Some(x), Some(y)) if x.1.is_empty() && y.1.is_empty() => true,
        _ => a == b,
    };
    let mut err: Option<String> = None;
    let mut cmp = |what: &str, got: Part, want: Part| {
        *checks += 1;
        if !eq(&got, &want) && err.is_none() {
            err = Some(format!("{what} returns {got:?}, written was {want:?}"));
        }
    };
    let code: Vec<usize> = t.code_toks(i).collect();
    let kids: Vec<usize> = t.kids(i).collect();
    let k = t.kind(i);
    let par = t.parent(i);
    let n2 = n.clone();
    macro_rules! control {
        ($($ty:ident),*) => {
            $(if let Some(x) = $ty::cast(n.clone()) {
                let mark = |k: Option<&usize>, open: bool| -> &'static str {
                    let Some(k) = k else { return "" };
                    let x = t.tok_text(*k);
                    let delim = if open { x.starts_with("{%") || x.starts_with("{{") || x.starts_with("{#") } else { x.ends_with("%}") || x.ends_with("}}") || x.ends_with("#}") };
                    if !delim { "" } else if x.contains('-') { "-" } else if x.contains('~') { "~" } else { "" }
                };
                cmp("leading_ws_control", Some((0, ws(x.leading_ws_control()).to_owned())), Some((0, mark(code.first(), true).to_owned())));
                cmp("trailing_ws_control", Some((0, ws(x.trailing_ws_control()).to_owned())), Some((0, mark(code.last(), false).to_owned())));
            })*
        };
    }
    control!(
        TwigStartingBlock, TwigEndingBlock, TwigIfBlock, TwigElseIfBlock, TwigElseBlock, TwigEndIfBlock, TwigSetBlock, TwigEndSetBlock,
        TwigForBlock, TwigForElseBlock, TwigEndForBlock, TwigInclude, TwigUse, TwigApplyStartingBlock, TwigApplyEndingBlock,
        TwigAutoescapeStartingBlock, TwigAutoescapeEndingBlock, TwigDeprecated, TwigDo, TwigEmbedStartingBlock, TwigEmbedEndingBlock,
        TwigFlush, TwigFrom, TwigImport, TwigExtends, TwigSandboxStartingBlock, TwigSandboxEndingBlock, TwigVerbatimStartingBlock,
        TwigVerbatimEndingBlock, TwigMacroStartingBlock, TwigMacroEndingBlock, TwigWithStartingBlock, TwigWithEndingBlock,
        TwigCacheStartingBlock, TwigCacheEndingBlock, TwigProps, TwigComponentStartingBlock, TwigComponentEndingBlock, TwigTransStartingBlock,
        TwigTransEndingBlock, ShopwareTwigExtends, ShopwareTwigInclude, ShopwareSilentFeatureCallStartingBlock,
        ShopwareSilentFeatureCallEndingBlock, ShopwareReturn, ShopwareIcon, TwigVar, TwigComment
    );
    match k {
        "TWIG_BLOCK" => {
            let b = TwigBlock::cast(n2)?;
            let start = t.kid(i, "TWIG_STARTING_BLOCK");
            cmp("TwigBlock::name", tk(b.name()), xt(start.and_then(|x| t.code_toks(x).nth(2))));
            cmp("TwigBlock::starting_block", nd(b.starting_block()), xn(start));
            cmp("TwigBlock::body", nd(b.body()), xn(t.kid(i, "BODY")));
            cmp("TwigBlock::ending_block", nd(b.ending_block()), xn(t.kid(i, "TWIG_ENDING_BLOCK")));
        }
        "TWIG_STARTING_BLOCK" => {
            let b = TwigStartingBlock::cast(n2)?;
            cmp("TwigStartingBlock::name", tk(b.name()), xt(code.get(2).copied()));
            cmp("TwigStartingBlock::twig_block", nd(b.twig_block()), xn(par));
        }
        "TWIG_ENDING_BLOCK" => cmp("TwigEndingBlock::twig_block", nd(TwigEndingBlock::cast(n2)?.twig_block()), xn(par)),
        "HTML_TAG" => {
            let b = HtmlTag::cast(n2)?;
            let start = t.kid(i, "HTML_STARTING_TAG");
            let name = start.and_then(|x| t.code_toks(x).nth(1));
            cmp("HtmlTag::name", tk(b.name()), xt(name));
            cmp("HtmlTag::starting_tag", nd(b.starting_tag()), xn(start));
            cmp("HtmlTag::body", nd(b.body()), xn(t.kid(i, "BODY")));
            cmp("HtmlTag::ending_tag", nd(b.ending_tag()), xn(t.kid(i, "HTML_ENDING_TAG")));
            let yes = |x: bool| Some((0, x.to_string()));
            cmp("HtmlTag::is_self_closing", yes(b.is_self_closing()), yes(t.kid(i, "HTML_ENDING_TAG").is_none()));
            cmp("HtmlTag::is_twig_component", yes(b.is_twig_component()), yes(t.tok_text(name?).starts_with("twig:")));
            let want: Vec<Part> = t.kid(start?, "HTML_ATTRIBUTE_LIST").map_or(vec![], |l| t.kids(l).filter(|x| t.kind(*x) == "HTML_ATTRIBUTE").map(|x| xn(Some(x))).collect());
            let got: Vec<Part> = b.attributes().map(|x| nd(Some(x))).collect();
            cmp("HtmlTag::attributes", Some((got.len(), format!("{got:?}"))), Some((want.len(), format!("{want:?}"))));
        }
        "HTML_STARTING_TAG" => {
            let b = HtmlStartingTag::cast(n2)?;
            cmp("HtmlStartingTag::name", tk(b.name()), xt(code.get(1).copied()));
            cmp("HtmlStartingTag::html_tag", nd(b.html_tag()), xn(par));
            let want: Vec<Part> = t.kid(i, "HTML_ATTRIBUTE_LIST").map_or(vec![], |l| t.kids(l).filter(|x| t.kind(*x) == "HTML_ATTRIBUTE").map(|x| xn(Some(x))).collect());
            let got: Vec<Part> = b.attributes().map(|x| nd(Some(x))).collect();
            cmp("HtmlStartingTag::attributes", Some((got.len(), format!("{got:?}"))), Some((want.len(), format!("{want:?}"))));
            let yes = |x: bool| Some((0, x.to_string()));
            cmp("HtmlStartingTag::is_twig_component", yes(b.is_twig_component()), yes(t.tok_text(code[1]).starts_with("twig:")));
        }
        "HTML_ENDING_TAG" => {
            let b = HtmlEndingTag::cast(n2)?;
            cmp("HtmlEndingTag::name", tk(b.name()), xt(code.get(1).copied()));
            cmp("HtmlEndingTag::html_tag", nd(b.html_tag()), xn(par));
            let yes = |x: bool| Some((0, x.to_string()));
            cmp("HtmlEndingTag::is_twig_component", yes(b.is_twig_component()), yes(t.tok_text(code[1]).starts_with("twig:")));
        }
        "HTML_ATTRIBUTE" => {
            let b = HtmlAttribute::cast(n2)?;
            // a name made of template code is a node, not a token
            let name = if kids.first().is_some_and(|x| t.kind(*x) == "TWIG_VAR") { None } else { code.first().copied() };
            cmp("HtmlAttribute::name", tk(b.name()), xt(name));
            cmp("HtmlAttribute::value", nd(b.value()), xn(t.kid(i, "HTML_STRING")));
            let direct = par.filter(|p| t.kind(*p) == "HTML_ATTRIBUTE_LIST").and_then(|p| t.parent(p));
            if direct.is_some() || b.html_tag().is_some() {
                let tag = t.ancestors(i).find(|a| t.kind(*a) == "HTML_STARTING_TAG");
                cmp("HtmlAttribute::html_tag", nd(b.html_tag()), xn(tag));
            }
        }
        "TWIG_BINARY_EXPRESSION" => {
            let b = TwigBinaryExpression::cast(n2)?;
            cmp("TwigBinaryExpression::operator", tk(b.operator()), xt(code.first().copied()));
            let l = kids.first().copied().filter(|x| t.kind(*x) == "TWIG_EXPRESSION");
            cmp("TwigBinaryExpression::lhs_expression", nd(b.lhs_expression()), xn(l));
            cmp("TwigBinaryExpression::rhs_expression", nd(b.rhs_expression()), xn(kids.get(1).copied()));
        }
        "LUDTWIG_DIRECTIVE_RULE_LIST" => {
            let want: Vec<&str> = code.iter().map(|c| t.tok_text(*c)).filter(|x| *x != ",").collect();
            let got = LudtwigDirectiveRuleList::cast(n2)?.get_rule_names();
            cmp("get_rule_names", Some((got.len(), got.join("|"))), Some((want.len(), want.join("|"))));
        }
        "LUDTWIG_DIRECTIVE_IGNORE" | "LUDTWIG_DIRECTIVE_FILE_IGNORE" => {
            let l = t.kid(i, "LUDTWIG_DIRECTIVE_RULE_LIST");
            let want: Vec<&str> = l.map_or(vec![], |l| t.code_toks(l).map(|c| t.tok_text(c)).filter(|x| *x != ",").collect());
            let got = if let Some(x) = LudtwigDirectiveIgnore::cast(n.clone()) { x.get_rules() } else { LudtwigDirectiveFileIgnore::cast(n2)?.get_rules() };
            cmp("get_rules", Some((got.len(), got.join("|"))), Some((want.len(), want.join("|"))));
        }
        "TWIG_LITERAL_STRING" => {
            let b = TwigLiteralString::cast(n2)?;
            cmp("TwigLiteralString::get_opening_quote", tk(b.get_opening_quote()), xt(code.first().copied()));
            cmp("TwigLiteralString::get_closing_quote", tk(b.get_closing_quote()), xt(code.last().copied()));
            let inner = t.kid(i, "TWIG_LITERAL_STRING_INNER");
            let got = b.get_inner().map(|x| (0, x.syntax().text().to_string()));
            cmp("TwigLiteralString::get_inner", got, inner.map(|x| (0, t.node_text(x).to_owned())));
        }
        "TWIG_LITERAL_STRING_INNER" => {
            let b = TwigLiteralStringInner::cast(n2)?;
            let want: Vec<Part> = kids.iter().filter(|x| t.kind(**x) == "TWIG_LITERAL_STRING_INTERPOLATION").map(|x| xn(Some(*x))).collect();
            let got: Vec<Part> = b.get_interpolations().map(|x| nd(Some(x))).collect();
            cmp("get_interpolations", Some((got.len(), format!("{got:?}"))), Some((want.len(), format!("{want:?}"))));
        }
        "HTML_STRING" => {
            let b = HtmlString::cast(n2)?;
            let quoted = !code.is_empty();
            cmp("HtmlString::get_opening_quote", tk(b.get_opening_quote()), if quoted { xt(code.first().copied()) } else { None });
            cmp("HtmlString::get_closing_quote", tk(b.get_closing_quote()), if quoted { xt(code.last().copied()) } else { None });
            let inner = t.kid(i, "HTML_STRING_INNER");
            cmp("HtmlString::get_inner", nd(b.get_inner()), xn(inner));
        }
        "TWIG_EXTENDS" => cmp("get_extends_keyword", tk(TwigExtends::cast(n2)?.get_extends_keyword()), xt(code.get(1).copied())),
        "TWIG_VAR" => cmp("TwigVar::get_expression", nd(TwigVar::cast(n2)?.get_expression()), xn(t.kid(i, "TWIG_EXPRESSION"))),
        "TWIG_LITERAL_NAME" => cmp("TwigLiteralName::get_name", tk(TwigLiteralName::cast(n2)?.get_name()), xt(code.first().copied())),
        "TWIG_FILTER" => {
            let b = TwigFilter::cast(n2)?;
            cmp("TwigFilter::operand", nd(b.operand()), xn(kids.first().copied()));
            cmp("TwigFilter::filter", nd(b.filter()), xn(kids.get(1).copied()));
        }
        "TWIG_FUNCTION_CALL" => {
            let b = TwigFunctionCall::cast(n2)?;
            cmp("TwigFunctionCall::name_operand", nd(b.name_operand()), xn(kids.first().copied()));
            cmp("TwigFunctionCall::arguments", nd(b.arguments()), xn(kids.get(1).copied()));
        }
        _ => {}
    }
    err
}

/// every node is exactly what its kind says: one typed view of all takes it, and shows its text
fn casts(root: &SyntaxNode) -> Option<String> {
    let mut seen: Vec<(String, SyntaxNode)> = vec![];
    for n in root.descendants() {
        let k = format!("{:?}", n.kind());
        if !seen.iter().any(|x| x.0 == k) {
            seen.push((k, n));
        }
    }
    macro_rules! views {
        ($($ty:ident => $kind:literal,)*) => {
            for (k, n) in &seen {
                $(
                    let x = $ty::cast(n.clone());
                    if x.is_some() != (k == $kind) || $ty::can_cast(n.kind()) != x.is_some() {
                        return Some(format!("{} as a view of {k}: {}", stringify!($ty), x.is_some()));
                    }
                    if x.is_some_and(|x| x.syntax() != n || x.to_string() != n.text().to_string()) {
                        return Some(format!("{} shows another node than it was made of", stringify!($ty)));
                    }
                )*
            }
        };
    }
    views! {
    TwigBlock => "TWIG_BLOCK",
    TwigStartingBlock => "TWIG_STARTING_BLOCK",
    TwigEndingBlock => "TWIG_ENDING_BLOCK",
    HtmlTag => "HTML_TAG",
    HtmlStartingTag => "HTML_STARTING_TAG",
    HtmlAttribute => "HTML_ATTRIBUTE",
    HtmlEndingTag => "HTML_ENDING_TAG",
    TwigBinaryExpression => "TWIG_BINARY_EXPRESSION",
    LudtwigDirectiveIgnore => "LUDTWIG_DIRECTIVE_IGNORE",
    TwigLiteralString => "TWIG_LITERAL_STRING",
    HtmlString => "HTML_STRING",
    TwigExtends => "TWIG_EXTENDS",
    TwigVar => "TWIG_VAR",
    TwigLiteralName => "TWIG_LITERAL_NAME",
    Body => "BODY",
    TwigExpression => "TWIG_EXPRESSION",
    TwigUnaryExpression => "TWIG_UNARY_EXPRESSION",
    TwigOperand => "TWIG_OPERAND",
    TwigAccessor => "TWIG_ACCESSOR",
    TwigFilter => "TWIG_FILTER",
    TwigIndexLookup => "TWIG_INDEX_LOOKUP",
    TwigIndex => "TWIG_INDEX",
    TwigIndexRange => "TWIG_INDEX_RANGE",
    TwigFunctionCall => "TWIG_FUNCTION_CALL",
    TwigArrowFunction => "TWIG_ARROW_FUNCTION",
    TwigArguments => "TWIG_ARGUMENTS",
    TwigNamedArgument => "TWIG_NAMED_ARGUMENT",
    TwigLiteralNumber => "TWIG_LITERAL_NUMBER",
    TwigLiteralArray => "TWIG_LITERAL_ARRAY",
    TwigLiteralArrayInner => "TWIG_LITERAL_ARRAY_INNER",
    TwigLiteralNull => "TWIG_LITERAL_NULL",
    TwigLiteralBoolean => "TWIG_LITERAL_BOOLEAN",
    TwigLiteralHash => "TWIG_LITERAL_HASH",
    TwigLiteralHashItems => "TWIG_LITERAL_HASH_ITEMS",
    TwigLiteralHashPair => "TWIG_LITERAL_HASH_PAIR",
    TwigLiteralHashKey => "TWIG_LITERAL_HASH_KEY",
    TwigLiteralHashValue => "TWIG_LITERAL_HASH_VALUE",
    TwigComment => "TWIG_COMMENT",
    TwigIf => "TWIG_IF",
    TwigIfBlock => "TWIG_IF_BLOCK",
    TwigElseIfBlock => "TWIG_ELSE_IF_BLOCK",
    TwigElseBlock => "TWIG_ELSE_BLOCK",
    TwigEndIfBlock => "TWIG_ENDIF_BLOCK",
    TwigSet => "TWIG_SET",
    TwigSetBlock => "TWIG_SET_BLOCK",
    TwigEndSetBlock => "TWIG_ENDSET_BLOCK",
    TwigAssignment => "TWIG_ASSIGNMENT",
    TwigFor => "TWIG_FOR",
    TwigForBlock => "TWIG_FOR_BLOCK",
    TwigForElseBlock => "TWIG_FOR_ELSE_BLOCK",
    TwigEndForBlock => "TWIG_ENDFOR_BLOCK",
    TwigInclude => "TWIG_INCLUDE",
    TwigIncludeWith => "TWIG_INCLUDE_WITH",
    TwigUse => "TWIG_USE",
    TwigOverride => "TWIG_OVERRIDE",
    TwigApply => "TWIG_APPLY",
    TwigApplyEndingBlock => "TWIG_APPLY_ENDING_BLOCK",
    TwigAutoescape => "TWIG_AUTOESCAPE",
    TwigDeprecated => "TWIG_DEPRECATED",
    TwigDo => "TWIG_DO",
    TwigEmbed => "TWIG_EMBED",
    TwigEmbedEndingBlock => "TWIG_EMBED_ENDING_BLOCK",
    TwigFlush => "TWIG_FLUSH",
    TwigFrom => "TWIG_FROM",
    TwigImport => "TWIG_IMPORT",
    TwigSandbox => "TWIG_SANDBOX",
    TwigVerbatim => "TWIG_VERBATIM",
    TwigMacro => "TWIG_MACRO",
    TwigMacroEndingBlock => "TWIG_MACRO_ENDING_BLOCK",
    TwigWith => "TWIG_WITH",
    TwigWithStartingBlock => "TWIG_WITH_STARTING_BLOCK",
    TwigWithEndingBlock => "TWIG_WITH_ENDING_BLOCK",
    TwigCache => "TWIG_CACHE",
    TwigCacheTTL => "TWIG_CACHE_TTL",
    TwigCacheTags => "TWIG_CACHE_TAGS",
    TwigCacheEndingBlock => "TWIG_CACHE_ENDING_BLOCK",
    TwigProps => "TWIG_PROPS",
    TwigPropDeclaration => "TWIG_PROP_DECLARATION",
    TwigComponent => "TWIG_COMPONENT",
    ShopwareTwigExtends => "SHOPWARE_TWIG_SW_EXTENDS",
    ShopwareTwigInclude => "SHOPWARE_TWIG_SW_INCLUDE",
    ShopwareReturn => "SHOPWARE_RETURN",
    ShopwareIcon => "SHOPWARE_ICON",
    ShopwareIconStyle => "SHOPWARE_ICON_STYLE",
    ShopwareThumbnails => "SHOPWARE_THUMBNAILS",
    ShopwareThumbnailsWith => "SHOPWARE_THUMBNAILS_WITH",
    HtmlDoctype => "HTML_DOCTYPE",
    HtmlAttributeList => "HTML_ATTRIBUTE_LIST",
    HtmlStringInner => "HTML_STRING_INNER",
    HtmlText => "HTML_TEXT",
    HtmlRawText => "HTML_RAW_TEXT",
    HtmlComment => "HTML_COMMENT",
    Error => "ERROR",
    Root => "ROOT",
    TwigTrans => "TWIG_TRANS",
    TwigTransEndingBlock => "TWIG_TRANS_ENDING_BLOCK",
        LudtwigDirectiveRuleList => "LUDTWIG_DIRECTIVE_RULE_LIST",
        LudtwigDirectiveFileIgnore => "LUDTWIG_DIRECTIVE_FILE_IGNORE",
        TwigLiteralStringInner => "TWIG_LITERAL_STRING_INNER",
        TwigParenthesesExpression => "TWIG_PARENTHESES_EXPRESSION",
        TwigConditionalExpression => "TWIG_CONDITIONAL_EXPRESSION",
        TwigLiteralStringInterpolation => "TWIG_LITERAL_STRING_INTERPOLATION",
        TwigApplyStartingBlock => "TWIG_APPLY_STARTING_BLOCK",
        TwigAutoescapeStartingBlock => "TWIG_AUTOESCAPE_STARTING_BLOCK",
        TwigAutoescapeEndingBlock => "TWIG_AUTOESCAPE_ENDING_BLOCK",
        TwigEmbedStartingBlock => "TWIG_EMBED_STARTING_BLOCK",
        TwigSandboxStartingBlock => "TWIG_SANDBOX_STARTING_BLOCK",
        TwigSandboxEndingBlock => "TWIG_SANDBOX_ENDING_BLOCK",
        TwigVerbatimStartingBlock => "TWIG_VERBATIM_STARTING_BLOCK",
        TwigVerbatimEndingBlock => "TWIG_VERBATIM_ENDING_BLOCK",
        TwigMacroStartingBlock => "TWIG_MACRO_STARTING_BLOCK",
        TwigCacheStartingBlock => "TWIG_CACHE_STARTING_BLOCK",
        TwigComponentStartingBlock => "TWIG_COMPONENT_STARTING_BLOCK",
        TwigComponentEndingBlock => "TWIG_COMPONENT_ENDING_BLOCK",
        ShopwareSilentFeatureCall => "SHOPWARE_SILENT_FEATURE_CALL",
        ShopwareSilentFeatureCallStartingBlock => "SHOPWARE_SILENT_FEATURE_CALL_STARTING_BLOCK",
        ShopwareSilentFeatureCallEndingBlock => "SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK",
        TwigTransStartingBlock => "TWIG_TRANS_STARTING_BLOCK",
    }
    None
}

// ------------------------------------------------------------------ templates with syntax errors
/// nothing is known about what was meant, so the reference reads the parts off the untyped tree:
/// a part belongs to a node only if it is a direct child in the right place
pub fn p08_broken(s: &mut Src) -> Out {
    let text = any_text(s);
    let got = parse(&text);
    let mut checks = 0;
    for n in got.root.descendants() {
        if let Some(m) = broken(&n, &mut checks) {
            return Out::fail(&text, format!("{}: {m}", n.text().to_string().trim()));
        }
    }
    if let Some(m) = casts(&got.root) {
        return Out::fail(&text, m);
    }
    Out::ok(checks > 3 && !got.errors.is_empty(), &text)
}
enum El {
    T(SyntaxToken),
    N(SyntaxNode),
}
fn broken(n: &SyntaxNode, checks: &mut u64) -> Option<String> {
    let els: Vec<El> = n
        .children_with_tokens()
        .filter_map(|e| match e {
            rowan_element::Token(t) if t.kind().is_trivia() => None,
            rowan_element::Token(t) => Some(El::T(t)),
            rowan_element::Node(x) if format!("{:?}", x.kind()) == "ERROR" => None,
            rowan_element::Node(x) => Some(El::N(x)),
        })
        .collect();
    let kind = |x: &SyntaxNode| format!("{:?}", x.kind());
    let tok = |i: usize| els.get(i).and_then(|e| if let El::T(t) = e { Some(t.clone()) } else { None });
    let sub = |k: &str| els.iter().find_map(|e| if let El::N(x) = e { (kind(x) == k).then(|| x.clone()) } else { None });
    let first_tok = els.iter().position(|e| matches!(e, El::T(_)));
    let subs = |from: usize, to: usize, k: &str| -> Option<SyntaxNode> {
        els.iter().take(to).skip(from).find_map(|e| if let El::N(x) = e { (kind(x) == k).then(|| x.clone()) } else { None })
    };
    let at = |t: Option<SyntaxToken>| t.map(|t| (t.text_range().start().into(), t.text().to_owned()));
    let na = |x: Option<SyntaxNode>| x.map(|x| (x.text_range().start().into(), x.text().to_string()));
    fn ty<N: AstNode<Language = TemplateLanguage>>(x: Option<N>) -> Part {
        x.map(|x| (x.syntax().text_range().start().into(), x.syntax().text().to_string()))
    }
    let parent = |k: &str| n.parent().filter(|p| kind(p) == k);
    let yes = |x: bool| Some((0, x.to_string()));
    let mut err: Option<String> = None;
    let mut cmp = |what: &str, got: Part, want: Part| {
        *checks += 1;
        if got != want && err.is_none() {
            err = Some(format!("{what} returns {got:?}, the tree holds {want:?}"));
        }
    };
    let n2 = n.clone();
    macro_rules! control {
        ($($ty:ident),*) => {
            $(if let Some(x) = $ty::cast(n.clone()) {
                let toks: Vec<&SyntaxToken> = els.iter().filter_map(|e| if let El::T(t) = e { Some(t) } else { None }).collect();
                let mark = |t: Option<&&SyntaxToken>, open: bool| -> &'static str {
                    match t.map(|t| t.text()) {
                        Some("{%-" | "{{-" | "{#-") if open => "-",
                        Some("{%~" | "{{~" | "{#~") if open => "~",
                        Some("-%}" | "-}}" | "-#}") if !open => "-",
                        Some("~%}" | "~}}" | "~#}") if !open => "~",
                        _ => "",
                    }
                };
                cmp("leading_ws_control", Some((0, ws(x.leading_ws_control()).to_owned())), Some((0, mark(toks.first(), true).to_owned())));
                cmp("trailing_ws_control", Some((0, ws(x.trailing_ws_control()).to_owned())), Some((0, mark(toks.last(), false).to_owned())));
            })*
        };
    }
    control!(
        TwigStartingBlock, TwigEndingBlock, TwigIfBlock, TwigElseIfBlock, TwigElseBlock, TwigEndIfBlock, TwigSetBlock, TwigEndSetBlock,
        TwigForBlock, TwigForElseBlock, TwigEndForBlock, TwigInclude, TwigUse, TwigApplyStartingBlock, TwigApplyEndingBlock,
        TwigAutoescapeStartingBlock, TwigAutoescapeEndingBlock, TwigDeprecated, TwigDo, TwigEmbedStartingBlock, TwigEmbedEndingBlock,
        TwigFlush, TwigFrom, TwigImport, TwigExtends, TwigSandboxStartingBlock, TwigSandboxEndingBlock, TwigVerbatimStartingBlock,
        TwigVerbatimEndingBlock, TwigMacroStartingBlock, TwigMacroEndingBlock, TwigWithStartingBlock, TwigWithEndingBlock,
        TwigCacheStartingBlock, TwigCacheEndingBlock, TwigProps, TwigComponentStartingBlock, TwigComponentEndingBlock, TwigTransStartingBlock,
        TwigTransEndingBlock, ShopwareTwigExtends, ShopwareTwigInclude, ShopwareSilentFeatureCallStartingBlock,
        ShopwareSilentFeatureCallEndingBlock, ShopwareReturn, ShopwareIcon, TwigVar, TwigComment
    );
    let word = |t: Option<SyntaxToken>| t.filter(|t| format!("{:?}", t.kind()) == "TK_WORD");
    let tag_word = |t: Option<SyntaxToken>| t.filter(|t| ["TK_WORD", "TK_TWIG_COMPONENT_NAME"].contains(&format!("{:?}", t.kind()).as_str()));
    let component = |t: Option<SyntaxToken>| t.is_some_and(|t| format!("{:?}", t.kind()) == "TK_TWIG_COMPONENT_NAME");
    match kind(n).as_str() {
        "TWIG_BLOCK" => {
            let b = TwigBlock::cast(n2)?;
            cmp("TwigBlock::starting_block", ty(b.starting_block()), na(sub("TWIG_STARTING_BLOCK")));
            cmp("TwigBlock::body", ty(b.body()), na(sub("BODY")));
            cmp("TwigBlock::ending_block", ty(b.ending_block()), na(sub("TWIG_ENDING_BLOCK")));
            cmp("TwigBlock::name", at(b.name()), at(b.starting_block().and_then(|x| x.name())));
        }
        "TWIG_STARTING_BLOCK" => {
            let b = TwigStartingBlock::cast(n2)?;
            cmp("TwigStartingBlock::name", at(b.name()), at(word(tok(2))));
            cmp("TwigStartingBlock::twig_block", ty(b.twig_block()), na(parent("TWIG_BLOCK")));
        }
        "TWIG_ENDING_BLOCK" => cmp("TwigEndingBlock::twig_block", ty(TwigEndingBlock::cast(n2)?.twig_block()), na(parent("TWIG_BLOCK"))),
        "HTML_TAG" => {
            let b = HtmlTag::cast(n2)?;
            let start = b.starting_tag();
            cmp("HtmlTag::starting_tag", ty(start.clone()), na(sub("HTML_STARTING_TAG")));
            cmp("HtmlTag::body", ty(b.body()), na(sub("BODY")));
            cmp("HtmlTag::ending_tag", ty(b.ending_tag()), na(sub("HTML_ENDING_TAG")));
            cmp("HtmlTag::is_self_closing", yes(b.is_self_closing()), yes(sub("HTML_ENDING_TAG").is_none()));
            cmp("HtmlTag::name", at(b.name()), at(start.as_ref().and_then(HtmlStartingTag::name)));
            cmp("HtmlTag::is_twig_component", yes(b.is_twig_component()), yes(start.as_ref().is_some_and(HtmlStartingTag::is_twig_component)));
            cmp("HtmlTag::attributes", yes(true), yes(b.attributes().count() == start.map_or(0, |x| x.attributes().count())));
        }
        "HTML_STARTING_TAG" => {
            let b = HtmlStartingTag::cast(n2)?;
            cmp("HtmlStartingTag::name", at(b.name()), at(tag_word(tok(1))));
            cmp("HtmlStartingTag::is_twig_component", yes(b.is_twig_component()), yes(component(tok(1))));
            cmp("HtmlStartingTag::html_tag", ty(b.html_tag()), na(parent("HTML_TAG")));
            let want: Vec<Part> = sub("HTML_ATTRIBUTE_LIST").map_or(vec![], |l| l.children().filter(|x| kind(x) == "HTML_ATTRIBUTE").map(|x| na(Some(x))).collect());
            let got: Vec<Part> = b.attributes().map(|x| ty(Some(x))).collect();
            cmp("HtmlStartingTag::attributes", Some((got.len(), format!("{got:?}"))), Some((want.len(), format!("{want:?}"))));
        }
        "HTML_ENDING_TAG" => {
            let b = HtmlEndingTag::cast(n2)?;
            cmp("HtmlEndingTag::name", at(b.name()), at(tag_word(tok(1))));
            cmp("HtmlEndingTag::is_twig_component", yes(b.is_twig_component()), yes(component(tok(1))));
            cmp("HtmlEndingTag::html_tag", ty(b.html_tag()), na(parent("HTML_TAG")));
        }
        "HTML_ATTRIBUTE" => {
            let b = HtmlAttribute::cast(n2)?;
            cmp("HtmlAttribute::name", at(b.name()), at(word(tok(0))));
            cmp("HtmlAttribute::value", ty(b.value()), na(sub("HTML_STRING")));
            cmp("HtmlAttribute::html_tag", ty(b.html_tag()), na(n.ancestors().find(|a| kind(a) == "HTML_STARTING_TAG")));
        }
        "TWIG_BINARY_EXPRESSION" => {
            let b = TwigBinaryExpression::cast(n2)?;
            let k = first_tok.unwrap_or(els.len());
            cmp("TwigBinaryExpression::operator", at(b.operator()), at(first_tok.and_then(tok)));
            cmp("TwigBinaryExpression::lhs_expression", ty(b.lhs_expression()), na(subs(0, k, "TWIG_EXPRESSION")));
            cmp("TwigBinaryExpression::rhs_expression", ty(b.rhs_expression()), na(subs(k, els.len(), "TWIG_EXPRESSION")));
        }
        "TWIG_LITERAL_STRING" | "HTML_STRING" => {
            let inner = els.iter().position(|e| matches!(e, El::N(_)));
            let quote = |t: Option<SyntaxToken>| t.filter(|t| ["\"", "'", "`"].contains(&t.text()));
            let open = if inner == Some(0) { None } else { quote(tok(0)) };
            let close = inner.and_then(|k| quote(tok(k + 1)));
            if let Some(b) = TwigLiteralString::cast(n.clone()) {
                cmp("TwigLiteralString::get_opening_quote", at(b.get_opening_quote()), at(open));
                cmp("TwigLiteralString::get_closing_quote", at(b.get_closing_quote()), at(close));
                cmp("TwigLiteralString::get_inner", ty(b.get_inner()), na(sub("TWIG_LITERAL_STRING_INNER")));
            } else {
                let b = HtmlString::cast(n2)?;
                cmp("HtmlString::get_opening_quote", at(b.get_opening_quote()), at(open));
                cmp("HtmlString::get_closing_quote", at(b.get_closing_quote()), at(close));
                cmp("HtmlString::get_inner", ty(b.get_inner()), na(sub("HTML_STRING_INNER")));
            }
        }
        "TWIG_EXTENDS" => cmp("get_extends_keyword", at(TwigExtends::cast(n2)?.get_extends_keyword()), at(tok(1))),
        "TWIG_VAR" => cmp("TwigVar::get_expression", ty(TwigVar::cast(n2)?.get_expression()), na(sub("TWIG_EXPRESSION"))),
        "TWIG_LITERAL_NAME" => cmp("TwigLiteralName::get_name", at(TwigLiteralName::cast(n2)?.get_name()), at(word(tok(0)))),
        "TWIG_FILTER" => {
            let b = TwigFilter::cast(n2)?;
            let k = first_tok.unwrap_or(els.len());
            cmp("TwigFilter::operand", ty(b.operand()), na(subs(0, k, "TWIG_OPERAND")));
            cmp("TwigFilter::filter", ty(b.filter()), na(subs(k, els.len(), "TWIG_OPERAND")));
        }
        "TWIG_FUNCTION_CALL" => {
            let b = TwigFunctionCall::cast(n2)?;
            cmp("TwigFunctionCall::name_operand", ty(b.name_operand()), na(subs(0, 1, "TWIG_OPERAND")));
            cmp("TwigFunctionCall::arguments", ty(b.arguments()), na(subs(1, els.len(), "TWIG_ARGUMENTS")));
        }
        _ => {}
    }
    err
}
