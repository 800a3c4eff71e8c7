//! GraphQL and JSON text: lexing, literals, printing.
use crate::{gql::{Doc, Dir, Sel, P, V}, sym};
use hive_router::graphql_tools::parser::{minify_query, minify_query_document, parse_query_with_token_limit, query::{parse_query, Definition, Document, OperationDefinition, Selection, Value as PV}};
use hive_router::query_planner::ast::value::Value as QV;

fn first_arg(text: &str) -> Option<PV<'static, String>> {
    let d = parse_query::<String>(text).ok()?.into_static();
    match d.definitions.first()? {
        Definition::Operation(OperationDefinition::SelectionSet(s)) if d.definitions.len() == 1 && s.items.len() == 1 => match &s.items[0] { Selection::Field(f) if f.arguments.len() == 1 => Some(f.arguments[0].1.clone()), _ => None },
        _ => None,
    }
}
fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && { let mut d = 0u8; for i in 0..a.len() { d |= a[i] ^ b[i] } d == 0 } }

/// a number literal is accepted exactly if it is one of the grammar, with its kind and value
#[no_mangle]
pub extern "C" fn h_number() {
    let n = 1 + sym::choice("length", sym::param("n", 4)) as usize;
    let b = sym::bytes("number", n);
    for &c in &b { sym::assume(c >= b'0' && c <= b'9' || c == b'+' || c == b'-' || c == b'.' || c == b'e' || c == b'E') }
    sym::assume(b[0] != b'e' && b[0] != b'E'); // a name
    let dig = |i: usize| i < n && b[i] >= b'0' && b[i] <= b'9';
    let mut i = 0; let mut val: i64 = 0;
    let neg = b[0] == b'-'; if neg { i = 1 }
    let mut ok = dig(i); let mut int = true; let mut leading0 = false;
    if ok { if b[i] == b'0' { i += 1; ok = !dig(i) } else { while dig(i) { val = val * 10 + (b[i] - b'0') as i64; i += 1 } } }
    if ok && i < n && b[i] == b'.' { int = false; i += 1; ok = dig(i); while dig(i) { i += 1 } }
    if ok && i < n && (b[i] == b'e' || b[i] == b'E') { int = false; i += 1; leading0 = i < n && b[i] == b'0'; if i < n && (b[i] == b'+' || b[i] == b'-') { i += 1 } ok = dig(i); while dig(i) { i += 1 } }
    let ok = ok && i == n;
    // an exponent without sign that starts with 0 is rejected deliberately (the parser's own tests say so)
    sym::assume(!leading0);
    let text = format!("{{a(b:{})}}", unsafe { std::str::from_utf8_unchecked(&b) });
    match first_arg(&text) {
        Some(PV::Int(v)) => { sym::check(ok && int, "only an IntValue is read as an integer"); sym::check(v.as_i64() == Some(if neg { -val } else { val }), "the integer's value"); sym::reach("int"); }
        Some(PV::Float(_)) => { sym::check(ok && !int, "only a FloatValue is read as a float"); sym::reach("float"); }
        Some(_) => sym::fail("a number literal is read as something else"),
        None => { sym::check(!ok, "a number of the GraphQL grammar is accepted"); sym::reach("rejected"); }
    }
}

/// a quoted string means what its escapes say
#[no_mangle]
pub extern "C" fn h_string() {
    let n = sym::param("n", 3) as usize;
    let b = sym::bytes("string", n);
    let mut want: Vec<u8> = vec![]; let mut ok = true; let mut i = 0;
    for &c in &b { sym::assume(c < 0x80 && (c >= 0x20 || c == b'\t')) }
    while i < n && ok {
        let c = b[i]; i += 1;
        sym::assume(c != b'"');
        if c != b'\\' { want.push(c); continue }
        if i >= n { ok = false; break }
        let e = b[i]; i += 1;
        let v = match e { b'"' | b'\\' | b'/' => e, b'b' => 8, b'f' => 12, b'n' => 10, b'r' => 13, b't' => 9, b'u' => { ok = false; break } _ => { ok = false; break } };
        want.push(v);
    }
    let text = format!("{{a(b:\"{}\")}}", unsafe { std::str::from_utf8_unchecked(&b) });
    match first_arg(&text) {
        Some(PV::String(s)) => { sym::check(ok, "a string with an invalid escape is rejected"); sym::check(same(s.as_bytes(), &want), "the string's value"); sym::reach("string"); }
        Some(_) => sym::fail("a string literal is read as something else"),
        None => { sym::check(!ok, "a string of the GraphQL grammar is accepted"); sym::reach("rejected"); }
    }
}

/// \uXXXX stands for that code point
#[no_mangle]
pub extern "C" fn h_string_u() {
    let b = sym::bytes("code point", 4);
    let mut ok = true; let mut v = 0u32;
    for &c in &b {
        sym::assume(c >= 0x20 && c < 0x7f && c != b'"' && c != b'\\');
        let d = if c >= b'0' && c <= b'9' { c - b'0' } else if c >= b'a' && c <= b'f' { c - b'a' + 10 } else if c >= b'A' && c <= b'F' { c - b'A' + 10 } else { ok = false; 0 };
        v = v << 4 | d as u32;
    }
    let text = format!("{{a(b:\"\\u{}\")}}", unsafe { std::str::from_utf8_unchecked(&b) });
    match first_arg(&text) {
        Some(PV::String(s)) => {
            sym::check(ok, "only hexadecimal digits");
            let mut it = s.chars();
            let c = it.next().map(|c| c as u32);
            sym::check(c == Some(v) && it.next().is_none(), "the code point"); sym::reach("string");
        }
        Some(_) => sym::fail("a string literal is read as something else"),
        None => { sym::check(!ok || (v >= 0xd800 && v < 0xe000), "a Unicode escape of the GraphQL grammar is accepted"); sym::reach("rejected"); }
    }
}

/// BlockStringValue of the specification
fn block_value(raw: &[u8]) -> Vec<u8> {
    let mut lines: Vec<Vec<u8>> = vec![vec![]]; let mut i = 0;
    while i < raw.len() {
        if raw[i] == b'\r' { if i + 1 < raw.len() && raw[i + 1] == b'\n' { i += 1 } lines.push(vec![]) } else if raw[i] == b'\n' { lines.push(vec![]) } else { lines.last_mut().unwrap().push(raw[i]) }
        i += 1;
    }
    let ind = |l: &Vec<u8>| { let mut k = 0; while k < l.len() && (l[k] == b' ' || l[k] == b'\t') { k += 1 } k };
    let mut common: Option<usize> = None;
    for (j, l) in lines.iter().enumerate() { if j > 0 { let k = ind(l); if k < l.len() && common.map_or(true, |c| k < c) { common = Some(k) } } }
    if let Some(c) = common { for (j, l) in lines.iter_mut().enumerate() { if j > 0 { let c = c.min(l.len()); l.drain(..c); } } }
    while !lines.is_empty() && ind(&lines[0]) == lines[0].len() { lines.remove(0); }
    while !lines.is_empty() && ind(&lines[lines.len() - 1]) == lines[lines.len() - 1].len() { lines.pop(); }
    lines.join(&b'\n')
}
#[no_mangle]
pub extern "C" fn h_block() {
    let n = 1 + sym::choice("length", sym::param("n", 5)) as usize;
    let b = sym::bytes("block", n);
    for &c in &b { sym::assume(c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == b'a' || c == b'"' || c == b'\\') }
    // the raw value; the domain has no unescaped end of the string inside
    let mut raw = vec![]; let mut i = 0; let mut quotes = 0;
    while i < n {
        if b[i] == b'\\' && i + 3 < n && b[i + 1] == b'"' && b[i + 2] == b'"' && b[i + 3] == b'"' { raw.extend_from_slice(b"\"\"\""); i += 4; quotes = 0; continue }
        if b[i] == b'"' { quotes += 1 } else { quotes = 0 }
        sym::assume(quotes < 3);
        raw.push(b[i]); i += 1;
    }
    sym::assume(b[n - 1] != b'"' && b[n - 1] != b'\\');
    let text = format!("{{a(b:\"\"\"{}\"\"\")}}", unsafe { std::str::from_utf8_unchecked(&b) });
    match first_arg(&text) {
        Some(PV::String(s)) => { sym::check(same(s.as_bytes(), &block_value(&raw)), "the block string's value"); sym::reach("string"); }
        _ => sym::fail("a block string is accepted"),
    }
}

/// a string value that is printed reads back as the same text: planner printing, document printing, minified printing
#[no_mangle]
pub extern "C" fn h_print_string() {
    let n = 1 + sym::choice("length", sym::param("n", 3)) as usize;
    let b = sym::bytes("text", n);
    let alphabet = sym::param("alphabet", 0) == 1;
    for &c in &b { if alphabet { sym::assume(c == b' ' || c == b'\n' || c == b'\r' || c == b'a' || c == b'"' || c == b'\\') } else { sym::assume(c < 0x80) } }
    let s = unsafe { String::from_utf8_unchecked(b) };
    let back = |v: Option<PV<'static, String>>| -> Option<String> { match v { Some(PV::String(s)) => Some(s), Some(PV::List(mut l)) if l.len() == 1 => match l.pop() { Some(PV::String(s)) => Some(s), _ => None }, _ => None } };
    let how = sym::choice("printer", 3);
    let text = match how {
        0 => format!("{{a(b:{})}}", QV::String(s.clone())),
        1 => format!("{{a(b:[{}])}}", PV::<String>::String(s.clone())),
        _ => {
            let mut d = parse_query::<String>("{a(b:\"\")}").unwrap().into_static();
            if let Definition::Operation(OperationDefinition::SelectionSet(x)) = &mut d.definitions[0] { if let Selection::Field(f) = &mut x.items[0] { f.arguments[0].1 = PV::String(s.clone()) } }
            minify_query_document(&d)
        }
    };
    match back(first_arg(&text)) {
        Some(r) => sym::check(same(r.as_bytes(), s.as_bytes()), "the printed string reads back as the same text"),
        None => sym::fail("a printed string is not a string of the GraphQL grammar"),
    }
    sym::reach("printed");
}

/// documents built from optional pieces
fn pieces() -> String {
    let mut t = String::new();
    let opt = |name: &str, alts: &[&str]| -> String { alts[sym::choice(name, alts.len() as u64) as usize].to_string() };
    match sym::choice("shape", 4) {
        0 => { // values
            let v = opt("value", &["1", "-7", "1.5", "\"s\"", "true", "null", "E", "[]", "[1 2]", "{}", "{x:1 y:[$v,{z:\"q\"}]}", "$v", "[\"a\" \"b\"]", "[-1 -2.5 E]"]);
            let w = opt("value 2", &["", ", d: \"x\"", " d:E", "\nd:{k:[1 [2]]}"]);
            t = format!("query ($v: Int) {{ a(b: {v}{w}) }}");
        }
        1 => { // operations and variables
            let k = opt("kind", &["query", "mutation", "subscription"]);
            let name = opt("name", &["", "Q", "query", "on"]);
            let vars = opt("vars", &["", "($a: Int)", "($a:[Int!]! = [1] $b: S = \"x y\")", "($a: T = {k: E, l: null},$b:[[T]!])"]);
            let dir = opt("directive", &["", "@d", "@d(x: 1) @e"]);
            t = format!("{k} {name} {vars} {dir} {{ f }}");
        }
        2 => { // selections
            let a = opt("alias", &["", "x: ", "on:"]);
            let d = opt("directive", &["", " @skip(if: $a)", " @include(if: true) @o"]);
            let s = opt("selection", &["", " { g }", " { g h: i { j } }", " { ... { g } }", " { ... on T { g } ... on U @d { h } }", " { ...F }", " { ...F @d ...on }", " { ... @d { g } }"]);
            t = format!("{{ {a}f(n: 1){d}{s} k }} ");
            if sym::choice("fragment", 2) == 1 { t += &opt("definition", &["fragment F on T { g }", "fragment on on T { g { h } }", "fragment F on T @d { ... on U { g } } fragment G on U { h }"]) }
            if t.contains("...on }") { sym::assume(false) }
        }
        _ => { // ignored tokens
            let a = opt("gap", &[" ", ",", "\n", "# c\n", "\t,", "\r\n", "#\"\n"]);
            let b = opt("gap 2", &[" ", ",", "\n", "#}\n", ""]);
            t += &format!("query{a}Q{b}{{{a}a{b}(b{a}:{b}1{a}c{b}:{a}\"#\"){b}b{a}}}{b}");
        }
    }
    t
}
fn dirs_eq(x: &[Dir], y: &[Dir]) -> bool { x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.name == y.name && x.args == y.args) }
fn sel_eq(a: &[Sel], b: &[Sel]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| match (x, y) {
        (Sel::Field(x), Sel::Field(y)) => x.alias == y.alias && x.name == y.name && x.args == y.args && dirs_eq(&x.dirs, &y.dirs) && sel_eq(&x.sel, &y.sel),
        (Sel::Spread(n, d), Sel::Spread(m, e)) => n == m && dirs_eq(d, e),
        (Sel::Inline(n, d, s), Sel::Inline(m, e, t)) => n == m && dirs_eq(d, e) && sel_eq(s, t),
        _ => false,
    })
}
fn doc_eq(a: &Doc, b: &Doc) -> bool {
    a.ops.len() == b.ops.len() && a.ops.iter().zip(&b.ops).all(|(x, y)| x.kind == y.kind && x.name == y.name && x.vars == y.vars && dirs_eq(&x.dirs, &y.dirs) && sel_eq(&x.sel, &y.sel))
        && a.fdefs.len() == b.fdefs.len() && a.fdefs.iter().zip(&b.fdefs).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && dirs_eq(&x.2, &y.2) && sel_eq(&x.3, &y.3))
}
/// printing a parsed document (pretty, minified from the text, minified from the document) keeps its meaning
#[no_mangle]
pub extern "C" fn h_print_document() {
    let t = pieces();
    let want = match P::doc(&t) { Some(d) => d, None => { sym::reach("not a document"); sym::check(parse_query::<String>(&t).is_err(), "only documents of the grammar are accepted"); return } };
    let d: Document<'static, String> = match parse_query::<String>(&t) { Ok(d) => d.into_static(), Err(_) => sym::fail(&format!("a document of the grammar is accepted: {t}")) };
    let (how, text) = match sym::choice("printer", 3) { 0 => ("printed", d.to_string()), 1 => ("minified text", match minify_query(&t) { Ok(x) => x, Err(_) => sym::fail("minify_query fails") }), _ => ("minified document", minify_query_document(&d)) };
    let eq = |got: Option<Doc>| got.is_some_and(|g| doc_eq(&g, &want));
    if !eq(P::doc(&text)) { sym::fail(&format!("{how} document differs\n{t}\n{text}")) }
    sym::check(parse_query::<String>(&text).is_ok(), "the printed document is accepted");
    // what the planner's own printing of a value means
    sym::reach("printed");
}

/// a document is refused exactly if it has more tokens than the limit
#[no_mangle]
pub extern "C" fn h_token_limit() {
    let (t, tokens) = match sym::choice("document", 8) {
        0 => ("{a}", 3), 1 => ("query Q($v: [Int!]! = [1, 2]) { a(b: $v, c: 1.5) }", 29), 2 => ("{ a(b: \"x\" c: \"\"\"y\"\"\" d: 1e5 e: -3 f: E) }", 20), 3 => ("{ ...F } fragment F on T { a @d }", 13),
        4 => ("  # comment\n { a , , b }  # c", 4), 5 => ("{ a { b { c } } }", 9), 6 => ("mutation M @d(x: {y: [null]}) { a: b }", 20), _ => ("{ a(s: \"1 2 3 4 5 6\") }", 8),
    };
    let limit = sym::below("limit", 64) as usize;
    match parse_query_with_token_limit::<String>(t, limit) {
        Ok(_) => { sym::check(tokens <= limit, "a document with more tokens than the limit is refused"); sym::reach("accepted"); }
        Err(_) => { sym::check(tokens > limit, "a document within the limit is accepted"); sym::reach("refused"); }
    }
}

/// any text of up to N bytes is parsed or rejected without a crash
#[no_mangle]
pub extern "C" fn h_lang_parse_total() {
    let n = sym::param("n", 3) as usize;
    let b = sym::bytes("text", n);
    let s = match std::str::from_utf8(&b) { Ok(s) => s, Err(_) => { sym::assume(false); return } };
    match parse_query::<String>(s) { Ok(_) => sym::reach("parsed"), Err(_) => sym::reach("rejected") }
    let _ = minify_query(s);
}

#[no_mangle]
pub extern "C" fn h_json_escape() {
    let n = sym::param("n", 2) as usize;
    let b = sym::bytes("text", n);
    let s = match std::str::from_utf8(&b) { Ok(s) => s, Err(_) => { sym::assume(false); return } };
    let mut out = Vec::new();
    hive_router::executor::json_writer::write_and_escape_string(&mut out, s);
    // reference: RFC 8259 string decoding
    let m = out.len();
    sym::check(m >= 2 && out[0] == b'"' && out[m - 1] == b'"', "quoted");
    let mut i = 1; let mut k = 0;
    while i < m - 1 {
        let c = out[i];
        sym::check(c >= 0x20 && c != b'"', "no raw control character or quote");
        let mut v = c; i += 1;
        if c == b'\\' {
            sym::check(i < m - 1, "dangling backslash");
            let e = out[i]; i += 1;
            v = match e { b'"' => b'"', b'\\' => b'\\', b'/' => b'/', b'b' => 8, b'f' => 12, b'n' => 10, b'r' => 13, b't' => 9,
                b'u' => { sym::check(i + 4 <= m - 1, "short u escape"); let h = |c: u8| -> u32 { match c { b'0'..=b'9' => (c - b'0') as u32, b'a'..=b'f' => (c - b'a' + 10) as u32, b'A'..=b'F' => (c - b'A' + 10) as u32, _ => sym::fail("bad hex digit") } };
                    let x = h(out[i]) << 12 | h(out[i + 1]) << 8 | h(out[i + 2]) << 4 | h(out[i + 3]); i += 4; sym::check(x < 0x80, "non-ascii u escape"); x as u8 }
                _ => sym::fail("bad escape") };
        }
        sym::check(k < n && b[k] == v, "decodes to the input"); k += 1;
    }
    sym::check(k == n, "all input bytes written");
    sym::out("json", &out);
}
