//! C17: script text is read as RFC 5228 and RFC 5229 define it: strings, numbers, comments, case, references.
use crate::run::*;
use crate::vf::*;

/// folder of the only fileinto of the script
fn value(src: &[u8]) -> Option<String> {
    noteb(src);
    match Compiler::new().with_no_capability_check(true).compile(src) {
        Ok(s) => {
            let r = rt();
            let mut c = ctx(&r, MSG);
            let t = run_with(&mut c, s, 16, &mut reply_true);
            check(t.ended && t.err.is_none(), 3, "runs");
            let f = folders(&t);
            check(f.len() == 1, 4, "one fileinto");
            Some(f[0].clone())
        }
        Err(_) => None,
    }
}
/// quoted string: a backslash takes the next character (n, r, t stand for control characters), the first bare quote ends it
fn unquote(b: &[u8]) -> Option<Vec<u8>> {
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        match b[i] {
            b'"' => return None,
            b'\\' => {
                i += 1;
                if i == b.len() { return None }
                o.push(match b[i] { b'n' => b'\n', b'r' => b'\r', b't' => b'\t', c => c });
            }
            c => o.push(c),
        }
        i += 1;
    }
    Some(o)
}
fn cat(a: &[u8], b: &[u8], c: &[u8]) -> Vec<u8> { let mut v = a.to_vec(); v.extend_from_slice(b); v.extend_from_slice(c); v }
fn same(got: Option<String>, want: &[u8], what: &str) {
    let g = got.unwrap_or_else(|| { check(false, 1, "the script compiles"); unreachable!() });
    obs_bytes(g.as_bytes());
    check(g.as_bytes() == want, 2, what);
}
entry!{
/// quoted strings of up to 4 (thorough: 5) characters out of backslash, quote, n, t, x, digits, dot, minus, dollar, CR, LF, brace, between literal text: the value is the unescaped text; ended where the first unescaped quote is
/// reach: 1
h_c17_quoted {
    let n = choose(tier(4, 5)) + 1;
    let b = alpha(n, b"\\\"ntx1.-$\r\n;");
    if let Some(w) = unquote(b.as_bytes()) {
        reach(1);
        let (p, s) = *pick(&[("", ""), ("x", "")]);
        same(value(&cat(format!("fileinto \"{p}").as_bytes(), b.as_bytes(), format!("{s}\";").as_bytes())), &[p.as_bytes(), &w[..], s.as_bytes()].concat(), "value of a quoted string");
    }
}
}
entry!{
/// the end of a quoted string: 0 to 6 backslashes before the quote that could end it
/// reach: 1 2
h_c17_quoteend {
    let n = choose(7);
    let p = alpha(choose(2), b"xn1");
    let bs = "\\".repeat(n);
    let src = format!("fileinto \"{p}{bs}\"; # \";");
    if n % 2 == 0 { reach(1); same(value(src.as_bytes()), format!("{p}{}", "\\".repeat(n / 2)).as_bytes(), "an even number of backslashes leaves the quote alone"); }
    else { reach(2); same(value(format!("{src}").as_bytes()), format!("{p}{}\"; # ", "\\".repeat(n / 2)).as_bytes(), "an odd number of backslashes takes the quote"); }
}
}
entry!{
/// numbers as text: quoted and multi-line strings of up to 4 free characters out of digits, dot, minus, e: the value is the text written, not a number written otherwise
/// reach: 1
h_c17_numtext {
    let n = choose(4) + 1;
    let b: String = (0..n).map(|_| *pick(&['0', '1', '7', '.', '-', 'e', '+'])).collect();
    let kind = choose(4);
    reach(1);
    let src = match kind {
        0 => cat(b"fileinto \"", b.as_bytes(), b"\";"),
        1 => cat(b"set \"v\" \"", b.as_bytes(), b"\"; fileinto \"${v}\";"),
        2 => cat(b"set \"e\" \"\"; fileinto \"${e}", b.as_bytes(), b"\";"),
        _ => cat(b"require \"encoded-character\"; fileinto \"", b.as_bytes(), b"\";"),
    };
    same(value(&src), b.as_bytes(), "digits stay as written");
}
}
entry!{
/// multi-line strings of up to 5 (thorough: 6) characters out of dot, x, CR, LF, 1, quote, backslash (or of a dollar and braces): the text up to the line with a single dot, one dot removed from lines starting with two; with text after `text:`
/// reach: 1
h_c17_multi {
    let n = choose(tier(5, 6));
    let b = alpha(n, if choose_bool() { &b".x\r\n1\"\\"[..] } else { &b".${\n\r}"[..] });
    let nl = *pick(&["\n", "\r\n"]);
    let head = *pick(&["", " ", " # comment"]);
    let all = cat(b.as_bytes(), nl.as_bytes(), format!(".{nl};").as_bytes());
    let all = if n == 0 { format!(".{nl};").into_bytes() } else { all };
    // reference
    let (mut o, mut i, mut end) = (vec![], 0, None);
    while i < all.len() && end.is_none() {
        let e = all[i..].iter().position(|c| *c == b'\n').map_or(all.len(), |p| i + p + 1);
        let l = &all[i..e];
        if l == b".\n" || l == b".\r\n" { end = Some(e); } else { o.extend_from_slice(if l.starts_with(b"..") { &l[1..] } else { l }); i = e; }
    }
    if end != Some(all.len() - 1) { return } // ends before: the rest is not a script
    reach(1);
    let w = refs(&o, &|n| if n.contains(&b'.') { None } else { Some(Vec::new()) });
    same(value(&cat(format!("fileinto text:{head}{nl}").as_bytes(), &all, b"")), &w, "value of a multi-line string");
}
}
/// text with ${name} replaced; anything that is not a reference stays
fn refs(b: &[u8], val: &dyn Fn(&[u8]) -> Option<Vec<u8>>) -> Vec<u8> {
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'$' && i + 1 < b.len() && b[i + 1] == b'{' {
            let e = (i + 2..b.len()).find(|k| !(b[*k].is_ascii_alphanumeric() || b[*k] == b'_' || b[*k] == b'.'));
            if let Some(e) = e { if b[e] == b'}' && e > i + 2 { if let Some(v) = val(&b[i + 2..e]) { o.extend(v); i = e + 1; continue } } }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}
entry!{
/// every text of up to 6 (thorough: 7) characters out of dollar, braces, a, B, space: references to the known variables are replaced, to unknown ones emptied, everything else stays
/// reach: 1
h_c17_refs {
    let n = choose(tier(6, 7)) + 1;
    let b = alpha(n, b"${}aB ");
    reach(1);
    let kind = choose(2);
    let w = refs(b.as_bytes(), &|n| Some(if n.eq_ignore_ascii_case(b"a") { b"<1>".to_vec() } else if n.eq_ignore_ascii_case(b"ab") { b"<2>".to_vec() } else { vec![] }));
    let src = if kind == 0 { cat(b"set \"A\" \"<1>\"; set \"ab\" \"<2>\"; fileinto \"", b.as_bytes(), b"\";") } else { cat(b"set \"A\" \"<1>\"; set \"ab\" \"<2>\"; require \"encoded-character\"; fileinto \"", b.as_bytes(), b"\";") };
    same(value(&src), &w, "references are replaced");
}
}
entry!{
/// references in every namespace and to match variables, names in any case, doubled and broken ones, between free text
/// reach: 1
h_c17_names {
    const R: &[(&str, &str)] = &[("${global.g}", "G"), ("${GLOBAL.G}", "G"), ("${t.g}", "G"), ("${env.e}", "E"), ("${Env.E}", "E"), ("${envelope.from}", "ann@a.org"), ("${envelope.none}", "${envelope.none}"), ("${nosuch.x}", "${nosuch.x}"),
        ("${header.subject}", "hello"), ("${HEADER.Subject}", "hello"), ("${0}", "pq"), ("${1}", "q"), ("${01}", "q"), ("${2}", ""), ("${v}", "V"), ("${V}", "V"), ("${u}", ""), ("${}", "${}"), ("${ v}", "${ v}"), ("${v", "${v"), ("$v}", "$v}"), ("${v.}", "${v.}"), ("${.v}", "${.v}"),
        ("${global.}", "${global.}"), ("$${v}", "$V"), ("${${v}}", "${V}"), ("$${${v}", "$${V"), ("{${v}}", "{V}"), ("%{v}", "%{v}"), ("${a b}", "${a b}")];
    let (r, w) = *pick(R);
    let (r2, w2) = *pick(&[("", ""), ("${v}", "V"), ("${", "${"), ("}", "}"), ("1", "1")]);
    let pre = alpha(choose(2), b"x1$");
    if (r.starts_with('{')) && pre.ends_with('$') { return }
    if r == "${v" && r2 == "}" { return }
    reach(1);
    let src = format!("set \"v\" \"V\"; if string :matches \"pq\" \"p*\" {{ fileinto \"{pre}{r}{r2}\"; }}");
    note(&src);
    let rn = rt();
    let mut c = ctx(&rn, MSG).with_env_variable("e", "E");
    c.set_global_variable("g", "G");
    let t = run_with(&mut c, compile(&src), 16, &mut reply_true);
    let f = folders(&t);
    obs_bytes(f[0].as_bytes());
    check(f.len() == 1 && f[0] == format!("{pre}{w}{w2}") , 2, "references are replaced");
}
}
fn is_hex(c: u8) -> bool { c.is_ascii_hexdigit() }
/// the expansion of ${hex:...} or ${unicode:...}, None = stays as written
fn decode(kind: &str, b: &[u8]) -> Result<Option<Vec<u8>>, ()> {
    let (mut o, mut any) = (vec![], false);
    let t = std::str::from_utf8(b).map_err(|_| ())?;
    if b.iter().any(|c| !is_hex(*c) && !b" \t\r\n".contains(c)) { return Ok(None) }
    for w in t.split([' ', '\t', '\r', '\n']).filter(|w| !w.is_empty()) {
        any = true;
        if kind == "hex" { if w.len() > 2 { return Ok(None) } o.push(u8::from_str_radix(w, 16).unwrap()); }
        else { let n = match u32::from_str_radix(w, 16) { Ok(n) => n, Err(_) => return Ok(None) }; match char::from_u32(n) { Some(c) => { let mut m = [0; 4]; o.extend_from_slice(c.encode_utf8(&mut m).as_bytes()) } None => return Err(()) } }
    }
    Ok(if any { Some(o) } else { None })
}
entry!{
/// ${hex:...} and ${unicode:...} with up to 4 (thorough: 5) free characters out of hex digits, space, newline, x, brace: decoded if well-formed, left alone if not, an error for values that are no characters
/// reach: 1 2
h_c17_encoded {
    let kind = *pick(&["hex", "unicode"]);
    let kw = if choose_bool() { kind.to_string() } else { kind.to_uppercase() };
    let n = choose(tier(4, 5)) + 1;
    let b = alpha(n, if kind == "hex" { &b"46fC \nx"[..] } else { &b"1d8F x"[..] });
    let (pre, suf) = *pick(&[("", ""), ("1", "2"), ("${", "}")]);
    let src = cat(format!("require \"encoded-character\"; fileinto \"{pre}${{{kw}:").as_bytes(), b.as_bytes(), format!("}}{suf}\";").as_bytes());
    let raw = cat(format!("{pre}${{{kw}:").as_bytes(), b.as_bytes(), format!("}}{suf}").as_bytes());
    match decode(kind, b.as_bytes()) {
        Ok(Some(d)) => {
            reach(1);
            let full = cat(pre.as_bytes(), &d, suf.as_bytes());
            let w = refs(&full, &|_| Some(vec![]));
            same(value(&src), String::from_utf8_lossy(&w).as_bytes(), "decoded");
        }
        Ok(None) => { reach(2); same(value(&src), &raw, "left as written"); }
        Err(()) => { let v = value(&src); check(v.is_none(), 5, "not a character: refused"); }
    }
}
}
entry!{
/// references written partly in encoded form are replaced after decoding
/// reach: 1
h_c17_encref {
    let (s, w) = *pick(&[("${hex:24}{v}", "V"), ("${hex:24 7b}v}", "V"), ("$${hex:7b}v}", "V"), ("${hex:24 7b 76 7d}", "V"), ("${unicode:24}{v}", "V"), ("${v}${hex:41}", "VA"), ("a${hex:62}c", "abc"), ("1${hex:32}3", "123"), ("0${hex:31}", "01"), ("${hex:41}${hex:42}", "AB"), ("${hex:41}${v}${hex:42}", "AVB"), ("${hex:41}.${unicode:e9}", "A.\u{e9}"), ("${hex:c3 a9}", "\u{e9}"), ("${hex:c3}${hex:a9}", "\u{e9}"), ("${hex:}", "${hex:}"), ("${hex: }", "${hex: }"), ("${hex:4 1}", "\u{4}\u{1}"), ("${Hex:41}", "A"), ("${hex:41", "${hex:41"), ("${hex:41${v}", "${hex:41V"), ("${hex:zz}${hex:41}", "${hex:zz}A"), ("${unicode:10FFFF}", "\u{10FFFF}"), ("${unicode:0041 42}", "AB")]);
    let n = choose(2);
    let pre = alpha(n, b"x1$");
    if pre == "$" && s.starts_with('{') { return }
    let src = format!("require \"encoded-character\"; set \"v\" \"V\"; fileinto \"{pre}{s}\";");
    reach(1);
    same(value(src.as_bytes()), format!("{pre}{w}").as_bytes(), "decoded, then replaced");
}
}
entry!{
/// a number of 1 or 2 digits after a fixed prefix (up to 20 digits in all) with no, K, M or G suffix in either case, as :seconds of duplicate: its value times 1024, 1024^2 or 1024^3, capped
/// reach: 1
h_c17_number {
    let pre = *pick(&["", "1", "17179869", "429496729", "1844674407370955161", "18014398509481"]);
    let d: String = (0..choose(2) + 1).map(|_| (b'0' + choose(10) as u8) as char).collect();
    let (suf, m) = *pick(&[("", 1u128), ("K", 1 << 10), ("k", 1 << 10), ("M", 1 << 20), ("m", 1 << 20), ("G", 1 << 30), ("g", 1 << 30)]);
    let digits = cat(pre.as_bytes(), d.as_bytes(), b"");
    let mut v = 0u128;
    for c in &digits { v = v * 10 + (*c - b'0') as u128; }
    let src = cat(b"if duplicate :seconds ", &digits, format!("{suf} {{ }}").as_bytes());
    noteb(&src);
    let s = Compiler::new().with_no_capability_check(true).compile(&src);
    if v > u64::MAX as u128 { check(s.is_err(), 1, "too large a number is refused"); return }
    // the largest value is refused by design
    if v * m >= u64::MAX as u128 { check(s.is_err(), 1, "too large a number is refused"); return }
    check(s.is_ok(), 2, "a number is read");
    let r = rt();
    let mut c = ctx(&r, b"Message-ID: <a@b>\r\nSubject: x\r\n\r\nb");
    let t = run_with(&mut c, s.unwrap(), 8, &mut reply_true);
    reach(1);
    match t.ev.first() { Some(Event::DuplicateId { expiry, .. }) => { obs(*expiry); check(*expiry as u128 == v * m, 3, "value of a number") } _ => check(false, 4, "asks") }
}
}
const TOK: &[&[&str]] = &[
    &["if", "header", ":is", "[", "\"subject\"", ",", "\"x\"", "]", "\"hello\"", "{", "fileinto", "\"a\"", ";", "stop", ";", "}", "elsif", "true", "{", "keep", ";", "}"],
    &["if", "not", "anyof", "(", "size", ":over", "10K", ",", "exists", "\"nope\"", ")", "{", "fileinto", ":copy", ":flags", "[", "\"f\"", "]", "\"b\"", ";", "}", "else", "{", "discard", ";", "}"],
    &["require", "[", "\"variables\"", "]", ";", "set", ":upper", ":length", "\"v\"", "\"ab\"", ";", "fileinto", "text:\nx${v}\n.\n", ";"],
    &["while", "\"global.n < 2\"", "{", "let", "\"global.n\"", "\"global.n + 1\"", ";", "fileinto", "\"w\"", ";", "if", "true", "{", "continue", ";", "}", "}", "foreverypart", ":name", "\"p\"", "{", "break", ":name", "\"p\"", ";", "}", "redirect", "\"a@b.org\"", ";"],
];
fn run_ev(src: &[u8]) -> Vec<Event> {
    noteb(src);
    let s = match Compiler::new().with_no_capability_check(true).compile(src) { Ok(s) => s, Err(e) => { note(&format!("{e}")); check(false, 1, "white space, comments and case do not matter"); unreachable!() } };
    let r = rt();
    let mut c = ctx(&r, MSG);
    let t = run_with(&mut c, s, 64, &mut reply_true);
    check(t.ended && t.err.is_none(), 3, "runs");
    obs_trace(&t);
    t.ev
}
fn plain(t: &[&str]) -> Vec<Event> { run_ev(t.join(" ").as_bytes()) }
/// both sides of the gap are word characters or a tag follows a word
fn needs_space(a: &str, b: &str) -> bool { let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$'; w(*a.as_bytes().last().unwrap()) && (w(b.as_bytes()[0]) || b.starts_with(':')) || b.starts_with(':') && w(*a.as_bytes().last().unwrap()) }
entry!{
/// between any two tokens of 4 scripts: nothing (where the tokens do not merge), or a bracket or hash comment of 3 (thorough: 4) free characters out of star, slash, newline, quote, brace, hash, text: the same events
/// reach: 1
h_c17_gap {
    let t = *pick(TOK);
    let g = choose(t.len() + 1);
    let kind = choose(3);
    let mut src = vec![];
    let mut filler = vec![];
    match kind {
        0 => {}
        1 => { let b = bytes(tier(3, 4)); for c in &b { assume(b"*/\n\"#a".contains(c)); } let mut all = b.clone(); all.extend_from_slice(b"*/"); if all.windows(2).position(|w| w == b"*/").unwrap() + 2 != all.len() { return } filler = cat(b"/*", &b, b"*/"); }
        _ => { let b = bytes(tier(3, 4)); for c in &b { assume(b"*/\r\"#};".contains(c)); } filler = cat(b"#", &b, b"\n"); }
    }
    for (i, k) in t.iter().enumerate() {
        if i == g { if kind == 0 && i > 0 && needs_space(t[i - 1], k) { return } src.extend_from_slice(&filler); } else if i > 0 { src.push(b' '); }
        src.extend_from_slice(k.as_bytes());
    }
    if g == t.len() { src.extend_from_slice(&filler); }
    reach(1);
    check(run_ev(&src) == plain(t), 2, "white space and comments do not matter");
}
}
entry!{
/// identifiers, tags and number suffixes of 4 scripts with any one of them in upper or mixed case; CRLF, LF or TAB between all tokens: the same events
/// reach: 1
h_c17_case {
    let t = *pick(TOK);
    let g = choose(t.len() + 1);
    let up = choose_bool();
    let sep = *pick(&[" ", "\r\n", "\n", "\t", "\n\n "]);
    let mut src = String::new();
    for (i, k) in t.iter().enumerate() {
        if i > 0 { src.push_str(sep) }
        if i == g && !k.starts_with('"') && !k.contains('\n') { src.extend(k.chars().enumerate().map(|(j, c)| if up || j % 2 == 0 { c.to_ascii_uppercase() } else { c })) } else if i == g && k.contains('\n') { src.push_str(&k.replace("text", "TEXT").replace('\n', "\r\n").replace("\r\nx${v}\r\n", "\nx${v}\n")) } else { src.push_str(k) }
    }
    reach(1);
    check(run_ev(src.as_bytes()) == plain(t), 2, "case and line ends do not matter");
}
}
entry!{
/// an unknown command after any mixture of up to 3 (thorough: 4) pieces (commands, comments, strings and multi-line texts with newlines inside) of several lines: the error names its line
/// reach: 1
h_c17_line {
    const P: &[&str] = &["keep;", "keep;\n", "# x\n", "/* a\nb */", "/* a\n*/\n", "fileinto \"a\nb\";", "fileinto \"a\\nb\";\r\n", "fileinto text:\na\n.\n;", "fileinto text:\r\n..a\r\n\r\nb\r\n.\r\n;", "if true {\nkeep;\n}", "\n", "\r\n", "set \"v\" \"${a\n}\";", "fileinto text: # c\n.\n;", "keep :flags [\n\"a\"\n]\n;"];
    let n = choose(tier(3, 4)) + 1;
    let mut s = String::new();
    for _ in 0..n { s.push_str(pick(P)); if choose_bool() { s.push('\n') } }
    let last = *pick(&["fileint \"x\";", "fileinto :nope \"x\";", "keep 1;", "}", "keep {", "nope;"]);
    // a line may not start in the middle of another string
    let line = s.bytes().filter(|c| *c == b'\n').count() + 1;
    s.push_str(last);
    note(&s);
    reach(1);
    match try_compile(s.as_bytes()) { Ok(_) => check(false, 1, "refused"), Err(e) => { obs(e.line_num() as u64); check(e.line_num() == line, 2, "the error names the line") } }
}
}
