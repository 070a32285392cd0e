//! C16: set stores what its value spells, after its modifiers in order of precedence; ${...} expands to it.
use crate::run::*;
use crate::vf::*;

fn m40(k: usize, s: &str, r: &(String, String)) -> String {
    match k { 0 => s.to_string(), 1 => s.to_ascii_lowercase(), 2 => s.to_ascii_uppercase(), _ => replace(s, &r.0, &r.1) }
}
/// every occurrence from the left, not overlapping; an empty pattern is not exercised
fn replace(s: &str, f: &str, t: &str) -> String {
    let (b, f) = (s.as_bytes(), f.as_bytes());
    let (mut o, mut i) = (String::new(), 0);
    while i < b.len() {
        if b.len() - i >= f.len() && &b[i..i + f.len()] == f { o.push_str(t); i += f.len(); } else { o.push(b[i] as char); i += 1; }
    }
    o
}
fn m30(k: usize, s: &str) -> String {
    let mut c: Vec<u8> = s.bytes().collect();
    if k == 0 || c.is_empty() { return s.to_string(); }
    c[0] = if k == 1 { c[0].to_ascii_lowercase() } else { c[0].to_ascii_uppercase() };
    String::from_utf8(c).unwrap()
}
fn m20(k: usize, s: &str) -> String {
    let q: &str = match k { 0 => return s.to_string(), 1 => "*?\\", _ => "*\\?.[](){}+|^=:$" };
    let mut o = String::new();
    for c in s.chars() { if q.contains(c) { o.push('\\') } o.push(c) }
    o
}
fn url(s: &str) -> String {
    let mut o = String::new();
    for c in s.bytes() { if c.is_ascii_alphanumeric() || c == b'-' || c == b'.' || c == b'_' || c == b'~' { o.push(c as char) } else { o.push('%'); o.push_str(["0","1","2","3","4","5","6","7"][(c >> 4) as usize & 7]); o.push(b"0123456789abcdef"[(c & 15) as usize] as char) } }
    o
}
/// runs a script over global variables given by value, returns the global "r" afterwards
fn run(src: &str, vars: &[(&str, String)]) -> String {
    note(src);
    let r = rt();
    let mut c = ctx(&r, MSG);
    for (n, v) in vars { noteb(v.as_bytes()); c.set_global_variable(n.to_string(), v.clone()); }
    let t = run_with(&mut c, compile(src), 16, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "runs without error");
    let v = gstr(&c, "r").unwrap_or_default();
    obs_bytes(v.as_bytes());
    v
}
fn mods(n: usize, al: &[u8], free: bool) {
    let s = if free { let b = bytes(n); for c in &b { assume(*c < 0x80); } String::from_utf8(b).unwrap() } else { alpha(n, al) };
    let (a, b, q, u, l) = (choose(4), choose(3), choose(3), choose(2), choose(2));
    let rep = if a == 3 { (pick(&["a", "*", "aa", "Z*"]).to_string(), pick(&["", "?", "aB"]).to_string()) } else { Default::default() };
    let mut tags = vec![];
    match a { 1 => tags.push(":lower"), 2 => tags.push(":upper"), 3 => tags.push(":replace \"${global.f}\" \"${global.t}\""), _ => {} }
    match b { 1 => tags.push(":lowerfirst"), 2 => tags.push(":upperfirst"), _ => {} }
    match q { 1 => tags.push(":quotewildcard"), 2 => tags.push(":quoteregex"), _ => {} }
    if u == 1 { tags.push(":encodeurl") }
    if l == 1 { tags.push(":length") }
    if tags.len() > 1 && choose_bool() { tags.reverse() }
    let mut w = m20(q, &m30(b, &m40(a, &s, &rep)));
    if u == 1 { w = url(&w) }
    if l == 1 { w = w.len().to_string() }
    let g = run(&format!("set {} \"global.r\" \"${{global.s}}\";", tags.join(" ")), &[("s", s), ("f", rep.0), ("t", rep.1)]);
    check(g == w, 2, "value after the modifiers");
    reach(1);
}
entry!{
/// one set with any of 144 combinations of modifiers (one per precedence class), in either order, on a value of 3 (thorough: 4) characters of a Z * ? ( ~ %; :replace with four patterns and three replacements
/// reach: 1
h_c16_mods { mods(tier(3, 4), b"aZ*?(~%", false) }
}
entry!{
/// the same on a value of one or two free ASCII characters
/// reach: 1
h_c16_ascii { mods(1 + choose(tier(1, 2)), b"", true) }
}
entry!{
/// case modifiers and :length on text with multi-byte characters in free positions: length counts characters, url encoding covers each byte
/// reach: 1
h_c16_multi {
    let cs = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "?"];
    let n = 1 + choose(3);
    let s: String = (0..n).map(|_| *pick(&cs)).collect();
    let (tag, w): (&str, String) = match choose(4) {
        0 => (":length", n.to_string()),
        1 => (":encodeurl", s.bytes().map(|c| if c == b'a' { "a".to_string() } else { format!("%{c:02x}") }).collect()),
        2 => (":quotewildcard", s.replace('?', "\\?")),
        _ => (":replace \"\u{e9}\" \"x\"", s.replace('\u{e9}', "x")),
    };
    let g = run(&format!("set {tag} \"global.r\" \"${{global.s}}\";"), &[("s", s)]);
    check(g == w, 2, "value after the modifier");
    reach(1);
}
}
entry!{
/// case modifiers on text of 1 to 2 (thorough: 3) characters of a, E-acute, sharp s, dotted capital I, a ligature, a digraph, a capital beyond the basic plane and a digit: the modified characters may become several, and only the first is modified by the *first forms
/// reach: 1
h_c16_case {
    let cs: &[(&str, &str, &str)] = &[("a", "a", "A"), ("\u{c9}", "\u{e9}", "\u{c9}"), ("\u{df}", "\u{df}", "SS"), ("\u{130}", "i\u{307}", "\u{130}"), ("\u{fb01}", "\u{fb01}", "FI"), ("\u{1c5}", "\u{1c6}", "\u{1c4}"), ("\u{10400}", "\u{10428}", "\u{10400}"), ("7", "7", "7")];
    let n = 1 + choose(tier(2, 3));
    let v: Vec<(&str, &str, &str)> = (0..n).map(|_| *pick(cs)).collect();
    let s: String = v.iter().map(|c| c.0).collect();
    let part = |upper: bool, first: bool| -> String { v.iter().enumerate().map(|(i, c)| if first && i > 0 { c.0 } else if upper { c.2 } else { c.1 }).collect() };
    let (tag, w) = match choose(6) {
        0 => (":lower", part(false, false)),
        1 => (":upper", part(true, false)),
        2 => (":lowerfirst", part(false, true)),
        3 => (":upperfirst", part(true, true)),
        4 => (":lowerfirst :length", part(false, true).chars().count().to_string()),
        _ => (":length :upperfirst", part(true, true).chars().count().to_string()),
    };
    let g = run(&format!("set {tag} \"global.r\" \"${{global.s}}\";"), &[("s", s)]);
    check(g == w, 2, "value after the modifier");
    reach(1);
}
}
/// the reference reading of a string constant: Err = rejected at compile time
fn expand(b: &[u8], get: &dyn Fn(&str) -> Option<String>) -> Result<String, ()> {
    let (mut o, mut i) = (String::new(), 0);
    while i < b.len() {
        if b[i] == b'$' && i + 1 < b.len() && b[i + 1] == b'{' {
            let mut e = i + 2;
            while e < b.len() && (b[e].is_ascii_alphanumeric() || b"_[]*-.".contains(&b[e])) { e += 1 }
            if e < b.len() && b[e] == b'}' && e > i + 2 {
                let n = std::str::from_utf8(&b[i + 2..e]).unwrap();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    if n.parse::<usize>().map_or(true, |n| n >= 63) { return Err(()) }
                    i = e + 1;
                    continue;
                } else if !n.contains('.') || get(n).is_some() {
                    o.push_str(&get(n).unwrap_or_default());
                    i = e + 1;
                    continue;
                }
                // unknown namespace: left as it is
            }
        }
        o.push(b[i] as char);
        i += 1;
    }
    Ok(o)
}
entry!{
/// a string constant of 5 (thorough: 6) free characters of $ { } v V . 1 between two others, with a local and a match variable in play: every ${name} is replaced, everything else stays
/// reach: 1 2
h_c16_expand {
    let s = alpha(tier(5, 6), b"${}vV.1");
    let val = pick(&["$", "x"]).to_string();
    let src = format!("set \"v\" \"${{global.s}}\"; set \"global.r\" \"a{s}{}\";", *pick(&["", "}", "v}"]));
    let lit = &src[src.find("\"a").unwrap() + 1..src.len() - 2];
    note(&src);
    let w = expand(lit.as_bytes(), &|n| if n.eq_ignore_ascii_case("v") { Some(val.clone()) } else { None });
    match (w, try_compile(src.as_bytes())) {
        (Err(_), Ok(_)) => check(false, 3, "match variable number out of range is rejected"),
        (Err(_), Err(_)) => reach(2),
        (Ok(_), Err(e)) => { note(&format!("{e}")); check(false, 4, "string constant compiles") }
        (Ok(w), Ok(sc)) => {
            let r = rt();
            let mut c = ctx(&r, MSG);
            c.set_global_variable("s", val.clone());
            let t = run_with(&mut c, sc, 8, &mut reply_true);
            check(t.ended && t.err.is_none(), 1, "runs without error");
            let g = gstr(&c, "r").unwrap_or_default();
            obs_bytes(g.as_bytes());
            reach(1);
            check(g == w, 2, "expanded value");
        }
    }
}
}
entry!{
/// three assignments among a local, a :local, a declared global and a namespaced variable, each from any of 9 right-hand sides built from the others (names in any case), with set or let; all four are read back through a fileinto folder
/// reach: 1
h_c16_assign {
    let x = alpha(2, b"xX");
    let names = ["a", "Lc", "gV", "global.h"];
    let mut vals: [Option<String>; 4] = Default::default();
    let mut src = "require \"variables\"; global \"gV\"; set \"a\" \"0\"; set :local \"Lc\" \"${global.x}\"; ".to_string();
    vals[0] = Some("0".into()); vals[1] = Some(x.clone());
    let v = |vals: &[Option<String>; 4], i: usize| vals[i].clone().unwrap_or_default();
    for _ in 0..tier(2, 3) {
        let k = choose(4);
        let (rhs, w) = match choose(9) {
            0 => ("k".to_string(), "k".to_string()),
            1 => ("${a}${A}".into(), v(&vals, 0) + &v(&vals, 0)),
            2 => ("<${lC}>".into(), format!("<{}>", v(&vals, 1))),
            3 => ("${GV}-${gv}".into(), format!("{}-{}", v(&vals, 2), v(&vals, 2))),
            4 => ("${gV}${Global.H}".into(), v(&vals, 2) + &v(&vals, 3)),
            5 => ("${global.h}".into(), v(&vals, 3)),
            6 => ("${a} ${lc} ${global.gv}".into(), format!("{} {} {}", v(&vals, 0), v(&vals, 1), v(&vals, 2))),
            7 => ("".into(), "".into()),
            _ => ("${t.x}".into(), x.clone()),
        };
        src.push_str(&format!("set \"{}\" \"{rhs}\"; ", names[k]));
        vals[k] = Some(w);
    }
    src.push_str("fileinto :copy \"F/${a}/${lc}/${gv}/${global.h}\"; set \"global.r\" \"${a}/${LC}/${global.gv}/${T.H}\";");
    let w: Vec<String> = (0..4).map(|i| v(&vals, i)).collect();
    let g = run(&src, &[("x", x)]);
    reach(1);
    check(g == w.join("/"), 2, "all variables hold what was last assigned");
}
}
entry!{
/// extracttext with :first 0..4 or none and up to two modifiers (in either order, :length last) into a local, :local, global or envelope variable that had a value before, at the first to last part of a message of 1 to 2 (thorough: 3) parts (text in two encodings, HTML, binary, nested message, multipart around them), or outside a loop
/// reach: 1 2
h_c16_extract {
    const P: &[(&str, &str)] = &[("Content-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\nh=C3=A9ll*", "héll*"), ("Content-Type: text/html\r\n\r\n<p>T&amp;o <b>b</b></p>", "T&o b\n"), ("Content-Type: text/plain\r\nContent-Transfer-Encoding: base64\r\n\r\nYWJj", "abc"), ("Content-Type: application/x-y\r\n\r\nbin", ""), ("Content-Type: message/rfc822\r\n\r\nFrom: q@q.q\r\n\r\ninner", ""), ("\r\nplain", "plain")];
    let n = choose(tier(3, 4));
    let k = choose(P.len());
    // further parts are those that follow in the list (thorough: any)
    let ps: Vec<&(&str, &str)> = (0..n.max(1)).map(|i| &P[if i == 0 { k } else if thorough() && i == 1 { choose(P.len()) } else { (k + i) % P.len() }]).collect();
    let (msg, mut texts): (String, Vec<&str>) = if n == 0 { assume(!ps[0].0.contains("rfc822")); (format!("From: a@b.c\r\nMIME-Version: 1.0\r\n{}", ps[0].0), vec![ps[0].1]) } else {
        (format!("From: a@b.c\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=x\r\n\r\n{}--x--\r\n", ps.iter().map(|p| format!("--x\r\n{}\r\n", p.0)).collect::<String>()), std::iter::once("").chain(ps.iter().map(|p| p.1)).collect())
    };
    let first = choose(6);
    let mods: &[&str] = *pick(&[&[] as &[&str], &[":upper"], &[":quotewildcard"], &[":upper", ":quotewildcard"], &[":replace \"l\" \"LL\""], &[":lower", ":upperfirst"], &[":length"], &[":length", ":replace \"l\" \"LL\""]]);
    let mut m: Vec<&str> = mods.to_vec();
    if m.len() > 1 && choose_bool() { m.reverse() }
    let (decl, name, tag) = *pick(&[("", "v", ""), ("", "v", ":local "), ("", "global.v", ""), ("global \"v\";", "v", ""), ("", "envelope.envid", "")]);
    let out = choose(8) == 0;
    let stmt = format!("extracttext {}{tag}{} \"{name}\";", if first < 5 { format!(":first {first} ") } else { "".into() }, m.join(" "));
    let show = format!("fileinto :copy \"<${{{name}}}>\";");
    let setup = if tag.is_empty() { format!("set \"{name}\" \"old\";") } else { "".into() };
    let src = if out { texts = vec![""]; format!("require [\"variables\"]; {decl} {setup} {stmt} {show}") } else { format!("{decl} {setup} foreverypart {{ {stmt} {show} }}") };
    note(&src); note(&msg);
    let want: Vec<String> = texts.iter().map(|t| {
        let mut s: String = t.chars().take(if first < 5 { first } else { 99 }).collect();
        for k in [":lower", ":upper", ":replace \"l\" \"LL\"", ":upperfirst", ":quotewildcard", ":length"] {
            if !mods.contains(&k) || s.is_empty() { continue }
            s = match k { ":lower" => s.to_lowercase(), ":upper" => s.to_uppercase(), ":upperfirst" => s.chars().enumerate().map(|(i, c)| if i == 0 { c.to_uppercase().to_string() } else { c.to_string() }).collect(), ":quotewildcard" => s.replace('*', "\\*"), ":length" => s.chars().count().to_string(), _ => s.replace('l', "LL") };
        }
        format!("<{s}>")
    }).collect();
    let r = rt();
    let mut c = r.filter(msg.as_bytes());
    let t = run_with(&mut c, compile(&src), 64, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "runs");
    let mut got = folders(&t);
    got.pop();
    for g in &got { obs_bytes(g.as_bytes()) }
    reach(if out { 2 } else { 1 });
    for x in &want { note(x) }
    check(got == want, 2, "the text of each part, cut and modified");
}
}
entry!{
/// set or extracttext with 1 to 26 :replace modifiers, each of which rewrites what the one before it wrote, and :upperfirst before, between or after them, on a value with a free first character
/// reach: 1 2
h_c16_chain {
    let n = 1 + choose(26);
    let at = *pick(&[0usize, 1, 11, 26]);
    let set = choose_bool();
    let mut m: Vec<String> = (0..n).map(|i| format!(":replace \"{}\" \"{}\"", (b'a' + i as u8 % 26) as char, (b'a' + (i as u8 + 1) % 26) as char)).collect();
    m.insert(at.min(n), ":upperfirst".into());
    let m = m.join(" ");
    let x = if set { alpha(1, b"abz") } else { pick(&["a", "b", "z"]).to_string() };
    let mut want = format!("{x}7");
    for i in 0..n { want = replace(&want, &((b'a' + i as u8 % 26) as char).to_string(), &((b'a' + (i as u8 + 1) % 26) as char).to_string()) }
    let want = format!("{}{}", want[..1].to_ascii_uppercase(), &want[1..]);
    note(&m); note(&x); note(&want);
    let got = if set { run(&format!("set {m} \"global.r\" \"${{global.x}}7\";"), &[("x", x)]) } else {
        let r = rt();
        let msg = format!("From: a@b.c\r\n\r\n{x}7");
        let mut c = r.filter(msg.as_bytes());
        let t = run_with(&mut c, compile(&format!("foreverypart {{ extracttext {m} \"r\"; fileinto \"${{r}}\"; }}")), 64, &mut reply_true);
        folders(&t).pop().unwrap_or_default()
    };
    reach(if set { 1 } else { 2 });
    check(got == want, 2, "replacements are made in the order they are written");
}
}
