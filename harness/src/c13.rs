//! C13: `:matches` implements the glob language exactly, and match variables hold the right text.
use crate::run::*;
use crate::vf::*;

#[derive(Clone, Copy, PartialEq)]
enum P { Many, One, Ch(char) }
fn parse(p: &str) -> Vec<P> {
    let mut r = vec![];
    let mut esc = false;
    for c in p.chars() {
        if !esc && c == '\\' { esc = true; continue; }
        r.push(if esc { P::Ch(c) } else if c == '*' { P::Many } else if c == '?' { P::One } else { P::Ch(c) });
        esc = false;
    }
    r
}
/// reference matcher: leftmost wildcards take as little as possible; fills in the capture of each wildcard
fn glob(p: &[P], v: &[char], fold: bool, cap: &mut Vec<String>) -> bool {
    match p.first() {
        None => v.is_empty(),
        Some(P::Ch(c)) => !v.is_empty() && (v[0] == *c || fold && v[0].to_ascii_lowercase() == c.to_ascii_lowercase()) && glob(&p[1..], &v[1..], fold, cap),
        Some(P::One) => {
            if v.is_empty() { return false; }
            cap.push(v[0].to_string());
            if glob(&p[1..], &v[1..], fold, cap) { return true; }
            cap.pop();
            false
        }
        Some(P::Many) => {
            let n = cap.len();
            for k in 0..=v.len() {
                cap.truncate(n);
                cap.push(v[..k].iter().collect());
                if glob(&p[1..], &v[k..], fold, cap) { return true; }
            }
            cap.truncate(n);
            false
        }
    }
}
fn one(pat: &str, val: &str, fold: bool) {
    let comp = if fold { "i;ascii-casemap" } else { "i;octet" };
    // with captures in use
    let src = format!("if string :matches :comparator \"{comp}\" \"${{global.v}}\" \"${{global.p}}\" {{ set \"global.r\" \"y\"; set \"global.c0\" \"${{0}}\"; set \"global.c1\" \"${{1}}\"; set \"global.c2\" \"${{2}}\"; set \"global.c3\" \"${{3}}\"; }} else {{ set \"global.r\" \"n\"; }}");
    let src2 = format!("if string :matches :comparator \"{comp}\" \"${{global.v}}\" \"${{global.p}}\" {{ set \"global.r\" \"y\"; }} else {{ set \"global.r\" \"n\"; }}");
    let r = rt();
    let mut c = ctx(&r, MSG);
    c.set_global_variable("v", val.to_string());
    c.set_global_variable("p", pat.to_string());
    let t = run_with(&mut c, compile(&src), 8, &mut reply_true);
    let t2 = { let mut c2 = ctx(&r, MSG); c2.set_global_variable("v", val.to_string()); c2.set_global_variable("p", pat.to_string()); let t2 = run_with(&mut c2, compile(&src2), 8, &mut reply_true); let r2 = gstr(&c2, "r"); (t2, r2) };
    check(t.err.is_none() && t2.0.err.is_none(), 1, "no runtime error");
    let pp = parse(pat);
    let vv: Vec<char> = val.chars().collect();
    let mut cap = vec![];
    let want = glob(&pp, &vv, fold, &mut cap);
    let got = gstr(&c, "r").unwrap_or_default() == "y";
    obs(got as u64);
    note(pat); note(val);
    check(got == want, 2, "glob verdict with match variables in use");
    check((t2.1.unwrap_or_default() == "y") == want, 3, "glob verdict without match variables");
    if want {
        reach(1);
        if cap.len() > 1 { reach(2); }
        for i in 0..4 {
            let g = gstr(&c, ["c0", "c1", "c2", "c3"][i]).unwrap_or_default();
            let e = if i == 0 { val.to_string() } else { cap.get(i - 1).cloned().unwrap_or_default() };
            noteb(g.as_bytes());
            check(g == e, 10 + i as u32, "match variable");
        }
    } else { reach(3); }
}
entry!{
/// pattern of up to 3 (thorough: 4) and value of up to 3 (thorough: 4) free characters out of * ? backslash a A b, i;octet
/// reach: 1 2 3
h_c13_octet { let np = choose(1 + tier(3, 4)); let nv = choose(1 + tier(3, 4)); let p = alpha(np, b"*?\\aAb"); let v = alpha(nv, b"*?\\aAb"); one(&p, &v, false); }
}
entry!{
/// same with the default case-insensitive comparator
/// reach: 1 2 3
h_c13_casemap { let np = choose(1 + tier(3, 4)); let nv = choose(1 + tier(3, 4)); let p = alpha(np, b"*?\\aAb"); let v = alpha(nv, b"*?\\aAb"); one(&p, &v, true); }
}
entry!{
/// two stars around a free middle, value of 5 (thorough: 7) characters
/// reach: 1 2 3
h_c13_backtrack {
    let m = alpha(2, b"ab?*");
    let p = format!("{}*{}*{}", pick(&["", "a"]), m, pick(&["", "b", "?"]));
    let v = alpha(tier(4, 6), b"abB");
    one(&p, &v, true);
}
}
entry!{
/// a wildcard-free value of 2 free UTF-8 bytes or one of 14 strings with irregular case mappings, used as its own pattern, matches itself as :is does
/// reach: 1
h_c13_self {
    const SPECIAL: &[&str] = &["Σ", "ΑΣ", "ΑΣ ΑΣ", "ΣΑ", "İ", "iİ", "ẞ", "ß", "ſ", "K", "Å", "ǅ", "ﬀ", "𐐀a"];
    let k = choose(SPECIAL.len() + 1);
    let v = if k < SPECIAL.len() { SPECIAL[k].to_string() } else { let n = choose(1 + tier(2, 3)); utf8(n) };
    for c in v.bytes() { assume(c != b'*' && c != b'?' && c != b'\\'); }
    let r = rt();
    let mut c = ctx(&r, MSG);
    c.set_global_variable("v", v.clone());
    let t = run_with(&mut c, compile("if string :is \"${global.v}\" \"${global.v}\" { set \"global.a\" \"y\"; } if string :matches \"${global.v}\" \"${global.v}\" { set \"global.b\" \"y\"; set \"global.c\" \"${0}\"; } if string :matches \"${global.v}\" \"${global.v}\" { set \"global.d\" \"y\"; }"), 8, &mut reply_true);
    check(t.err.is_none(), 1, "no runtime error");
    noteb(v.as_bytes());
    check(gstr(&c, "a").unwrap_or_default() == "y", 2, "a string :is itself");
    check(gstr(&c, "b").unwrap_or_default() == "y", 3, "a wildcard-free string :matches itself (captures in use)");
    let plain = gstr(&c, "d").unwrap_or_default() == "y";
    // known finding: the value is lowercased as a whole (word-final sigma), the pattern character by character
    if !plain && v.to_lowercase() != v.chars().flat_map(|c| if c.is_uppercase() { c.to_lowercase().collect::<Vec<_>>() } else { vec![c] }).collect::<String>() { check(false, 20, "KNOWN whole-string lowercasing differs from the pattern's"); }
    check(plain, 4, "a wildcard-free string :matches itself");
    check(gstr(&c, "c").unwrap_or_default() == v, 5, "match variable 0 is the whole value");
    reach(1);
}
}
/// a condition holding a match test: how it is written, and whether it is fulfilled / the match ran and succeeded
fn cond(kind: usize, val: &str, key: &str, m: bool, q: bool) -> (String, bool, bool) {
    let t = format!("string :matches \"{val}\" \"{key}\"");
    let q1 = "mailboxexists \"m\"";
    match kind {
        0 => (t, m, m),
        1 => (format!("not {t}"), !m, m),
        2 => (format!("anyof({q1}, {t})"), q || m, !q && m),
        3 => (format!("allof({q1}, {t})"), q && m, q && m),
        4 => (format!("anyof({t}, {q1})"), m || q, m),
        5 => (format!("allof({t}, {q1})"), m && q, m),
        6 => (format!("not anyof({q1}, {t})"), !(q || m), !q && m),
        7 => (format!("anyof(allof({q1}, {t}), mailboxexists \"n\")"), q && m, q && m),
        _ => (format!("allof({t}, string :matches \"${{1}}\" \"*{}\")", if q { "1" } else { "z" }), m && q, m),
    }
}
entry!{
/// two match tests, the second inside the block of the first (also below a plain block, in an elsif, or in a while) in any of 9 conditions (not, anyof, allof, using ${1} of the first operand), each matching or not: ${1} read in the inner block, in its else and after it is that of the last match that succeeded
/// reach: 1 2
h_c13_nested {
    let shape = choose(5);
    let k2 = choose(9);
    let (m2, q2) = (choose_bool(), bools());
    let k1 = *pick(&[0usize, 2, 3, 5]);
    let (m1, q1) = (choose_bool(), bools());
    let (c1, e1, s1) = cond(k1, if m1 { "out1-x" } else { "out1x" }, "*-?", m1, q1);
    let (c2, e2, s2) = cond(k2, if m2 { "in1:y" } else { "in1y" }, "*:?", m2, q2);
    let body = format!("fileinto :copy \"i${{1}}\";");
    let inner = match shape {
        0 => format!("if {c2} {{ {body} }} fileinto :copy \"a${{1}}\";"),
        1 => format!("if {c2} {{ {body} }} else {{ fileinto :copy \"e${{1}}\"; }} fileinto :copy \"a${{1}}\";"),
        2 => format!("if true {{ if {c2} {{ {body} }} fileinto :copy \"a${{1}}\"; }}"),
        3 => format!("if false {{ discard; }} elsif {c2} {{ {body} }} else {{ fileinto :copy \"e${{1}}\"; }} fileinto :copy \"a${{1}}\";"),
        _ => format!("fileinto :copy \"b${{1}}\"; if {c2} {{ if true {{ {body} }} }} fileinto :copy \"a${{1}}\";"),
    };
    let src = format!("if {c1} {{ {inner} }} else {{ fileinto :copy \"o${{1}}\"; }}");
    note(&src);
    let r = rt();
    let mut c = ctx(&r, MSG);
    let mut first = true;
    let uses1 = match k1 { 0 => false, 5 => m1, _ => true };
    // mailboxexists is answered q1 for the outer condition, q2 for the inner one; "n" never exists
    let t = run_with(&mut c, compile(&src), 64, &mut |e| match e {
        Event::MailboxExists { mailboxes, .. } => {
            if mailboxes[0] == Mailbox::Name("n".to_string()) { return Input::False }
            let a = if uses1 && first { q1 } else { q2 };
            first = false;
            if a { Input::True } else { Input::False }
        }
        _ => Input::True,
    });
    check(t.ended && t.err.is_none(), 1, "runs without error");
    let mut w: Vec<String> = vec![];
    let mut cur = String::new();
    if s1 { cur = "out1".into() }
    if e1 {
        if shape == 4 { w.push(format!("b{cur}")) }
        if s2 { cur = "in1".into(); if k2 == 8 && q2 { cur = "in".into() } }
        if e2 { w.push(format!("i{cur}")) } else if shape == 1 || shape == 3 { w.push(format!("e{cur}")) }
        w.push(format!("a{cur}"));
        reach(1);
    } else { w.push(format!("o{cur}")); reach(2) }
    w.push("INBOX".into());
    let f = folders(&t);
    for x in &f { obs_bytes(x.as_bytes()); note(x) }
    check(f == w, 2, "match variables are those of the last successful match");
}
}
const KINDS: &[(&str, &str)] = &[
    ("string{M} \"foo-bar\" {K}", "foo-bar"),
    ("header{M} \"X-V\" {K}", "foo-bar"),
    ("header{M} :index 2 [\"X-W\"] {K}", "second"),
    ("header :mime :contenttype{M} \"Content-Type\" {K}", "text/plain"),
    ("address{M} :localpart \"from\" {K}", "foo-bar"),
    ("address :domain{M} [\"cc\", \"from\"] {K}", "x.org"),
    ("envelope{M} :localpart \"from\" {K}", "ann"),
    ("environment{M} \"v\" {K}", "foo-bar"),
    ("hasflag{M} \"lst\" {K}", "foo-bar"),
    ("date{M} \"date\" \"year\" {K}", "2023"),
    ("date{M} :zone \"+0000\" \"date\" \"time\" {K}", "09:00:00"),
    ("currentdate{M} :zone \"+0000\" \"date\" {K}", "2023-11-14"),
    ("metadata{M} \"INBOX\" \"/p/c\" {K}", "note"),
    ("servermetadata{M} \"/s/m\" {K}", "mode"),
    ("spamtest{M} {K}", "5"),
    ("virustest{M} {K}", "1"),
];
entry!{
/// each of 16 tests that match text and set match variables, :matches or :regex, key alone or after one that does not match, six patterns, in an if, a not, an operand of anyof or allof, after an earlier match: ${0} to ${2} are those of the last match that succeeded
/// reach: 1 2
h_c13_kinds {
    let (t, v) = *pick(KINDS);
    // hasflag :regex is a known finding of C18
    let re = choose_bool() && !t.starts_with("hasflag");
    let n = v.len();
    let esc = |s: &str| if re { s.replace('.', "\\\\.") } else { s.to_string() };
    let w = |m: &str, r: &str| if re { r.to_string() } else { m.to_string() };
    // pattern and its captures, None: no match
    let (key, caps): (String, Option<[&str; 2]>) = match choose(6) {
        0 => (w("*", "^(.*)$"), Some([v, ""])),
        1 => (format!("{}{}", esc(&v[..n / 2]), w("*", "(.*)")), Some([&v[n / 2..], ""])),
        2 => (w("?*", "^(.)(.*)$"), Some([&v[..1], &v[1..]])),
        3 => (format!("{}{}{}", w("*", "^(.*)"), esc(&v[n - 1..]), w("*", "(.*)$")), None),
        4 => (format!("zq{}", w("*", "(.*)")), None),
        _ => (esc(v), Some(["", ""])),
    };
    // leftmost wildcard shortest (:matches) or longest (:regex)
    let last = &v[n - 1..];
    let p = if re { v.rfind(last).unwrap() } else { v.find(last).unwrap() };
    let caps = if key.starts_with('*') && key.len() > 1 || re && key.starts_with("^(.*)") && key.len() > 6 { Some([&v[..p], &v[p + 1..]]) } else { caps };
    let m = caps.is_some();
    let k = if choose_bool() || t.ends_with("test{M} {K}") { format!("\"{key}\"") } else { format!("[\"zzz\", \"{key}\"]") };
    let test = t.replace("{M}", if re { " :regex" } else { " :matches" }).replace("{K}", &k);
    let (cond, holds) = match choose(4) { 0 => (test, m), 1 => (format!("not {test}"), !m), 2 => (format!("anyof(false, {test})"), m), _ => (format!("allof({test}, true)"), m) };
    // date :regex uses the wildcard matcher (known finding): only a literal pattern matches
    let faulty_date = re && t.contains("date{M}");
    let only2 = choose_bool();
    let show = if only2 { "${2}" } else { "${0}|${1}|${2}" };
    let src = format!("setflag \"lst\" \"foo-bar\"; if string :matches \"p-q\" \"*-*\" {{ if {cond} {{ fileinto :copy \"T{show}\"; }} else {{ fileinto :copy \"F{show}\"; }} fileinto :copy \"A{show}\"; }}");
    note(&src);
    set_time(1699956000);
    let r = rt().with_metadata(Metadata::Mailbox { name: "INBOX".to_string(), annotation: "/p/c".to_string() }, "note").with_metadata(Metadata::Server { annotation: "/s/m".to_string() }, "mode").with_valid_notification_uri("mailto");
    let mut c = ctx(&r, b"From: foo-bar@x.org\r\nTo: z@z.net\r\nX-V: foo-bar\r\nX-W: first\r\nX-W: second\r\nContent-Type: text/plain\r\nDate: Tue, 14 Nov 2023 10:00:00 +0100\r\n\r\nb\r\n").with_env_variable("v", "foo-bar").with_spam_status(SpamStatus::MaybeSpam(0.5)).with_virus_status(VirusStatus::Clean);
    let tr = run_with(&mut c, compile(&src), 64, &mut reply_true);
    check(tr.ended && tr.err.is_none(), 1, "runs without error");
    let text = |m: Option<[&str; 2]>| match m { Some([a, b]) => if only2 { b.to_string() } else { format!("{v}|{a}|{b}") }, None => if only2 { "q".into() } else { "p-q|p|q".into() } };
    let new = text(caps);
    let f = folders(&tr);
    for x in &f { obs_bytes(x.as_bytes()); note(x) }
    reach(if m { 1 } else { 2 });
    if faulty_date && m && key != esc(v) && f[0].starts_with(if holds { 'F' } else { 'T' }) && f[0][1..] == text(None) && f[1][1..] == text(None) { check(false, 20, "KNOWN date and currentdate compare :regex keys with the wildcard matcher") }
    // nothing captured for the variables in use: the list of the match before stays (known finding)
    if only2 && m && f[0][1..] == text(None) && f[1][1..] == text(None) && new.is_empty() { check(false, 21, "KNOWN a match without as many wildcards leaves the variable of the match before") }
    check(f[0].starts_with(if holds { 'T' } else { 'F' }), 2, "the test succeeds when the value matches");
    check(f[0][1..] == new, 3, "match variables of the last match that succeeded");
    check(f[1][1..] == new, 4, "after the block too");
}
}
