//! C21: redirect sends to exactly the address its argument spells, or to nobody.
use crate::run::*;
use crate::vf::*;

/// what a redirect to `addr` (given by a variable or as a constant) does: the recipient, and whether the keep stands
fn sent(addr: &str, user: Option<&str>, form: usize) -> (Option<Recipient>, bool) {
    let r = rt();
    let mut c = r.filter(MSG);
    if let Some(u) = user { c.set_user_address(u.to_string()); }
    c.set_global_variable("a", addr.to_string());
    let q = addr.replace('\\', "\\\\").replace('"', "\\\"");
    let src = match form { 0 => "redirect \"${global.a}\";".to_string(), 1 => "redirect :list \"${global.a}\";".into(), 2 => format!("redirect \"{q}\";"), _ => format!("redirect :list \"{q}\";") };
    let s = compile(&src);
    let t = run_with(&mut c, s, 8, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "the run ends");
    let mut to = None;
    let mut keep = false;
    for e in t.ev {
        match e { Event::SendMessage { recipient, .. } => { check(to.is_none(), 2, "one message"); to = Some(recipient) } Event::Keep { .. } => keep = true, _ => check(false, 3, "nothing else happens") }
    }
    check(keep == to.is_none(), 4, "the message is kept exactly if it is not sent");
    match &to { Some(Recipient::Address(a) | Recipient::List(a)) => obs_bytes(a.as_bytes()), _ => obs(0) }
    (to, keep)
}
fn expect(addr: &str, want: Option<&str>, form: usize) {
    note(addr);
    match (sent(addr, None, form).0, want) {
        (None, None) => reach(2),
        (Some(Recipient::Address(a)), Some(w)) => { reach(1); check(a == w, 5, "sent to the address as written") }
        (Some(_), _) => check(false, 6, "no message without a well-formed address"),
        (None, Some(_)) => check(false, 7, "a well-formed address is sent to"),
    }
}
/// the text without the quotes and escapes of quoted strings
fn plain(s: &str) -> String {
    let (mut o, mut esc) = (String::new(), false);
    for c in s.chars() { if esc { o.push(c); esc = false } else if c == '\\' { esc = true } else if c != '"' { o.push(c) } }
    o
}
const LOCAL: [&str; 13] = ["a", "a.b+c", "o'neil", "=?x", "é", "\"a b\"", "\"a@b\"", "\"<a>\"", "\"a\\\"b\"", "\"a\\\\\"", "\"\".b", "\"a\".b", "A/B"];
const DOMAIN: [&str; 5] = ["b.org", "x.y.z", "1.2", "B-b.Org", "é.fr"];
const NAME: [&str; 9] = ["", "Bob", "Bob B. <", "\"Bob B.\"", "\"B, <x> @ y.z\"", "\"say \\\"<hi\\\"\"", "\"\\\\\"", "Bøb", "b@c.d"];
fn ws() -> &'static str { pick(&["", " ", "\t "]) }
entry!{
/// 13 local parts (words, quoted strings with spaces, @, brackets, escaped quotes and backslashes) at 5 domains, bare, in brackets or after one of 9 names (quoted, with specials), with white space around; given by a variable or as constant: the message goes to exactly that address, its quotes resolved
/// reach: 1
h_c21_form {
    let addr = format!("{}@{}", pick(&LOCAL), pick(&DOMAIN));
    let form = if choose_bool() { 0 } else { 2 };
    let t = match choose(3) {
        0 => format!("{}{addr}{}", ws(), ws()),
        1 => format!("{}<{addr}>{}", ws(), ws()),
        _ => { let n = pick(&NAME); format!("{n}{}<{addr}>{}", ws(), ws()) }
    };
    expect(&t, Some(&plain(&addr)), form);
}
}
entry!{
/// no well-formed address: no or two @, no local part, a domain without dot, an open quoted string, line breaks or control characters, text after the address; bare, in brackets or after a name
/// reach: 2
h_c21_bad {
    let bad = *pick(&["", "a", "a.b", "@b.org", "a@b", "a@", "@", "a@b@c.org", "a@@b.org", "\"a@b.org", "\"a@b.org\"", "\"a\\\"@b.org", "a@b\".org", "\"a\nb\"@c.org", "\"a\r\nRCPT TO:<x@y.z>\"@c.org", "a\u{0}@b.org", "a@b.o\u{7f}rg", "a\u{1}b@c.org", "\"\u{8}\"@c.org", "\"\"@b.org"]);
    let t = match choose(5) { 0 => bad.to_string(), 1 => format!("<{bad}>"), 2 => format!("Bob <{bad}>"), 3 => format!("\"B. <x>\" <{bad}> "), _ => { assume(!bad.contains('"')); format!("<a@b.org> {}", if bad.is_empty() { "x" } else { bad }) } };
    expect(&t, None, 0);
}
}
entry!{
/// free texts of up to 6 (thorough: 8) characters out of a @ . < > quote, backslash and space: sent exactly if there is one address (after the last bracket, if any), to exactly that, quotes and escapes resolved; white space inside an address is left open
/// reach: 1 2
h_c21_free {
    let n = choose(tier(6, 8)) + 1;
    let t = alpha(n, b"a@.<>\"\\ ");
    let (mut quote, mut esc, mut cur, mut ended, mut bad, mut open, mut gap) = (false, false, String::new(), false, false, false, false);
    let (mut ats, mut dot) = (0, false);
    for ch in t.chars() {
        if ended { if ch != ' ' { bad = true } continue }
        if esc { esc = false; cur.push(ch); continue }
        if quote { match ch { '"' => quote = false, '\\' => esc = true, c => cur.push(c) } continue }
        if ch == ' ' { gap = !cur.is_empty(); continue }
        if gap && ch != '>' && ch != '<' { open = true }
        match ch {
            '"' => quote = true,
            '<' => { if ats > 1 || bad { open = true } cur.clear(); (ats, dot, bad, gap) = (0, false, false, false) }
            '>' => ended = true,
            '@' => { ats += 1; if cur.is_empty() { bad = true } cur.push(ch) }
            '.' => { if ats > 0 { dot = true } cur.push(ch) }
            c => cur.push(c),
        }
    }
    // white space inside the address, and two @ or nothing before one in a name
    assume(!open);
    let ok = !bad && !quote && ats == 1 && dot;
    expect(&t, if ok { Some(&cur) } else { None }, 0);
}
}
entry!{
/// redirect :list to names that are URIs, addresses or other words, with white space around, given by a variable or as constant: the list as named; without a name or with control characters nothing is sent
/// reach: 1 2
h_c21_list {
    let n = *pick(&["tag:example.com,2010-05-28:mylist", ":addrbook:default", "list@b.org", "urn:x", "a", "é", "\"q\"", "bob@b.org", "<x@y.z>", "", "a\nb", "a\u{0}"]);
    let t = format!("{}{n}{}", ws(), ws());
    note(&t);
    let want = !n.is_empty() && !n.contains(char::is_control);
    match sent(&t, Some("bob@b.org"), if choose_bool() { 1 } else { 3 }).0 {
        None => { reach(2); check(!want, 8, "a list with a name is sent to") }
        Some(Recipient::List(a)) => { reach(1); check(want && a == n, 9, "sent to the list as named") }
        Some(_) => check(false, 9, "sent to the list as named"),
    }
}
}
entry!{
/// a redirect to the owner (the address of the run, in any case, bare, in brackets, quoted) sends nothing and keeps; one to an address that only resembles it is sent
/// reach: 1 2
h_c21_self {
    let user = *pick(&["bob@b.org", "Bob@B.org", "bob+x@b.org", "b.o.b@b.org"]);
    let a = match choose(7) { 0 => user.to_string(), 1 => user.to_ascii_uppercase(), 2 => user.to_ascii_lowercase(), 3 => format!("x{user}"), 4 => format!("{user}x"), 5 => user.replace('o', "0"), _ => user.replace('.', "..") };
    let own = a.eq_ignore_ascii_case(user);
    let t = match choose(4) { 0 => a.clone(), 1 => format!("<{a}>"), 2 => { let (l, d) = a.split_once('@').unwrap(); format!("\"{l}\"@{d}") } _ => format!("\"{user}\" <{a}>") };
    note(&t);
    match sent(&t, Some(user), 0).0 {
        None => { reach(2); check(own, 10, "only the own address is left out") }
        Some(Recipient::Address(x)) => { reach(1); check(!own && x == a, 11, "nothing is sent to the owner") }
        Some(_) => check(false, 11, "an address"),
    }
}
}
