//! C23: notify sends what the method asks for, to whom it names, with the fields of a notification, exactly when it may.
use crate::c33::split;
use crate::run::*;
use crate::vf::*;

/// what a mailto URI asks for
#[derive(Default, Clone, PartialEq)]
struct Mail { to: Vec<String>, cc: Vec<String>, bcc: Vec<String>, body: Option<String>, fields: Vec<(String, String)> }
enum Uri { Good(Mail), Bad, Open }
fn pct(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let (mut v, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'%' {
            let h = |c: Option<&u8>| c.and_then(|c| (*c as char).to_digit(16));
            v.push((h(b.get(i + 1))? * 16 + h(b.get(i + 2))?) as u8);
            i += 3;
        } else { if !b[i].is_ascii_whitespace() { v.push(b[i]) } i += 1; }
    }
    String::from_utf8(v).ok()
}
/// a list of addresses: separated by commas (encoded or not), each with one @
fn addresses(s: &str, m: &mut Mail, field: usize) -> Result<usize, bool> {
    // Err(true): left open, Err(false): malformed
    let s: String = s.chars().filter(|c| !c.is_ascii_whitespace()).collect::<String>().replace("%2c", ",").replace("%2C", ",");
    let v: Vec<&str> = s.split(',').collect();
    let mut n = 0;
    let mut open = false;
    for (i, a) in v.iter().enumerate() {
        if a.is_empty() && i + 1 == v.len() { if i > 0 { open |= field > 0 } continue }
        let a = pct(a).ok_or(false)?;
        if a.bytes().filter(|c| *c == b'@').count() != 1 { return Err(false) }
        if a.starts_with('@') || a.ends_with('@') || a.contains("<@") || a.contains("@>") { open = true }
        let a = a.trim().replace(['\r', '\n'], "");
        n += 1;
        if !m.to.iter().chain(&m.cc).chain(&m.bcc).any(|x| x.eq_ignore_ascii_case(&a)) { [&mut m.to, &mut m.cc, &mut m.bcc][field].push(a) }
    }
    if open { Err(true) } else { Ok(n) }
}
fn mailto(uri: &str) -> Uri {
    let mut m = Mail::default();
    let mut n = 0;
    let mut open = false;
    let mut bad = false;
    let (list, query) = match uri.split_once('?') { Some((l, q)) => (l, Some(q)), None => (uri, None) };
    if list.contains('&') { return Uri::Open }
    if list.contains('=') { bad = true } else {
        match addresses(list, &mut m, 0) { Ok(k) => n += k, Err(true) => open = true, Err(false) => bad = true }
    }
    let ps: Vec<&str> = query.map_or(vec![], |q| q.split('&').collect());
    for (i, p) in ps.iter().enumerate() {
        let last = i + 1 == ps.len();
        let (name, value) = match p.split_once('=') { Some((n, v)) => (n, Some(v)), None => (*p, None) };
        if name.contains('@') { open = true; continue }
        if name.bytes().any(|c| !(c.is_ascii_alphanumeric() || b"-_%".contains(&c))) { bad = true; continue }
        let Some(name) = pct(name) else { bad = true; continue };
        let Some(value) = value else { if !last { bad = true } continue };
        if name.is_empty() { bad = true; continue }
        let name = name.to_ascii_lowercase();
        if let Some(f) = ["to", "cc", "bcc"].iter().position(|x| *x == name) {
            if value.contains('?') || value.trim().is_empty() { open = true; continue }
            if value.contains('=') { bad = true; continue }
            match addresses(value, &mut m, f) { Ok(k) => n += k, Err(true) => open = true, Err(false) => bad = true }
            continue;
        }
        let Some(v) = pct(value) else { bad = true; continue };
        if v.is_empty() { continue }
        if name == "body" { m.body = Some(v) } else { m.fields.push((name, v)) }
    }
    // an empty list in front of a malformed rest and the like are left open only when nothing else is wrong
    if bad { Uri::Bad } else if open { Uri::Open } else if n == 0 { Uri::Bad } else { Uri::Good(m) }
}
fn group(m: &Mail) -> Vec<String> {
    m.to.iter().chain(&m.cc).chain(&m.bcc).map(|a| match (a.rfind('<'), a.rfind('>')) { (Some(i), Some(j)) if i < j => a[i + 1..j].to_string(), _ => a.clone() }).collect()
}
fn list(v: &[String]) -> String { v.iter().map(|a| if a.contains('<') { a.clone() } else { format!("<{a}>") }).collect::<Vec<_>>().join(", ") }
fn flat(s: &str) -> String { s.chars().filter(|c| *c != '\r' && *c != '\n').collect() }
const OWN: &[&str] = &["from", "subject", "auto-submitted", "x-sieve", "content-type", "importance", "x-priority"];
/// what the created message must be
struct Want<'a> { m: &'a Mail, from: &'a str, message: Option<&'a str>, subject: &'a str, importance: &'a str }
fn check_message(bytes: &[u8], w: &Want) {
    noteb(bytes);
    let txt = String::from_utf8_lossy(bytes).into_owned();
    let s = split(&txt);
    check(s.is_some(), 10, "a header section and a body");
    let (f, body) = s.unwrap();
    let get = |n: &str| { let v: Vec<&str> = f.iter().filter(|x| x.0.eq_ignore_ascii_case(n)).map(|x| x.1.as_str()).collect(); v };
    check(get("from") == [w.from], 11, "From is the sender asked for, if it is the user, else the user");
    check(get("to") == if w.m.to.is_empty() { vec![] } else { vec![list(&w.m.to)] }, 12, "To");
    check(get("cc") == if w.m.cc.is_empty() { vec![] } else { vec![list(&w.m.cc)] }, 13, "Cc");
    check(get("bcc").is_empty(), 14, "no Bcc");
    let subj = w.m.fields.iter().rev().find(|x| x.0 == "subject").map(|x| x.1.as_str()).or(w.message).unwrap_or(w.subject);
    check(get("subject") == [flat(subj)], 15, "the subject of the URI, else the message, else the subject of the mail");
    check(body == w.m.body.as_deref().or(w.message).unwrap_or(w.subject), 16, "the body of the URI, else the message, else the subject of the mail");
    check(get("auto-submitted") == ["auto-notified"], 17, "marked as automatic, once");
    check(get("x-sieve").len() == 1 && get("content-type") == ["text/plain; charset=utf-8"], 18, "the fixed fields");
    let (i, p) = match w.importance { "1" => ("High", "1 (High)"), "3" => ("Low", "5 (Low)"), _ => ("Normal", "3 (Normal)") };
    check(get("importance") == [i] && get("x-priority") == [p], 19, "the importance");
    for n in ["date", "message-id"] {
        let g = get(n);
        check(g.len() == 1 && !g[0].is_empty(), 22, "one Date and one Message-ID");
        if let Some(v) = w.m.fields.iter().find(|x| x.0 == n) { check(g[0] == flat(&v.1), 23, "the Date and Message-ID of the URI") }
    }
    // all other fields of the URI, in order, and nothing else
    let mine = |n: &str| OWN.contains(&n) || ["to", "cc", "date", "message-id"].contains(&n);
    let got: Vec<(String, String)> = f.iter().map(|x| (x.0.to_ascii_lowercase(), x.1.clone())).filter(|x| !mine(&x.0)).collect();
    let want: Vec<(String, String)> = w.m.fields.iter().map(|x| (x.0.clone(), flat(&x.1))).filter(|x| !mine(&x.0) && x.0.bytes().all(|c| c.is_ascii_alphanumeric() || b"-_".contains(&c))).collect();
    check(got == want, 24, "the other fields of the URI, and no more");
}
fn outcome(t: &Trace) -> u64 {
    let mut r = 0;
    for e in &t.ev { r = r * 8 + match e { Event::CreatedMessage { .. } => 1, Event::SendMessage { .. } => 2, Event::Notify { .. } => 3, Event::FileInto { .. } => 4, Event::Keep { .. } => 5, _ => 6 } }
    obs(r);
    r
}
const CM: u64 = 1; const SM: u64 = 2; const NO: u64 = 3; const FI: u64 = 4; const KE: u64 = 5;
fn seq(v: &[u64]) -> u64 { v.iter().fold(0, |a, x| a * 8 + x) }
fn one(uri: &str) {
    noteb(uri.as_bytes());
    let r = rt();
    let mut c = ctx(&r, MSG);
    c.set_global_variable("u", uri.to_string());
    let t = run_with(&mut c, compile("notify \"${global.u}\";"), 64, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "runs without error");
    let o = outcome(&t);
    match mailto(uri.strip_prefix("mailto:").unwrap()) {
        Uri::Open => { reach(3); }
        Uri::Bad => { reach(2); check(o == KE, 2, "a malformed method sends nothing") }
        Uri::Good(m) => {
            reach(1);
            check(o == seq(&[CM, SM, KE]), 3, "a well-formed method is sent");
            let (Event::CreatedMessage { message, message_id: 1 }, Event::SendMessage { recipient: Recipient::Group(g), message_id: 1, .. }) = (&t.ev[0], &t.ev[1]) else { check(false, 4, "one message, sent to a group"); return };
            check(*g == group(&m), 5, "to every address of the method, once");
            check_message(message, &Want { m: &m, from: "bob@b.org", message: None, subject: "hello", importance: "2" });
        }
    }
}
/// the same URI written in a script
fn constant(uri: &str) {
    let e = try_compile(format!("notify \"{uri}\";").as_bytes()).err().map(|e| format!("{:?}", e.error_type()));
    match mailto(uri.strip_prefix("mailto:").unwrap()) {
        Uri::Open => {}
        Uri::Bad => check(e.as_deref() == Some("InvalidURI"), 6, "a malformed constant method is a compile error"),
        Uri::Good(_) => check(e.is_none(), 7, "a well-formed constant method compiles"),
    }
}
entry!{
/// every mailto URI of up to 5 (thorough: 6) of 13 pieces (addresses, separators plain and percent-encoded, names, an escape cut short), as a constant and from a variable: well-formed ones are sent to all their addresses with exactly the fields asked for, others send nothing and do not compile
/// reach: 1 2
h_c23_syntax {
    let n = tier(5, 6);
    let mut u = String::from("mailto:");
    for _ in 0..n { match choose(14) { 0 => break, k => u.push_str(["a@b.c", "d@e.f", ",", "?", "&", "=", "cc", "subject", "%40", "%2C", "x", "@", "%4"][k - 1]) } }
    one(&u);
    constant(&u);
}
}
entry!{
/// after each of 8 openings (list, cc, bcc, field, body, name), every continuation of 4 (thorough: 5) of 15 pieces (addresses in other case and form, escapes of both cases, spaces, é, separators, fields)
/// reach: 1 2
h_c23_more {
    let mut u = String::from("mailto:");
    u.push_str(*pick(&["a@b.c", "A <a@b.c>,", "a@b.c?cc=", "?bcc=a@b.c&cc=", "a@b.c?X-Y=", "a@b.c?body=", "a@b.c?subject=s&", "?to=d@e.f,A@B.C&x=y&"]));
    for _ in 0..tier(4, 5) { match choose(15) { 0 => break, k => u.push_str(["A@b.C", "X<d@e.f>", ",", "?", "&", "=", "Cc=", "From", "%0a", "%2c", " ", "é", "%20", "&BODY=t"][k - 1]) } }
    one(&u);
    constant(&u);
}
}
entry!{
/// two (thorough: three) of 24 parameters (own fields of a notification, twice, without value, with strange names) in any order: each own field once, the rest as asked
/// reach: 1
h_c23_fields {
    let mut u = String::from("mailto:a@b.c?");
    for i in 0..tier(2, 3) {
        if i > 0 { u.push('&') }
        u.push_str(*pick(&["from=e@v.l", "From%20=e@v.l", "subject=one", "Subject=t%0D%0Awo", "date=now", "Date=then", "message-id=<1@x>", "Message-Id=<2@x>", "content-type=text/html", "auto-submitted=no", "X-Sieve=no", "importance=None", "x-priority=9", "body=B1", "Body=B2", "sender=s@x", "reply-to=r@x.y", "MIME-Version=1.0", "x_a=1", "X-B=", "to=n@m.o", "BCC=A@B.C", "X-C=1", "X-C=2"]));
    }
    if choose_bool() { u.push_str(*pick(&["&from", "&subject", "&X-Z", "&body", "&to", "&Content-Type"])) }
    one(&u);
    constant(&u);
}
}
entry!{
/// every Auto-Submitted situation (12 values and spellings, several fields, added or deleted by the script) with 9 methods, copies to a folder, and message limits of 0 to 2 after up to 2 others: nothing for automatic mail or a malformed method; a mail when mailto and within the limit, else an event with all arguments
/// reach: 1 2 3
h_c23_when {
    let (h, pre, auto) = *pick(&[
        ("", "", false), ("Auto-Submitted: no\r\n", "", false), ("Auto-Submitted: NO\r\n", "", false), ("auto-submitted:  no \r\n", "", false),
        ("Auto-Submitted: auto-replied\r\n", "", true), ("AUTO-SUBMITTED: auto-generated\r\n", "", true), ("Auto-Submitted:\r\n", "", true), ("Auto-Submitted: no\r\nAuto-Submitted: auto-notified\r\n", "", true),
        ("Auto-Submitted: nope\r\n", "", true), ("X-Auto-Submitted: auto-replied\r\n", "", false),
        ("", "addheader :last \"auto-submitted\" \"auto-replied\";", true), ("Auto-Submitted: auto-replied\r\n", "deleteheader \"Auto-Submitted\";", false),
    ]);
    let (uri, kind) = *pick(&[("mailto:a@b.c", 1), ("MailTo:a@b.c", 1), ("mailto:a", 3), ("mailto:", 0), ("mailto", 0), ("xmpp:a@b.c", 2), ("x:y", 2), ("", 0), (":x", 2)]);
    let fcc = choose_bool();
    let max = choose(3);
    let before = choose(3);
    let pre2 = ["", "redirect \"q@r.s\";", "notify \"tel:1\"; notify \"mailto:q@r.s\";"][before];
    let src = format!("{pre} {pre2} notify {} \"${{global.u}}\"; stop;", if fcc { ":fcc \"Sent\"" } else { "" });
    note(&src); note(h); note(uri);
    let r = rt().with_max_out_messages(max).with_max_redirects(9);
    let msg = format!("From: ann@a.org\r\n{h}Subject: s\r\n\r\nb\r\n");
    let mut c = ctx(&r, msg.as_bytes());
    c.set_global_variable("u", uri.to_string());
    let t = run_with(&mut c, compile(&src), 64, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "runs without error");
    // what is sent before
    let mut sent = 0;
    let mut w: Vec<u64> = vec![];
    if before == 1 && max > 0 { w.push(SM); sent = 1 }
    if before == 2 && !auto { w.push(NO); sent = 1; if sent < max { w.extend([CM, SM]) } else { w.push(NO) } sent += 1 }
    let kept = before != 1 || max == 0;
    let edited = !pre.is_empty() && (kept || sent > 0);
    // over the limit the host decides on a malformed mail method
    if kind == 3 && sent >= max { return }
    if auto || kind == 0 || kind == 3 { reach(2) }
    else if kind == 1 && sent < max { reach(1); w.extend([CM, SM]); if fcc { w.push(FI) } }
    else { reach(3); if fcc { w.push(CM) } w.push(NO); if fcc { w.push(FI) } }
    if kept { w.push(KE) }
    // the edited message is created when first needed
    let got: Vec<u64> = t.ev.iter().map(|e| match e { Event::CreatedMessage { message, .. } => if message.windows(6).any(|x| x == b"\r\n\r\nb\r") && !message.windows(8).any(|x| x == b"X-Sieve:") { 9 } else { CM }, Event::SendMessage { .. } => SM, Event::Notify { .. } => NO, Event::FileInto { .. } => FI, Event::Keep { .. } => KE, _ => 6 }).collect();
    for g in &got { obs(*g) }
    check(got.iter().filter(|x| **x == 9).count() == edited as usize, 2, "the message as edited, when needed");
    let got: Vec<u64> = got.into_iter().filter(|x| *x != 9).collect();
    check(got == w, 3, "notified exactly when due, by mail or through the host");
}
}
entry!{
/// senders (16, constant and from a variable) with four user addresses and names, importances, message texts, subjects of the mail (none, one, edited): the sender asked for only if it is the user; mail and host event carry the same arguments
/// reach: 1 2
h_c23_args {
    let user = *pick(&["bob@b.org", "BOB@B.org", "b@b.org", "bob@b.or"]);
    let name = *pick(&["", "Bob B", "B \"q\" \\ B"]);
    let fr = *pick(&["", "bob@b.org", "Bob@B.Org", "Bob <bob@b.org>", "\\\"bob@b.org\\\" <x@y.org>", "x@y.org", "xbob@b.org", "bob@b.orgx"]);
    let imp = *pick(&["", "1", "2", "3", "0", "13"]);
    let ms = *pick(&["", "the text", "-"]);
    let sub = choose(3);
    let mail = choose_bool();
    let mut tags = String::new();
    if !fr.is_empty() { tags += &format!(":from \"{fr}\" ") }
    if !imp.is_empty() { tags += &format!(":importance \"{imp}\" ") }
    if ms != "" { tags += &format!(":message \"{}\" ", if ms == "-" { "${nosuch}" } else { ms }) }
    let opts = choose(3);
    if opts > 0 { tags += [":options \"a=1\" ", ":options [\"a=1\", \"b=${global.u}\"] "][opts - 1] }
    let src = format!("notify {tags}\"{}\";", if mail { "mailto:n@m.org" } else { "http://x.org/y" });
    note(&src); note(user); note(name);
    let msg = ["From: ann@a.org\r\n\r\nb\r\n", "From: ann@a.org\r\nSubject: one\r\n\r\nb\r\n", "From: ann@a.org\r\nSubject: =?utf-8?q?=C3=A9t=C3=A9?=\r\n\r\nb\r\n"][sub];
    let subject = ["", "one", "été"][sub];
    let r = rt();
    let mut c = r.filter(msg.as_bytes()).with_user_address(user).with_user_full_name(name);
    c.set_global_variable("u", "gv");
    let t = run_with(&mut c, compile(&src), 64, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "runs without error");
    let fr = fr.replace("\\\"", "\"");
    let message = match ms { "" => None, "-" => Some(""), m => Some(m) };
    if mail {
        reach(1);
        check(outcome(&t) == seq(&[CM, SM, KE]), 2, "sent");
        let me = if name.is_empty() { user.to_string() } else { format!("\"{}\" <{user}>", name.replace('\\', "\\\\").replace('"', "\\\"")) };
        let from = if !fr.is_empty() && fr.to_ascii_lowercase().contains(&user.to_ascii_lowercase()) { fr.clone() } else { me };
        let Event::CreatedMessage { message: bytes, .. } = &t.ev[0] else { check(false, 3, "created first"); return };
        check_message(bytes, &Want { m: &Mail { to: vec!["n@m.org".into()], ..Default::default() }, from: &from, message, subject, importance: imp });
    } else {
        reach(2);
        check(outcome(&t) == seq(&[NO, KE]), 4, "given to the host");
        let Event::Notify { from, importance, options, message: m, method } = &t.ev[0] else { check(false, 5, "one event"); return };
        note(m);
        check(from.as_deref() == if fr.is_empty() { None } else { Some(fr.as_str()) }, 6, "the sender as written");
        check(*importance == match imp { "1" => Importance::High, "3" => Importance::Low, _ => Importance::Normal }, 7, "the importance");
        check(m == message.unwrap_or(subject), 8, "the message, else the subject of the mail");
        let w: &[&str] = [&[][..], &["a=1"], &["a=1", "b=gv"]][opts];
        check(options == w, 9, "the options");
        check(method == "http://x.org/y", 25, "the method");
    }
}
}
entry!{
/// constant :from addresses made of up to 5 (thorough: 6) of 10 pieces: accepted exactly when an address with one @ and a dot in its domain, if in angle brackets then inside them; constant methods of 17 schemes and valid_notify_method, notify_method_capability over host lists
/// reach: 1 2 3
h_c23_static {
    if choose_bool() {
        let mut a = String::new();
        let mut last = ' ';
        for _ in 0..tier(5, 6) { match choose(9) { 0 => break, k => { let p = ["b", "@", ".", "<", ">", " ", "c.d", "N <"][k - 1]; a.push_str(p); last = p.chars().last().unwrap() } } }
        let _ = last;
        note(&a);
        let got = try_compile(format!("notify :from \"{a}\" \"mailto:x@y.z\";").as_bytes()).err().map(|e| format!("{:?}", e.error_type()));
        obs(got.is_none() as u64);
        // brackets: none, or one pair; outside them the text is a name (without @)
        let (o, c) = (a.matches('<').count(), a.matches('>').count());
        let core = if o == 0 && c == 0 { Some(a.as_str()) } else if o == 1 && c == 1 && a.find('<') < a.find('>') { Some(&a[a.find('<').unwrap() + 1..a.find('>').unwrap()]) } else { None };
        let after = a.split_once('>').map_or("", |x| x.1);
        let ok = core.is_some_and(|x| { let v: Vec<&str> = x.split('@').collect(); v.len() == 2 && v[0].ends_with(|c: char| c.is_ascii_alphanumeric()) && v[1].contains('.') });
        // an @ in the name or behind the brackets, a dot behind them: left open
        let name = if o == 1 { a.split_once('<').map_or("", |x| x.0) } else { "" };
        if name.contains('@') || !after.trim().is_empty() { return }
        reach(if ok { 1 } else { 2 });
        if ok { check(got.is_none(), 1, "an address is accepted") } else { check(got.as_deref() == Some("InvalidAddress"), 2, "anything else is an invalid address") }
    } else {
        let (uri, ok) = *pick(&[("mailto:a@b.c", true), ("MAILTO:a@b.c", true), ("Mailto:a", false), ("mailto:a", false), ("xmpp:a", true), ("XMPP:a", true), ("tel:1", true), ("Tel:2", true), ("http:x", true), ("https://y", true), ("ftp://y", false), ("sip:a@b", false), ("xmpp:", false), ("xmpp", false), ("", false), (":", false), ("httpx:y", false)]);
        let uri2 = *pick(&["tel:1", "mailto:q@r.s?cc=a@b.c", "mailto:,"]);
        let hosts: Vec<&'static str> = (0..3).filter(|_| choose_bool()).map(|i| ["mailto", "tel", "xmpp:a"][i]).collect();
        note(uri);
        let got = try_compile(format!("notify \"{uri}\";").as_bytes()).err().map(|e| format!("{:?}", e.error_type()));
        reach(3);
        if ok { check(got.is_none(), 3, "a known scheme is accepted") } else { check(got.as_deref() == Some("InvalidURI"), 4, "anything else is not") }
        let mut r = rt();
        for h in &hosts { r = r.with_valid_notification_uri(*h); note(h) }
        let valid = |u: &str, ok: bool| ok && (hosts.contains(&u) || hosts.iter().any(|h| h.eq_ignore_ascii_case(u.split(':').next().unwrap())));
        let (v1, v2) = (valid(uri, ok), valid(uri2, uri2 != "mailto:,"));
        let mut c = ctx(&r, MSG);
        c.set_global_variable("u", uri.to_string());
        let src = format!("if valid_notify_method \"${{global.u}}\" {{ fileinto :copy \"1\"; }} if valid_notify_method [\"${{global.u}}\", \"{uri2}\"] {{ fileinto :copy \"2\"; }} if not valid_notify_method [\"{uri2}\"] {{ fileinto :copy \"3\"; }} if notify_method_capability \"${{global.u}}\" \"Online\" [\"no\", \"MayBe\"] {{ fileinto :copy \"4\"; }} if notify_method_capability \"${{global.u}}\" \"other\" [\"maybe\"] {{ fileinto :copy \"5\"; }} if notify_method_capability \"${{global.u}}\" \"online\" [\"yes\"] {{ fileinto :copy \"6\"; }} if not notify_method_capability :contains \"${{global.u}}\" \"online\" \"b\" {{ fileinto :copy \"7\"; }}");
        let t = run_with(&mut c, compile(&src), 64, &mut reply_true);
        check(t.ended && t.err.is_none(), 5, "runs without error");
        let mut w: Vec<&str> = vec![];
        if v1 { w.push("1") }
        if v1 && v2 { w.push("2") }
        if !v2 { w.push("3") }
        if v1 { w.push("4") }
        if !v1 { w.push("7") }
        w.push("INBOX");
        let f = folders(&t);
        for x in &f { obs_bytes(x.as_bytes()); note(x) }
        check(f == w, 6, "valid when well formed and supported by the host");
    }
}
}
