//! C33: messages the interpreter makes (vacation, notify, enclose, replace) are well formed: exactly the fields they should have, each once and on lines of its own, whatever the texts put into them.
use crate::run::*;
use crate::vf::*;

/// header fields (unfolded) and body; None if the header section is not made of `Name: value` lines ended by CRLF
pub fn split(m: &str) -> Option<(Vec<(String, String)>, String)> {
    let (head, body) = m.split_once("\r\n\r\n")?;
    let mut f: Vec<(String, String)> = vec![];
    for l in head.split("\r\n") {
        if l.bytes().any(|c| c == b'\r' || c == b'\n') { return None }
        if l.starts_with(' ') || l.starts_with('\t') { let p = f.last_mut()?; p.1.push_str(l); continue }
        let (n, v) = l.split_once(':')?;
        if n.is_empty() || !n.bytes().all(|c| c.is_ascii_graphic()) { return None }
        f.push((n.to_string(), v.strip_prefix(' ').unwrap_or(v).to_string()));
    }
    Some((f, body.to_string()))
}
fn names(f: &[(String, String)]) -> Vec<String> { let mut v: Vec<String> = f.iter().map(|x| x.0.to_ascii_lowercase()).collect(); v.sort(); v }
fn get<'a>(f: &'a [(String, String)], n: &str) -> &'a str { f.iter().find(|x| x.0.eq_ignore_ascii_case(n)).map_or("?", |x| &x.1) }
fn text(n: usize) -> String { (0..n).map(|_| *pick(&["a", "\r", "\n", ":", " ", "é"])).collect() }
fn flat(s: &str) -> String { s.chars().filter(|c| *c != '\r' && *c != '\n').collect() }
fn made(t: &Trace) -> Vec<String> { t.ev.iter().filter_map(|e| if let Event::CreatedMessage { message, .. } = e { Some(String::from_utf8(message.clone()).unwrap()) } else { None }).collect() }
fn list(s: &str) -> Vec<String> { let mut v: Vec<String> = s.split(' ').map(|x| x.to_string()).collect(); v.sort(); v }
fn run_g(src: &str, msg: &[u8], g: &[(&str, &str)], name: &str) -> Trace {
    note(src); noteb(msg);
    for (_, v) in g { noteb(v.as_bytes()) }
    let r = rt().with_local_hostname("h.org");
    let mut c = ctx(&r, msg).with_user_full_name(name);
    for (k, v) in g { c.set_global_variable(k.to_string(), v.to_string()); }
    // a vacation reply is due
    let t = run_with(&mut c, compile(src), 64, &mut |e| if let Event::DuplicateId { .. } = e { Input::False } else { Input::True });
    check(t.ended && t.err.is_none(), 1, "runs without error");
    for m in made(&t) { note(&m); if let Some((f, _)) = split(&m) { for n in names(&f) { obs_bytes(n.as_bytes()) } } }
    t
}
/// payload as encoded word
fn ew(s: &str) -> String { format!("=?utf-8?q?{}?=", s.bytes().map(|b| format!("={b:02X}")).collect::<String>()) }
const VAC: &str = "auto-submitted content-type date from message-id subject to";
const VACR: &str = "auto-submitted content-type date from in-reply-to message-id references subject to";
entry!{
/// vacation with 3 (thorough: 4) free characters (letter, CR, LF, colon, space, é) as :subject, :from, reason, decoded Subject of the message (also through :subject), name in its From field, or the user's name: exactly the fields of a reply, the text in the right one without line breaks
/// reach: 1
h_c33_vacation {
    let p = text(tier(3, 4));
    let slot = choose(7);
    let mut subj = "s".to_string();
    let mut from = "Ann <ann@a.org>".to_string();
    let mut id = String::new();
    match slot { 3 | 6 => subj = ew(&p), 4 => from = format!("{} <ann@a.org>", ew(&p)), 5 => id = "Message-ID: <1@x>\r\n".into(), _ => {} }
    let msg = format!("From: {from}\r\nTo: bob@b.org\r\n{id}Subject: {subj}\r\n\r\nb\r\n");
    let src = match slot { 0 | 5 => "vacation :subject \"S${global.p}\" \"R\";", 1 => "vacation :from \"N${global.p} <bob@b.org>\" \"R\";", 2 => "vacation \"R${global.p}\";", 6 => "vacation :subject \"Re: ${header.subject}\" \"R\";", _ => "vacation \"R\";" };
    let t = run_g(src, msg.as_bytes(), &[("p", &p)], if slot == 4 { "" } else { "Bob B" });
    reach(1);
    let m = made(&t);
    check(m.len() == 1, 2, "one reply");
    let s = split(&m[0]);
    check(s.is_some(), 3, "the header section is made of fields");
    let (f, b) = s.unwrap();
    check(names(&f) == list(if slot == 5 { VACR } else { VAC }), 4, "the reply has exactly the fields of a reply");
    check(b == if slot == 2 { format!("R{p}") } else { "R".to_string() }, 5, "the reason is the body");
    match slot {
        0 | 5 => check(get(&f, "subject") == format!("S{}", flat(&p)), 6, "the subject given"),
        1 => check(get(&f, "from") == format!("N{} <bob@b.org>", flat(&p)), 7, "the sender given"),
        _ => {}
    }
    check(get(&f, "to").contains("ann@a.org"), 8, "addressed to the sender");
}
}
entry!{
/// vacation to senders written in 12 ways (folded, with LF line ends, last line unterminated, twice, Sender field, other address) with and without Message-ID and References (folded, unterminated): fields complete and on lines of their own; In-Reply-To is the id of the message, References its references followed by that id
/// reach: 1
h_c33_reply {
    let from = *pick(&["From: Ann <ann@a.org>", "From: ann@a.org", "From:ann@a.org", "From: Ann\r\n <ann@a.org>", "From: Ann\n <ann@a.org>", "From: \"A, B\" <ann@a.org>", "From: x@y.org, ann@a.org", "From: other@a.org", "From: Ann <other@a.org>\r\nSender: Ann <ann@a.org>", "Sender: ann@a.org\r\nFrom: Ann <ann@a.org>", "X-None: 1", "From: ANN <ann@a.org>\t"]);
    let id = *pick(&["", "Message-ID: <m1@x>", "Message-ID:\r\n <m1@x>", "Message-Id: <m1@x> "]);
    let refs = *pick(&["", "References: <r1@x>", "References: <r1@x>\r\n\t<r2@x>", "References:\r\n <r1@x> <r2@x>", "References: <r1@x>\n <r2@x>"]);
    let mut parts = vec![from, "To: bob@b.org", id, refs];
    parts.retain(|x| !x.is_empty());
    match choose(3) { 1 => parts.rotate_left(1), 2 => parts.reverse(), _ => {} }
    let nl = if choose_bool() { "\r\n" } else { "\n" };
    let mut msg = parts.join(nl);
    // a field whose line does not end is not parsed by mail-parser for every field: only the sender's and References are left so
    let open = parts[parts.len() - 1] == from || parts[parts.len() - 1] == refs;
    match if open { choose(3) } else { 0 } { 0 => { msg.push_str(nl); msg.push_str(nl); msg.push_str("body") } 1 => msg.push_str(nl), _ => {} }
    let t = run_g("vacation \"R\";", msg.as_bytes(), &[], "");
    let m = made(&t);
    reach(1);
    check(m.len() == 1, 2, "one reply");
    let (f, b) = match split(&m[0].replace("\r\n", "\n").replace('\n', "\r\n")) { Some(x) => x, None => { check(false, 3, "the header section is made of fields"); unreachable!() } };
    check(names(&f) == list(if id.is_empty() { VAC } else { VACR }), 4, "the reply has exactly the fields of a reply");
    check(b == "R", 5, "the reason is the body");
    check(get(&f, "to").contains("ann@a.org"), 6, "addressed to the sender");
    if !id.is_empty() {
        check(get(&f, "in-reply-to").trim() == "<m1@x>", 7, "refers to the message");
        let r: Vec<&str> = get(&f, "references").split_whitespace().collect();
        let w: &[&str] = if refs.is_empty() { &["<m1@x>"] } else if refs.contains("r2") { &["<r1@x>", "<r2@x>", "<m1@x>"] } else { &["<r1@x>", "<m1@x>"] };
        check(r == w, 8, "references of the message, then the message");
    }
}
}
entry!{
/// automatic subjects of vacation and notify from 253 to 259 characters long with one non-ASCII character anywhere near the end: cut after 256 characters, an ellipsis exactly when something was cut
/// reach: 1 2
h_c33_subjectlen {
    let (n, at) = (253 + choose(7), choose(9));
    let vac = choose_bool();
    let mut w: Vec<char> = "Auto: ".chars().collect();
    if !vac { w.clear() }
    let k = n - w.len();
    let s: String = (0..k).map(|i| if i + at + 1 == k { 'é' } else { (b'a' + (i % 26) as u8) as char }).collect();
    w.extend(s.chars());
    let msg = if vac { format!("From: ann@a.org\r\nTo: bob@b.org\r\nSubject: {s}\r\n\r\nb\r\n") } else { "From: ann@a.org\r\nTo: bob@b.org\r\n\r\nb\r\n".into() };
    let t = run_g(if vac { "vacation \"R\";" } else { "notify :message \"${global.s}\" \"mailto:n@m.org\";" }, msg.as_bytes(), &[("s", &s)], "");
    let m = made(&t);
    check(m.len() == 1, 2, "one message");
    let (f, _) = split(&m[0]).unwrap();
    let want: String = if w.len() > 256 { w[..256].iter().chain(['…'].iter()).collect() } else { w.iter().collect() };
    reach(if w.len() > 256 { 1 } else { 2 });
    check(get(&f, "subject") == want, 3, "cut after 256 characters with an ellipsis");
}
}
entry!{
/// mailto notification with 3 (thorough: 4) free characters (letter, CR, LF, colon, space, é) in :from, :message, the Subject of the message, or percent-encoded in subject, body, another field, its name, or an address of the URI: exactly the fields of a notification, the text in the right one without line breaks
/// reach: 1
h_c33_notify {
    let p = text(tier(3, 4));
    let slot = choose(9);
    let pct: String = p.bytes().map(|b| format!("%{b:02X}")).collect();
    let subj = if slot == 2 { ew(&p) } else { "s".into() };
    let msg = format!("From: ann@a.org\r\nTo: bob@b.org\r\nSubject: {subj}\r\n\r\nb\r\n");
    let src = match slot { 0 => "notify :from \"N${global.p} <bob@b.org>\" \"${global.u}\";", 1 => "notify :message \"M${global.p}\" \"${global.u}\";", _ => "notify \"${global.u}\";" };
    let u = match slot { 3 => format!("mailto:n@m.org?subject=S{pct}"), 4 => format!("mailto:n@m.org?body=B{pct}&cc=c@m.org"), 5 => format!("mailto:n@m.org?X-P=V{pct}"), 6 => format!("mailto:n@m.org?X{pct}=V&subject=q"), 7 => format!("mailto:n{pct}@m.org"), 8 => format!("mailto:n@m.org?cc=c{pct}@m.org&bcc=d{pct}@m.org"), _ => "mailto:n@m.org?cc=c@m.org".into() };
    let t = run_g(src, msg.as_bytes(), &[("p", &p), ("u", &u)], "Bob");
    let m = made(&t);
    check(m.len() == 1, 2, "sent");
    reach(1);
    let s = split(&m[0]);
    check(s.is_some(), 3, "the header section is made of fields");
    let (f, b) = s.unwrap();
    let base = "auto-submitted content-type date from importance message-id subject to x-priority x-sieve";
    let got = names(&f);
    if slot == 6 {
        let extra: Vec<&String> = got.iter().filter(|n| !base.split(' ').any(|b| b == n.as_str())).collect();
        check(extra.len() <= 1 && got.len() == 10 + extra.len() && extra.iter().all(|e| e.starts_with('x')), 4, "at most the one field named");
    } else {
        let e = match slot { 5 => " x-p", 0 | 1 | 2 | 4 | 8 => " cc", _ => "" };
        check(got == list(&format!("{base}{e}")), 5, "exactly the fields of a notification");
    }
    match slot {
        0 => check(get(&f, "from") == format!("N{} <bob@b.org>", flat(&p)), 6, "the sender given"),
        1 => { check(get(&f, "subject") == format!("M{}", flat(&p)), 7, "the message as subject"); check(b == format!("M{p}"), 8, "the message as body") }
        2 => check(get(&f, "subject").trim() == flat(&p).trim(), 9, "the subject of the message"),
        3 => check(get(&f, "subject") == format!("S{}", flat(&p)), 10, "the subject of the URI"),
        4 => check(b == format!("B{p}"), 11, "the body of the URI"),
        5 => check(get(&f, "x-p") == format!("V{}", flat(&p)), 12, "the field of the URI"),
        _ => {}
    }
}
}
entry!{
/// enclose with 3 (thorough: 4) free characters in :subject, the value or the name of a :headers field, the text, the Subject of the message, or the user's name; and replace with them in :subject, :from, the text: exactly the fields asked for
/// reach: 1 2
h_c33_enclose {
    let p = text(tier(3, 4));
    let slot = choose(9);
    let subj = if slot == 4 { ew(&p) } else { "s".into() };
    let msg = format!("From: ann@a.org\r\nTo: bob@b.org\r\nSubject: {subj}\r\nX-O: 1\r\n\r\nb\r\n");
    let src = match slot { 0 => "enclose :subject \"S${global.p}\" \"T\";", 1 => "enclose :headers [\"X-P: V${global.p}\", \"X-Q: q\"] \"T\";", 2 => "enclose :headers \"X${global.p}: V\" \"T\";", 3 => "enclose \"T${global.p}\";", 6 => "replace :subject \"S${global.p}\" \"T\";", 7 => "replace :from \"N${global.p} <x@y.org>\" \"T\";", 8 => "replace \"T${global.p}\";", _ => "enclose \"T\";" };
    let t = run_g(src, msg.as_bytes(), &[("p", &p)], if slot == 5 { "Bob" } else { "" });
    let m = made(&t);
    check(m.len() == 1, 2, "one new version");
    let s = split(&m[0]);
    check(s.is_some(), 3, "the header section is made of fields");
    let (f, b) = s.unwrap();
    let got = names(&f);
    if slot < 6 {
        reach(1);
        let base = "content-type date from message-id subject";
        let want = match slot { 1 => format!("{base} x-p x-q"), _ => base.into() };
        if slot == 2 { check(got.len() == 6 || got.len() == 5, 4, "at most the field named") } else { check(got == list(&want), 5, "exactly the fields of an enclosing message") }
        if slot == 0 { check(get(&f, "subject") == format!("S{}", flat(&p)), 6, "the subject given") }
        if slot == 1 { check(get(&f, "x-p") == format!("V{}", flat(&p)).trim(), 7, "the field given") }
        if slot == 4 { check(get(&f, "subject").trim() == flat(&p).trim(), 8, "the subject of the message") }
        let bd = get(&f, "content-type").strip_prefix("multipart/mixed; boundary=\"").and_then(|x| x.strip_suffix('"')).unwrap_or("?").to_string();
        let txt = if slot == 3 { format!("T{p}") } else { "T".into() };
        let want = format!("--{bd}\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n{txt}\r\n--{bd}\r\nContent-Type: message/rfc822\r\n\r\n{msg}\r\n--{bd}--\r\n");
        note(&want);
        check(b == want, 9, "the text, then the message as it was");
    } else {
        reach(2);
        let want = match slot { 6 => "content-type date from from message-id original-subject subject to", 7 => "content-type date from message-id original-from subject to", _ => "content-type date from from message-id subject to" };
        check(got == list(want), 10, "exactly the fields of a replaced message");
        if slot == 6 { check(get(&f, "subject") == format!("S{}", flat(&p)), 11, "the subject given") }
        if slot == 7 { check(get(&f, "from") == format!("N{} <x@y.org>", flat(&p)), 12, "the sender given") }
        check(b == if slot == 8 { format!("T{p}") } else { "T".into() }, 13, "the text is the body");
    }
}
}

/// the display name of `"name" <address>`, None if it is not of that form
fn display(v: &str) -> Option<(String, String)> {
    let mut it = v.strip_prefix('"')?.chars();
    let mut n = String::new();
    loop {
        match it.next()? { '"' => break, '\\' => n.push(it.next()?), c => n.push(c) }
    }
    Some((n, it.as_str().strip_prefix(" <")?.strip_suffix('>')?.to_string()))
}
entry!{
/// a user name of 1 to 3 (thorough: 4) characters out of letter, double quote, backslash, space, comma, angle brackets, at sign, é, before and after plain ones, with mailto notifications, vacation replies and enclosed messages: the From field is the address with that very name, quoted so that it reads back
/// reach: 1 2
h_c33_name {
    let n = choose(tier(3, 4)) + 1;
    let mut name = String::from(*pick(&["", "B"]));
    for _ in 0..n { name.push(*pick(&['a', '"', '\\', ' ', ',', '<', '>', '@', 'é'])) }
    name.push_str(*pick(&["", "z"]));
    assume(name.trim() == name);
    let k = choose(3);
    let src = ["notify \"mailto:a@x.org\";", "vacation \"R\";", "enclose \"t\"; keep;"][k];
    let t = run_g(src, b"From: Ann <ann@a.org>\r\nTo: bob@b.org\r\nSubject: s\r\n\r\nb\r\n", &[], &name);
    note(&name);
    let m = made(&t);
    check(m.len() == 1, 2, "one message");
    let head = m[0].split("\r\n\r\n").next().unwrap();
    let f = head.split("\r\n").find_map(|l| l.strip_prefix("From: "));
    check(f.is_some(), 3, "it has a From field");
    obs_bytes(f.unwrap().as_bytes());
    if k == 1 { reach(2) } else { reach(1) }
    check(display(f.unwrap()) == Some((name, "bob@b.org".into())), 4, "the name reads back as it is");
}
}
