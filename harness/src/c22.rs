//! C22: vacation replies exactly when due, asks the host once, and replies to the sender.
use crate::run::*;
use crate::vf::*;

/// what a run is made of, and whether it lets a reply through
struct Case { from: &'static str, to_env: bool, user: &'static str, orcpt: Option<&'static str>, use_orig: bool, to: &'static str, extra: String, received: usize, args: String, pre: &'static str, out: usize, ok: bool }
fn base() -> Case { Case { from: "Ann@a.org", to_env: true, user: "bob@b.org", orcpt: None, use_orig: false, to: "To: bob@b.org\r\n", extra: String::new(), received: 1, args: String::new(), pre: "", out: 3, ok: true } }
/// changes one thing
fn vary(c: &mut Case, k: usize) {
    match k {
        0 => { c.from = *pick(&["mailer-daemon@a.org", "MAILER-DAEMON", "owner-l@a.org", "Owner-l@a.org", "l-request@a.org", "L-Request@a.org"]); c.ok = false }
        1 => { c.from = *pick(&["bob@b.org", "BOB@b.org"]); c.ok = false }
        2 => { c.from = *pick(&["daemon@a.org", "requests@a.org", "x-owner@a.org", "bobby@b.org", "request@a.org", "amailer-daemon@a.org"]); }
        3 => { c.from = ""; c.ok = false }
        4 => { c.to = *pick(&["To: eve@e.org\r\n", "", "To: bob@b.orgs\r\n", "X-To: bob@b.org\r\n", "Reply-To: bob@b.org\r\n", "To: b@b.org\r\nCc: eve@e.org\r\n", "To: \"bob@b.org\" <eve@e.org>\r\n"]); c.ok = false }
        5 => { c.to = *pick(&["Cc: bob@b.org\r\n", "Bcc: bob@b.org\r\n", "Resent-To: bob@b.org\r\n", "Resent-Cc: bob@b.org\r\n", "Resent-Bcc: bob@b.org\r\n", "To: BOB@B.org\r\n", "To: eve@e.org, Bob <bob@b.org>\r\n", "To: eve@e.org\r\nCc: bob@b.org\r\n", "Cc: bob@b.org\r\nTo: eve@e.org\r\n", "To: g: eve@e.org, bob@b.org;\r\n", "To: eve@e.org\r\nTo: bob@b.org\r\n"]); }
        6 => { c.extra += *pick(&["List-Id: <l.x.org>\r\n", "List-Post: <mailto:l@x.org>\r\n", "list-help: x\r\n", "List-Unsubscribe: x\r\n", "List-Subscribe: x\r\n", "List-Owner: x\r\n", "List-Archive: x\r\n"]); c.ok = false }
        7 => { c.extra += *pick(&["Auto-Submitted: auto-replied\r\n", "auto-submitted: Auto-Generated\r\n", "Auto-Submitted: nothing\r\n", "X-Auto-Response-Suppress: All\r\n", "x-auto-response-suppress: DR, OOF\r\n", "X-Auto-Response-Suppress: OOF, RN\r\n", "Precedence: bulk\r\n", "PRECEDENCE: Bulk\r\n"]); c.ok = false }
        8 => { c.extra += *pick(&["Auto-Submitted: no\r\n", "Auto-Submitted: No\r\n", "X-Auto-Response-Suppress: none\r\n", "X-Auto-Response-Suppress: DR, RN\r\n", "Precedence: list\r\n", "X-List-Id: x\r\n", "Subject: Auto-Submitted: auto\r\n"]); }
        9 => { c.received = 2; }
        10 => { c.received = 3; c.ok = false }
        11 => { c.args += ":addresses [\"z@z.org\", \"al@b.org\"] "; }
        12 => { c.user = ""; }
        13 => { c.to_env = false; }
        14 => { c.out = 0; c.ok = false }
        15 => { c.pre = *pick(&["addheader \"List-Id\" \"<x>\";", "addheader :last \"Auto-Submitted\" \"auto-replied\";", "deleteheader \"To\"; deleteheader \"Cc\"; deleteheader \"Bcc\"; deleteheader \"Resent-To\"; deleteheader \"Resent-Cc\"; deleteheader \"Resent-Bcc\";"]); c.ok = false }
        16 => { c.pre = *pick(&["addheader \"X-Any\" \"List-Id\";", "addheader :last \"Auto-Submitted\" \"no\";", "set \"a\" \"b\";", "if false { stop; }"]); }
        _ => { c.use_orig = true; c.orcpt = Some("orig@b.org"); }
    }
}
fn run_case(c: &Case, tag: &str, reply: bool) -> (Trace, String) {
    let mut r = rt().with_max_out_messages(c.out).with_max_received_headers(2).with_vacation_use_orig_rcpt(c.use_orig).with_default_vacation_expiry(777);
    r = r.with_local_hostname("h.org");
    let mut msg = String::new();
    for _ in 0..c.received { msg += "Received: from a by b; Tue, 14 Nov 2023 10:00:00 +0000\r\n" }
    msg += "From: Ann <ann@a.org>\r\n"; msg += c.to; msg += &c.extra; msg += "Subject: s\r\n\r\nb\r\n";
    let src = format!("{}vacation {}{tag}\"R\"; fileinto \"after\";", c.pre, c.args);
    note(&src); noteb(msg.as_bytes()); note(c.from); note(c.user);
    let mut x = r.filter(msg.as_bytes()).with_user_address(c.user);
    if !c.from.is_empty() { x = x.with_envelope(Envelope::From, c.from) }
    if c.to_env { x = x.with_envelope(Envelope::To, "bob@b.org") }
    if let Some(o) = c.orcpt { x = x.with_envelope(Envelope::Orcpt, o) }
    let t = run_with(&mut x, compile(&src), 64, &mut |e| if let Event::DuplicateId { .. } = e { if reply { Input::False } else { Input::True } } else { Input::True });
    for e in &t.ev { note(&format!("{e:?}")) }
    check(t.ended && t.err.is_none(), 1, "runs");
    (t, msg)
}
entry!{
/// a message to which a reply is due, with any two of 18 kinds of changes (senders, recipients, addresses, list and auto-response fields, Received count, limits, edits before, original recipient): the host is asked exactly when a reply is due, and the reply is sent exactly when it then says so
/// reach: 1 2 3
h_c22_due {
    let mut c = base();
    let a = choose(18);
    let b = choose(18);
    // two changes of the same thing would undo each other
    assume(a <= b && !(a < 4 && b < 4 && a != b) && (a, b) != (4, 5) && (a, b) != (15, 16));
    vary(&mut c, a);
    if b != a { vary(&mut c, b); }
    // who the script speaks for
    let mut own: Vec<&str> = vec![];
    if c.to_env && !c.use_orig { own.push("bob@b.org") }
    if let (true, Some(o)) = (c.use_orig, c.orcpt) { own.push(o) }
    if !c.user.is_empty() { own.push(c.user) }
    if c.args.contains("al@b.org") { own.push("al@b.org"); own.push("z@z.org") }
    let mut due = c.ok;
    // only names of the owner in recipient fields count
    if !own.contains(&"bob@b.org") { due = false }
    let reply = choose_bool();
    let (t, _) = run_case(&c, "", reply);
    let asked: Vec<&Event> = t.ev.iter().filter(|e| matches!(e, Event::DuplicateId { .. })).collect();
    let sent: Vec<&Event> = t.ev.iter().filter(|e| matches!(e, Event::SendMessage { .. })).collect();
    obs(asked.len() as u64); obs(sent.len() as u64);
    check(asked.len() == due as usize, 2, "the host is asked exactly when a reply is due");
    check(sent.len() == (due && reply) as usize, 3, "replies exactly when due and not sent before");
    reach(if !due { 2 } else if reply { 1 } else { 3 });
    if due && reply { check(matches!(sent[0], Event::SendMessage { recipient: Recipient::Address(x), message_id, .. } if *x == c.from && *message_id == t.ev.iter().find_map(|e| if let Event::CreatedMessage { message_id, message } = e { if message.starts_with(b"From: bob@b.org") { Some(*message_id) } else { None } } else { None }).unwrap_or(99)), 4, "the reply goes to the sender") }
    check(matches!(&folders(&t)[..], [f] if f == "after"), 5, "the script goes on");
}
}
entry!{
/// a message that names another address of its owner (original recipient, :addresses, user address, envelope recipient), for each way the address is known or not: due exactly if known; nothing is due to that address as sender
/// reach: 1 2
h_c22_own {
    let mut c = base();
    c.to = "To: me@m.org\r\n";
    c.to_env = choose_bool();
    c.user = *pick(&["", "bob@b.org", "me@m.org", "ME@m.org"]);
    c.use_orig = choose_bool();
    c.orcpt = *pick(&[None, Some("me@m.org"), Some("other@m.org")]);
    let addr = choose(5);
    c.args = ["", ":addresses \"me@m.org\" ", ":addresses [\"x@m.org\", \"Me@M.org\"] ", ":addresses [\"${header.to.addr}\"] ", ":addresses [\"\", \"x@m.org\"] "][addr].into();
    let known = c.user.eq_ignore_ascii_case("me@m.org") || (c.use_orig && c.orcpt == Some("me@m.org")) || (1..4).contains(&addr);
    let own = choose_bool();
    if own { c.from = "ME@m.org" }
    let (t, _) = run_case(&c, "", true);
    let sent = t.ev.iter().filter(|e| matches!(e, Event::SendMessage { .. })).count();
    obs(sent as u64);
    reach(if known { 1 } else { 2 });
    check(sent == (known && !own) as usize, 2, "replies for known addresses, not to them");
}
}
entry!{
/// vacation with period tags (:days, :seconds with a free number or the configured default), handles and reasons given in four ways, and senders: what identifies the reply and for how long; equal exactly for equal senders and handles (without handle: reasons)
/// reach: 1
h_c22_id {
    let per = choose(4);
    let ds: String = { let mut v = vec![]; let mut x = *pick(&[0u64, 1, 7, 30, 365, 100_000]); if per == 2 { x += 1 } loop { v.push(b'0' + (x % 10) as u8); x /= 10; if x == 0 { break } } v.reverse(); String::from_utf8(v).unwrap() };
    let num: u64 = ds.parse().unwrap();
    let (tag, want) = match per { 0 => (String::new(), 777), 1 => (format!(":days {ds} "), num * 86400), 2 => (format!(":seconds {ds} "), num), _ => (format!(":mime :days {ds} :subject \"q\" "), num * 86400) };
    let go1 = |h: &str, r: &str, from: &'static str| -> (String, u64) {
        let mut c = base();
        c.from = from;
        let h = if h.is_empty() { String::new() } else { format!(":handle \"{h}\" ") };
        let rt1 = rt().with_default_vacation_expiry(777);
        let src = format!("set \"a\" \"va\"; vacation {tag}{h}\"{r}\";");
        note(&src);
        let mut x = ctx(&rt1, MSG).with_user_address("bob@b.org");
        x.set_envelope(Envelope::From, from);
        x.clear_envelope();
        x.set_envelope(Envelope::From, from);
        let t = run_with(&mut x, compile(&src), 64, &mut reply_true);
        check(t.ended && t.err.is_none(), 1, "runs");
        match &t.ev[0] { Event::DuplicateId { id, expiry, last } => { check(!*last, 2, "counted from the first"); obs_bytes(id.as_bytes()); (id.clone(), *expiry) } _ => { check(false, 3, "asked"); unreachable!() } }
    };
    // (as written, value)
    let hs = [("", ""), ("h", "h"), ("${a}", "va"), ("x${a}", "xva"), ("va", "va")];
    let rs = [("R", "R"), ("va", "va"), ("${a}", "va")];
    let fs = ["ann@a.org", "ANN@a.org", "bea@a.org"];
    let (h1, r1, f1) = (choose(5), choose(3), choose(3));
    let (h2, r2, f2) = (choose(5), choose(3), choose(3));
    let a = go1(hs[h1].0, rs[r1].0, fs[f1]);
    let b = go1(hs[h2].0, rs[r2].0, fs[f2]);
    reach(1);
    check(a.1 == want && b.1 == want, 4, "for the period asked for");
    // a script says either handles everywhere or nowhere
    assume((h1 == 0) == (h2 == 0));
    let key = |h: usize, r: usize| if h == 0 { rs[r].1 } else { hs[h].1 };
    let same = fs[f1].eq_ignore_ascii_case(fs[f2]) && key(h1, r1) == key(h2, r2);
    check((a.0 == b.0) == same, 5, "the same reply for the same sender and handle");
}
}
entry!{
/// :days and :seconds with numbers of up to 20 digits and any suffix: the period is exact or the largest possible, without overflow
/// reach: 1
h_c22_period {
    let d = 1 + choose(tier(8, 20));
    let first = b'1' + choose(9) as u8;
    let digits: String = std::iter::once(first as char).chain((1..d).map(|i| if i == 1 { '8' } else { '0' })).collect();
    let (suf, mul) = *pick(&[("", 1u64), ("K", 1 << 10), ("M", 1 << 20), ("G", 1 << 30)]);
    let days = choose_bool();
    let n = match digits.parse::<u64>() { Ok(x) if x <= u64::MAX / mul => x * mul, _ => u64::MAX };
    let src = format!("vacation :{} {digits}{suf} \"R\";", if days { "days" } else { "seconds" });
    note(&src);
    let r = rt();
    let s = match try_compile(src.as_bytes()) { Ok(s) => s, Err(_) => { check(n > u64::MAX / 2, 1, "numbers that fit are accepted"); reach(2); return } };
    let mut c = ctx(&r, MSG);
    let t = run_with(&mut c, s, 64, &mut reply_true);
    reach(1);
    check(t.ended && t.err.is_none(), 2, "runs");
    let want = if days { n.saturating_mul(86400) } else { n };
    check(matches!(&t.ev[0], Event::DuplicateId { expiry, .. } if *expiry == want), 3, "the period asked for");
}
}
entry!{
/// the reply: sender (:from, user with or without name, envelope recipient, none), subject (:subject, of the message, added or deleted by the script, configured prefix and default), Message-ID (none, present, added or deleted by the script) and References of the message, From or Sender as the one to reply to, :mime, other created messages before, further tags
/// reach: 1
h_c22_reply {
    let (who, su, id, rf, fr, mime, cfg) = (choose(5), choose(5), choose(5), choose(2), choose(5), choose_bool(), choose_bool());
    let mut r = rt().with_local_hostname("h.org").with_max_out_messages(9);
    if cfg { r = r.with_vacation_subject_prefix("Re: ").with_vacation_default_subject("Away"); }
    let mut msg = String::new();
    let mut pre = String::new();
    msg += ["From: Ann <ann@a.org>\r\n", "From: ann@a.org\r\n", "From: eve@e.org\r\nSender: \"A\" <ann@a.org>\r\n", "From: eve@e.org\r\n", "From: eve@e.org, ann@a.org\r\n"][fr];
    msg += "To: bob@b.org\r\n";
    let mut subj = "";
    if su == 1 || su == 2 || su == 4 { msg += "Subject: hi you\r\n"; subj = "hi you" }
    if su == 2 { pre += "deleteheader \"Subject\";"; subj = "" }
    if su == 3 { pre += "addheader \"Subject\" \"new s\";"; subj = "new s" }
    let mut mid = "";
    if id == 1 || id == 2 || id == 4 { msg += "Message-ID: <m1@a.org>\r\n"; mid = "m1@a.org" }
    if id == 2 { pre += "deleteheader \"Message-ID\";"; mid = "" }
    if id == 3 { pre += "addheader \"Message-ID\" \"<m2@b.org>\";"; mid = "m2@b.org" }
    if id == 4 { pre += "deleteheader \"Message-ID\"; addheader :last \"message-id\" \"<m3@b.org>\";"; mid = "m3@b.org" }
    if rf == 1 { msg += "References: <r1@a.org>\r\n <r2@a.org>\r\n" }
    msg += "\r\nb\r\n";
    let before = choose(2);
    if before == 1 { pre += "notify \"mailto:x@y.org\";" }
    let mut tags: Vec<&str> = vec![];
    if mime { tags.push(":mime") }
    if who == 0 { tags.push(":from \"V <v@b.org>\"") }
    if su == 4 { tags.push(":subject \"Gone\"") }
    if choose_bool() { tags.insert(0, ":days 3"); tags.push(":addresses \"q@b.org\""); tags.push(":handle \"h\"") }
    let body = if mime { "Content-Type: text/html\r\n\r\n<p>" } else { "I am\r\naway" };
    let src = format!("{pre}vacation {} \"{body}\";", tags.join(" "));
    note(&src); note(&msg);
    let mut c = r.filter(msg.as_bytes()).with_envelope(Envelope::From, "ann@a.org");
    if who != 4 { c = c.with_envelope(Envelope::To, "bob@b.org"); }
    match who { 1 => c = c.with_user_address("bob@b.org"), 2 | 4 => c = c.with_user_address("bob@b.org").with_user_full_name("Bob B"), _ => {} }
    let t = run_with(&mut c, compile(&src), 64, &mut |e| if let Event::DuplicateId { .. } = e { Input::False } else { Input::True });
    check(t.ended && t.err.is_none(), 1, "runs");
    let ev: Vec<&Event> = t.ev.iter().collect();
    let at = ev.iter().position(|e| matches!(e, Event::DuplicateId { .. }));
    check(at.is_some(), 2, "the host is asked");
    let ev = &ev[at.unwrap() + 1..];
    for e in ev { note(&format!("{e:?}")) }
    let (m, k) = match ev[0] { Event::CreatedMessage { message, message_id } => (String::from_utf8(message.clone()).unwrap(), *message_id), _ => { check(false, 3, "the reply is made"); return } };
    match ev[1] { Event::SendMessage { recipient: Recipient::Address(a), message_id, .. } => check(a == "ann@a.org" && *message_id == k && k == 1 + before, 4, "the reply is sent to the envelope sender"), _ => check(false, 5, "the reply is sent") }
    let (f, b) = match crate::c33::split(&m) { Some(x) => x, None => { check(false, 6, "well formed"); return } };
    let get = |n: &str| f.iter().find(|x| x.0.eq_ignore_ascii_case(n)).map(|x| x.1.as_str());
    reach(1);
    check(get("From") == Some(["V <v@b.org>", "bob@b.org", "\"Bob B\" <bob@b.org>", "bob@b.org", "\"Bob B\" <bob@b.org>"][who]), 7, "who it is from");
    check(get("To") == Some(["Ann <ann@a.org>", "ann@a.org", "\"A\" <ann@a.org>", "ann@a.org", "eve@e.org, ann@a.org"][fr]), 8, "who it is to");
    let s = if su == 4 { "Gone".to_string() } else if subj.is_empty() { (if cfg { "Away" } else { "Automated reply" }).to_string() } else { format!("{}{subj}", if cfg { "Re: " } else { "Auto: " }) };
    check(get("Subject") == Some(&s), 9, "its subject");
    if mid.is_empty() { check(get("In-Reply-To").is_none() && get("References").is_none(), 10, "nothing to refer to") } else {
        check(get("In-Reply-To") == Some(&format!("<{mid}>")), 11, "what it replies to");
        check(get("References") == Some(&format!("{}<{mid}>", if rf == 1 { "<r1@a.org> <r2@a.org> " } else { "" })), 12, "what it refers to");
    }
    check(get("Auto-Submitted") == Some("auto-replied"), 13, "marked as automatic");
    check(if mime { get("Content-Type") == Some("text/html") && b == "<p>" } else { b == body }, 14, "its text");
    // a message changed before is written when it is kept
    for e in &ev[2..] { check(matches!(e, Event::Keep { .. } | Event::CreatedMessage { .. }), 15, "nothing else happens") }
}
}

fn case(t: &str, how: usize) -> String {
    match how { 0 => t.into(), 1 => t.to_ascii_uppercase(), 2 => t.to_ascii_lowercase(), k => t.char_indices().map(|(i, c)| if (i + k) % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }
}
entry!{
/// a message with one of 14 automatic marks or 9 harmless fields, name and value each written in 5 cases (as is, upper, lower, alternating), before or after the recipient field, the value also folded or followed by a space: not answered if marked, answered otherwise
/// reach: 1 2
h_c22_marks {
    let (n, v, mark) = *pick(&[("List-Id", "<l.x.org>", true), ("List-Post", "NO", true), ("List-Help", "x", true), ("List-Unsubscribe", "x", true), ("List-Subscribe", "x", true), ("List-Owner", "x", true), ("List-Archive", "x", true), ("Auto-Submitted", "auto-replied", true), ("Auto-Submitted", "auto-generated", true), ("Auto-Submitted", "auto-notified", true), ("X-Auto-Response-Suppress", "All", true), ("X-Auto-Response-Suppress", "OOF", true), ("X-Auto-Response-Suppress", "DR, OOF, RN", true), ("Precedence", "bulk", true),
        ("Auto-Submitted", "no", false), ("X-Auto-Response-Suppress", "none", false), ("X-Auto-Response-Suppress", "DR, RN, NRN", false), ("Precedence", "list", false), ("Precedence", "first-class", false), ("X-Precedence", "bulk", false), ("X-List-Id", "x", false), ("Comments", "bulk", false), ("X-Auto-Submitted", "auto-replied", false)]);
    let f = format!("{}:{}{}{}\r\n", case(n, choose(5)), pick(&["", " ", "\r\n "][..]), case(v, choose(5)), pick(&["", " "][..]));
    let mut c = base();
    let t;
    if choose_bool() { t = format!("{f}To: bob@b.org\r\n"); c.to = ""; c.extra = t } else { c.extra = f }
    let (t, _) = run_case(&c, "", true);
    let sent = t.ev.iter().filter(|e| matches!(e, Event::SendMessage { .. })).count();
    obs(sent as u64);
    if mark { reach(2) } else { reach(1) }
    check(sent == !mark as usize, 2, "a marked message is not answered, any other is");
}
}
