//! C32: header, body, part, envelope and environment variables give the value they name.
use crate::run::*;
use crate::vf::*;

type P = (&'static str, &'static [&'static str]);
/// a header field: text as in the message, canonical name, is it a list of values, its parts with their values
pub struct Fd { pub raw: &'static str, pub name: &'static str, pub list: bool, pub parts: &'static [P] }
macro_rules! fd { ($raw:expr, $name:expr, $list:expr, $($p:expr => $v:expr),*) => { Fd { raw: $raw, name: $name, list: $list, parts: &[$(($p, &$v)),*] } } }
pub static FD: &[Fd] = &[
    fd!("X-L: one\r\n\ttwo  three", "x-l", false, "text" => ["one\r\n\ttwo  three"], "raw" => [" one two three"], "raw_name" => ["X-L"], "exists" => ["1"]),
    fd!("x-l:z", "x-l", false, "text" => ["z"], "raw" => ["z"], "raw_name" => ["x-l"], "exists" => ["1"]),
    fd!("X-L: Q <q+d@q.org>, w@w.org", "x-l", true, "name" => ["Q", ""], "addr" => ["q+d@q.org", "w@w.org"], "addr.addr.local" => ["q+d", "w"], "addr.addr.domain" => ["q.org", "w.org"], "addr.addr.user" => ["q", "w"], "addr.addr.detail" => ["d", ""], "addr.local" => ["q+d", "w"], "addr.domain" => ["q.org", "w.org"], "addr.user" => ["q", "w"], "addr.detail" => ["d", ""]),
    fd!("From: \"Ann B\" <ann+x@a.org>, cy@c.org", "from", true, "text" => ["Ann B <ann+x@a.org>", "<cy@c.org>"], "name" => ["Ann B", ""], "addr" => ["ann+x@a.org", "cy@c.org"], "addr.all" => ["ann+x@a.org", "cy@c.org"], "addr.addr.local" => ["ann+x", "cy"], "addr.addr.domain" => ["a.org", "c.org"], "addr.addr.user" => ["ann", "cy"], "addr.addr.detail" => ["x", ""], "addr.name" => ["Ann B", ""], "addr.local" => ["ann+x", "cy"], "addr.domain" => ["a.org", "c.org"], "addr.user" => ["ann", "cy"], "addr.detail" => ["x", ""]),
    fd!("FROM: dd@d.org", "from", true, "text" => ["<dd@d.org>"], "name" => [""], "addr" => ["dd@d.org"], "addr.addr.domain" => ["d.org"], "addr.domain" => ["d.org"]),
    fd!("To: grp: e@e.org, \"F\" <f@f.org>, g@g.org;", "to", true, "text" => ["<e@e.org>", "F <f@f.org>", "<g@g.org>"], "name" => ["", "F", ""], "addr" => ["e@e.org", "f@f.org", "g@g.org"]),
    fd!("Keywords: ka, kb, kc", "keywords", true, "text" => ["ka", "kb", "kc"]),
    fd!("References: <r1@x> <r2@x>", "references", true, "text" => ["r1@x", "r2@x"]),
    fd!("Subject: =?utf-8?q?h=C3=A9?= x", "subject", false, "text" => ["hé x"], "raw" => [" =?utf-8?q?h=C3=A9?= x"], "raw_name" => ["Subject"]),
    fd!("Date: Tue, 14 Nov 2023 10:00:00 +0100 ", "date", false, "text" => ["Tue, 14 Nov 2023 10:00:00 +0100"], "date" => ["1699952400"], "raw_name" => ["Date"]),
    fd!("X-D: Wed, 15 Nov 2023 10:00:00 +0000", "x-d", false, "text" => ["Wed, 15 Nov 2023 10:00:00 +0000"], "date" => ["1700042400"]),
    fd!("Message-ID: <m1@x>", "message-id", false, "text" => ["m1@x"], "id" => ["m1@x"], "raw" => [" <m1@x>"]),
    fd!("X-I: <i@i>", "x-i", false, "text" => ["<i@i>"], "id" => ["i@i"], "exists" => ["1"]),
    fd!("Content-Type: text/plain; charset=utf-8; name=\"f.txt\"", "content-type", false, "text" => ["text/plain"], "type" => ["text"], "subtype" => ["plain"], "attr.charset" => ["utf-8"], "attr.name" => ["f.txt"], "attr.none" => [""], "raw" => [" text/plain; charset=utf-8; name=\"f.txt\""]),
    fd!("Received: from mx.a.org (ptr.a.org [1.2.3.4]) by in.b.org (Postfix) with ESMTPS id q1 for <bob@b.org>; Tue, 14 Nov 2023 10:00:00 +0100", "received", false, "rcvd.from" => ["mx.a.org"], "rcvd.from.name" => ["mx.a.org"], "rcvd.from.ip" => [""], "rcvd.ip" => ["1.2.3.4"], "rcvd.iprev" => ["ptr.a.org"], "rcvd.by" => ["in.b.org"], "rcvd.by.name" => ["in.b.org"], "rcvd.by.ip" => [""], "rcvd.for" => ["bob@b.org"], "rcvd.with" => ["ESMTPS"], "rcvd.id" => ["q1"], "rcvd.date" => ["1699952400"], "rcvd.date.raw" => ["Tue, 14 Nov 2023 10:00:00 +0100"], "date" => ["1699952400"]),
    fd!("Received: from [10.0.0.1] by [10.0.0.2] with SMTP; Mon, 13 Nov 2023 09:00:00 +0000", "received", false, "rcvd.from" => ["10.0.0.1"], "rcvd.from.name" => [""], "rcvd.from.ip" => ["10.0.0.1"], "rcvd.ip" => [""], "rcvd.by" => ["10.0.0.2"], "rcvd.by.ip" => ["10.0.0.2"], "rcvd.by.name" => [""], "rcvd.for" => [""], "rcvd.with" => ["SMTP"], "rcvd.date" => ["1699866000"]),
    fd!("Received: from gal.iecc.com (gal.iecc.com [IPv6:2001:470:1f07:1126:0:43:6f73:7461]) (using TLSv1.3 with cipher TLS_AES_256_GCM_SHA384 (256/256 bits)) by ietf.org (Postfix) with ESMTPS id C9 for <d@i.org>; Sun, 27 Aug 2023 03:00:06 -0700", "received", false, "rcvd.from" => ["gal.iecc.com"], "rcvd.ip" => ["2001:470:1f07:1126:0:43:6f73:7461"], "rcvd.iprev" => ["gal.iecc.com"], "rcvd.by" => ["ietf.org"], "rcvd.for" => ["d@i.org"], "rcvd.with" => ["ESMTPS"], "rcvd.tls" => ["TLSv1.3"], "rcvd.cipher" => ["TLS_AES_256_GCM_SHA384"], "rcvd.id" => ["C9"], "rcvd.ident" => [""], "rcvd.date" => ["1693130406"]),
    fd!("Received: from [218.19.142.229] (helo=hotmail.com ident=yiuh) by yz.org with smtp (Exim 3.35 #1 (Debian)) id 194; Sat, 12 Apr 2003 03:58:53 +0100", "received", false, "rcvd.from" => ["218.19.142.229"], "rcvd.from.name" => [""], "rcvd.from.ip" => ["218.19.142.229"], "rcvd.ident" => ["yiuh"], "rcvd.by" => ["yz.org"], "rcvd.for" => [""], "rcvd.with" => ["SMTP"], "rcvd.tls" => [""], "rcvd.cipher" => [""], "rcvd.id" => ["194"], "rcvd.date" => ["1050116333"], "date" => ["1050116333"]),
    fd!("Received: from ([192.168.1.151:49601] helo=dev1.d.org) by m12.org (ecelerity 2.1.1.3 r(11743)) with ESMTP id 52 for <e@v.org>; Fri, 15 Sep 2006 10:58:32 -0400", "received", false, "rcvd.from" => ["dev1.d.org"], "rcvd.from.name" => ["dev1.d.org"], "rcvd.ip" => ["192.168.1.151"], "rcvd.by" => ["m12.org"], "rcvd.for" => ["e@v.org"], "rcvd.with" => ["ESMTP"], "rcvd.id" => ["52"], "rcvd.date" => ["1158332312"]),
];
impl Fd { pub fn get(&self, p: &str) -> Option<&'static [&'static str]> { self.parts.iter().find(|x| x.0 == if p.is_empty() { "text" } else { p }).map(|x| x.1) } }
/// how a list of values reads as text
pub fn lines(v: &[String]) -> String {
    let mut r = String::new();
    for x in v { if !r.is_empty() { r.push_str("\r\n") } r.push_str(x) }
    r
}
/// nth of n from the front (i > 0) or from the back (i < 0)
fn nth(n: usize, i: i64) -> Option<usize> { let k = if i > 0 { i - 1 } else { n as i64 + i }; if k >= 0 && (k as usize) < n { Some(k as usize) } else { None } }
/// index as written, and what it means: a position or all
fn index(max: i64) -> (String, Option<i64>) {
    let k = choose(2 * max as usize + 3) as i64;
    match k { 0 => ("".into(), Some(-1)), 1 => ("[*]".into(), None), 2 => ("[0]".into(), Some(1)), _ => { let i = k - 3; let i = if i < max { i + 1 } else { max - 1 - i }; (format!("[{i}]"), Some(i)) } }
}
pub fn sel(fs: &[&Fd], hi: Option<i64>, pi: Option<i64>, part: &str) -> String {
    let take: Vec<&&Fd> = match hi { None => fs.iter().collect(), Some(i) => nth(fs.len(), i).map(|k| &fs[k]).into_iter().collect() };
    let mut out: Vec<String> = vec![];
    for f in take {
        let v = f.get(part).unwrap_or(&[""]);
        if f.list { match pi { None => out.extend(v.iter().map(|s| s.to_string())), Some(i) => out.push(nth(v.len(), i).map_or("", |k| v[k]).to_string()) } }
        else { out.push(v[0].to_string()) }
    }
    lines(&out)
}
fn read(msg: &[u8], var: &str, expr: bool) -> String {
    let src = if expr { format!("let \"v\" \"{var}\"; fileinto \"<${{v}}>\";") } else { format!("fileinto \"<${{{var}}}>\";") };
    note(&src); noteb(msg);
    let r = rt();
    let t = go(&r, msg, &src);
    check(t.ended && t.err.is_none() && t.ev.len() == 1, 1, "runs");
    let f = match &t.ev[0] { Event::FileInto { folder, .. } => folder.clone(), _ => "?".into() };
    obs_bytes(f.as_bytes());
    f
}
fn message(fs: &[&Fd]) -> Vec<u8> { let mut s = String::new(); for f in fs { s.push_str(f.raw); s.push_str("\r\n") } s.push_str("\r\nbody\r\n"); s.into_bytes() }
entry!{
/// every part of 19 fields (addresses, groups, lists, ids, dates, Content-Type, Received with and without TLS, ident, helo and IPv6, unstructured, other names), plain or in an expression, the field between two others
/// reach: 1
h_c32_value {
    let f = pick(FD);
    let (part, v) = pick(f.parts);
    let mut around = vec![&FD[8], f, &FD[12]];
    if f.name == "subject" { around.remove(0); }
    if f.name == "x-i" { around.pop(); }
    let at = choose(3);
    let var = format!("header.{}{}{part}{}", f.name, if *part == "text" && choose_bool() { "[1]" } else { "." }, if f.list { "[*]" } else { "" }).replace("]text", "]");
    match at { 1 => { around.retain(|x| x.name == f.name) } 2 => around.reverse(), _ => {} }
    let got = read(&message(&around), &var, choose_bool());
    let want = lines(&v.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    reach(1);
    note(&want);
    check(got == format!("<{want}>"), 2, "the value of the part");
}
}
entry!{
/// header[i].part[j] for i and j any of none, *, 0, -3..3 (thorough: -4..4), names one or two of From, To, X-L, Keywords, parts text, name, addr, over messages with any sequence of 2 (thorough: 3) of their fields
/// reach: 1
h_c32_index {
    let pool = [1, 0, 3, 4, 5, 6];
    let fs: Vec<&Fd> = (0..tier(2, 3)).map(|_| &FD[pool[choose(6)]]).collect();
    let names = *pick(&["x-l", "from", "to", "From:To", "keywords", "TO:x-l:from"]);
    let part = if names.contains("x-l") || names.contains("keywords") { *pick(&["", ".text"]) } else { *pick(&["", ".addr", ".name"]) };
    // the number of values a selection can have is at most 4, so larger indexes are all alike
    let (hs, hi) = index(tier(3, 4) as i64);
    let (ps, pi) = index(tier(3, 4) as i64);
    // without a part name the first index is that of the header
    assume(!(part.is_empty() && hs.is_empty() && !ps.is_empty()));
    let fits: Vec<&Fd> = fs.iter().copied().filter(|f| names.to_ascii_lowercase().split(':').any(|n| n == f.name)).collect();
    // an index into a single value other than its first and last place is not defined
    assume(pi.map_or(true, |i| i == 1 || i == -1) || fits.iter().all(|f| f.list));
    let got = read(&message(&fs), &format!("header.{names}{hs}{part}{ps}"), false);
    reach(1);
    let want = sel(&fits, hi, pi, part.trim_start_matches('.'));
    note(&want);
    check(got == format!("<{want}>"), 2, "the values at these places");
}
}
entry!{
/// header.* with parts text, raw, raw_name, exists over messages with any sequence of 2 (thorough: 3) of 13 fields: all fields in order
/// reach: 1
h_c32_wild {
    let fs: Vec<&Fd> = (0..tier(2, 3)).map(|_| &FD[choose(14)]).collect();
    let k = choose(4);
    let got = read(&message(&fs), ["header.*", "header.*.raw", "header.*.raw_name", "header.*.exists"][k], choose_bool());
    let want: Vec<String> = fs.iter().map(|f| {
        let (n, v) = f.raw.split_once(':').unwrap();
        match k { 2 => n.to_string(), 3 => "1".into(), 1 => { let mut s = String::new(); for w in f.raw.split_ascii_whitespace() { if !s.is_empty() { s.push(' ') } s.push_str(w) } s }
            _ => format!("{}: {}", f.canon(), match f.get("text") { Some(t) if !f.list && f.name != "content-type" => t[0], _ => v.trim() }) }
    }).collect();
    reach(1);
    note(&lines(&want));
    check(got == format!("<{}>", lines(&want)), 2, "all fields in order");
}
}
impl Fd { pub fn canon(&self) -> &'static str { match self.name { "x-l" => self.raw.split_once(':').unwrap().0, "from" => "From", "to" => "To", "keywords" => "Keywords", "references" => "References", "subject" => "Subject", "date" => "Date", "x-d" => "X-D", "message-id" => "Message-ID", "x-i" => "X-I", "content-type" => "Content-Type", _ => "Received" } } }
entry!{
/// header variables after 0..2 edits (addheader, addheader :last, deleteheader, deleteheader :index of X-L, From, X-D): text, raw, raw_name, addr, date and id of added and remaining fields alike, by index from either end
/// reach: 1 2
h_c32_edited {
    // (name, value)
    let mut l: Vec<(&str, &str)> = vec![("X-L", "one"), ("From", "an@a.org"), ("X-L", "two <t@t.org>"), ("X-D", "Tue, 14 Nov 2023 10:00:00 +0100")];
    let mut msg = String::new();
    for (n, v) in &l { msg += &format!("{n}: {v}\r\n") }
    msg += "\r\nbody\r\n";
    let mut src = String::new();
    for _ in 0..choose(3) {
        let (n, v) = *pick(&[("X-L", "new <n@n.org>"), ("From", "\"New N\" <nn@n.org>"), ("X-D", "Wed, 15 Nov 2023 10:00:00 +0000")]);
        match choose(4) {
            0 => { src += &format!("addheader \"{n}\" \"{}\";", v.replace('"', "\\\"")); l.insert(0, (n, v)) }
            1 => { src += &format!("addheader :last \"{n}\" \"{}\";", v.replace('"', "\\\"")); l.push((n, v)) }
            2 => { src += &format!("deleteheader \"{n}\";"); l.retain(|x| x.0 != n) }
            _ => { src += &format!("deleteheader :index 1 \"{n}\";"); if let Some(p) = l.iter().position(|x| x.0 == n) { l.remove(p); } }
        }
    }
    let (name, part) = *pick(&[("x-l", "text"), ("x-l", "raw"), ("x-l", "raw_name"), ("x-l", "addr"), ("x-l", "exists"), ("x-l", "id"), ("from", "addr"), ("from", "name"), ("x-d", "date"), ("x-d", "text"), ("from", "raw"), ("*", "raw"), ("*", "raw_name")]);
    let (hs, hi) = if name == "*" { ("".to_string(), None) } else { index(3) };
    src += &format!("fileinto \"<${{header.{name}{hs}.{part}}}>\";");
    note(&src);
    let r = rt();
    let t = go(&r, msg.as_bytes(), &src);
    check(t.ended && t.err.is_none(), 1, "runs");
    let got = folders(&t).pop().unwrap();
    obs_bytes(got.as_bytes());
    let fits: Vec<(&str, &str)> = l.iter().copied().filter(|x| name == "*" || x.0.eq_ignore_ascii_case(name)).collect();
    let take: Vec<(&str, &str)> = match hi { None => fits, Some(i) => nth(fits.len(), i).map(|k| fits[k]).into_iter().collect() };
    let want: Vec<String> = take.iter().map(|(n, v)| {
        let addr = v.split_once('<').map_or("", |x| x.1.trim_end_matches('>'));
        match part {
            "text" => v.to_string(), "raw" if name == "*" => format!("{n}: {v}"), "raw" => format!(" {v}"), "raw_name" => n.to_string(), "exists" => "1".into(),
            "addr" => if addr.is_empty() { if v.contains('@') { v.to_string() } else { "".into() } } else { addr.into() },
            "id" => if addr.is_empty() { v.to_string() } else { addr.into() },
            "name" => if v.contains("New") { "New N".into() } else { "".into() },
            _ => if v.starts_with("Tue") { "1699952400".into() } else { "1700042400".into() },
        }
    }).collect();
    // an address list without an address reads as nothing or as its text, depending on the parser
    assume(!(part == "addr" && name == "x-l" && take.iter().any(|x| !x.1.contains('@'))));
    reach(if want.is_empty() { 2 } else { 1 });
    note(&lines(&want));
    check(got == format!("<{}>", lines(&want)), 2, "the fields of the edited message");
}
}
entry!{
/// envelope variables of all 10 names in any case, set by the host in any order (also twice), and environment variables of the context and the runtime (the context's come first)
/// reach: 1 2
h_c32_envelope {
    let names = ["from", "to", "by_time_absolute", "by_time_relative", "by_mode", "by_trace", "notify", "orcpt", "ret", "envid"];
    let kinds = [Envelope::From, Envelope::To, Envelope::ByTimeAbsolute, Envelope::ByTimeRelative, Envelope::ByMode, Envelope::ByTrace, Envelope::Notify, Envelope::Orcpt, Envelope::Ret, Envelope::Envid];
    let mut r = rt();
    if choose_bool() {
        let k = choose(10);
        let rev = choose_bool();
        let one = choose_bool();
        let mut c = r.filter(MSG);
        for i in 0..10 { let i = if rev { 9 - i } else { i }; if !one || i == k { c = c.with_envelope(kinds[i], format!("v{i}@x.org")); } }
        let n = if choose_bool() { names[k].to_ascii_uppercase() } else { names[k].to_string() };
        let src = format!("fileinto \"<${{envelope.{n}}}>\";");
        note(&src);
        let t = run_with(&mut c, compile(&src), 64, &mut reply_true);
        reach(1);
        let f = folders(&t);
        obs_trace(&t);
        check(t.err.is_none() && f == [format!("<v{k}@x.org>")], 1, "the envelope part named");
        // only the one set has a value
        let o = (k + 1 + choose(9)) % 10;
        let mut c = r.filter(MSG).with_envelope(kinds[k], "a@x.org");
        let t = run_with(&mut c, compile(&format!("fileinto \"<${{envelope.{}}}>\";", names[o])), 64, &mut reply_true);
        check(folders(&t) == ["<>"], 2, "no other has a value");
        return
    }
    let (a, b) = (choose_bool(), choose_bool());
    if a { r = r.with_env_variable("vnd.x", "run"); }
    let mut c = ctx(&r, MSG);
    if b { c = c.with_env_variable("vnd.x", "ctx"); }
    let n = if choose_bool() { "VND.X" } else { "vnd.x" };
    let t = run_with(&mut c, compile(&format!("fileinto \"<${{env.{n}}}>\";")), 64, &mut reply_true);
    reach(2);
    check(folders(&t) == [format!("<{}>", if b { "ctx" } else if a { "run" } else { "" })], 3, "the environment variable");
}
}
entry!{
/// part and body variables in messages of 1..3 parts (text, HTML, binary, nested) with plain, quoted-printable and base64 encoding, inside and outside foreverypart
/// reach: 1
h_c32_parts {
    // (header, raw body, decoded, kind: 0 text, 1 html, 2 other)
    const PT: &[(&str, &str, &str, usize)] = &[("Content-Type: text/plain\r\n", "one", "one", 0), ("Content-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: quoted-printable\r\n", "h=C3=A9=20x", "hé x", 0), ("Content-Type: text/html\r\n", "<p>two</p>", "<p>two</p>", 1), ("Content-Type: application/x-y; name=n\r\nContent-Transfer-Encoding: base64\r\n", "YWJj", "abc", 2), ("", "plain", "plain", 0), ("Content-Type: text/plain\r\n", "", "", 0)];
    let n = choose(tier(3, 4));
    let ps: Vec<&(&str, &str, &str, usize)> = (0..n.max(1)).map(|_| pick(PT)).collect();
    let single = n == 0;
    let mut msg = String::from("From: a@a.org\r\nX-T: top\r\n");
    if single { msg += ps[0].0; msg += "\r\n"; msg += ps[0].1; } else {
        msg += "Content-Type: multipart/mixed; boundary=\"b\"\r\n\r\n";
        for p in &ps { msg += &format!("--b\r\n{}X-T: t\r\n\r\n{}\r\n", p.0, p.1); }
        msg += "--b--\r\n";
    }
    let src = "foreverypart { fileinto :copy \"P:${header.x-t}|${part.text}|${header.content-type.attr.name}\"; fileinto :copy \"R:${part.raw}\"; } fileinto :copy \"T:${body.text}\"; fileinto :copy \"H:${body.html}\"; fileinto :copy \"O:${header.x-t}|${part.text}\";";
    noteb(msg.as_bytes());
    let r = rt();
    let t = go(&r, msg.as_bytes(), src);
    check(t.ended && t.err.is_none(), 1, "runs");
    let f = folders(&t);
    for x in &f { obs_bytes(x.as_bytes()); note(x) }
    reach(1);
    let name = |p: &(&str, &str, &str, usize)| if p.3 == 2 { "n" } else { "" };
    let mut want: Vec<String> = vec![];
    if single { want.push(format!("P:top|{}|{}", ps[0].2, name(ps[0]))); want.push(format!("R:{}", ps[0].1)); }
    else {
        want.push("P:top||".into());
        let b: String = ps.iter().map(|p| format!("--b\r\n{}X-T: t\r\n\r\n{}\r\n", p.0, p.1)).collect();
        want.push(format!("R:{b}--b--\r\n"));
        for p in &ps { want.push(format!("P:t|{}|{}", p.2, name(p))); want.push(format!("R:{}", p.1)); }
    }
    let cut = f.len() - 4;
    check(f[..cut] == want[..], 2, "every part in turn");
    let text = ps.iter().find(|p| p.3 != 2);
    let first = if let Some(p) = text { p } else { ps[0] };
    // body.text is the first part of the text body if it is plain text, body.html if it is HTML
    if let Some(p) = text {
        check(f[cut] == format!("T:{}", if p.3 == 0 { p.2 } else { "" }), 3, "the text body");
        check(f[cut + 1] == format!("H:{}", if p.3 == 1 { p.2 } else { "" }), 4, "the HTML body");
    } else { check(f[cut] == "T:" && f[cut + 1] == "H:", 5, "no text, no body") }
    let _ = first;
    check(f[cut + 2] == format!("O:top|{}", if single { ps[0].2 } else { "" }), 6, "after the loop the whole message again");
}
}
entry!{
/// every part of every list field (From, To with a group, Keywords, References, and other names holding addresses), alone or written twice, index of the field none, 1, -1 or *, index into the list none, *, 0, -3..3; and addr, name and local part over all fields (*) of messages of two address fields
/// reach: 1 2
h_c32_places {
    let (ps, pi) = index(3);
    if choose_bool() {
        let f = &FD[*pick(&[2usize, 3, 4, 5, 6, 7])];
        let (part, _) = pick(f.parts);
        let (hs, hi) = *pick(&[("", Some(-1)), ("[1]", Some(1)), ("[-1]", Some(-1)), ("[*]", None)]);
        let twice = choose_bool();
        let mut fs = vec![f];
        if twice { fs.push(f) }
        let mut m = fs.clone();
        m.insert(choose(m.len() + 1), &FD[12]);
        let got = read(&message(&m), &format!("header.{}{hs}.{part}{ps}", f.name), choose_bool());
        reach(1);
        let want = sel(&fs, hi, pi, part);
        note(&want);
        check(got == format!("<{want}>"), 2, "the values at these places");
    } else {
        let fs = vec![&FD[*pick(&[2usize, 3, 4, 5])], &FD[*pick(&[2usize, 3, 4, 5])]];
        let part = *pick(&["addr", "name", "addr.domain", "addr.addr.domain"]);
        assume(part != "addr.domain" && part != "addr.addr.domain" || fs.iter().all(|f| f.get(part).is_some()));
        let (hs, pi) = if ps.is_empty() { ("", None) } else { ("", pi) };
        let got = read(&message(&fs), &format!("header.*{hs}.{part}{ps}"), choose_bool());
        reach(2);
        let want = sel(&fs, None, pi, part);
        note(&want);
        check(got == format!("<{want}>"), 3, "the values at these places in all fields");
    }
}
}
