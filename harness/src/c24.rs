//! C24: replace, enclose, convert and extracttext change or read the part they are used on, and nothing else.
use crate::run::*;
use crate::vf::*;
use mail_parser::decoders::html::{html_to_text, text_to_html};

#[derive(Clone)]
enum B {
    /// text of the part after the blank line, as written
    Leaf(String),
    /// header rest, blank line and text given as one
    Mime(String),
    /// text before the first part, then the parts, each followed by its `after`
    Multi(String, Vec<usize>),
    /// parts between boundaries of our own
    Mixed(String, Vec<usize>),
    /// a message made part of another
    Message(usize),
}
#[derive(Clone)]
struct N { h: Vec<(String, String)>, b: B, after: String, text: Option<String>, html: bool, sub: String }
#[derive(Clone)]
struct Tree { n: Vec<N>, root: usize }
fn hd(l: &[&str]) -> Vec<(String, String)> { l.iter().map(|l| (l.split_once(':').unwrap().0.to_ascii_lowercase(), format!("{l}\r\n"))).collect() }
fn leaf(h: &[&str], raw: &str, text: Option<&str>, html: bool, sub: &str, after: &str) -> N { N { h: hd(h), b: B::Leaf(raw.into()), after: after.into(), text: text.map(|t| t.into()), html, sub: sub.into() } }
const DATE: &str = "Date: Tue, 14 Nov 2023 09:00:00 +0000";
fn multi() -> Tree {
    Tree { root: 0, n: vec![
        N { h: hd(&["Received: from a", "From: Ann <ann@a.org>", "To: bob@b.org", DATE, "Subject: hello", "MIME-Version: 1.0", "Content-Type: multipart/mixed; boundary=b1", "X-A: top"]), b: B::Multi("preamble\r\n--b1\r\n".into(), vec![1, 2, 5, 6]), after: "".into(), text: None, html: false, sub: "mixed".into() },
        leaf(&["Content-Type: text/plain", "X-A: p1"], "part <one>\r\n", Some("part <one>\r\n"), false, "plain", "\r\n--b1\r\n"),
        N { h: hd(&["Content-Type: multipart/alternative;\r\n boundary=b2", "X-A: p2"]), b: B::Multi("--b2\r\n".into(), vec![3, 4]), after: "\r\n--b1\r\n".into(), text: None, html: false, sub: "alternative".into() },
        leaf(&["X-A: p3"], "plain", Some("plain"), false, "plain", "\r\n--b2\r\n"),
        leaf(&["Content-Type: text/html", "Content-Transfer-Encoding: quoted-printable"], "<p>eq =3D</p>", Some("<p>eq =</p>"), true, "html", "\r\n--b2--\r\nbetween"),
        leaf(&["Content-Type: message/rfc822"], "Subject: inner\r\n\r\ninner body", None, false, "rfc822", "\r\n--b1\r\n"),
        leaf(&["Content-Type: text/csv; charset=utf-8", "Content-Transfer-Encoding: base64"], "w6ks\r\nYixj", Some("\u{e9},b,c"), false, "csv", "\r\n--b1--\r\nepilogue\r\n"),
    ] }
}
fn single(html: bool) -> Tree {
    let ct = if html { "Content-Type: text/html; charset=utf-8" } else { "Content-Type: text/plain" };
    let t = if html { "<b>x</b> y" } else { "some & text\r\n" };
    Tree { root: 0, n: vec![leaf(&["From: Ann <ann@a.org>", "X-A: top", ct, "Subject: hello"], t, Some(t), html, if html { "html" } else { "plain" }, "")] }
}
/// every kind of field in some order
fn fields(k: usize) -> Tree {
    let mut h = hd(&["Return-Path: <r@r.org>", "Received: from a", "Received: from b\r\n by c", "From: Ann <ann@a.org>", "Sender: s@a.org", "Reply-To: r@a.org", "To: bob@b.org", "Cc: c@c.org", "Bcc: bob@b.org", DATE, "Subject: hello", "In-Reply-To: <0@x>", "References: <0@x>", "Message-ID: <1@x>", "MIME-Version: 1.0", "Content-Type: text/plain", "Content-Transfer-Encoding: 7bit", "Cc: d@c.org", "List-Id: <l>", "X-A: top"]);
    h.rotate_left(k);
    Tree { root: 0, n: vec![N { h, b: B::Leaf("some text".into()), after: "".into(), text: Some("some text".into()), html: false, sub: "plain".into() }] }
}
impl Tree {
    fn part(&self, i: usize) -> String {
        let n = &self.n[i];
        let h: String = n.h.iter().map(|x| x.1.as_str()).collect();
        let kids = |k: &[usize]| -> String { k.iter().map(|k| self.part(*k) + &self.n[*k].after).collect() };
        h + &match &n.b {
            B::Leaf(t) => format!("\r\n{t}"),
            B::Mime(t) => t.clone(),
            B::Multi(pre, k) => format!("\r\n{pre}{}", kids(k)),
            B::Mixed(b, k) => k.iter().map(|k| format!("\r\n--{b}\r\n{}", self.part(*k))).collect::<String>() + &format!("\r\n--{b}--\r\n"),
            B::Message(m) => format!("\r\n{}", self.part(*m)),
        }
    }
    fn text(&self) -> String { self.part(self.root) }
    fn kids(&self, i: usize) -> Vec<usize> { match &self.n[i].b { B::Multi(_, k) | B::Mixed(_, k) => k.clone(), _ => vec![] } }
    /// the part and those below it, in document order
    fn below(&self, i: usize) -> Vec<usize> { let mut v = vec![i]; for k in self.kids(i) { v.extend(self.below(k)) } v }
}
#[derive(Clone, Copy)]
enum Op { Replace { mime: bool, from: Option<&'static str>, subject: Option<&'static str>, text: &'static str }, Enclose { subject: Option<&'static str>, headers: &'static [&'static str], text: &'static str }, Convert(&'static str, &'static str), Add(&'static str, &'static str, bool), Del(&'static str) }
use Op::*;
const OPS: &[Op] = &[
    Replace { mime: false, from: None, subject: None, text: "new text" },
    Replace { mime: true, from: None, subject: None, text: "Content-Type: text/x\r\n\r\nmime text" },
    Convert("text/plain", "text/html"),
    Enclose { subject: None, headers: &[], text: "the enclosing text" },
    Add("X-N", "added", true),
    Replace { mime: false, from: Some("Q <q@q.org>"), subject: Some("other"), text: "" },
    Convert("text/html", "text/plain"),
    Enclose { subject: Some("enc"), headers: &["X-H: v", "From: z@z.org"], text: "t2\r\n" },
    Convert("Text/CSV", "TEXT/html"),
    Replace { mime: true, from: None, subject: Some("s2"), text: "\r\nno header" },
    Del("X-A"),
    Add("X-A", "first", false),
    Convert("text/plain", "text/plain"),
    Convert("image/png", "text/html"),
    Replace { mime: true, from: Some(""), subject: None, text: "X-M: 1\r\n\r\n" },
    Enclose { subject: None, headers: &["Date: then", "message-id: <i@i>", "Subject: twice", "Original-Subject: no", "bad", ": x", "X-E: "], text: "" },
];
const NQ: usize = 12;
fn q(s: &str) -> String { s.replace('\\', "\\\\").replace('"', "\\\"") }
impl Op {
    fn src(&self, tag: usize) -> String {
        match self {
            Replace { mime, from, subject, text } => format!("replace {}{}{}\"{}\"; ", if *mime { ":mime " } else { "" }, from.map_or(String::new(), |f| format!(":from \"{f}\" ")), subject.map_or(String::new(), |f| format!(":subject \"{f}\" ")), q(text)),
            Enclose { subject, headers, text } => format!("enclose {}{}\"{}\"; ", subject.map_or(String::new(), |f| format!(":subject \"{f}\" ")), if headers.is_empty() { String::new() } else { format!(":headers {headers:?} ") }, q(text)),
            Convert(a, b) => if tag == 0 { format!("convert \"{a}\" \"{b}\" \"\"; ") } else { format!("if convert \"{a}\" \"{b}\" \"\" {{ fileinto :copy \"C{tag}\"; }} ") },
            Add(n, v, l) => format!("addheader {}\"{n}\" \"{v}\"; ", if *l { ":last " } else { "" }),
            Del(n) => format!("deleteheader \"{n}\"; "),
        }
    }
}
struct Model { t: Tree, part: usize, iter: Vec<usize>, dirty: bool, next_id: usize, msgs: Vec<(usize, String)>, del: Vec<(String, usize)>, encs: usize, made: bool, first: Option<usize> }
impl Model {
    fn deliver(&mut self, f: &str) {
        if self.dirty { self.next_id += 1; self.msgs.push((self.next_id, self.t.text())); self.dirty = false }
        self.del.push((f.into(), self.next_id));
    }
    fn apply(&mut self, o: &Op, tag: usize) {
        let p = self.part;
        match o {
            Add(n, v, l) => { let x = (n.to_ascii_lowercase(), format!("{n}: {v}\r\n")); let h = &mut self.t.n[p].h; if *l { h.push(x) } else { h.insert(0, x) } self.dirty = true }
            Del(n) => { let h = &mut self.t.n[p].h; let k = h.len(); h.retain(|x| !x.0.eq_ignore_ascii_case(n)); if h.len() != k { self.dirty = true } }
            Replace { mime, from, subject, text } => {
                let gone: Vec<usize> = self.t.below(p)[1..].to_vec();
                self.iter.retain(|i| !gone.contains(i));
                let top = p == self.t.root;
                let n = &mut self.t.n[p];
                n.b = if *mime { B::Mime(text.to_string()) } else { B::Leaf(text.to_string()) };
                (n.text, n.html, n.sub) = (Some(text.to_string()), false, "plain".into());
                let old = std::mem::take(&mut n.h);
                let add = |n: &mut N, k: &str, v: &str| n.h.push((k.to_ascii_lowercase(), format!("{k}: {v}\r\n")));
                if top {
                    for (k, v) in old {
                        match k.as_str() {
                            "from" if from.is_some() => n.h.push(("original-from".into(), format!("Original-From:{}", v.split_once(':').unwrap().1))),
                            "subject" if subject.is_some() => n.h.push(("original-subject".into(), format!("Original-Subject:{}", v.split_once(':').unwrap().1))),
                            "from" | "subject" | "to" | "cc" | "bcc" | "received" | "date" => n.h.push((k, v)),
                            _ => {}
                        }
                    }
                    add(n, "From", from.filter(|f| !f.is_empty()).unwrap_or("bob@b.org"));
                    if let Some(s) = subject { add(n, "Subject", s) }
                    if !n.h.iter().any(|x| x.0 == "date") { add(n, "Date", "@D@") }
                    add(n, "Message-ID", "@ID@");
                    self.made = true;
                }
                if !mime { add(n, "Content-Type", "text/plain; charset=utf-8") }
                self.dirty = true;
            }
            Enclose { subject, headers, text } => {
                self.encs += 1;
                let b = format!("ENC{}", self.encs);
                let k = self.t.n.len();
                let old = self.t.root;
                let subj = self.subject();
                let mut n = N { h: hd(&[&format!("Content-Type: multipart/mixed; boundary=\"{b}\""), &format!("Subject: {}", subject.map_or(subj, |s| s.to_string()))]), b: B::Mixed(b, vec![k + 1, k + 2]), after: "".into(), text: None, html: false, sub: "mixed".into() };
                let mut own = vec![("From", "bob@b.org"), ("Date", "@D@"), ("Message-ID", "@ID@")];
                for h in *headers {
                    let Some((a, v)) = h.split_once(':') else { continue };
                    let v = v.trim();
                    if a.is_empty() || v.is_empty() || a.starts_with("Original-") { continue }
                    let name = own.iter().map(|x| x.0).chain(["Subject"]).find(|x| x.eq_ignore_ascii_case(a)).unwrap_or(a);
                    n.h.push((a.to_ascii_lowercase(), format!("{name}: {v}\r\n")));
                    own.retain(|x| !x.0.eq_ignore_ascii_case(a));
                }
                for (a, v) in own { n.h.push((a.to_ascii_lowercase(), format!("{a}: {v}\r\n"))) }
                self.t.n.push(n);
                self.t.n.push(leaf(&["Content-Type: text/plain; charset=utf-8"], text, Some(text), false, "plain", ""));
                let mut m = leaf(&["Content-Type: message/rfc822"], "", None, false, "rfc822", "");
                m.b = B::Message(old);
                self.t.n.push(m);
                self.t.root = k;
                self.part = k;
                self.iter.clear();
                (self.dirty, self.made) = (true, true);
            }
            Convert(a, b) => {
                let (a, b) = (a.to_ascii_lowercase(), b.to_ascii_lowercase());
                let mut done = false;
                let ids = self.t.below(self.t.root);
                for i in ids {
                    let top = i == self.t.root;
                    let n = &mut self.t.n[i];
                    let Some(t) = n.text.clone() else { continue };
                    let (new, ct) = if a == b { continue } else if b == "text/html" && !n.html && a.strip_prefix("text/") == Some(n.sub.as_str()) { (text_to_html(&t), "text/html") } else if a == "text/html" && b == "text/plain" && n.html { (html_to_text(&t), "text/plain") } else { continue };
                    if top { n.h.retain(|x| x.0 != "content-type" && x.0 != "content-transfer-encoding") } else { n.h.clear() }
                    n.h.push(("content-type".into(), format!("Content-Type: {ct}; charset=utf8\r\n")));
                    n.html = ct == "text/html";
                    n.sub = ct[5..].into();
                    n.b = B::Leaf(new.clone());
                    n.text = Some(new);
                    done = true;
                }
                self.dirty |= done;
                if done && tag > 0 { self.deliver(&format!("C{tag}")) }
            }
        }
    }
    fn subject(&self) -> String {
        // the last one counts
        self.t.n[self.t.root].h.iter().rev().find(|x| x.0 == "subject").map_or(String::new(), |x| x.1.split_once(':').unwrap().1.trim().to_string())
    }
    fn extract(&self) -> String { let n = &self.t.n[self.part]; let s = match &n.text { Some(t) if n.html => html_to_text(t), Some(t) => t.clone(), None => String::new() }; match self.first { Some(k) => s.chars().take(k).collect(), None => s } }
}
/// boundaries in order of appearance, generated ids and dates by name
fn norm(s: &str) -> String {
    let mut s = s.to_string();
    let mut k = 0;
    let mut from = 0;
    while let Some(i) = s[from..].find("boundary=\"").map(|i| i + from + 10) {
        let e = s[i..].find('"').unwrap() + i;
        let b = s[i..e].to_string();
        if !b.starts_with('@') { k += 1; s = s.replace(&b, &format!("@{k}@")); }
        from = i;
    }
    let v: Vec<String> = s.split("\r\n").map(|l| if l.starts_with("Message-ID: <") && l.ends_with("h.org>") { "Message-ID: @ID@".into() } else if l.starts_with("Date: ") && l != DATE && l != "Date: then" { "Date: @D@".into() } else { l.to_string() }).collect();
    v.join("\r\n")
}
fn run_model(tree: Tree, looped: &[(usize, Op, bool)], after: &[Op]) {
    run_script(tree, looped, after, None)
}
fn run_script(tree: Tree, looped: &[(usize, Op, bool)], after: &[Op], inner: Option<(usize, usize, Op)>) { run_first(tree, looped, after, inner, None) }
fn run_first(tree: Tree, looped: &[(usize, Op, bool)], after: &[Op], inner: Option<(usize, usize, Op)>, first: Option<usize>) {
    let orig = tree.text();
    let root = tree.root;
    let mut m = Model { t: tree, part: root, iter: vec![], dirty: false, next_id: 0, msgs: vec![], del: vec![], encs: 0, made: false, first };
    let ext = first.map_or("extracttext \"t\";".to_string(), |k| format!("extracttext :first {k} \"t\";"));
    let mut src = String::from("set \"log\" \"\"; ");
    if !looped.is_empty() {
        src.push_str("foreverypart { let \"global.i\" \"global.i + 1\"; ");
        for (j, (k, o, deliver)) in looped.iter().enumerate() { src.push_str(&format!("if eval \"global.i == {k}\" {{ {}{}}} ", o.src(j + 1), if *deliver { "fileinto :copy \"L\"; " } else { "" })) }
        if let Some((k, j, o)) = inner { src.push_str(&format!("if eval \"global.i == {k}\" {{ foreverypart {{ let \"global.j\" \"global.j + 1\"; if eval \"global.j == {j}\" {{ {}}} {ext} set \"log\" \"${{log}}>${{t}}\"; }} }} ", o.src(3))) }
        src.push_str(&ext);
        src.push_str(" set \"log\" \"${log}|${t}\"; } fileinto :copy \"${log}\"; ");
        m.iter = m.t.below(root);
        let (mut i, mut log) = (0, String::new());
        while !m.iter.is_empty() {
            m.part = m.iter.remove(0);
            i += 1;
            for (j, (k, o, deliver)) in looped.iter().enumerate() { if i == *k { m.apply(o, j + 1); if *deliver { m.deliver("L") } } }
            if let Some((k, j, o)) = inner { if i == k {
                let (mut outer, mut part) = (std::mem::take(&mut m.iter), m.part);
                m.iter = m.t.below(part)[1..].to_vec();
                let mut n = 0;
                while !m.iter.is_empty() {
                    m.part = m.iter.remove(0);
                    n += 1;
                    let root = m.t.root;
                    if n == j { m.apply(&o, 3); let all = m.t.below(m.t.root); outer.retain(|x| all.contains(x)); if m.t.root != root { outer.clear(); part = m.t.root } }
                    log.push_str(&format!(">{}", m.extract()));
                }
                (m.iter, m.part) = (outer, part);
            } }
            log.push_str(&format!("|{}", m.extract()));
        }
        m.part = m.t.root;
        m.deliver(&log);
    }
    for (j, o) in after.iter().enumerate() { src.push_str(&o.src(j + 4)); m.part = m.t.root; m.apply(o, j + 4) }
    let len = m.t.text().len();
    // the length of the message is known when no id, date or boundary was made up
    let (lo, hi) = if m.made { (len - 1, len + 400 * (looped.len() + after.len() + 1)) } else { (len - 1, len) };
    src.push_str(&format!("if not size :over {lo} {{ fileinto :copy \"less\"; }} if size :over {hi} {{ fileinto :copy \"more\"; }} "));
    m.deliver("INBOX");
    note(&src);
    let r = rt().with_local_hostname("h.org").with_cpu_limit(100000);
    let mut c = ctx(&r, orig.as_bytes());
    let t = run_with(&mut c, compile(&src), 99, &mut reply_true);
    check(t.ended && t.err.is_none(), 1, "runs without error");
    let (mut msgs, mut del) = (vec![], vec![]);
    for e in &t.ev {
        match e {
            Event::CreatedMessage { message_id, message } => msgs.push((*message_id, norm(&String::from_utf8_lossy(message)))),
            Event::FileInto { folder, message_id, .. } => del.push((folder.clone(), *message_id)),
            Event::Keep { message_id, .. } => del.push(("INBOX".into(), *message_id)),
            _ => {}
        }
    }
    let want: Vec<(usize, String)> = m.msgs.iter().map(|x| (x.0, norm(&x.1))).collect();
    reach(if want.is_empty() { 2 } else { 1 });
    for (i, x) in &msgs { obs(*i as u64); obs_bytes(x.as_bytes()) }
    for (i, (_, w)) in want.iter().enumerate() { if msgs.get(i).map(|x| &x.1) != Some(w) { note(&format!("{:?}", msgs.get(i).map(|x| &x.1))); note(&format!("{w:?}")) } }
    for x in &del { note(&format!("{x:?}")) }
    check(!del.iter().any(|x| x.0 == "less" || x.0 == "more"), 2, "size sees the message as it now is");
    check(del == m.del, 3, "what extracttext reads, what convert says, and the version delivered");
    check(msgs == want, 4, "the message is the old one with the parts changed as asked");
}
entry!{
/// one of 16 operations (replace plain and :mime with :from and :subject, enclose with :subject and :headers, convert, header edits) on any part of a message of 7 parts in 2 levels or of one part, delivered at once or later, then one of 12 operations on any later part visited
/// reach: 1 2
h_c24_loop {
    let t = match choose(4) { 0 => single(false), 1 => single(true), _ => multi() };
    let n = t.n.len();
    let k = choose(n) + 1;
    let o = OPS[choose(OPS.len())];
    let d = choose_bool();
    let k2 = k + choose(tier(3, 7));
    let o2 = OPS[choose(tier(8, NQ))];
    run_model(t, &[(k, o, d), (k2, o2, false)], &[]);
}
}
entry!{
/// every sequence of 2 (thorough: 3) of 16 operations on the whole message, for four messages, one of them with 20 fields of 18 kinds in three orders
/// reach: 1 2
h_c24_top {
    let t = match choose(6) { 0 => single(false), 1 => single(true), 2 => multi(), 3 => fields(0), 4 => fields(7), _ => fields(13) };
    let ops: Vec<Op> = (0..tier(2, 3)).map(|_| OPS[choose(OPS.len())]).collect();
    run_model(t, &[], &ops);
}
}
entry!{
/// one of 16 operations outside a loop, then in a loop one of 16 on any part, then one of 12
/// reach: 1 2
h_c24_mixed {
    let t = match choose(2) { 0 => single(choose_bool()), _ => multi() };
    let k = choose(t.n.len().max(3)) + 1;
    let (a, b, c) = (OPS[choose(OPS.len())], OPS[choose(OPS.len())], OPS[choose(tier(4, NQ))]);
    run_model2(t, a, (k, b), c);
}
}
fn run_model2(t: Tree, a: Op, b: (usize, Op), c: Op) {
    // the first operation stands in a loop of its own round that runs once
    run_model(t, &[(1, a, true), (b.0, b.1, false)], &[c]);
}
entry!{
/// one of 16 operations on any part visited by a loop inside a loop (over all parts, or those of the inner multipart), after or before one on a part of the outer loop
/// reach: 1
h_c24_nested {
    let k = *pick(&[1usize, 3]);
    let j = choose(if k == 1 { 6 } else { 2 }) + 1;
    let o = OPS[choose(OPS.len())];
    let k2 = choose(7) + 1;
    let o2 = OPS[choose(tier(5, NQ))];
    run_script(multi(), &[(k2, o2, false)], &[], Some((k, j, o)));
}
}
entry!{
/// extracttext :first 0 to 20 on every part of a message of 7 parts in 2 levels or of one plain, HTML or other part, after one of 16 operations on any part or none: the first characters of the text of the part
/// reach: 1 2
h_c24_first {
    let t = match choose(4) { 0 => single(false), 1 => single(true), _ => multi() };
    let n = t.n.len();
    let f = *pick(&[0usize, 1, 2, 3, 5, 6, 8, 20]);
    let k = choose(n + 1);
    let o = OPS[choose(OPS.len())];
    run_first(t, &[(if k == n { 99 } else { k + 1 }, o, false)], &[], None, Some(f));
}
}
