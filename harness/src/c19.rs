//! C19: header edits do exactly what they say and the rebuilt message is otherwise byte for byte the original.
use crate::run::*;
use crate::vf::*;

#[derive(Clone)]
pub struct H { name: String, raw: String, val: String }
/// header regions and the text after each
#[derive(Clone)]
pub struct Doc { parts: Vec<Vec<H>>, between: Vec<String> }
fn hs(raw: &str) -> H {
    let (n, v) = raw.split_once(':').unwrap();
    H { name: n.into(), raw: raw.into(), val: v.replace("\r\n", "").trim().into() }
}
fn part(h: &[&str]) -> Vec<H> { h.iter().map(|r| hs(r)).collect() }
impl Doc {
    pub fn text(&self) -> String { self.parts.iter().zip(&self.between).map(|(h, b)| h.iter().map(|h| h.raw.as_str()).collect::<String>() + b).collect() }
}
const TOP: &[&str] = &["From: Ann <ann@a.org>\r\n", "Received: from a\r\n\tby b; Tue, 14 Nov 2023 10:00:00 +0000\r\n", "X-A: one\r\n", "Subject: hello\r\n", "X-A: two\r\n folded\r\n", "To: bob@b.org\r\n", "x-a:three  \r\n", "Original-Subject: o\r\n", "X-B: \r\n"];
fn single() -> Doc { Doc { parts: vec![part(TOP)], between: vec!["\r\nbody text\r\n\r\nX-A: no header\r\n".into()] } }
fn headonly() -> Doc { Doc { parts: vec![part(&["X-A: one\r\n", "Subject: hello\r\n", "X-A: two\r\n"])], between: vec!["\r\n".into()] } }
fn multi() -> Doc {
    let mut t = part(TOP);
    t.push(hs("Content-Type: multipart/mixed; boundary=\"b1\"\r\n"));
    t.push(hs("X-A: four\r\n"));
    Doc {
        parts: vec![t, part(&["Content-Type: text/plain\r\n", "X-A: p1\r\n"]), part(&["Content-Type: multipart/alternative;\r\n boundary=b2\r\n", "X-A: p2\r\n", "X-A: two\r\n"]), part(&["X-A: p3\r\n"]), part(&["Content-Type: text/html\r\n", "Content-Transfer-Encoding: quoted-printable\r\n", "X-A: one\r\n"]), part(&["Content-Type: message/rfc822\r\n", "X-A: p5\r\n"])],
        between: vec!["\r\npreamble\r\n--b1\r\n".into(), "\r\npart one\r\n\r\n--b1\r\n".into(), "\r\n--b2\r\n".into(), "\r\nplain\r\n--b2\r\n".into(), "\r\n<b>=3D</b>\r\n--b2--\r\nbetween\r\n--b1\r\n".into(), "\r\nSubject: inner\r\nX-A: inner\r\n\r\ninner body\r\n--b1--\r\nepilogue\r\n".into()],
    }
}
#[derive(Clone, Copy)]
pub enum M { Any, Is(&'static [&'static str]), Has(&'static str), Like(&'static str, fn(&str) -> bool) }
#[derive(Clone, Copy)]
pub enum Op { Add(&'static str, &'static str, bool), Del(&'static str, Option<usize>, bool, M) }
use Op::*;
fn starts_t(s: &str) -> bool { s.to_ascii_lowercase().starts_with('t') }
const OPS: &[Op] = &[
    Add("X-A", "v1", false), Add("X-A", "tv2", true), Add("X-C", "c", false), Add("Subject", "new", true), Add("Original-From", "x", false), Add("received", "from x", true),
    Del("X-A", None, false, M::Any), Del("X-A", Some(1), false, M::Any), Del("x-a", Some(2), false, M::Any), Del("X-A", Some(1), true, M::Any), Del("X-A", Some(2), true, M::Any), Del("X-A", Some(9), false, M::Any),
    Del("X-A", None, false, M::Is(&["two folded", "V1"])), Del("X-A", None, false, M::Has("O")), Del("X-A", Some(2), false, M::Has("e")), Del("X-A", Some(3), true, M::Like("T*", starts_t)),
    Del("Subject", None, false, M::Any), Del("Original-Subject", None, false, M::Any), Del("X-B", None, false, M::Is(&[""])), Del("From", Some(1), false, M::Has("ann@")), Del("x-c", None, false, M::Any), Del("Received", None, true, M::Any),
];
const PROT: &[&str] = &["Original-Subject", "Original-From"];
fn canon(n: &str) -> &str { if n == "received" { "Received" } else { n } }
impl Op {
    pub fn src(&self) -> String {
        match self {
            Add(n, v, l) => format!("addheader {}\"{n}\" \"{v}\"; ", if *l { ":last " } else { "" }),
            Del(n, i, l, m) => {
                let i = match i { Some(i) => format!(":index {i} "), None => String::new() };
                let l = if *l { ":last " } else { "" };
                match m {
                    M::Any => format!("deleteheader {i}{l}\"{n}\"; "),
                    M::Is(k) => format!("deleteheader {i}{l}\"{n}\" {k:?}; "),
                    M::Has(k) => format!("deleteheader {l}:contains {i}\"{n}\" \"{k}\"; "),
                    M::Like(k, _) => format!("deleteheader {i}{l}:matches \"{n}\" \"{k}\"; "),
                }
            }
        }
    }
    /// returns whether something changed
    pub fn apply(&self, h: &mut Vec<H>) -> bool {
        match self {
            Add(n, v, l) => {
                if PROT.contains(n) { return false }
                let x = H { name: n.to_string(), raw: format!("{}: {v}\r\n", canon(n)), val: v.to_string() };
                if *l { h.push(x) } else { h.insert(0, x) }
                true
            }
            Del(n, i, l, m) => {
                if PROT.contains(n) { return false }
                let pos: Vec<usize> = (0..h.len()).filter(|p| h[*p].name.eq_ignore_ascii_case(n)).collect();
                let sel: Vec<usize> = match i { None => pos, Some(i) => { let k = if *l { pos.len().checked_sub(*i) } else { i.checked_sub(1) }; k.and_then(|k| pos.get(k)).map(|p| vec![*p]).unwrap_or_default() } };
                let del: Vec<usize> = sel.into_iter().filter(|p| { let v = &h[*p].val; match m { M::Any => true, M::Is(k) => k.iter().any(|k| k.eq_ignore_ascii_case(v)), M::Has(k) => v.to_ascii_lowercase().contains(&k.to_ascii_lowercase()), M::Like(_, f) => f(v) } }).collect();
                for p in del.iter().rev() { h.remove(*p); }
                !del.is_empty()
            }
        }
    }
}
/// the messages created, in order, and the version each delivery refers to
fn created(t: &Trace) -> (Vec<(usize, String)>, Vec<(String, usize)>) {
    let (mut c, mut d) = (vec![], vec![]);
    for e in &t.ev {
        match e {
            Event::CreatedMessage { message_id, message } => c.push((*message_id, String::from_utf8_lossy(message).into_owned())),
            Event::FileInto { folder, message_id, .. } => d.push((folder.clone(), *message_id)),
            Event::Keep { message_id, .. } => d.push(("INBOX".into(), *message_id)),
            _ => {}
        }
    }
    (c, d)
}
fn same(g: &[(usize, String)], w: &[(usize, String)]) -> bool { g == w }
/// tests on the edited headers, with their reference verdict
fn probes(h: &[H]) -> (String, Vec<String>) {
    let all: Vec<&H> = h.iter().filter(|h| h.name.eq_ignore_ascii_case("x-a")).collect();
    let mut w = vec![];
    let mut s = String::new();
    let mut p = |t: &str, n: &str, b: bool| { s.push_str(&format!("if {t} {{ fileinto :copy \"{n}\"; }} ")); if b { w.push(n.to_string()) } };
    p("exists \"x-A\"", "e", !all.is_empty());
    p("header :contains \"x-a\" \"t\"", "t", all.iter().any(|h| h.val.to_ascii_lowercase().contains('t')));
    p("header :index 1 \"X-A\" \"v1\"", "i", all.first().is_some_and(|h| h.val == "v1"));
    p("header :index 1 :last \"X-A\" \"three\"", "l", all.last().is_some_and(|h| h.val == "three"));
    p(&format!("header :count \"eq\" \"X-A\" \"{}\"", all.len()), "n", true);
    p("header \"subject\" \"new\"", "s", h.iter().any(|h| h.name == "Subject" && h.val == "new"));
    (s, w)
}
fn obs_all(t: &Trace) { for (i, m) in created(t).0 { obs(i as u64); obs_bytes(m.as_bytes()) } }

fn edits(mut d: Doc, n: usize, mode: usize) {
    let orig = d.text();
    let (mut src, mut wc, mut wd, mut id) = (String::new(), vec![], vec![], 0);
    let mut dirty = false;
    let mut flush = |d: &Doc, dirty: &mut bool, name: &str, wd: &mut Vec<(String, usize)>| { if *dirty { id += 1; wc.push((id, d.text())); *dirty = false } wd.push((name.to_string(), id)); };
    for k in 0..n {
        let o = pick(OPS);
        src.push_str(&o.src());
        dirty |= o.apply(&mut d.parts[0]);
        if mode == 1 && k + 1 < n { src.push_str("fileinto :copy \"F\"; "); flush(&d, &mut dirty, "F", &mut wd); }
    }
    let (ps, pw) = if mode == 2 { probes(&d.parts[0]) } else { (String::new(), vec![]) };
    src.push_str(&ps);
    for p in &pw { flush(&d, &mut dirty, p, &mut wd); }
    flush(&d, &mut dirty, "INBOX", &mut wd);
    note(&src);
    let t = go(&rt(), orig.as_bytes(), &src);
    check(t.ended && t.err.is_none(), 1, "runs without error");
    let (c, del) = created(&t);
    obs_all(&t);
    reach(if wc.is_empty() { 2 } else { 1 });
    for (_, m) in &c { note(m) }
    check(del == wd, 2, "deliveries refer to the version of the message at that point");
    check(same(&c, &wc), 3, "the message is rebuilt with exactly the edits asked for");
}
entry!{
/// every sequence of 2 (thorough: 3) of 22 edits (addheader first and last, deleteheader all, by :index, :last, :is, :contains, :matches, on protected and missing fields, folded and repeated ones) on a message with 9 fields: the rebuilt message exactly
/// reach: 1 2
h_c19_edits { edits(single(), tier(2, 3), 0); }
}
entry!{
/// 2 or 3 edits of these with a delivery after each: each delivery has its own version of the message, a new one exactly when something changed
/// reach: 1 2
h_c19_versions { edits(single(), tier(2, 3), 1); }
}
entry!{
/// 2 edits, then exists and header tests (:contains, :index, :last, :count): they see the edited message
/// reach: 1 2
h_c19_seen { edits(if choose_bool() { single() } else { multi() }, 2, 2); }
}
entry!{
/// 2 edits on a message without body, and on one of 6 parts in 2 levels with preamble and epilogue
/// reach: 1 2
h_c19_shapes { edits(if choose_bool() { headonly() } else { multi() }, 2, 0); }
}
entry!{
/// one or two edits on any one part of a message of 6 parts in 2 levels (in a foreverypart loop), and one after the loop: only that part changes
/// reach: 1
h_c19_part {
    let mut d = multi();
    let orig = d.text();
    let k = choose(d.parts.len());
    let n = choose(2) + 1;
    let mut src = format!("foreverypart {{ let \"global.i\" \"global.i + 1\"; if eval \"global.i == {}\" {{ ", k + 1);
    let mut dirty = false;
    for _ in 0..n { let o = pick(OPS); src.push_str(&o.src()); dirty |= o.apply(&mut d.parts[k]); }
    src.push_str("} } ");
    if n == 1 { let o = pick(&OPS[..8]); src.push_str(&o.src()); dirty |= o.apply(&mut d.parts[0]); }
    note(&src);
    let t = go(&rt(), orig.as_bytes(), &src);
    check(t.ended && t.err.is_none(), 1, "runs without error");
    let (c, _) = created(&t);
    obs_all(&t);
    for (_, m) in &c { note(m) }
    reach(1);
    check(c.len() == dirty as usize, 2, "one new version if something changed");
    if dirty { check(c[0].1 == d.text(), 3, "only the headers of that part change"); }
}
}
entry!{
/// deleteheader :mime :anychild with or without a value or :index on any part of that message: the field goes from the part and those below it
/// reach: 1
h_c19_anychild {
    let mut d = multi();
    let orig = d.text();
    let k = choose(d.parts.len());
    let below: &[usize] = match k { 0 => &[0, 1, 2, 3, 4, 5], 2 => &[2, 3, 4], _ => &[k] };
    let o = *pick(&OPS[6..]);
    let (s, any) = (o.src(), choose_bool());
    let s = if any { s.replace("deleteheader", "deleteheader :mime :anychild") } else { s.replace("deleteheader", "deleteheader :mime") };
    let src = format!("foreverypart {{ let \"global.i\" \"global.i + 1\"; if eval \"global.i == {}\" {{ {s} }} }}", k + 1);
    let mut dirty = false;
    for p in if any { below } else { &below[..1] } { dirty |= o.apply(&mut d.parts[*p]); }
    note(&src);
    let t = go(&rt(), orig.as_bytes(), &src);
    let (c, _) = created(&t);
    obs_all(&t);
    for (_, m) in &c { note(m) }
    reach(1);
    check(c.len() == dirty as usize, 2, "one new version if something changed");
    if dirty { check(c[0].1 == d.text(), 3, "the field goes from that part and those below it"); }
}
}
entry!{
/// addheader with a value of 4 (thorough: 5) characters out of letter, CR, LF, colon, space, two- and three-byte letters under a size limit of 0 to 9 bytes, given through a variable: line breaks are dropped, the value is cut at a character
/// reach: 1
h_c19_value {
    let n = tier(4, 5);
    let v: String = (0..n).map(|_| *pick(&["a", "\r", "\n", ":", " ", "é", "€"])).collect();
    let max = choose(10);
    let mut w = String::new();
    for c in v.chars().filter(|c| *c != '\r' && *c != '\n') { if w.len() + c.len_utf8() > max { break } w.push(c) }
    noteb(v.as_bytes());
    let mut d = single();
    let orig = d.text();
    let l = choose_bool();
    d.parts[0].insert(if l { 9 } else { 0 }, H { name: "X-C".into(), raw: format!("X-C: {w}\r\n"), val: w });
    let r = rt().with_max_header_size(max);
    let mut c = ctx(&r, orig.as_bytes());
    c.set_global_variable("v", v);
    let t = run_with(&mut c, compile(if l { "addheader :last \"X-C\" \"${global.v}\";" } else { "addheader \"X-C\" \"${global.v}\";" }), 16, &mut reply_true);
    obs_all(&t);
    reach(1);
    let (c, _) = created(&t);
    check(c.len() == 1 && c[0].1 == d.text(), 1, "one field with the value on one line, up to the limit");
}
}
entry!{
/// addheader with a name of up to 3 free ASCII characters after X- (or alone): characters that cannot be in a name are dropped, an empty name adds nothing
/// reach: 1 2
h_c19_name {
    let n = choose(3) + 1;
    let v = ascii(n);
    let pre = *pick(&["", "X-"]);
    let name: String = pre.chars().chain(v.chars()).filter(|c| c.is_ascii_alphanumeric() || *c == '-').collect();
    noteb(v.as_bytes());
    let mut d = single();
    let orig = d.text();
    d.parts[0].insert(0, H { name: name.clone(), raw: format!("{name}: v\r\n"), val: "v".into() });
    let r = rt();
    let mut c = ctx(&r, orig.as_bytes());
    c.set_global_variable("v", format!("{pre}{v}"));
    let t = run_with(&mut c, compile("addheader \"${global.v}\" \"v\";"), 16, &mut reply_true);
    obs_all(&t);
    let (c, _) = created(&t);
    if name.is_empty() { reach(2); check(c.is_empty(), 1, "no name, no field") } else { reach(1); check(c.len() == 1 && c[0].1.eq_ignore_ascii_case(&d.text()), 2, "one field of that name") }
}
}
entry!{
/// deleteheader on four fields with free values of 2 characters (letters of either case, digit) by :is, :contains or :matches with a free key of 2: exactly the matching ones go
/// reach: 1 2
h_c19_delval {
    let al = b"aA1b";
    let v: Vec<String> = (0..2).map(|_| alpha(2, al)).collect();
    let k = alpha(2, al);
    let vals = [v[0].clone(), format!("x{}", v[1]), v[1].clone(), format!("{}y", v[0])];
    let mut d = Doc { parts: vec![vals.iter().map(|v| hs(&format!("X-A: {v}\r\n"))).collect()], between: vec!["\r\nb\r\n".into()] };
    let orig = d.text();
    note(&orig); note(&k);
    let mt = choose(4);
    let (lk, idx) = (k.to_ascii_lowercase(), choose(4));
    let src = format!("deleteheader {}{} \"x-a\" \"{}\";", [":is", ":contains", ":matches", ":is :comparator \"i;octet\""][mt], if idx > 0 { format!(" :index {idx}") } else { String::new() }, ["${global.k}", "${global.k}", "${global.k}*", "${global.k}"][mt]);
    let m = |v: &str| { let l = v.to_ascii_lowercase(); match mt { 0 => l == lk, 1 => l.contains(&lk), 2 => l.starts_with(&lk), _ => v == k } };
    let hit: Vec<bool> = d.parts[0].iter().enumerate().map(|(i, h)| (idx == 0 || idx == i + 1) && m(&h.val)).collect();
    let mut i = 0;
    d.parts[0].retain(|_| { i += 1; !hit[i - 1] });
    let r = rt();
    let mut c = ctx(&r, orig.as_bytes());
    c.set_global_variable("k", k.clone());
    let t = run_with(&mut c, compile(&src), 16, &mut reply_true);
    obs_all(&t);
    let (c, _) = created(&t);
    if hit.contains(&true) { reach(1); check(c.len() == 1 && c[0].1 == d.text(), 2, "exactly the matching fields go") } else { reach(2); check(c.is_empty(), 1, "nothing matches, nothing changes") }
}
}
entry!{
/// 2 (thorough: 3) edits, those on protected and missing fields included, then size tests one byte around the size of the edited message: they see its size
/// reach: 1
h_c19_size {
    let mut d = if choose_bool() { single() } else { headonly() };
    let orig = d.text();
    let mut src = String::new();
    for _ in 0..tier(2, 3) { let o = pick(OPS); src.push_str(&o.src()); o.apply(&mut d.parts[0]); }
    let n = d.text().len();
    let fresh = choose_bool();
    if fresh { src.push_str("fileinto :copy \"V\"; "); }
    src.push_str(&format!("if size :over {} {{ fileinto :copy \"A\"; }} if size :over {n} {{ fileinto :copy \"B\"; }} if size :under {} {{ fileinto :copy \"C\"; }} if size :under {n} {{ fileinto :copy \"D\"; }}", n - 1, n + 1));
    note(&src);
    let t = go(&rt(), orig.as_bytes(), &src);
    check(t.ended && t.err.is_none(), 1, "runs without error");
    let f = folders(&t);
    obs_trace(&t);
    reach(1);
    let w: Vec<&str> = if fresh { vec!["V", "A", "C"] } else { vec!["A", "C"] };
    check(f.iter().filter(|f| *f != "INBOX").map(|s| s.as_str()).eq(w.iter().copied()), 2, "size tests see the size of the edited message");
}
}
