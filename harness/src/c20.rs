//! C20: scripts that are not well formed are rejected, well-formed ones accepted: blocks, test lists, loops, labels, tags and arguments.
use crate::run::*;
use crate::vf::*;

const T: &[&str] = &["keep", "stop", ";", "{", "}", "if", "elsif", "else", "true", "not", "allof", "(", ")", ",", "foreverypart", "while \"0\"", "break", "continue", "anyof", "fileinto \"a\""];
const EOF: usize = 99;
/// reference reader: Ok(true) whole script, Ok(false) a prefix of one, Err(()) neither
struct P<'a> { t: &'a [usize], i: usize }
enum E { More, Bad }
impl P<'_> {
    fn peek(&self) -> usize { *self.t.get(self.i).unwrap_or(&EOF) }
    fn is(&mut self, k: usize) -> Result<(), E> { if self.peek() == k { self.i += 1; Ok(()) } else if self.peek() == EOF { Err(E::More) } else { Err(E::Bad) } }
    fn test(&mut self) -> Result<(), E> {
        let k = self.peek();
        match k {
            EOF => Err(E::More),
            8 => { self.i += 1; Ok(()) }
            9 => { self.i += 1; self.test() }
            10 | 18 => {
                self.i += 1;
                self.is(11)?;
                loop {
                    self.test()?;
                    match self.peek() { 13 => self.i += 1, 12 => { self.i += 1; return Ok(()) } EOF => return Err(E::More), _ => return Err(E::Bad) }
                }
            }
            _ => Err(E::Bad),
        }
    }
    fn block(&mut self, l: bool, w: bool) -> Result<(), E> { self.is(3)?; self.commands(l, w)?; self.is(4) }
    /// l: inside a loop, w: inside a while
    fn commands(&mut self, l: bool, w: bool) -> Result<(), E> {
        let mut after_if = false;
        loop {
            let k = self.peek();
            match k {
                EOF | 4 => return Ok(()),
                0 | 1 | 19 => { self.i += 1; self.is(2)?; after_if = false }
                16 if l => { self.i += 1; self.is(2)?; after_if = false }
                17 if w => { self.i += 1; self.is(2)?; after_if = false }
                5 => { self.i += 1; self.test()?; self.block(l, w)?; after_if = true }
                6 if after_if => { self.i += 1; self.test()?; self.block(l, w)? }
                7 if after_if => { self.i += 1; self.block(l, w)?; after_if = false }
                14 => { self.i += 1; self.block(true, w)?; after_if = false }
                15 => { self.i += 1; self.block(true, true)?; after_if = false }
                _ => return Err(E::Bad),
            }
        }
    }
}
fn read(t: &[usize]) -> Result<bool, ()> {
    let mut p = P { t, i: 0 };
    match p.commands(false, false) {
        Ok(()) => if p.i == t.len() { Ok(true) } else { Err(()) },
        Err(E::More) => Ok(false),
        Err(E::Bad) => Err(()),
    }
}
/// parentheses around a single test are an extension of this implementation, a word that names no test is an unknown test (an error when reached): the reference leaves both open
fn open(t: &[usize]) -> bool {
    if t.len() < 2 { return false }
    let (l, p) = (t[t.len() - 1], t[t.len() - 2]);
    l == 11 && !matches!(p, 10 | 18) || matches!(p, 5 | 6 | 9 | 11 | 13) && matches!(l, 0 | 1 | 5..=7 | 14..=17 | 19)
}
fn tree(start: &[usize], n: usize) {
    let mut t = start.to_vec();
    let mut st = read(&t);
    for _ in 0..n {
        let k = choose(T.len());
        t.push(k);
        if open(&t) { return }
        st = read(&t);
        if st != Ok(false) && choose_bool() || st == Err(()) { break }
    }
    let mut src: String = t.iter().map(|k| format!("{}\n", T[*k])).collect();
    if st == Err(()) {
        // no continuation makes it well formed; the likeliest to be taken for one
        src.push_str(*pick(&["", ";", "{ }", "true { }", ") { }", "true ) { }"]));
        let depth = t.iter().filter(|k| **k == 3).count() as i32 - t.iter().filter(|k| **k == 4).count() as i32;
        for _ in 0..depth { src.push_str(" }") }
    }
    note(&src.replace('\n', " "));
    let r = try_compile(src.as_bytes());
    obs(r.is_ok() as u64);
    match st {
        Ok(true) => { reach(1); check(r.is_ok(), 1, "a well-formed script is accepted") }
        _ => {
            reach(2);
            match r {
                Ok(_) => check(false, 2, "a script that is not well formed is rejected"),
                Err(e) => check(e.line_num() <= t.len() + 2, 3, "the error lies in the script"),
            }
        }
    }
}
entry!{
/// every sequence of up to 6 (thorough: 7) tokens that is a prefix of a well-formed script plus one token, out of 20 tokens (commands, blocks, tests, loops)
/// reach: 1 2
h_c20_tokens { tree(&[], tier(6, 7)) }
}
entry!{
/// the same after each of 9 openings, for up to 5 (thorough: 6) further tokens
/// reach: 1 2
h_c20_after {
    let s: &[usize] = *pick(&[&[5usize, 8, 3, 4][..], &[5, 10, 11, 8], &[5, 9, 18, 11, 10, 11], &[14, 3], &[15, 3, 5, 8, 3], &[15, 3, 14, 3], &[5, 8, 3, 4, 7, 3], &[5, 8, 3, 4, 6, 8, 3, 4], &[5, 8, 3, 15, 3, 16, 2, 4]]);
    tree(s, tier(5, 6));
}
}
entry!{
/// every program of 4 (thorough: 5) steps out of: open a loop named a, named b, unnamed, an if, a while; close; break, break to a, to b: a label must not be taken by a loop around it and a break must find its loop
/// reach: 1 2
h_c20_labels {
    // (0 loop, 1 while, 2 if; label)
    let (mut s, mut st, mut bad): (String, Vec<(u8, char)>, Option<String>) = (String::new(), vec![], None);
    for _ in 0..tier(4, 5) {
        let k = choose(9);
        match k {
            0..=2 => {
                let l = ['a', 'b', '-'][k];
                if k < 2 { s.push_str(&format!("foreverypart :name \"{l}\" {{ ")); if st.contains(&(0, l)) && bad.is_none() { bad = Some(format!("LabelAlreadyDefined(\"{l}\")")) } } else { s.push_str("foreverypart { ") }
                st.push((0, l));
            }
            3 => { s.push_str("if true { "); st.push((2, '-')) }
            4 => { s.push_str("while \"0\" { "); st.push((1, '-')) }
            5 => if st.pop().is_some() { s.push_str("} ") } else { s.push_str("keep; ") },
            6 => { s.push_str("break; "); if st.iter().all(|x| x.0 == 2) && bad.is_none() { bad = Some("BreakOutsideLoop".into()) } }
            _ => {
                let l = ['a', 'b'][k - 7];
                s.push_str(&format!("break :name \"{l}\"; "));
                if !st.contains(&(0, l)) && bad.is_none() { bad = Some(format!("LabelUndefined(\"{l}\")")) }
            }
        }
    }
    for _ in &st { s.push_str("} ") }
    note(&s);
    let got = Compiler::new().with_no_capability_check(true).with_max_nested_foreverypart(9).compile(s.as_bytes()).err().map(|e| format!("{:?}", e.error_type()));
    if let Some(g) = &got { note(g) }
    reach(if bad.is_some() { 2 } else { 1 });
    obs(got.is_some() as u64);
    check(got == bad, 1, "labels are unique among the loops around, and known");
}
}

/// tag, its argument (empty: none), group of tags of which only one may be given (0: any number), tag it needs
type Tag = (&'static str, &'static str, u8, &'static str);
/// text before, tags, positional arguments (text, kind), text after
type Cmd = (&'static str, &'static [Tag], &'static [(&'static str, u8)], &'static str);
const S: u8 = b's'; const L: u8 = b'l'; const C: u8 = b'c'; const N: u8 = b'n';
const END: &str = "; keep;";
const BLK: &str = " { keep; }";
macro_rules! mt { ($($t:expr),*) => { &[(":is", "", 1, ""), (":contains", "", 1, ""), (":matches", "", 1, ""), (":regex", "", 1, ""), (":count", "\"ge\"", 1, ""), (":value", "\"lt\"", 1, ""), (":comparator", "\"i;octet\"", 2, "") $(, $t)*] } }
const CMDS: &[Cmd] = &[
    ("fileinto", &[(":copy", "", 1, ""), (":create", "", 2, ""), (":flags", "[\"f\"]", 3, ""), (":mailboxid", "\"m\"", 4, ""), (":specialuse", "\"\\\\Junk\"", 5, "")], &[("\"a\"", S)], END),
    ("redirect", &[(":copy", "", 1, ""), (":list", "", 2, ""), (":bytrace", "", 3, ""), (":bymode", "\"return\"", 4, ""), (":bytimerelative", "10", 5, ""), (":bytimeabsolute", "\"2024-01-01T00:00:00Z\"", 5, ""), (":ret", "\"FULL\"", 6, ""), (":notify", "\"SUCCESS\"", 7, "")], &[("\"a@b.c\"", S)], END),
    ("vacation", &[(":mime", "", 1, ""), (":create", "", 2, ":fcc"), (":days", "3", 3, ""), (":seconds", "9", 3, ""), (":subject", "\"s\"", 4, ""), (":from", "\"a@b.c\"", 5, ""), (":handle", "\"h\"", 6, ""), (":specialuse", "\"u\"", 7, ":fcc"), (":mailboxid", "\"m\"", 8, ":fcc"), (":fcc", "\"F\"", 9, ""), (":flags", "[\"f\"]", 10, ":fcc"), (":addresses", "[\"x@y.z\"]", 11, "")], &[("\"text\"", S)], END),
    ("notify", &[(":from", "\"a@b.c\"", 1, ""), (":message", "\"m\"", 2, ""), (":importance", "\"1\"", 3, ""), (":options", "[\"o\"]", 4, ""), (":create", "", 5, ":fcc"), (":specialuse", "\"u\"", 6, ":fcc"), (":mailboxid", "\"m\"", 7, ":fcc"), (":fcc", "\"F\"", 8, ""), (":flags", "[\"f\"]", 9, ":fcc")], &[("\"mailto:a@b.c\"", S)], END),
    ("keep", &[(":flags", "[\"f\"]", 1, "")], &[], END),
    ("reject", &[], &[("\"a\"", S)], END),
    ("ereject", &[], &[("\"a\"", S)], END),
    ("error", &[], &[("\"a\"", S)], END),
    ("discard", &[], &[], END),
    ("stop", &[], &[], END),
    ("return", &[], &[], END),
    ("replace", &[(":mime", "", 1, ""), (":subject", "\"s\"", 2, ""), (":from", "\"a@b.c\"", 3, "")], &[("\"t\"", S)], END),
    ("enclose", &[(":subject", "\"s\"", 1, ""), (":headers", "[\"A: b\"]", 2, "")], &[("\"t\"", S)], END),
    ("extracttext", &[(":first", "9", 1, "")], &[("\"v\"", C)], END),
    ("convert", &[], &[("\"a/b\"", S), ("\"c/d\"", S), ("[\"p=1\"]", L)], END),
    ("addheader", &[(":last", "", 1, "")], &[("\"X-A\"", S), ("\"v\"", S)], END),
    ("deleteheader", mt!((":index", "1", 3, ""), (":last", "", 4, ""), (":mime", "", 5, ""), (":anychild", "", 6, ":mime")), &[("\"X-A\"", S), ("[\"v\"]", L)], END),
    ("set", &[(":lower", "", 0, ""), (":length", "", 0, ""), (":local", "", 0, "")], &[("\"v\"", C), ("\"x\"", S)], END),
    ("setflag", &[], &[("\"v\"", C), ("[\"x\"]", L)], END),
    ("addflag", &[], &[("[\"x\"]", L)], END),
    ("include", &[(":once", "", 1, ""), (":optional", "", 2, ""), (":personal", "", 3, ""), (":global", "", 3, "")], &[("\"s\"", S)], END),
    ("global", &[], &[("[\"g\"]", L)], END),
    ("let", &[], &[("\"v\"", C), ("\"1\"", C)], END),
    ("eval", &[], &[("\"1\"", C)], END),
    ("if address", mt!((":all", "", 3, ""), (":localpart", "", 3, ""), (":domain", "", 3, ""), (":user", "", 3, ""), (":detail", "", 3, ""), (":list", "", 1, ""), (":index", "1", 4, ""), (":last", "", 5, ""), (":mime", "", 6, ""), (":anychild", "", 7, ":mime")), &[("[\"to\"]", L), ("[\"a\"]", L)], BLK),
    ("if envelope", mt!((":all", "", 3, ""), (":localpart", "", 3, ""), (":domain", "", 3, ""), (":user", "", 3, ""), (":list", "", 1, ""), (":zone", "\"+0100\"", 4, "")), &[("[\"to\"]", L), ("[\"a\"]", L)], BLK),
    ("if not header", mt!((":list", "", 1, ""), (":index", "1", 3, ""), (":last", "", 4, ""), (":mime", "", 5, ""), (":anychild", "", 6, ":mime"), (":type", "", 7, ":mime"), (":subtype", "", 7, ":mime"), (":contenttype", "", 7, ":mime"), (":param", "[\"p\"]", 7, ":mime")), &[("[\"to\"]", L), ("[\"a\"]", L)], BLK),
    ("if exists", &[(":mime", "", 1, ""), (":anychild", "", 2, ":mime")], &[("[\"a\"]", L)], BLK),
    ("if size :over", &[], &[("10", N)], BLK),
    ("if size", &[], &[(":under 1K", b'x')], BLK),
    ("if body", mt!((":raw", "", 3, ""), (":text", "", 3, ""), (":content", "[\"text\"]", 3, ""), (":subject", "", 4, "")), &[("[\"a\"]", L)], BLK),
    ("if allof(true, convert", &[], &[("\"a/b\"", S), ("\"c/d\"", S), ("[\"p=1\"]", L)], ") { keep; }"),
    ("if date", mt!((":list", "", 1, ""), (":index", "1", 3, ""), (":last", "", 4, ""), (":mime", "", 5, ""), (":anychild", "", 6, ":mime"), (":originalzone", "", 7, ""), (":zone", "\"+0100\"", 7, "")), &[("\"date\"", S), ("\"hour\"", C), ("[\"01\"]", L)], BLK),
    ("if currentdate", mt!((":list", "", 1, ""), (":zone", "\"+0100\"", 3, "")), &[("\"hour\"", C), ("[\"01\"]", L)], BLK),
    ("if duplicate", &[(":handle", "\"h\"", 1, ""), (":header", "\"X-A\"", 2, ""), (":uniqueid", "\"u\"", 2, ""), (":seconds", "9", 3, ""), (":last", "", 4, "")], &[], BLK),
    ("if string", mt!((":list", "", 1, "")), &[("[\"a\"]", L), ("[\"a\"]", L)], BLK),
    ("if environment", mt!(), &[("\"name\"", C), ("[\"a\"]", L)], BLK),
    ("if anyof(hasflag", mt!(), &[("[\"a\"]", L), ("[\"b\"]", L)], ", false) { keep; }"),
    ("if mailboxexists", &[], &[("[\"a\"]", L)], BLK),
    ("if metadata", mt!(), &[("\"a\"", S), ("\"b\"", S), ("[\"c\"]", L)], BLK),
    ("if servermetadata", mt!(), &[("\"b\"", S), ("[\"c\"]", L)], BLK),
    ("if metadataexists", &[], &[("\"a\"", S), ("[\"b\"]", L)], BLK),
    ("if servermetadataexists", &[], &[("[\"b\"]", L)], BLK),
    ("if mailboxidexists", &[], &[("[\"b\"]", L)], BLK),
    ("if notify_method_capability", mt!(), &[("\"mailto:a@b.c\"", S), ("\"online\"", S), ("[\"c\"]", L)], BLK),
    ("if valid_notify_method", &[], &[("[\"b\"]", L)], BLK),
    ("if valid_ext_list", &[], &[("[\"b\"]", L)], BLK),
    ("if ihave", &[], &[("[\"b\"]", L)], BLK),
    ("if specialuse_exists", &[], &[("\"b\"", S), ("[\"c\"]", L)], BLK),
    ("if spamtest", mt!((":percent", "", 3, "")), &[("\"1\"", S)], BLK),
    ("if virustest", mt!(), &[("\"1\"", S)], BLK),
    ("while eval", &[], &[], ""),
];
const NC: usize = 51;
fn join(c: &Cmd, tags: &[String], pos: &[String]) -> String { format!("{} {} {}{}", c.0, tags.join(" "), pos.join(" "), c.3) }
fn tg(t: &Tag) -> String { if t.1.is_empty() { t.0.into() } else { format!("{} {}", t.0, t.1) } }
fn positional(c: &Cmd) -> Vec<String> { c.2.iter().map(|p| p.0.to_string()).collect() }
fn verdict(src: &str, ok: bool, what: &str) -> Option<String> {
    note(src);
    let r = try_compile(format!("require \"ihave\"; {src}").as_bytes()).err().map(|e| format!("{:?}", e.error_type()));
    obs(r.is_none() as u64);
    if ok { if let Some(e) = &r { note(e) } check(r.is_none(), 1, what) } else { check(r.is_some(), 2, what) }
    r
}
/// tags needed by the given ones that are not among them
fn companions(c: &Cmd, ts: &[&Tag]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for t in ts { if !t.3.is_empty() && !ts.iter().any(|u| u.0 == t.3) { let n = tg(c.1.iter().find(|u| u.0 == t.3).unwrap()); if !v.contains(&n) { v.push(n) } } }
    v
}
entry!{
/// each of 51 commands and tests with any two (thorough: three) of its tags in any order: accepted if no two exclude each other, else rejected as a duplicate; without a tag another needs, rejected
/// reach: 1 2 3
h_c20_tags {
    let c = &CMDS[choose(NC)];
    assume(!c.1.is_empty());
    let ts: Vec<&Tag> = (0..tier(2, 3)).map(|_| &c.1[choose(c.1.len())]).collect();
    let clash = (0..ts.len()).any(|i| (0..i).any(|j| ts[i].2 == ts[j].2 && ts[i].2 != 0));
    let mut tags: Vec<String> = ts.iter().map(|t| tg(t)).collect();
    let comp = companions(c, &ts);
    let left_out = !comp.is_empty() && choose_bool();
    if !left_out { if choose_bool() { tags.extend(comp) } else { tags.splice(0..0, comp); } }
    let src = join(c, &tags, &positional(c));
    if clash {
        reach(2);
        let r = verdict(&src, false, "tags that exclude each other are rejected");
        if c.0 != "keep" { check(r.as_deref() == Some("DuplicatedParameter"), 3, "as duplicates") }
    } else if left_out {
        reach(3);
        let r = verdict(&src, false, "a tag is rejected without the one it needs");
        check(r.unwrap().starts_with("MissingTag"), 4, "the error is the missing tag");
    } else {
        reach(1);
        verdict(&src, true, "tags may be combined in any order");
    }
}
}
entry!{
/// each of 51 commands and tests, with or without one of its tags, and one fault: a positional argument left out, one too many, a list, number, string or tag of the wrong kind in any place, a tag of another command, an unknown tag, a tag without its argument or with one of another kind
/// reach: 1 2 3
h_c20_args {
    let c = &CMDS[choose(NC)];
    let mut tags: Vec<String> = vec![];
    let mut pos = positional(c);
    let t = if c.1.is_empty() { None } else { let i = choose(c.1.len() + 1); if i == 0 { None } else { Some(&c.1[i - 1]) } };
    if let Some(t) = t { tags.push(tg(t)); tags.extend(companions(c, &[t])) }
    match choose(8) {
        0 => { reach(1); verdict(&join(c, &tags, &pos), true, "the command is accepted"); }
        // an optional argument may be missing
        1 => if !pos.is_empty() && !["deleteheader", "setflag", "if anyof(hasflag", "if specialuse_exists"].contains(&c.0) { pos.remove(choose(pos.len())); reach(2); verdict(&join(c, &tags, &pos), false, "a missing argument is an error"); },
        2 => { if c.0 != "addflag" { let x = *pick(&["\"x\"", "[\"x\"]", "7", ":is"]); pos.push(x.into()); reach(2); verdict(&join(c, &tags, &pos), false, "an argument too many is an error"); } }
        3 => if !pos.is_empty() {
            let i = choose(pos.len());
            let k = c.2[i].1;
            let alone = c.0 == "setflag" || c.0 == "if anyof(hasflag" || c.0 == "if specialuse_exists";
            let w = match k { S | C => *pick(&["[\"x\", \"y\"]", "7", ":over", "true", "(\"x\")"]), L => *pick(&["7", ":over", "true", "[]", "[7]", "(\"x\")", "[\"x\""]), N => *pick(&["\"7\"", "[7]", "\"x\""]), _ => "1K" };
            if !(alone && k == S && w.starts_with('[')) { pos[i] = w.into(); reach(2); verdict(&join(c, &tags, &pos), false, "an argument of another kind is an error"); }
        },
        4 => {
            let w = *pick(&[":copy", ":mime", ":over", ":zone \"+0100\"", ":days 3", ":nosuch", ":is", ":flags \"x\"", ":once", ":raw"]);
            if !c.1.iter().any(|t| w.starts_with(t.0)) && !(c.0 == "while eval") { tags.push(w.into()); reach(2); verdict(&join(c, &tags, &pos), false, "a tag of another command is an error"); }
        }
        // (the first argument of hasflag, which may be missing, can stand for that of the tag)
        5 => if let Some(t) = t { if !t.1.is_empty() && !c.0.ends_with("hasflag") { tags[0] = t.0.into(); reach(3); verdict(&join(c, &tags, &pos), false, "a tag without its argument is an error"); } },
        6 => if let Some(t) = t { if !t.1.is_empty() {
            let w = match t.1.as_bytes()[0] { b'"' => *pick(&["7", "[\"x\", \"y\"]", ":is", "true"]), b'[' => *pick(&["7", ":is", "[]", "true"]), _ => *pick(&["\"7\"", ":is", "[\"x\"]", "-1"]) };
            tags[0] = format!("{} {w}", t.0); reach(3); verdict(&join(c, &tags, &pos), false, "an argument of another kind is an error");
        } },
        // tags come before the positional arguments
        _ => { let s = join(c, &[], &pos); verdict(&s.to_uppercase().replace("\\\\JUNK", "\\\\Junk"), true, "names of commands, tests and tags are read in any case"); }
    }
}
}
entry!{
/// unknown commands and tests (with strings, lists, numbers, tags, tests, nested blocks) where ihave is required: the rest of the script is read as if they were not there; an error only when reached
/// reach: 1 2
h_c20_unknown {
    let args = *pick(&["", "\"a\"", "[\"a\", \"b\"]", ":t \"x\" 7", "(a, b)", "[\"a,b\"] [\"c\", \"d\"]", "allof(x, y [\"1\", \"2\"])", ":u [\"a\", \"b\"] 1K"]);
    let hit = choose_bool();
    let g = if hit { "true" } else { "ihave \"nosuch\"" };
    let src = match choose(7) {
        0 => format!("if {g} {{ foo {args}; }} fileinto \"x\";"),
        1 => format!("if {g} {{ foo {args} {{ bar {args}; if x {{ }} }} }} fileinto \"x\";"),
        2 => format!("if allof({g}, foo {args}) {{ keep; }} fileinto \"x\";"),
        3 => format!("if allof({g}, foo {args}, true) {{ keep; }} elsif false {{ }} fileinto \"x\";"),
        4 => format!("if {g} {{ if foo {args} {{ keep; }} }} fileinto \"x\";"),
        5 => format!("if anyof(not {g}, not foo {args}) {{ }} fileinto \"x\";"),
        _ => format!("if allof(true, anyof(allof({g}, foo {args}), true)) {{ }} fileinto \"x\";"),
    };
    note(&src);
    reach(if hit { 1 } else { 2 });
    let s = try_compile(format!("require \"ihave\"; {src}").as_bytes());
    obs(s.is_ok() as u64);
    if let Err(e) = &s { note(&format!("{e}")) }
    check(s.is_ok(), 1, "unknown commands and tests are read over");
    let r = rt();
    let mut c = ctx(&r, MSG);
    let t = run_with(&mut c, s.ok().unwrap(), 16, &mut reply_true);
    obs_trace(&t);
    check(t.err.is_some() == hit, 2, "an error exactly when reached");
    check(folders(&t) == vec![if hit { "INBOX" } else { "x" }.to_string()], 3, "the rest of the script runs");
}
}
fn unk(depth: usize, left: &mut usize, s: &mut String) {
    // at most `left` further commands or blocks
    while *left > 0 && choose_bool() {
        *left -= 1;
        match choose(if depth == 0 { 3 } else { 5 }) {
            0 => s.push_str("foo; "), 1 => s.push_str("keep; "), 2 => s.push_str("foo \"}\" [\";\", \"{\"] :t; "),
            k => { s.push_str(if k == 3 { "bar \"x\" { " } else { "if false { " }); unk(depth - 1, left, s); s.push_str("} ") }
        }
    }
}
entry!{
/// an unknown command with a block holding any tree of up to 4 (thorough: 5) commands and blocks, known or not, in up to 3 levels, at the top or inside an if: the command ends with its block, and the rest of the script is read as if it were not there
/// reach: 1 2
h_c20_unknowns {
    let mut b = String::new();
    let mut left = tier(4, 5);
    unk(2, &mut left, &mut b);
    let (hit, inside) = (choose_bool(), choose_bool());
    let g = if hit { "true" } else { "ihave \"nosuch\"" };
    let src = if inside { format!("if {g} {{ baz {{ {b}}} fileinto \"y\"; }} else {{ fileinto \"x\"; }}") } else { format!("if not {g} {{ fileinto \"x\"; stop; }} baz {{ {b}}} fileinto \"y\";") };
    note(&src);
    reach(if hit { 1 } else { 2 });
    let s = try_compile(format!("require \"ihave\"; {src}").as_bytes());
    obs(s.is_ok() as u64);
    if let Err(e) = &s { note(&format!("{e}")) }
    check(s.is_ok(), 1, "unknown commands are read over");
    let r = rt();
    let mut c = ctx(&r, MSG);
    let t = run_with(&mut c, s.ok().unwrap(), 16, &mut reply_true);
    obs_trace(&t);
    check(t.err.is_some() == hit, 2, "an error exactly when reached");
    check(folders(&t) == vec![if hit { "INBOX" } else { "x" }.to_string()], 3, "the rest of the script runs");
}
}
entry!{
/// a bracketed list of up to 5 (thorough: 6) of a constant, a string with a variable, a comma and an opening bracket, in 11 places that take a list of strings, of constants, or one constant: accepted exactly when strings and single commas alternate; where a single string is due, never
/// reach: 1 2
h_c20_lists {
    // (before, after, the constant, 0 list 1 list of constants 2 one string 3 one constant)
    let (a, b, s, kind) = *pick(&[("fileinto :flags ", " \"x\";", "a", 0), ("if header :is ", " \"k\" { keep; }", "Subject", 0), ("if header :is \"Subject\" ", " { keep; }", "k", 0),
        ("if mailboxexists ", " { keep; }", "m", 0), ("notify :options ", " \"xmpp:a\";", "o=1", 0), ("setflag ", ";", "f", 0), ("if not allof(exists ", ", true) { keep; }", "To", 0),
        ("global ", ";", "v", 1), ("require ", ";", "fileinto", 1), ("redirect ", ";", "a@b.cd", 2), ("if header :comparator ", " \"To\" \"x\" { keep; }", "i;octet", 3)]);
    let mut t = String::new();
    let (mut ok, mut n, mut sep) = (true, 0, true);
    for _ in 0..tier(5, 6) {
        match choose(5) {
            0 => break,
            1 => { t.push_str(&format!("\"{s}\" ")); ok &= sep; sep = false; n += 1 }
            2 => { t.push_str("\"${global.q}\" "); ok &= sep && kind & 1 == 0; sep = false; n += 1 }
            3 => { t.push_str(", "); ok &= !sep; sep = true }
            _ => { t.push_str("[ "); ok = false; sep = true }
        }
    }
    ok &= !sep && (kind < 2 || kind == 3 && n == 1);
    reach(if ok { 1 } else { 2 });
    verdict(&format!("{a}[ {t}]{b}"), ok, if ok { "a list is accepted" } else { "what is no list is rejected" });
}
}
entry!{
/// the name of the variable in set, let, extracttext, setflag: up to 3 (thorough: 4) characters of a 1 _ - . space $ é after nothing, "global." or another namespace: accepted exactly when it is a name and not that of a match variable
/// reach: 1 2
h_c20_names {
    let ns = *pick(&["", "global.", "x."]);
    let mut n = String::new();
    for _ in 0..tier(3, 4) { match choose(9) { 0 => break, k => n.push(['a', '1', '_', '-', '.', ' ', '$', '\u{e9}'][k - 1]) } }
    // which dotted names are namespaces, and digits or nothing after a namespace, is not decided here
    assume(!n.contains('.') && (ns.is_empty() || n.starts_with('a')));
    let ok = !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') && !n.chars().all(|c| c.is_ascii_digit()) && ns != "x.";
    let (a, b) = *pick(&[("set ", " \"v\";"), ("set :local :upper ", " \"v\";"), ("let ", " \"1\";"), ("foreverypart { extracttext ", "; }"), ("setflag ", " \"f\";"), ("removeflag ", " [\"f\", \"g\"];")]);
    reach(if ok { 1 } else { 2 });
    verdict(&format!("{a}\"{ns}{n}\"{b}"), ok, if ok { "a variable name is accepted" } else { "anything else is rejected" });
}
}
entry!{
/// each of 18 tests and commands that match by :regex, with a list of up to 3 (thorough: 4) patterns out of 2 well-formed ones, one in a variable, and 2 malformed ones: rejected exactly when a constant one is malformed
/// reach: 1 2
h_c20_patterns {
    let (a, b) = *pick(&[("if header :regex \"Subject\" ", " { keep; }"), ("if not address :regex :localpart [\"To\", \"Cc\"] ", " { keep; }"), ("if envelope :regex \"to\" ", " { keep; }"),
        ("if body :raw :regex ", " { keep; }"), ("if string :regex \"${v}\" ", " { keep; }"), ("if anyof(false, currentdate :regex \"year\" ", ") { keep; }"), ("if date :regex \"Date\" \"hour\" ", " { keep; }"),
        ("if environment :regex \"name\" ", " { keep; }"), ("if hasflag :regex ", " { keep; }"), ("if hasflag :regex \"v\" ", " { keep; }"), ("if metadata :regex \"m\" \"a\" ", " { keep; }"),
        ("if servermetadata :regex \"a\" ", " { keep; }"), ("if notify_method_capability :regex \"mailto:a@b.c\" \"online\" ", " { keep; }"), ("deleteheader :regex \"X-A\" ", ";"), ("deleteheader :index 1 :regex \"X-A\" ", ";"),
        ("if header :mime :param \"p\" :regex \"Content-Type\" ", " { keep; }"), ("if address :regex :comparator \"i;octet\" \"To\" ", " { keep; }"), ("if true { keep; } elsif body :regex ", " { keep; }")]);
    let (mut ps, mut ok) = (vec![], true);
    for _ in 0..1 + choose(tier(3, 4)) { let k = choose(5); ok &= k < 3; ps.push(format!("\"{}\"", ["^a.*b$", "(a|b){2}", "${v}(", "(a", "*b["][k])) }
    let l = if ps.len() == 1 && choose_bool() { ps[0].clone() } else { format!("[{}]", ps.join(", ")) };
    reach(if ok { 1 } else { 2 });
    let e = verdict(&format!("set \"v\" \"x\"; {a}{l}{b} stop;"), ok, if ok { "well-formed patterns are accepted" } else { "a malformed pattern is rejected" });
    if let Some(e) = e { check(e.starts_with("InvalidRegex"), 3, "as a malformed pattern") }
}
}
entry!{
/// each of 12 places for names of header fields, with a list of up to 4 (thorough: 5) out of 2 names of fields, a variable, and 3 texts that are no names: rejected exactly when a constant one is no name
/// reach: 1 2
h_c20_fields {
    // (before, after, the most it takes)
    let (a, b, n) = *pick(&[("if header ", " \"k\" { keep; }", 9), ("if not header :contains ", " \"k\" { keep; }", 9), ("if exists ", " { keep; }", 9), ("if allof(true, exists :mime :anychild ", ") { keep; }", 9),
        ("if date ", " \"hour\" \"1\" { keep; }", 1), ("if duplicate :header ", " { keep; }", 1), ("addheader ", " \"v\";", 1), ("addheader :last ", " \"v\";", 1), ("deleteheader ", ";", 1), ("deleteheader :index 1 ", " \"k\";", 1),
        ("if header :mime :type ", " \"k\" { keep; }", 9), ("if header :count \"ge\" ", " \"1\" { keep; }", 9)]);
    let (mut ps, mut ok) = (vec![], true);
    for _ in 0..1 + choose(tier(4, 5).min(n)) { let k = choose(6); ok &= k < 3; ps.push(format!("\"{}\"", ["Subject", "x-a_1", "${v}", "a b", "", "a:b"][k])) }
    let l = if ps.len() == 1 && (n == 1 || choose_bool()) { ps[0].clone() } else { format!("[{}]", ps.join(", ")) };
    reach(if ok { 1 } else { 2 });
    verdict(&format!("set \"v\" \"x\"; {a}{l}{b} stop;"), ok, if ok { "names of fields are accepted" } else { "what is no name is rejected" });
}
}
entry!{
/// the list of parts of the envelope test: up to 5 (thorough: 6) of 2 parts, one in capitals, one unknown, and a comma, in brackets, each 3 ways: accepted exactly when known parts and single commas alternate
/// reach: 1 2 3
h_c20_envelope {
    let (a, b) = *pick(&[("if envelope ", " \"k\" { keep; }"), ("if envelope :domain :contains ", " [\"k\", \"l\"] { keep; }"), ("if not anyof(envelope :count \"ge\" ", " \"1\", true) { keep; }")]);
    let mut t = String::new();
    let (mut known, mut list, mut sep) = (true, true, true);
    for _ in 0..tier(5, 6) {
        match choose(6) {
            0 => break,
            4 => { t.push_str("\"nosuch\" "); known = false; list &= sep; sep = false }
            5 => { t.push_str(", "); list &= !sep; sep = true }
            k => { t.push_str(["\"to\" ", "\"from\" ", "\"FROM\" "][k - 1]); list &= sep; sep = false }
        }
    }
    list &= !sep;
    let src = format!("require \"ihave\"; {a}[ {t}]{b}");
    note(&src);
    let r = try_compile(src.as_bytes());
    obs(r.is_ok() as u64);
    match (known, list) {
        (true, true) => { reach(1); check(r.is_ok(), 1, "a list of known parts is accepted") }
        (false, _) => { reach(2); check(r.is_err(), 2, "an unknown part is rejected") }
        // known: commas are skipped wherever they stand
        _ => { reach(3); check(r.is_err(), if t.contains('"') { 20 } else { 3 }, "what is no list is rejected") }
    }
}
}
