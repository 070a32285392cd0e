//! C02: no script, message or reply of the host makes a run panic, loop beyond its limit or read out of range.
use crate::run::*;
use crate::vf::*;

pub const DEEP: &[u8] = b"From: ann@a.org\r\nTo: bob@b.org\r\nSubject: multi\r\nX-A: 1\r\nMIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=\"b1\"\r\n\r\n--b1\r\nContent-Type: multipart/alternative; boundary=\"b2\"\r\n\r\n--b2\r\nContent-Type: text/plain\r\n\r\none\r\n--b2\r\nContent-Type: text/html\r\nX-A: 2\r\n\r\n<p>two</p>\r\n--b2--\r\n--b1\r\nContent-Type: text/plain\r\nContent-Disposition: attachment; filename=\"a.txt\"\r\n\r\nthree\r\n--b1--\r\n";
pub const NEST: &[u8] = b"From: ann@a.org\r\nTo: bob@b.org\r\nContent-Type: multipart/mixed; boundary=b1\r\n\r\n--b1\r\nContent-Type: message/rfc822\r\n\r\nSubject: inner\r\nX-A: 3\r\nContent-Type: multipart/mixed; boundary=b2\r\n\r\n--b2\r\n\r\nin\r\n--b2--\r\n--b1\r\nContent-Type: image/png\r\nContent-Transfer-Encoding: base64\r\n\r\nAAAA\r\n--b1--\r\n";
pub const MSGS: &[&[u8]] = &[MSG, DEEP, NEST, crate::c30::MSG2, b"", b"Subject: x", b"\r\nonly body", b"Content-Type: multipart/mixed; boundary=q\r\n\r\n--q\r\n", b"From:\r\nTo: \r\nSubject:\r\nDate: x\r\nReceived:\r\nContent-Type: ;;\r\n\r\n"];
/// runs to the end whatever happens; a panic, overflow or fault is reported by the engine itself
fn to_end(src: &str, msg: &[u8], reply: usize) {
    note(src);
    let s = match Compiler::new().with_no_capability_check(true).compile(src.as_bytes()) { Ok(s) => s, Err(_) => return };
    let r = rt().with_cpu_limit(400).with_max_redirects(2).with_max_out_messages(4);
    let mut c = ctx(&r, msg);
    let inc = compile("keep;");
    let mut k = 0;
    let t = run_with(&mut c, s, 600, &mut |e| { k += 1; match e { Event::IncludeScript { name, .. } if reply != 1 && k < 4 => Input::script(name.clone(), inc.clone()), _ => match reply { 0 => Input::True, 1 => Input::False, _ => if k % 2 == 0 { Input::True } else { Input::False } } } });
    obs(t.ev.len() as u64);
    reach(1);
    check(t.ended, 1, "the run ends");
}
const OPS: &[&str] = &["addheader \"X-A\" \"v\";", "addheader :last \"X-A\" \"v\";", "deleteheader \"X-A\";", "deleteheader :index 1 :last \"Subject\";", "deleteheader \"Content-Type\";", "replace \"r\";", "replace :mime :subject \"s\" :from \"f@g.h\" \"Content-Type: text/plain\r\n\r\nq\";", "enclose :subject \"s\" :headers [\"X-Q: 1\", \"bad\"] \"t\";", "convert \"text/html\" \"text/plain\" \"\";", "convert \"text/plain\" \"text/html\" \"\";", "extracttext :first 2 \"v\";", "fileinto :copy \"f\";", "redirect :copy \"a@b.org\";"];
const WRAP: &[(&str, &str)] = &[("", ""), ("foreverypart { ", "} "), ("foreverypart { foreverypart { ", "} } "), ("foreverypart { if header :mime :type \"content-type\" \"multipart\" { ", "} } ")];
entry!{
/// every sequence of 2 (thorough: 3) out of 13 actions that change or read the message, all inside one of 4 contexts (top level, foreverypart, nested foreverypart, on multiparts only) and one more after it, on 9 messages (nested, empty, headers only, broken)
/// reach: 1
h_c02_message {
    let m = *pick(MSGS);
    let (a, b) = *pick(WRAP);
    let mut s = String::from(a);
    for _ in 0..tier(2, 3) { s.push_str(pick(OPS)); s.push(' '); }
    s.push_str(b);
    s.push_str(pick(&["", "deleteheader \"X-A\"; ", "foreverypart { addheader \"X-Z\" \"1\"; } ", "replace \"z\"; "]));
    s.push_str("keep;");
    to_end(&s, m, 0);
}
}
const BIG: &[u8] = &[b'y'; 700];
entry!{
/// a header of 700 bytes deleted (before or after one of the 13 actions) and the message rebuilt: sizes never go wrong
/// reach: 1
h_c02_size {
    let mut m = b"X-Big: ".to_vec();
    m.extend_from_slice(BIG);
    m.extend_from_slice(b"\r\n");
    m.extend_from_slice(pick(MSGS));
    let (x, y) = (*pick(OPS), *pick(OPS));
    let s = match choose(3) { 0 => format!("deleteheader \"X-Big\"; {x} {y}"), 1 => format!("{x} deleteheader \"X-Big\"; {y}"), _ => format!("{x} {y} deleteheader \"X-Big\"; if size :under 10 {{ fileinto \"q\"; }}") };
    to_end(&s, &m, 0);
}
}
/// templates of C30 with one argument replaced
fn arg(tests: bool) {
    let l = if tests { crate::c30::TST } else { crate::c30::ACT };
    let t = *pick(l);
    let n = t.matches("<<").count();
    let slot = choose(n);
    let mut v: String = match choose(3) {
        0 => { let k = choose(tier(1, 2)) + 1; ascii(k) }
        1 => (*pick(&["", "(", "[a", "*a", "a{99999}", "%", "%4", "%zz", "\u{e9}", "mailto:", "mailto:a@b?%0D", "mailto:?to=%", ":", "x:", "99999999999999999999", "-9223372036854775808", "1e999", "\u{0}", "\r\n", "<", "<a@b", "\"", "\\", "a@", "@b.", "2030-01-02T03:04:05", "9999999999-99-99T99:99:99Z", "+9999", "0"])).to_string(),
        _ => (*pick(&["x", "\u{e9}", "*", "?", "\\", "(", ".", " ", "%41", "a@b.c,"])).repeat(*pick(&[40usize, 300])),
    };
    if thorough() && choose_bool() { v.push_str(pick(&["*", "%", "\u{20ac}", "\r\n "])); }
    let mut k = 0;
    let mut o = String::new();
    let mut r = t;
    while let Some(p) = r.find("<<") {
        let e = r.find(">>").unwrap();
        o.push_str(&r[..p]);
        o.push('"');
        o.push_str(if k == slot { "${global.v}" } else { &r[p + 2..e] });
        o.push('"');
        r = &r[e + 2..];
        k += 1;
    }
    o.push_str(r);
    let src = if tests { format!("setflag \"lst\" \"fa\"; if {o} {{ keep; }} else {{ fileinto \"q\"; }}") } else { o };
    note(&src); note(&v);
    let s = compile(&src);
    let r = rt().with_max_out_messages(5).with_max_redirects(5).with_valid_notification_uri("mailto").with_valid_ext_list("urn:list");
    let mut c = ctx(&r, crate::c30::MSG2);
    c.set_global_variable("v", v);
    let inc = compile("keep;");
    let t = run_with(&mut c, s, 64, &mut |e| match e { Event::IncludeScript { name, .. } => Input::script(name.clone(), inc.clone()), Event::DuplicateId { .. } => Input::False, _ => Input::True });
    obs(t.ev.len() as u64);
    reach(1);
    check(t.ended, 1, "the run ends");
}
entry!{
/// every string argument of the 29 action scripts of C30 given by free text of one (thorough: two) printable characters, by 29 awkward values (empty, broken patterns, escapes, URIs, addresses, dates, numbers, control characters) or by one of 10 characters repeated up to 300 times
/// reach: 1
h_c02_actargs { arg(false); }
}
entry!{
/// the same for every string argument of 47 tests
/// reach: 1
h_c02_testargs { arg(true); }
}
entry!{
/// 30 scripts using every test, expression function and variable namespace on a message with one free byte at any position of its headers and first body lines, or cut there
/// reach: 1
h_c02_bytes {
    let base = crate::c30::MSG2;
    let n = tier(140, base.len());
    let p = choose(n);
    let mut m = base.to_vec();
    match choose(2) { 0 => { m[p] = u8s() } _ => { m.truncate(p) } }
    let s = *pick(&[
        "if anyof (header :contains [\"from\", \"to\", \"subject\", \"x-n\", \"date\"] \"zq\", address :domain [\"from\", \"to\"] \"zq\", exists \"zq\", size :over 10K) { discard; } set \"a\" \"${header.from.name}${header.from.addr}${header.to[*].addr[*].domain}${header.date.date.hour}${header.content-type.type}${header.content-type.attr.boundary}${header.subject}\"; fileinto \"${a}\";",
        "foreverypart { if header :mime :param \"boundary\" \"content-type\" \"b\" { addheader \"X\" \"y\"; } } if date :value \"ge\" \"date\" \"hour\" \"09\" { vacation \"x\"; }",
        "deleteheader :contains \"x-n\" \"5\"; replace \"r\"; enclose \"e\"; keep;",
    ]);
    to_end(s, &m, 2);
}
}
entry!{
/// every seed script of C01 (actions, tests, expressions, structure) on 9 messages with the host answering yes, no or alternately
/// reach: 1
h_c02_seeds {
    let l = *pick(&[crate::tpl::CORE, crate::tpl::ACTIONS, crate::tpl::TESTS, crate::tpl::EXPR]);
    let s = *pick(l);
    to_end(s, pick(MSGS), choose(3));
}
}
entry!{
/// every string argument of the 29 action scripts of C30 given by texts of characters of 1 to 4 bytes (with line breaks, colons, wildcards, percent signs), under limits of 0 to 12 bytes for variables and header fields, 0 to 2 messages and includes
/// reach: 1
h_c02_limits {
    let t = *pick(crate::c30::ACT);
    let n = t.matches("<<").count();
    let slot = choose(n);
    let l = choose(13);
    let v: String = match choose(5) { 0 => "a€é𝄞é€".into(), 1 => "é\r\n€: 𝄞%*".into(), 2 => "€@é.𝄞".into(), 3 => "abcdé€𝄞𝄞".into(), _ => "mailto:é@€?subject=𝄞é".into() };
    let mut k = 0;
    let mut o = String::new();
    let mut r = t;
    while let Some(p) = r.find("<<") {
        let e = r.find(">>").unwrap();
        o.push_str(&r[..p]);
        o.push('"');
        o.push_str(if k == slot { &v } else { &r[p + 2..e] });
        o.push('"');
        r = &r[e + 2..];
        k += 1;
    }
    o.push_str(r);
    note(&o);
    let s = match Compiler::new().with_no_capability_check(true).compile(o.as_bytes()) { Ok(s) => s, Err(_) => return };
    let r = rt().with_max_variable_size(l).with_max_header_size(l).with_max_out_messages(l % 3).with_max_redirects(l % 3).with_max_nested_includes(l % 3).with_valid_notification_uri("mailto").with_valid_ext_list("urn:list");
    let mut c = ctx(&r, crate::c30::MSG2);
    let inc = compile("keep;");
    let t = run_with(&mut c, s, 64, &mut |e| match e { Event::IncludeScript { name, .. } => Input::script(name.clone(), inc.clone()), Event::DuplicateId { .. } => Input::False, _ => Input::True });
    obs(t.ev.len() as u64);
    reach(1);
    check(t.ended, 1, "the run ends");
}
}
const EXTREME: &[&str] = &["0", "1", "-1", "-2", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "65535", "65536", "4G", "17179869184G", "8796093022208M"];
const NUMS: &[&str] = &[
    "fileinto \"x${header.subject[#]}\";", "fileinto \"x${header.x-a[1][#]}\";", "fileinto \"x${header.to[#].addr}\";", "fileinto \"x${header.to.addr[#]}\";", "fileinto \"x${header.received[-1].id[#]}\";", "fileinto \"x${header.subject[#][#]}\";",
    "set \"v\" \"${#}\";", "if string :matches \"abc\" \"*\" { fileinto \"${#}\"; }", "let \"x\" \"global.v[#]\";", "let \"x\" \"'abc' + #\";", "let \"x\" \"# - 1\";", "let \"x\" \"# + 1\";", "let \"x\" \"# * 2\";", "let \"x\" \"0 - #\";", "let \"x\" \"-(#)\";", "let \"x\" \"# / -1\";", "let \"x\" \"[1, 2][#]\";", "let \"x\" \"7 / #\";",
    "if header :index # \"X-A\" \"1\" { keep; }", "if header :index # :last \"X-A\" \"1\" { keep; }", "if address :index # \"to\" \"1\" { keep; }", "if date :index # \"received\" \"year\" \"2023\" { keep; }", "deleteheader :index # \"X-A\";", "deleteheader :index # :last \"X-A\";",
    "extracttext :first # \"v\";", "foreverypart { extracttext :first # \"v\"; }", "vacation :days # \"r\";", "vacation :seconds # \"r\";", "if duplicate :seconds # { keep; }", "if size :over # { keep; }", "if size :under # { keep; }", "redirect :bytimerelative # \"a@b.org\";", "redirect :bytimerelative # :bymode \"notify\" \"a@b.org\";",
    "if header :count \"gt\" :comparator \"i;ascii-numeric\" \"X-A\" \"#\" { keep; }", "if header :value \"ge\" :comparator \"i;ascii-numeric\" \"X-A\" \"#\" { keep; }", "if spamtest :value \"ge\" \"#\" { keep; }", "if currentdate :zone \"#\" \"hour\" \"10\" { keep; }", "if date :zone \"+#\" \"date\" \"year\" \"2023\" { keep; }", "if date :value \"ge\" \"date\" \"julian\" \"#\" { keep; }", "if string :value \"lt\" \"#\" \"${global.v}\" { keep; }", "set :length \"v\" \"#\"; keep;", "eval \"#\";", "while \"# > 1\" { break; }", "if hasflag :count \"ge\" \"#\" { keep; }", "if not virustest :value \"eq\" \"#\" { keep; }", "if date :originalzone \"date\" \"hour\" \"#\" { keep; }", "if convert \"text/plain\" \"text/html\" [\"length=#\"] { keep; }"
];
entry!{
/// 20 numbers at the ends of every machine width (also with K, M, G suffixes) in each of 47 places that take a number: header variable indexes and parts, match variables, expressions, :index, :first, :days, :seconds, size, :bytimerelative, :count, :value, zones
/// reach: 1
h_c02_numbers {
    let n = *pick(EXTREME);
    let s = pick(NUMS).replace('#', n);
    to_end(&s, *pick(&[MSG, crate::c30::MSG2]), 0);
}
}
