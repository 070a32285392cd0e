//! C37: a compiled script that is stored and read back is the script that was compiled (built with the features rkyv and serde).
use crate::c30::{norm, obs_norm, runtime, tpl, via, ACT, FORMS, MSG2, TST};
use crate::run::*;
use crate::vf::*;
use rkyv::rancor::Error;

fn run_sieve(r: &Runtime, s: Sieve, v: &str) -> Trace {
    let mut c = ctx(r, MSG2).with_env_variable("v", v).with_global_variable("v", v);
    c.set_spam_status(SpamStatus::MaybeSpam(0.5));
    let mut inc = false;
    let t = run_with(&mut c, s, 64, &mut |e| match e {
        Event::IncludeScript { .. } if !inc => { inc = true; Input::script("s", compile("fileinto :copy \"included\";")) }
        Event::DuplicateId { .. } => Input::False,
        Event::Function { id, arguments } => Input::FncResult(Variable::from(format!("{id}{}", arguments.len()))),
        _ => Input::True,
    });
    check(t.ended, 3, "run ends");
    t
}
/// stores the script in one of the two forms and reads it back
fn back(s: &Sieve, json: bool) -> Sieve {
    if json {
        let b = serde_json::to_vec(s);
        check(b.is_ok(), 4, "the script can be stored");
        let c = serde_json::from_slice::<Sieve>(&b.unwrap());
        check(c.is_ok(), 5, "the stored script can be read");
        c.unwrap()
    } else {
        let b = rkyv::to_bytes::<Error>(s);
        check(b.is_ok(), 4, "the script can be stored");
        let c = rkyv::from_bytes::<Sieve, Error>(&b.unwrap());
        check(c.is_ok(), 5, "the stored script can be read");
        c.unwrap()
    }
}
fn roundtrip(src: &str, v: &str) { roundtrip_sieve(compile(src), v) }
fn roundtrip_sieve(s: Sieve, v: &str) {
    let json = choose_bool();
    let b = back(&s, json);
    check(b == s && serde_json::to_vec(&b).unwrap() == serde_json::to_vec(&s).unwrap(), 1, "the script read back equals the compiled one");
    let r = runtime();
    let t = run_sieve(&r, s, v);
    let u = run_sieve(&r, b, v);
    obs_norm(&u);
    reach(json as u32);
    check(norm(&t) == norm(&u) && format!("{:?}", t.err) == format!("{:?}", u.err), 2, "the script read back runs as the compiled one");
}
entry!{
/// the 29 action scripts of C30, literally and with each argument given through a variable of 9 kinds, stored by rkyv and as JSON
/// reach: 0 1
h_c37_actions {
    let t = tpl(pick(ACT));
    let slot = choose(t.slots.len());
    let src = if choose_bool() { t.fill(usize::MAX, "") } else { via(&t, slot, choose(FORMS)) };
    note(&src);
    roundtrip(&src, &t.slots[slot]);
}
}
entry!{
/// the 47 tests of C30 (every test, most match types), as they are or negated, literally and with each argument given through a variable of 9 kinds, stored by rkyv and as JSON
/// reach: 0 1
h_c37_tests {
    let t = tpl(&format!("setflag \"lst\" \"fa\"; if {}{} {{ fileinto :copy \"T\"; }} else {{ fileinto :copy \"F\"; }}", if choose_bool() { "not " } else { "" }, pick(TST)));
    let slot = choose(t.slots.len());
    let src = if choose_bool() { t.fill(usize::MAX, "") } else { via(&t, slot, choose(FORMS)) };
    note(&src);
    roundtrip(&src, &t.slots[slot]);
}
}
/// one of every value a tag, a match type, an expression, a variable or a loop can take
const MORE: &[&str] = &[
    "redirect :copy :notify \"FAILURE\" :ret \"FULL\" :bytimerelative 60 :bymode \"return\" :bytrace \"x@y.org\";",
    "redirect :notify \"success,delay\" :ret \"HDRS\" :bytimeabsolute \"2030-01-02T03:04:05Z\" :bymode \"notify\" \"x@y.org\";",
    "redirect :notify \"NEVER\" \"x@y.org\";", "redirect :list :copy \"urn:l1\";",
    "vacation :seconds 77 \"away\";", "vacation :days 3 :mime \"X: y\";", "vacation \"away\";",
    "addheader :last \"X-A\" \"b\"; deleteheader :index 1 :is :comparator \"i;octet\" \"X-A\" \"b\"; keep;", "deleteheader :index 1 :last :matches \"X-N\" \"?\"; keep;",
    "deleteheader :mime :anychild \"Content-Type\"; keep;", "deleteheader :mime \"X-N\" \"5\"; keep;", "addheader :last \"X-Z\" \"v\"; keep;",
    "deleteheader :regex \"X-N\" \"^[0-9]$\"; keep;", "deleteheader :value \"gt\" :comparator \"i;ascii-numeric\" \"X-N\" \"3\"; keep;",
    "set :lower \"a\" \"XyZ\"; set :upper \"b\" \"${a}q\"; set :lowerfirst \"c\" \"AB\"; set :upperfirst \"d\" \"ab\"; set :quotewildcard \"e\" \"a*\"; set :quoteregex \"f\" \"a.\"; set :encodeurl \"g\" \"a b\"; set :length \"h\" \"abc\"; set :replace \"x\" \"y\" \"i\" \"axb\"; fileinto \"${a}${b}${c}${d}${e}${f}${g}${h}${i}\";",
    "global \"g\"; set \"g\" \"1\"; fileinto \"${g}${global.g}${env.v}${envelope.from}\";",
    "fileinto \"${header.subject}|${header.x-n:subject[1]}|${header.to[*].addr[1]}|${header.from.name}|${header.from.addr.domain}|${header.date.date}|${header.message-id.id}|${header.content-type.attr.boundary}|${header.content-type.type}|${header.content-type.subtype}|${header.subject.raw}|${header.subject.raw_name}|${header.zz.exists}\";",
    "fileinto \"${body.text}|${body.html}|${body.to_text}|${body.to_html}\"; foreverypart { fileinto :copy \"${part.text}|${part.raw}\"; }",
    "let \"a\" \"1 + 2 * 3 - 4 / 2\"; let \"b\" \"-a < 5 && !(a >= 2 || a != 3) ^ (a == 3)\"; fileinto \"${a} ${b}\";",
    "let \"a\" \"'x' + 1\"; let \"b\" \"a == 'x1' && a <= 'y' && a > 'b'\"; fileinto \"${a}${b}\";",
    "let \"a\" \"header.to[*].addr[*]\"; let \"b\" \"a[1]\"; fileinto \"${b}\";", "let \"a\" \"1.5 * 2\"; fileinto \"${a}\";",
    "let \"i\" \"0\"; while \"i < 3\" { let \"i\" \"i + 1\"; if eval \"i == 2\" { continue; } fileinto :copy \"r${i}\"; }",
    "foreverypart :name \"l\" { foreverypart { break :name \"l\"; } fileinto :copy \"no\"; } fileinto \"yes\";",
    "foreverypart { extracttext :first 3 \"t\"; fileinto :copy \"${t}\"; foreverypart { fileinto :copy \"in\"; } }",
    "if string :matches \"abc\" \"*b?\" { fileinto \"${1}-${2}\"; }", "if string :regex \"abc\" \"(a)(b)\" { fileinto \"${1}-${2}\"; }",
    "if string :value \"ne\" \"a\" \"b\" { fileinto \"1\"; } elsif false { discard; } else { stop; }", "if anyof(not true, allof(true, not false)) { fileinto \"2\"; return; } keep;",
    "if header :index 1 :last :contains \"subject\" \"ell\" { fileinto \"3\"; }", "if header :mime :type :is \"content-type\" \"multipart\" { fileinto \"4\"; }", "if header :mime :anychild :subtype :is \"content-type\" \"html\" { fileinto \"5\"; }",
    "if exists :mime :anychild \"content-type\" { fileinto \"6\"; }", "if address :mime :anychild :user \"from\" \"ann\" { fileinto \"7\"; }", "if address :detail \"to\" \"x\" { fileinto \"8\"; } else { fileinto \"9\"; }",
    "if size :over 100 { fileinto \"a\"; } if size :under 1K { fileinto \"b\"; }", "if date :zone \"+0100\" :is \"date\" \"hour\" \"10\" { fileinto \"c\"; }", "if currentdate :zone \"-0330\" :value \"ge\" \"weekday\" \"0\" { fileinto \"d\"; }",
    "if body :content \"text\" :contains \"two\" { fileinto \"e\"; }", "if environment :is \"v\" \"q\" { fileinto \"f\"; } else { fileinto \"g\"; }",
    "if duplicate :seconds 9 :last { fileinto \"h\"; }", "if spamtest :percent :value \"lt\" :comparator \"i;ascii-numeric\" \"70\" { fileinto \"i\"; }", "if envelope :all :matches \"to\" \"*@b*\" { fileinto \"${1}\"; }",
    "require \"ihave\"; if ihave \"fileinto\" { frobnicate \"x\" [\"y\"] { } }", "require \"ihave\"; if ihave [\"fileinto\", \"nosuch\"] { keep; } else { error \"no\"; }", "require \"vnd.unknown\"; keep;",
    "include :personal \"s\"; include :global :once \"s\"; return;", "include :optional :global \"s\"; keep;", "ereject \"no\";", "notify :importance \"1\" \"mailto:z@b.org\";",
    "set \"envelope.to\" \"n@b.org\"; addflag \"envelope.orcpt\" \"x\"; keep;", "enclose \"e\"; keep :flags \"f\";",
    "if header :comparator \"i;ascii-casemap\" :is \"subject\" \"HELLO\" { fileinto \"j\"; }", "if header :comparator \"i;octet\" :is \"subject\" \"HELLO\" { discard; }", "if header :list \"from\" \"urn:l1\" { fileinto \"k\"; }",
    "convert \"text/plain\" \"text/html\" [\"a=b\"]; if convert \"text/html\" \"text/plain\" \"x=1\" { fileinto \"l\"; }", "removeflag \"a\"; setflag \"x\" \"b\"; if hasflag :count \"eq\" \"x\" \"1\" { fileinto \"m\"; }",
];
entry!{
/// 57 scripts with the remaining tags, match types, operators, variables and loops, stored by rkyv and as JSON
/// reach: 0 1
h_c37_more { let s = *pick(MORE); note(s); roundtrip(s, "val"); }
}
entry!{
/// a constant, a variable name and the text around variables of 2 (thorough: 3) arbitrary printable ASCII characters other than quotes and dots, and 6 values of a number (:first, :seconds, size), stored by rkyv
/// reach: 0
h_c37_text {
    let s = ascii(tier(2, 3));
    let s: String = s.chars().map(|c| if c == '"' || c == '\\' || c == '.' || c.is_control() { '~' } else { c }).collect();
    let n = *pick(&[0u64, 1, 127, 128, 65536, 4294967295]);
    let src = match choose(6) {
        0 => format!("fileinto \"{s}\";"),
        1 => format!("set \"v\" \"x\"; fileinto \"{s}${{v}}{s}\";"),
        2 => format!("if header :matches \"subject\" \"{s}*\" {{ fileinto \"t\"; }}"),
        3 => format!("foreverypart {{ extracttext :first {n} \"t\"; }} fileinto \"x\";"),
        4 => format!("if size :over {n} {{ fileinto \"{s}\"; }}"),
        _ => format!("vacation :seconds {n} \"{s}\";"),
    };
    let a = compile(&src);
    let b = back(&a, false);
    reach(0);
    check(b == a, 1, "the script read back equals the compiled one");
}
}
entry!{
/// 14 expressions in :regex (anchors, classes, groups, case, back references) against 8 values (several lines, capitals, two-byte letters, empty), the captures delivered; 10 numbers in expressions and arguments; 18 header variables with indexes and parts, stored by rkyv and as JSON
/// reach: 0 1
h_c37_values {
    let src = match choose(3) {
        0 => {
            let re = *pick(&["^b$", "^a", "b$", "a.b", "A", "(?i)A", "\\\\d+", "(x|y)+z", "(.)\\\\1", "^$", "[[:alpha:]]+", "\u{e9}", "(?s)a.*b", "\\\\bq\\\\b"][..]);
            format!("if string :regex \"{}\" \"{re}\" {{ fileinto \"M${{0}}-${{1}}\"; }} else {{ fileinto \"N\"; }}", pick(&["a\r\nb", "a", "aXb", "aa11", "xyz", "", "\u{c9}\u{e9}", "p q r"][..]))
        }
        1 => { let n = *pick(&["0", "1", "9007199254740993", "9223372036854775807", "4294967296", "-9223372036854775807", "1.5", "0.1", "123456789.25", "100000000000000000000.5"]); let o = *pick(&["", "a", "a + 1", "a > 9007199254740992"]); if o.is_empty() { format!("fileinto \"{n}\";") } else { format!("let \"a\" \"{n}\"; let \"b\" \"{o}\"; fileinto \"${{b}}\";") } }
        _ => format!("fileinto \"x${{header.{}}}\";", pick(&["to.addr[2]", "to[2].addr", "to[1].addr[1]", "x-n[1]", "x-n[-1]", "x-n[*]", "x-n[2]", "to.name[1]", "to[*].addr[*]", "received.date", "received.rcvd.ip", "received.rcvd.from.name", "received.rcvd.by.ip", "received.rcvd.date", "received[1].rcvd.with", "content-type.attr.charset", "x-n:x-a[1]", "to.raw"])),
    };
    note(&src);
    roundtrip(&src, "v");
}
}
