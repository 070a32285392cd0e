//! C03: the compiler rejects a script exactly when it exceeds one of its limits, with the error of that limit.
use crate::run::*;
use crate::vf::*;

fn comp() -> Compiler { Compiler::new().with_no_capability_check(true) }
fn outcome(c: &Compiler, src: &str) -> Option<String> {
    note(src);
    let r = c.compile(src.as_bytes()).err().map(|e| format!("{:?}", e.error_type()));
    obs(r.is_some() as u64);
    r
}
/// `over`: the error expected, None when the script is within the limits
fn want(got: Option<String>, over: Option<ErrorType>) {
    let over = over.map(|e| format!("{e:?}"));
    reach(if over.is_some() { 2 } else { 1 });
    match (&got, &over) {
        (None, Some(_)) => check(false, 1, "a script over the limit is rejected"),
        (Some(e), None) => { note(e); check(false, 2, "a script within the limits is accepted") }
        (Some(a), Some(b)) => check(a == b, 3, "the error names the limit"),
        _ => {}
    }
}
entry!{
/// script sizes of 5 to 13 bytes (ended by a statement, spaces, a comment or a line end) under limits of 4 to 14 bytes
/// reach: 1 2
h_c03_script {
    let (n, k, lim) = (choose(9), choose(4), choose(11) + 4);
    let src = match k { 0 => format!("keep;{}", " ".repeat(n)), 1 => format!("{}keep;", "\n".repeat(n)), 2 => format!("keep;{}", "#x2345678".get(..n).unwrap()), _ => format!("keep{};", " ".repeat(n)) };
    let c = if choose_bool() { comp().with_max_script_size(lim) } else { let mut c = comp(); c.set_max_script_size(lim); c };
    let got = outcome(&c, &src);
    if src.len() > lim { check(c.compile(src.as_bytes()).err().map(|e| e.line_num()) == Some(0), 4, "no line for a script that is too long") }
    want(got, if src.len() > lim { Some(ErrorType::ScriptTooLong) } else { None });
}
}
entry!{
/// strings of 3 to 9 characters (plain, with an escape, with a variable, digits, multi-byte, multi-line, in a list, as a test argument) under limits of 3 to 11: the length must be below the limit
/// reach: 1 2
h_c03_string {
    let (n, k, lim) = (choose(7) + 3, choose(9), choose(9) + 3);
    let x = "x".repeat(n);
    let (src, len) = match k {
        0 => (format!("fileinto \"{x}\";"), n),
        1 => (format!("fileinto \"\\\"{}\";", &x[1..]), n),
        2 => (format!("fileinto \"{}${{a}}\";", &x), n + 4),
        3 => (format!("fileinto \"{}\";", "1".repeat(n)), n),
        4 => (format!("fileinto \"{}\u{e9}\";", &x[2..]), n),
        5 => (format!("fileinto text:\r\n{}\r\n.\r\n;", &x[2..]), n),
        6 => (format!("fileinto text:\r\n..{}\r\n.\r\n;", &x[3..]), n),
        7 => (format!("if header \"a\" [\"b\", \"{x}\"] {{ keep; }}"), n),
        _ => (format!("if header :comparator \"i;octet\" \"{x}\" \"b\" {{ keep; }}"), n.max(7)),
    };
    let c = if choose_bool() { comp().with_max_string_size(lim) } else { let mut c = comp(); c.set_max_string_size(lim); c };
    let got = outcome(&c, &src);
    want(got, if len >= lim { Some(ErrorType::StringTooLong) } else { None });
}
}
entry!{
/// towers of up to 4 (thorough: 5) blocks, each an if, else, while or foreverypart (or an if beside one), under block limits of 0 to 5 and foreverypart limits of 0 to 3: no more blocks than the limit, no foreverypart inside more of them than its limit
/// reach: 1 2
h_c03_blocks {
    let d = choose(tier(4, 5) + 1);
    let (lb, lf) = (choose(6), choose(4));
    let (mut s, mut e, mut fep, mut over) = (String::new(), String::new(), 0usize, None);
    let set = |o: &mut Option<ErrorType>, t: ErrorType| if o.is_none() { *o = Some(t) };
    for i in 0..d {
        let k = choose(5);
        // an error is found at the word foreverypart, before that of the block itself
        if k == 3 {
            if fep > lf { set(&mut over, ErrorType::TooManyNestedForEveryParts) }
            fep += 1;
        }
        if i >= lb { set(&mut over, ErrorType::TooManyNestedBlocks) }
        match k {
            0 => { s.push_str("if true { "); e.insert_str(0, "} ") }
            1 => { s.push_str("if false { } else { "); e.insert_str(0, "} ") }
            2 => { s.push_str("while \"0\" { "); e.insert_str(0, "} ") }
            3 => { s.push_str("foreverypart { "); e.insert_str(0, "} ") }
            _ => { s.push_str("if true { } elsif true { "); e.insert_str(0, "} else { keep; } ") }
        }
    }
    let src = format!("{s}keep; {e}");
    let c = if choose_bool() { comp().with_max_nested_blocks(lb).with_max_nested_foreverypart(lf) } else { let mut c = comp(); c.set_max_nested_blocks(lb); c.set_max_nested_foreverypart(lf); c };
    let got = outcome(&c, &src);
    want(got, over);
}
}
entry!{
/// foreverypart loops 1 to 6 deep, an if between any two of them, under foreverypart limits of 0 to 4, after another loop or not
/// reach: 1 2
h_c03_fep {
    let (d, lf, before) = (choose(6) + 1, choose(5), choose_bool());
    let (mut s, mut e) = (String::from(if before { "foreverypart { } " } else { "" }), String::new());
    for _ in 0..d {
        if choose_bool() { s.push_str("if true { "); e.push_str("} ") }
        s.push_str("foreverypart { "); e.push_str("} ");
    }
    let src = format!("{s}keep; {e}");
    let got = outcome(&comp().with_max_nested_foreverypart(lf), &src);
    want(got, if d > lf + 1 { Some(ErrorType::TooManyNestedForEveryParts) } else { None });
}
}
entry!{
/// towers of up to 4 allof, anyof and not (siblings before and after) under limits of 0 to 5
/// reach: 1 2
h_c03_tests {
    let (d, lim) = (choose(5), choose(6));
    let (mut s, mut e, mut n) = (String::new(), String::new(), 0);
    for _ in 0..d {
        match choose(5) {
            0 => { s.push_str("allof("); e.insert_str(0, ")"); n += 1 }
            1 => { s.push_str("anyof(true, "); e.insert_str(0, ")"); n += 1 }
            2 => { s.push_str("allof("); e.insert_str(0, ", true)"); n += 1 }
            3 => s.push_str("not "),
            _ => { s.push_str("not anyof("); e.insert_str(0, ")"); n += 1 }
        }
    }
    let src = format!("if {s}true{e} {{ keep; }} elsif true {{ stop; }}");
    let c = if choose_bool() { comp().with_max_nested_tests(lim) } else { let mut c = comp(); c.set_max_nested_tests(lim); c };
    let got = outcome(&c, &src);
    want(got, if n > lim { Some(ErrorType::TooManyNestedTests) } else { None });
}
}
entry!{
/// up to 4 includes, at the top, in an if, an else, a loop or blocks inside these, one or two in a block, under limits of 0 to 5
/// reach: 1 2
h_c03_includes {
    let (d, lim) = (choose(5), choose(6));
    let mut s = String::new();
    let mut i = 0;
    while i < d {
        let k = choose(7);
        s.push_str(["include \"x\"; ", "if true { include :once :optional \"x\"; } ", "if true { } else { include :global \"${a}\"; } ", "foreverypart { include \"x\"; } ", "if true { if false { } elsif true { include \"x\"; } } ", "foreverypart { if true { while \"1\" { include :personal \"x\"; } } } ", "if true { if true { include \"x\"; include \"y\"; } } "][k]);
        i += 1 + (k == 6) as usize;
    }
    let d = i;
    let c = if choose_bool() { comp().with_max_includes(lim) } else { let mut c = comp(); c.set_max_includes(lim); c };
    let got = outcome(&c, &s);
    want(got, if d > lim { Some(ErrorType::TooManyIncludes) } else { None });
}
}
entry!{
/// a match variable of any number 0 to 70 under limits of 0 to 70: below the limit and below 63
/// reach: 1 2
h_c03_match {
    let lims = [0usize, 1, 2, 10, 30, 62, 63, 64, 70];
    let lim = *pick(&lims);
    let n = *pick(&[0usize, 1, 2, 9, 10, 29, 30, 61, 62, 63, 64, 70]);
    let src = match choose(3) { 0 => format!("if header :matches \"a\" \"*\" {{ fileinto \"${{{n}}}\"; }}"), 1 => format!("fileinto \"x${{{n}}}y\";"), _ => format!("if header :regex \"a\" \"(.)\" {{ if true {{ set \"global.a\" \"${{0}}${{{n}}}\"; }} }}") };
    let zero_first = src.contains("${0}$") && lim == 0;
    let c = if choose_bool() { comp().with_max_match_variables(lim) } else { let mut c = comp(); c.set_max_match_variables(lim); c };
    let got = outcome(&c, &src);
    want(got, if zero_first { Some(ErrorType::InvalidMatchVariable(0)) } else if n >= lim.min(63) { Some(ErrorType::InvalidMatchVariable(n)) } else { None });
}
}
entry!{
/// every program of 4 (thorough: 5) steps out of: assign one of three names (plain, or :local, in any case), let, open an if or foreverypart, close the block; under limits of 0 to 4: the variables alive at one time plus the :local ones inside blocks
/// reach: 1 2
h_c03_locals {
    let lim = choose(5);
    let n = tier(4, 5);
    let (mut s, mut scopes): (String, Vec<Vec<&str>>) = (String::new(), vec![vec![]]);
    let (mut peak, mut locals, mut over) = (0usize, 0usize, false);
    for _ in 0..n {
        let k = choose(7);
        match k {
            0..=4 => {
                let (name, local) = [("a", false), ("b", false), ("a", true), ("c", true), ("c", false)][k];
                s.push_str(&match k { 0 => "set \"A\" \"1\"; ".to_string(), 4 => "let \"c\" \"1\"; ".into(), _ => format!("set {}\"{name}\" \"1\"; ", if local { ":local " } else { "" }) });
                if !scopes.iter().any(|v| v.contains(&name)) {
                    if local && scopes.len() > 1 { scopes[0].push(name); locals += 1 } else { scopes.last_mut().unwrap().push(name) }
                }
                peak = peak.max(scopes.iter().map(|v| v.len()).sum::<usize>() - locals);
                over |= peak + locals > lim;
            }
            5 => { s.push_str("if true { "); scopes.push(vec![]) }
            _ => if scopes.len() > 1 { s.push_str("} "); scopes.pop(); } else { s.push_str("keep; ") },
        }
    }
    for _ in 1..scopes.len() { s.push_str("} ") }
    let c = if choose_bool() { comp().with_max_local_variables(lim) } else { let mut c = comp(); c.set_max_local_variables(lim); c };
    let got = outcome(&c, &s);
    want(got, if over { Some(ErrorType::TooManyLocalVariables) } else { None });
}
}
entry!{
/// global names of 1 to 6 characters, alone or in a list, under limits of 0 to 7; names of local variables of the same or another block, in any case, are refused
/// reach: 1 2
h_c03_globals {
    let (n, lim, k) = (choose(6) + 1, choose(8), choose(7));
    let x = "nmopqr"[..n].to_string();
    let l = n >= lim;
    let (src, over) = match k {
        0 => (format!("global \"{x}\"; keep;"), l),
        1 => (format!("global [\"{x}\", \"{x}\"]; keep;"), l),
        2 => (format!("if true {{ global \"{x}\"; }} set \"{x}\" \"1\"; "), l),
        3 => (format!("if true {{ set \"{x}\" \"1\"; }} global \"{x}\"; keep;"), l),
        4 => (format!("set \"{x}\" \"1\"; global \"{x}\"; keep;"), true),
        5 => (format!("set \"{x}\" \"1\"; if true {{ global \"{}\"; }} keep;", x.to_uppercase()), true),
        _ => (format!("global \"{x}\"; set \"{x}\" \"1\"; global \"{x}\"; keep;"), l),
    };
    let c = if choose_bool() { comp().with_max_variable_name_size(lim) } else { let mut c = comp(); c.set_max_variable_name_size(lim); c };
    let got = outcome(&c, &src);
    let e = if k == 4 { Some(ErrorType::VariableIsLocal(x)) } else if k == 5 { Some(ErrorType::VariableIsLocal(x.to_uppercase())) } else if over { Some(ErrorType::VariableTooLong) } else { None };
    want(got, e);
}
}
entry!{
/// constant addheader values of 1 to 8 bytes under limits of 0 to 9; values with a variable are not limited at compile time
/// reach: 1 2
h_c03_header {
    let (n, lim, k) = (choose(8) + 1, choose(10), choose(3));
    let x = &"v\u{e9}bcdefgh"[..if n == 2 { 3 } else { n }];
    let src = match k { 0 => format!("addheader \"X-A\" \"{x}\";"), 1 => format!("addheader :last \"X-A\" \"{x}\"; keep;"), _ => format!("set \"a\" \"1\"; addheader \"X-A\" \"{x}${{a}}\";") };
    let c = if choose_bool() { comp().with_max_header_size(lim) } else { let mut c = comp(); c.set_max_header_size(lim); c };
    let got = outcome(&c, &src);
    want(got, if k < 2 && x.len() > lim { Some(ErrorType::HeaderTooLong) } else { None });
}
}
