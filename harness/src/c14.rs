//! C14: comparison tests succeed exactly when some value matches some key under the comparator.
use crate::run::*;
use crate::vf::*;

fn lower(s: &str) -> String { s.to_ascii_lowercase() }
#[derive(Clone, Copy, PartialEq)]
enum M { Is, Contains, Value(usize), Count(usize) }
const RELS: &[&str] = &["gt", "ge", "lt", "le", "eq", "ne"];
fn rel<T: PartialOrd>(r: usize, a: &T, b: &T) -> bool { match r { 0 => a > b, 1 => a >= b, 2 => a < b, 3 => a <= b, 4 => a == b, _ => a != b } }
/// value of a string of digits under the numeric comparator: anything else is positive infinity
fn num(s: &str) -> u64 { if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) { u64::MAX } else { s.bytes().fold(0, |a, c| a * 10 + (c - b'0') as u64) } }
fn cmp(m: M, comp: usize, v: &str, k: &str) -> bool {
    match (m, comp) {
        (M::Is, 0) => lower(v) == lower(k),
        (M::Is, 1) => v == k,
        (M::Is, _) => num(v) == num(k),
        (M::Contains, 0) => lower(v).contains(&lower(k)),
        (M::Contains, _) => v.contains(k),
        (M::Value(r), 0) => rel(r, &lower(v).as_bytes(), &lower(k).as_bytes()),
        (M::Value(r), 1) => rel(r, &v.as_bytes(), &k.as_bytes()),
        (M::Value(r), _) => rel(r, &num(v), &num(k)),
        _ => false,
    }
}
const COMPS: &[&str] = &["i;ascii-casemap", "i;octet", "i;ascii-numeric"];
fn tag(m: M) -> String { match m { M::Is => ":is".into(), M::Contains => ":contains".into(), M::Value(r) => format!(":value \"{}\"", RELS[r]), M::Count(r) => format!(":count \"{}\"", RELS[r]) } }
fn list(names: &[&str]) -> String {
    let v: Vec<String> = names.iter().map(|n| format!("\"${{global.{n}}}\"")).collect();
    format!("[{}]", v.join(", "))
}
fn stringtest(m: M, comp: usize, neg: bool, vals: &[String], keys: &[String]) {
    let vn = &["v0", "v1", "v2"][..vals.len()];
    let kn = &["k0", "k1", "k2"][..keys.len()];
    let src = format!("if {} string {} :comparator \"{}\" {} {} {{ fileinto \"T\"; }} else {{ fileinto \"F\"; }}", if neg { "not" } else { "" }, tag(m), COMPS[comp], list(vn), list(kn));
    let r = rt();
    let mut c = ctx(&r, MSG);
    for (n, v) in vn.iter().zip(vals) { c.set_global_variable(*n, v.clone()); }
    for (n, v) in kn.iter().zip(keys) { c.set_global_variable(*n, v.clone()); }
    let t = run_with(&mut c, compile(&src), 8, &mut reply_true);
    let want = match m {
        M::Count(r) => { let n = vals.iter().filter(|v| !v.is_empty()).count() as u64; keys.iter().any(|k| rel(r, &n, &num(k))) }
        _ => vals.iter().any(|v| keys.iter().any(|k| cmp(m, comp, v, k))),
    };
    note(&src);
    for v in vals.iter().chain(keys) { noteb(v.as_bytes()); }
    let got = t.ev.iter().any(|e| matches!(e, Event::FileInto { folder, .. } if folder == "T"));
    obs(got as u64);
    if want { reach(1) } else { reach(2) }
    check(t.err.is_none(), 1, "no runtime error");
    // known finding: with several keys only the verdict of the last one counts
    let last = keys.last().map_or(false, |k| vals.iter().any(|v| cmp(m, comp, v, k)));
    if keys.len() > 1 && !matches!(m, M::Count(_)) && got != (want != neg) && got == (last != neg) { check(false, 20, "KNOWN verdict of the last key only"); }
    check(got == (want != neg), 2, "the test succeeds exactly when some value matches some key");
}
fn vk(al: &[u8], nv: usize, nk: usize, len: usize) -> (Vec<String>, Vec<String>) {
    let g = |n: usize| -> Vec<String> { (0..n).map(|_| { let l = choose(len + 1); alpha(l, al) }).collect() };
    (g(nv), g(nk))
}
entry!{
/// :is and :contains, i;ascii-casemap and i;octet, negated or not, 1-2 values and 1-2 keys of up to 1 (thorough: 2) free characters of aAb@[Z
/// reach: 1 2
h_c14_is {
    let m = *pick(&[M::Is, M::Contains]);
    let comp = choose(2);
    let neg = choose_bool();
    let (nv, nk) = (1 + choose(2), 1 + choose(2));
    let (v, k) = vk(b"aAb[", nv, nk, tier(1, 2));
    stringtest(m, comp, neg, &v, &k);
}
}
entry!{
/// one value of up to 3 and one key of up to 2 free printable characters
/// reach: 1 2
h_c14_one {
    let m = *pick(&[M::Is, M::Contains]);
    let comp = choose(2);
    let (lv, lk) = (choose(tier(3, 4)), choose(3));
    let v = ascii(lv); let k = ascii(lk);
    stringtest(m, comp, false, &[v], &[k]);
}
}
entry!{
/// :value with every relation under i;ascii-casemap and i;octet: one value, two keys, up to 1 (thorough: 2) characters
/// reach: 1 2
h_c14_value {
    let m = M::Value(choose(6));
    let comp = choose(2);
    let nk = 1 + choose(2);
    let (v, k) = vk(b"aAbB[", 1, nk, tier(1, 2));
    stringtest(m, comp, false, &v, &k);
}
}
entry!{
/// i;ascii-numeric: :is and :value with every relation; value out of 8 digit strings and non-numbers, key likewise, a second key in half the cases
/// reach: 1 2
h_c14_numeric {
    let m = { let c = choose(7); if c == 6 { M::Is } else { M::Value(c) } };
    const S: &[&str] = &["", "0", "1", "9", "10", "010", "a", "1a"];
    let mut k = vec![pick(S).to_string()];
    if choose_bool() { k.push("5".into()); }
    let v = pick(S).to_string();
    stringtest(m, 2, false, &[v], &k);
}
}
entry!{
/// :count with every relation: 3 values (empty or not), up to 2 keys 0..4
/// reach: 1 2
h_c14_count {
    let m = M::Count(choose(6));
    let v: Vec<String> = (0..3).map(|_| { let l = choose(2); alpha(l, b"ab") }).collect();
    let nk = 1 + choose(2);
    let k: Vec<String> = (0..nk).map(|_| alpha(1, b"01234")).collect();
    stringtest(m, 2, false, &v, &k);
}
}
entry!{
/// header test over up to 2 header fields with free values and 1-2 keys: :is, :contains, :value, :count, :index, :last
/// reach: 1 2
h_c14_header {
    let m = match choose(4) { 0 => M::Is, 1 => M::Contains, 2 => M::Value(*pick(&[0usize, 3])), _ => M::Count(*pick(&[4usize, 1])) };
    let comp = if matches!(m, M::Count(_)) { 2 } else { choose(2) };
    let nh = choose(3);
    let vals: Vec<String> = (0..nh).map(|_| alpha(1, b"aAb")).collect();
    let nk = 1 + choose(2);
    let keys: Vec<String> = (0..nk).map(|_| if matches!(m, M::Count(_)) { alpha(1, b"012") } else { let l = 1; alpha(l, b"aAb") }).collect();
    let idx = choose(4); // 0 none, 1 :index 1, 2 :index 2, 3 :index 1 :last
    let mut msg = b"From: a@b.c\r\n".to_vec();
    for v in &vals { msg.extend_from_slice(b"X-H: "); msg.extend_from_slice(v.as_bytes()); msg.extend_from_slice(b"\r\n"); }
    msg.extend_from_slice(b"\r\nbody\r\n");
    let src = format!("if header {} {} :comparator \"{}\" \"X-h\" {} {{ fileinto \"T\"; }} else {{ fileinto \"F\"; }}", tag(m), ["", ":index 1", ":index 2", ":last :index 1"][idx], COMPS[comp], list(&["k0", "k1"][..nk]));
    let r = rt();
    let mut c = ctx(&r, &msg);
    for (n, v) in ["k0", "k1"].iter().zip(&keys) { c.set_global_variable(*n, v.clone()); }
    let t = run_with(&mut c, compile(&src), 8, &mut reply_true);
    let sel: Vec<&String> = match idx { 0 => vals.iter().collect(), 1 => vals.iter().take(1).collect(), 2 => vals.iter().skip(1).take(1).collect(), _ => vals.iter().rev().take(1).collect() };
    let want = match m { M::Count(r) => keys.iter().any(|k| rel(r, &(sel.len() as u64), &num(k))), _ => sel.iter().any(|v| keys.iter().any(|k| cmp(m, comp, v, k))) };
    note(&src); noteb(&msg); for k in &keys { noteb(k.as_bytes()); }
    let got = t.ev.iter().any(|e| matches!(e, Event::FileInto { folder, .. } if folder == "T"));
    obs(got as u64);
    if want { reach(1) } else { reach(2) }
    check(t.err.is_none(), 1, "no runtime error");
    check(got == want, 2, "header test succeeds exactly when a selected field matches some key");
}
}
