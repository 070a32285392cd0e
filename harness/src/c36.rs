//! C36: date and currentdate compare the part asked for of the date in the zone asked for.
use crate::run::*;
use crate::vf::*;

pub const PARTS: [&str; 13] = ["year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"];
/// year, month, day of a day number (1970-01-01 is 0)
pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
/// a part of the moment `t` in a zone of `off` minutes
pub fn part(p: usize, t: i64, off: i64) -> String { part_as(p, t, off, off.abs() % 60) }
/// the same with the minutes of the zone shown as `om`
pub fn part_as(p: usize, t: i64, off: i64, om: i64) -> String {
    let l = t + off * 60;
    let (days, s) = (l.div_euclid(86400), l.rem_euclid(86400));
    let (y, m, d) = civil(days);
    let (hh, mm, ss) = (s / 3600, s / 60 % 60, s % 60);
    let (sign, oa) = (if off < 0 { '-' } else { '+' }, off.abs());
    let wd = (days + 4).rem_euclid(7) as usize;
    match p {
        0 => format!("{y:04}"), 1 => format!("{m:02}"), 2 => format!("{d:02}"), 3 => format!("{y:04}-{m:02}-{d:02}"), 4 => (days + 40587).to_string(),
        5 => format!("{hh:02}"), 6 => format!("{mm:02}"), 7 => format!("{ss:02}"), 8 => format!("{hh:02}:{mm:02}:{ss:02}"),
        9 => format!("{y:04}-{m:02}-{d:02}T{hh:02}:{mm:02}:{ss:02}{}", if off == 0 { "Z".into() } else { format!("{sign}{:02}:{:02}", oa / 60, om) }),
        10 => format!("{}, {d} {} {y:04} {hh:02}:{mm:02}:{ss:02} {sign}{:02}{:02}", ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"][wd], ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1], oa / 60, om),
        11 => format!("{sign}{:02}{:02}", oa / 60, om), _ => wd.to_string(),
    }
}
/// moments: ends of months, years and leap days, the epoch, and times of day at both ends
fn moment() -> i64 { *pick(&[0i64, 951782400, 951868799, 1078012799, 4107542399, 1699952400, 1704067199, 1704067200, 1709164800, 253402214400, 86399, 1000000000]) }
const ZONES: [(&str, i64); 8] = [("+0000", 0), ("+0100", 60), ("-0130", -90), ("+0530", 330), ("-0030", -30), ("+1400", 840), ("-1200", -720), ("0200", 120)];
/// the library that converts to a zone takes the minutes of the zone for its seconds, modulo 256
fn known(p: usize, t: i64, off: i64, got: Option<&str>, want: &str) -> bool { off % 60 != 0 && [9, 10, 11].contains(&p) && got != Some(want) && got == Some(&part_as(p, t, off, (off.abs() * 60 % 3600) & 255)) }
/// what the script reports as the value of the part
fn value(msg: &[u8], test: &str) -> Option<String> {
    let r = rt();
    let t = go(&r, msg, &format!("if {test} {{ fileinto \"<${{0}}>\"; }}"));
    check(t.ended && t.err.is_none(), 1, "the run ends");
    let f = folders(&t).remove(0);
    f.strip_prefix('<').and_then(|x| x.strip_suffix('>')).map(|x| x.to_string())
}
entry!{
/// currentdate: each of 13 parts at each of 12 moments in no zone or any of 8, the name of the part in either case, given as the only key or after another
/// reach: 1
h_c36_current {
    let t = moment();
    set_time(t);
    let p = choose(13);
    let (zt, off) = match choose(9) { 8 => (String::new(), 0), k => (format!(":zone \"{}\" ", ZONES[k].0), ZONES[k].1) };
    assume(t + off * 60 >= 0);
    let want = part(p, t, off);
    note(&want);
    let name = if choose_bool() { PARTS[p].to_uppercase() } else { PARTS[p].into() };
    let got = value(MSG, &format!("currentdate {zt}:matches \"{name}\" \"*\""));
    obs_bytes(got.as_deref().unwrap_or("").as_bytes());
    if known(p, t, off, got.as_deref(), &want) { check(false, 20, "the minutes of the zone"); }
    check(got.as_deref() == Some(&want), 2, "the part of the current date");
    let r = rt();
    let tr = go(&r, MSG, &format!("if currentdate :is {zt}\"{name}\" [\"x\", \"{want}\"] {{ discard; }}"));
    check(folders(&tr) == ["-"], 3, "equal to its text");
    reach(1);
}
}
entry!{
/// date: each of 13 parts of a date field of each of 12 moments written in any of 8 zones, read in its own zone, another of 8 or none (UTC); the field is Date, another one, or one added by the script
/// reach: 1
h_c36_field {
    let t = moment();
    let p = choose(13);
    let (wz, woff) = ZONES[choose(tier(4, 8))];
    let (zt, off) = match choose(tier(4, 10)) { 0 => (":originalzone ".to_string(), woff), 1 => (String::new(), 0), k => { let z = ZONES[if thorough() { k - 2 } else { [2, 5][k - 2] }]; (format!(":zone \"{}\" ", z.0), z.1) } };
    assume(wz.len() == 5);
    // years of 5 digits are not dates
    assume(t < 32000000000 && t + woff * 60 >= 0 && t + off * 60 >= 0);
    let field = part(10, t, woff);
    let (name, how) = *pick(&[("Date", 0), ("X-D", 0), ("X-D", 1)]);
    let msg = format!("{}From: a@b.c\r\n\r\nx\r\n", if how == 0 { format!("{name}: {field}\r\n") } else { String::new() });
    let want = part(p, t, off);
    note(&want);
    let pre = if how == 1 { format!("addheader \"{name}\" \"{field}\"; ") } else { String::new() };
    let r = rt();
    let tr = go(&r, msg.as_bytes(), &format!("{pre}if date {zt}:matches \"{}\" \"{}\" \"*\" {{ fileinto \"<${{0}}>\"; }}", name.to_lowercase(), PARTS[p]));
    check(tr.ended && tr.err.is_none(), 1, "the run ends");
    let f = folders(&tr).remove(0);
    note(&f);
    let got = f.strip_prefix('<').and_then(|x| x.strip_suffix('>'));
    if zt.starts_with(":zone") && known(p, t, off, got, &want) { check(false, 20, "the minutes of the zone"); }
    check(got == Some(&want), 2, "the part of the date of the field");
    reach(1);
}
}
entry!{
/// date over up to 3 fields of one name (dates in two years, one without a date), with :index 1..3, :last or neither, :is, :contains, :value with every relation, :count: holds exactly if a selected field does; also negated
/// reach: 1 2
h_c36_select {
    let n = choose(4);
    let vals: Vec<Option<i64>> = (0..n).map(|_| *pick(&[Some(2021i64), Some(2023), None])).collect();
    let mut msg = String::new();
    for v in &vals { msg += &match v { Some(y) => format!("X-D: Fri, 12 Mar {y} 10:00:00 +0000\r\n"), None => "X-D: never\r\n".into() } }
    msg += "From: a@b.c\r\n\r\nx\r\n";
    let (sel, it): (Vec<Option<i64>>, String) = match choose(5) {
        0 => (vals.clone(), String::new()),
        k @ 1..=3 => { let last = choose_bool(); let i = if last { n.checked_sub(k) } else { Some(k - 1) }; (i.and_then(|i| vals.get(i).copied()).into_iter().collect(), format!(":index {k} {}", if last { ":last " } else { "" })) }
        _ => (vals.clone(), ":comparator \"i;octet\" ".into()),
    };
    let ys: Vec<i64> = sel.iter().filter_map(|x| *x).collect();
    let key = *pick(&[2020i64, 2021, 2022, 2023]);
    let (mt, want) = match choose(9) {
        0 => (":is".to_string(), ys.contains(&key)),
        1 => (":contains".into(), ys.contains(&key)),
        k @ 2..=7 => { let rel = ["gt", "ge", "lt", "le", "eq", "ne"][k - 2]; (format!(":value \"{rel}\""), ys.iter().any(|y| match rel { "gt" => *y > key, "ge" => *y >= key, "lt" => *y < key, "le" => *y <= key, "eq" => *y == key, _ => *y != key })) }
        _ => (":count \"eq\"".into(), ys.len() as i64 == key - 2020),
    };
    let keytxt = if mt.starts_with(":count") { (key - 2020).to_string() } else { key.to_string() };
    let not = choose_bool();
    let src = format!("if {}date {it}{mt} \"x-d\" \"year\" [\"{keytxt}\"] {{ discard; }}", if not { "not " } else { "" });
    note(&src);
    let r = rt();
    let tr = go(&r, msg.as_bytes(), &src);
    check(tr.ended && tr.err.is_none(), 1, "the run ends");
    if want { reach(1) } else { reach(2) }
    check((folders(&tr) == ["-"]) == (want ^ not), 2, "holds exactly if a selected field does");
}
}
entry!{
/// zones of 3 to 5 characters: each accepted one shifts the time by what it says, and only those within -1200 to +1400 are accepted
/// reach: 1 2
h_c36_zone {
    set_time(1000000000);
    let (h, m) = (choose(16) as i64, *pick(&[0i64, 1, 30, 45, 59]));
    let neg = choose_bool();
    let off = if neg { -(h * 60 + m) } else { h * 60 + m };
    let ok = off >= -720 && off <= 840;
    let z = format!("{}{h:02}{m:02}", if neg { "-" } else { *pick(&["+", ""]) });
    let src = format!("if currentdate :zone \"{z}\" :matches \"time\" \"*\" {{ fileinto \"${{0}}\"; }}");
    note(&src);
    if ok { reach(1) } else { reach(2) }
    match try_compile(src.as_bytes()) {
        Err(_) => check(!ok, 2, "a zone is accepted"),
        Ok(s) => {
            check(ok, 3, "no such zone");
            let r = rt();
            let mut c = ctx(&r, MSG);
            let t = run_with(&mut c, s, 9, &mut reply_true);
            check(folders(&t) == [part(8, 1000000000, off)], 4, "the time in the zone");
        }
    }
}
}
