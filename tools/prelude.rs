#![allow(dead_code, unused_imports)]
use sieve::*;
use sieve::runtime::*;
pub const MSG: &[u8] = b"From: Ann <ann@a.org>\r\nTo: bob@b.org\r\nSubject: hello\r\n\r\nbody text\r\n";
/// runs a script, answering tests from `ans` (then false); returns the events as text
pub fn go_ctx(mut c: Context, src: &str, ans: &[bool]) -> Vec<String> {
    let s = Compiler::new().with_no_capability_check(true).compile(src.as_bytes()).expect("compiles");
    let mut out = vec![];
    let mut k = 0;
    let mut input = Input::script("main", s);
    for _ in 0..1000 {
        match c.run(input) {
            None => return out,
            Some(Err(e)) => { out.push(format!("error {e:?}")); input = Input::True }
            Some(Ok(e)) => {
                input = Input::True;
                match e {
                    Event::MailboxExists { .. } => { k += 1; if !ans.get(k - 1).copied().unwrap_or(false) { input = Input::False } }
                    Event::FileInto { folder, flags, message_id, .. } => out.push(format!("file {folder} {flags:?} {message_id}")),
                    Event::Keep { flags, message_id } => out.push(format!("keep {flags:?} {message_id}")),
                    Event::Discard => out.push("discard".into()),
                    Event::Reject { reason, .. } => out.push(format!("reject {reason}")),
                    Event::SendMessage { recipient, message_id, .. } => out.push(format!("send {recipient:?} {message_id}")),
                    Event::CreatedMessage { message_id, message } => out.push(format!("created {message_id} {:?}", String::from_utf8_lossy(&message))),
                    Event::Notify { method, message, .. } => out.push(format!("notify {method} {message}")),
                    other => out.push(format!("{other:?}")),
                }
            }
        }
    }
    out.push("endless".into());
    out
}
pub fn ctx(rt: &Runtime) -> Context<'_> { rt.filter(MSG).with_user_address("bob@b.org").with_envelope(Envelope::From, "ann@a.org").with_envelope(Envelope::To, "bob@b.org") }
pub fn go(src: &str, ans: &[bool]) -> Vec<String> { let rt = Runtime::new(); let c = ctx(&rt); go_ctx(c, src, ans) }
pub fn expect(got: Vec<String>, want: &[&str]) { if got != want { println!("got  {got:?}\nwant {want:?}"); std::process::exit(1) } }
