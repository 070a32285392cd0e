//! Shared driver code: compile, run a script event by event, shorthand constructors.
use crate::vf::*;
pub use sieve::compiler::{CompileError, ErrorType, Number};
pub use sieve::runtime::{RuntimeError, Variable};
pub use sieve::{Compiler, Context, Envelope, Event, FunctionMap, Importance, Input, Mailbox, MatchAs, Metadata, Recipient, Runtime, Script, Sieve, SpamStatus, VirusStatus};
use std::sync::Arc;

pub const MSG: &[u8] = b"From: Ann <ann@a.org>\r\nTo: bob@b.org\r\nSubject: hello\r\nX-N: 5\r\n\r\nbody text\r\n";

pub struct Trace {
    pub ev: Vec<Event>,
    pub err: Option<RuntimeError>,
    /// number of events plus errors returned, and whether the run came to its end by itself
    pub steps: usize,
    pub ended: bool,
}

/// Compiles with every capability allowed; panics (as a harness error) if the script is rejected.
pub fn compile(src: &str) -> Sieve {
    match Compiler::new().with_no_capability_check(true).compile(src.as_bytes()) {
        Ok(s) => s,
        Err(e) => { notestr(&format!("{e}")); check(false, 250, "harness script must compile"); unreachable!() }
    }
}
/// compiles with the capability check on
pub fn compile_checked(src: &str) -> Sieve {
    match Compiler::new().compile(src.as_bytes()) { Ok(s) => s, Err(e) => { notestr(&format!("{e}")); check(false, 250, "harness script must compile"); unreachable!() } }
}
pub fn notestr(s: &str) { note(s) }
pub fn try_compile(src: &[u8]) -> Result<Sieve, CompileError> { Compiler::new().with_no_capability_check(true).compile(src) }
pub fn compiles(src: &str) -> bool { try_compile(src.as_bytes()).is_ok() }

/// Runs `script` to its end (at most `cap` steps), answering each event with `respond`.
pub fn run_with(ctx: &mut Context, script: Sieve, cap: usize, respond: &mut dyn FnMut(&Event) -> Input) -> Trace {
    let mut t = Trace { ev: vec![], err: None, steps: 0, ended: false };
    let mut input = Input::script("main", script);
    while t.steps < cap {
        match ctx.run(input) {
            None => { t.ended = true; break }
            Some(Ok(ev)) => { input = respond(&ev); t.ev.push(ev); }
            Some(Err(e)) => { if t.err.is_none() { t.err = Some(e); } input = Input::True; }
        }
        t.steps += 1;
    }
    t
}
pub fn reply_true(_: &Event) -> Input { Input::True }
pub fn reply_false(_: &Event) -> Input { Input::False }
pub fn arc(s: Sieve) -> Arc<Sieve> { Arc::new(s) }

/// default runtime
pub fn rt() -> Runtime { Runtime::new() }
pub fn go(rt: &Runtime, msg: &[u8], src: &str) -> Trace { let s = compile(src); let mut c = ctx(rt, msg); run_with(&mut c, s, 64, &mut reply_true) }
pub fn ctx<'x>(rt: &'x Runtime, msg: &'x [u8]) -> Context<'x> { rt.filter(msg).with_user_address("bob@b.org").with_envelope(Envelope::From, "ann@a.org").with_envelope(Envelope::To, "bob@b.org") }

/// folders of all fileinto events, in order; "INBOX" for keep, "-" for discard
pub fn folders(t: &Trace) -> Vec<String> {
    let mut v = vec![];
    for e in &t.ev {
        match e {
            Event::FileInto { folder, .. } => v.push(folder.clone()),
            Event::Keep { .. } => v.push("INBOX".into()),
            Event::Discard => v.push("-".into()),
            _ => {}
        }
    }
    v
}
pub fn obs_trace(t: &Trace) {
    for e in &t.ev { obs_event(e); }
    obs(match &t.err { None => 0, Some(e) => 1 + errcode(e) });
    obs(t.ended as u64);
}
pub fn errcode(e: &RuntimeError) -> u64 {
    match e {
        RuntimeError::TooManyIncludes => 0, RuntimeError::InvalidInstruction(_) => 1, RuntimeError::ScriptErrorMessage(_) => 2,
        RuntimeError::CapabilityNotAllowed(_) => 3, RuntimeError::CapabilityNotSupported(_) => 4, RuntimeError::CPULimitReached => 5,
    }
}
pub fn obs_event(e: &Event) {
    match e {
        Event::Keep { flags, message_id } => { obs(1); obs(flags.len() as u64); obs(*message_id as u64); for f in flags { obs_bytes(f.as_bytes()) } }
        Event::Discard => obs(2),
        Event::Reject { extended, reason } => { obs(3); obs(*extended as u64); obs_bytes(reason.as_bytes()) }
        Event::FileInto { folder, flags, create, message_id, .. } => { obs(4); obs_bytes(folder.as_bytes()); for f in flags { obs_bytes(f.as_bytes()) } obs(*create as u64); obs(*message_id as u64) }
        Event::SendMessage { recipient, message_id, .. } => { obs(5); obs(*message_id as u64); if let Recipient::Address(a) = recipient { obs_bytes(a.as_bytes()) } }
        Event::Notify { method, message, .. } => { obs(6); obs_bytes(method.as_bytes()); obs_bytes(message.as_bytes()) }
        Event::CreatedMessage { message_id, message } => { obs(7); obs(*message_id as u64); obs_bytes(message) }
        Event::IncludeScript { .. } => obs(8),
        Event::MailboxExists { .. } => obs(9),
        Event::ListContains { .. } => obs(10),
        Event::DuplicateId { id, .. } => { obs(11); obs_bytes(id.as_bytes()) }
        Event::SetEnvelope { value, .. } => { obs(12); obs_bytes(value.as_bytes()) }
        Event::Function { id, arguments } => { obs(13); obs(*id as u64); obs(arguments.len() as u64) }
    }
}
pub fn gstr(c: &Context, name: &str) -> Option<String> { c.global_variable(name).map(|v| v.to_string().into_owned()) }
