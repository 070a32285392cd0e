//! A small script syntax tree with its rendering to source text and a reference interpreter.
use crate::run::*;
use crate::vf::*;

#[derive(Clone)]
pub enum T { Ev(usize), Var(usize), Eval(usize), Lit(bool), Not(Box<T>), All(Vec<T>), Any(Vec<T>) }
#[derive(Clone)]
pub enum S {
    Mark(usize),
    If(Vec<(T, Vec<S>)>, Option<Vec<S>>),
    /// counter id, number of iterations
    While(usize, usize, Vec<S>),
    For(Option<usize>, Vec<S>),
    Break, BreakTo(usize), Continue, Stop, Return, Keep, Discard, Error,
    Raw(String, &'static str),
}
pub fn test(t: &T, o: &mut String) {
    match t {
        T::Ev(i) => o.push_str(&format!("mailboxexists \"E{i}\"")),
        T::Var(i) => o.push_str(&format!("string \"${{global.b{i}}}\" \"1\"")),
        T::Eval(i) => o.push_str(&format!("eval \"global.b{i} == 1\"")),
        T::Lit(b) => o.push_str(if *b { "true" } else { "false" }),
        T::Not(t) => { o.push_str("not "); test(t, o) }
        T::All(v) | T::Any(v) => {
            o.push_str(if matches!(t, T::All(_)) { "allof(" } else { "anyof(" });
            for (i, t) in v.iter().enumerate() { if i > 0 { o.push_str(", ") } test(t, o) }
            o.push(')');
        }
    }
}
pub fn stmts(v: &[S], o: &mut String) {
    for s in v {
        match s {
            S::Mark(i) => o.push_str(&format!("fileinto :copy \"M{i}\";\n")),
            S::If(c, e) => {
                for (i, (t, b)) in c.iter().enumerate() {
                    o.push_str(if i == 0 { "if " } else { "elsif " });
                    test(t, o); o.push_str(" {\n"); stmts(b, o); o.push_str("}\n");
                }
                if let Some(b) = e { o.push_str("else {\n"); stmts(b, o); o.push_str("}\n"); }
            }
            S::While(c, n, b) => {
                o.push_str(&format!("let \"global.c{c}\" \"0\";\nwhile \"global.c{c} < {n}\" {{\nlet \"global.c{c}\" \"global.c{c} + 1\";\n"));
                stmts(b, o); o.push_str("}\n");
            }
            S::For(n, b) => {
                o.push_str("foreverypart ");
                if let Some(n) = n { o.push_str(&format!(":name \"L{n}\" ")); }
                o.push_str("{\n"); stmts(b, o); o.push_str("}\n");
            }
            S::Break => o.push_str("break;\n"),
            S::BreakTo(n) => o.push_str(&format!("break :name \"L{n}\";\n")),
            S::Continue => o.push_str("continue;\n"),
            S::Stop => o.push_str("stop;\n"),
            S::Return => o.push_str("return;\n"),
            S::Keep => o.push_str("keep;\n"),
            S::Discard => o.push_str("discard;\n"),
            S::Error => o.push_str("error \"x\";\n"),
            S::Raw(s, _) => { o.push_str(s); o.push('\n') }
        }
    }
}
#[derive(PartialEq, Clone, Copy)]
pub enum Flow { Next, Break, BreakTo(usize), Continue, Stop, Error }
/// parts[i] = children of MIME part i
pub struct Ref<'a> { pub ans: &'a [bool], pub bits: &'a [bool], pub tree: &'a [&'a [usize]], pub asked: usize, pub out: Vec<String>, pub part: Vec<usize>, pub depth: usize, pub last: &'static str }
impl<'a> Ref<'a> {
    pub fn new(ans: &'a [bool], bits: &'a [bool], tree: &'a [&'a [usize]]) -> Self { Ref { ans, bits, tree, asked: 0, out: vec![], part: vec![0], depth: 0, last: "INBOX" } }
    pub fn test(&mut self, t: &T) -> bool {
        match t {
            T::Ev(i) => { self.out.push(format!("E{i}")); self.asked += 1; self.ans.get(self.asked - 1).copied().unwrap_or(false) }
            T::Var(i) | T::Eval(i) => self.bits[*i],
            T::Lit(b) => *b,
            T::Not(t) => !self.test(t),
            T::All(v) => { for t in v { if !self.test(t) { return false } } true }
            T::Any(v) => { for t in v { if self.test(t) { return true } } false }
        }
    }
    fn nested(&self, p: usize, o: &mut Vec<usize>) { for &c in self.tree[p] { o.push(c); self.nested(c, o); } }
    pub fn run(&mut self, v: &[S]) -> Flow {
        for s in v {
            let f = match s {
                S::Mark(i) => { self.out.push(format!("M{i}")); Flow::Next }
                S::If(c, e) => {
                    let mut f = None;
                    for (t, b) in c { if self.test(t) { f = Some(self.run(b)); break } }
                    match (f, e) { (Some(f), _) => f, (None, Some(b)) => self.run(b), _ => Flow::Next }
                }
                S::While(_, n, b) => {
                    let mut f = Flow::Next;
                    for _ in 0..*n { f = self.run(b); if f == Flow::Continue { f = Flow::Next } if f != Flow::Next { break } }
                    if f == Flow::Break { Flow::Next } else { f }
                }
                S::For(n, b) => {
                    let cur = *self.part.last().unwrap();
                    let mut ps = vec![];
                    if self.depth == 0 { ps.push(cur); }
                    self.nested(cur, &mut ps);
                    self.depth += 1;
                    let mut f = Flow::Next;
                    for p in ps {
                        self.part.push(p);
                        f = self.run(b);
                        self.part.pop();
                        if f != Flow::Next { break }
                    }
                    self.depth -= 1;
                    match (f, n) { (Flow::Break, _) => Flow::Next, (Flow::BreakTo(k), Some(n)) if k == *n => Flow::Next, _ => f }
                }
                S::Break => Flow::Break, S::BreakTo(n) => Flow::BreakTo(*n), S::Continue => Flow::Continue, S::Stop | S::Return => Flow::Stop,
                S::Keep => { self.last = "INBOX"; Flow::Next }
                S::Discard => { self.last = "-"; Flow::Next }
                S::Error => { self.out.push("err".into()); Flow::Error }
                S::Raw(_, m) => { if !m.is_empty() { self.out.push((*m).into()); } Flow::Next }
            };
            if f != Flow::Next { return f }
        }
        Flow::Next
    }
}
/// runs the program for real and returns the observed events in the reference interpreter's notation
pub fn observe(src: &str, msg: &[u8], ans: &[bool], bits: &[bool], cpu: usize) -> (Vec<String>, Trace) {
    let r = rt().with_cpu_limit(cpu);
    let mut c = ctx(&r, msg);
    for (i, b) in bits.iter().enumerate() { c.set_global_variable(format!("b{i}"), if *b { "1" } else { "0" }); }
    let mut out = vec![];
    let mut k = 0;
    let script = compile(src);
    let t = run_with(&mut c, script, 200, &mut |e| {
        match e {
            Event::MailboxExists { mailboxes, .. } => {
                if let Mailbox::Name(n) = &mailboxes[0] { out.push(n.clone()); }
                k += 1;
                return if ans.get(k - 1).copied().unwrap_or(false) { Input::True } else { Input::False };
            }
            Event::FileInto { folder, .. } => out.push(folder.clone()),
            Event::Keep { .. } => out.push("INBOX".into()),
            Event::Discard => out.push("-".into()),
            _ => out.push("?".into()),
        }
        Input::True
    });
    (out, t)
}
pub fn agree(prog: &[S], msg: &[u8], tree: &[&[usize]], ans: &[bool], bits: &[bool]) {
    let mut src = String::new();
    stmts(prog, &mut src);
    note(&src);
    let (got, t) = observe(&src, msg, ans, bits, 5000);
    let mut r = Ref::new(ans, bits, tree);
    let f = r.run(prog);
    let mut want = std::mem::take(&mut r.out);
    let err = want.last().map_or(false, |x| x == "err");
    if err { want.pop(); }
    want.push(r.last.into());
    noteb(got.join(" ").as_bytes());
    noteb(want.join(" ").as_bytes());
    for g in &got { obs_bytes(g.as_bytes()) }
    check(t.ended, 1, "the run ends");
    check(t.err.is_some() == (f == Flow::Error), 2, "an error is reported exactly when the script raises one");
    check(got == want, 3, "events are those of the reference interpreter, in order");
}
