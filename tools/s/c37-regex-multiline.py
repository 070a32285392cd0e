ID='c37-regex-multiline'; PROP='C37'; STORE=1
NEEDS='a :regex with an anchor against a value of several lines, in a script that was stored and read back (the expression is then compiled again from the stored text)'
BREAKS='the expression is compiled with a flag that is not part of the text stored with the script'
EDITS=[('src/compiler/grammar/mod.rs','match fancy_regex::Regex::new(expr) {','match fancy_regex::Regex::new(&format!("(?m){expr}")) {')]
MAIN=r'''
    let src = b"set \"v\" \"a\nb\"; if string :regex \"${v}\" \"^b$\" { fileinto \"M\"; }";
    let s = Compiler::new().with_no_capability_check(true).compile(src).unwrap();
    let b = rkyv::to_bytes::<rkyv::rancor::Error>(&s).unwrap();
    let t = rkyv::from_bytes::<Sieve, rkyv::rancor::Error>(&b).unwrap();
    let r = Runtime::new();
    let f = |s: Sieve| { let mut c = ctx(&r); let mut i = Input::script("m", s); let mut o = vec![]; while let Some(e) = c.run(i) { i = Input::True; if let Ok(Event::FileInto { folder, .. }) = e { o.push(folder) } } o };
    if f(s) != f(t) { println!("runs differently"); std::process::exit(1) }
'''
