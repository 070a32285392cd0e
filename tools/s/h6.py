ID='c22-precedence-list'; PROP='C22'
NEEDS='a Precedence field with the value bulk in another case, after a recipient field'
BREAKS='a message marked as bulk in capitals is answered'
EDITS=[('src/runtime/actions/action_vacation.rs','''.is_some_and(|v| v.eq_ignore_ascii_case("bulk"))''','''.is_some_and(|v| v == "bulk" || v == "Bulk")''')]
MAIN='''
    let rt = Runtime::new();
    let mut c = rt.filter(b"From: a@b.c\\r\\nTo: me@x.org\\r\\nPrecedence: BULK\\r\\n\\r\\nhi\\r\\n");
    c.set_envelope(sieve::Envelope::From, "a@b.c"); c.set_envelope(sieve::Envelope::To, "me@x.org"); c.set_user_address("me@x.org");
    let s = Compiler::new().with_no_capability_check(true).compile(b"vacation \\"away\\";").unwrap();
    let mut input = Input::script("", s);
    let mut bad = false;
    while let Some(e) = c.run(input) { if let Ok(e) = &e { println!("{e:?}"); bad |= !matches!(e, Event::Keep { .. }); } input = Input::False; }
    if bad { std::process::exit(1) }
'''
