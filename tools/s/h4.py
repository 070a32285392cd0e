ID='c31-local-in-importance'; PROP='C31'
NEEDS='set :local in a nested block, the variable used as the importance of a notify'
BREAKS='a variable made with :local is empty in :importance'
EDITS=[('src/compiler/grammar/instruction.rs','''                    v.importance.map_local_vars(last_id);
''','')]
MAIN='''
    let v = go(r#"if true { set :local "i" "1"; } notify :importance "${i}" :message "m" "xmpp:a@b.c";"#, &[]);
    println!("{v:?}");
    let rt = Runtime::new();
    let _ = rt;
    let w = go(r#"set "i" "1"; notify :importance "${i}" :message "m" "xmpp:a@b.c";"#, &[]);
    let k = |v: &Vec<String>| v.clone();
    if k(&v) != k(&w) { std::process::exit(1) }
    let s = Compiler::new().with_no_capability_check(true).compile(br#"if true { set :local "i" "1"; } notify :importance "${i}" :message "m" "xmpp:a@b.c";"#).unwrap();
    let rt = Runtime::new(); let mut c = rt.filter(MSG);
    let mut input = Input::script("", s);
    let mut ok = false;
    while let Some(e) = c.run(input) { if let Ok(Event::Notify { importance, .. }) = &e { println!("{importance:?}"); ok = *importance == sieve::Importance::High; } input = Input::True; }
    if !ok { std::process::exit(1) }
'''
