ID='c37-vacation-mime'; PROP='C37'; STORE=1
NEEDS='a script with vacation :mime stored as JSON and read back'
BREAKS='the :mime flag of vacation is not read back from JSON'
EDITS=[('src/compiler/grammar/actions/action_vacation.rs','    pub mime: bool,\n','    #[cfg_attr(any(test, feature = "serde"), serde(skip_deserializing))]\n    pub mime: bool,\n')]
MAIN=r'''
    let s = Compiler::new().with_no_capability_check(true).compile(b"vacation :mime \"X: y\";").unwrap();
    let t: Sieve = serde_json::from_slice(&serde_json::to_vec(&s).unwrap()).unwrap();
    if t != s { println!("differs"); std::process::exit(1) }
'''
