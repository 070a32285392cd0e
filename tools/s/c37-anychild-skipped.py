ID='c37-anychild-skipped'; PROP='C37'; STORE=1
NEEDS='deleteheader :mime :anychild stored with rkyv'
BREAKS='the :anychild of deleteheader is not archived by rkyv'
EDITS=[('src/compiler/grammar/actions/action_editheader.rs','    pub mime_anychild: bool,\n','    #[cfg_attr(feature = "rkyv", rkyv(with = rkyv::with::Skip))]\n    pub mime_anychild: bool,\n')]
MAIN=r'''
    let s = Compiler::new().with_no_capability_check(true).compile(b"deleteheader :mime :anychild \"X-A\";").unwrap();
    let b = rkyv::to_bytes::<rkyv::rancor::Error>(&s).unwrap();
    let t = rkyv::from_bytes::<Sieve, rkyv::rancor::Error>(&b).unwrap();
    if t != s { println!("differs"); std::process::exit(1) }
'''
