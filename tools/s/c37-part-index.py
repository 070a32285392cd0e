ID='c37-part-index'; PROP='C37'; STORE=1
NEEDS='a header variable with an index on its part, like header.to.addr[2], stored with rkyv'
BREAKS='the index of the part of a header variable is not archived'
EDITS=[('src/compiler/mod.rs','    pub index_part: i32,\n','    #[cfg_attr(feature = "rkyv", rkyv(with = rkyv::with::Skip))]\n    pub index_part: i32,\n')]
MAIN=r'''
    let s = Compiler::new().with_no_capability_check(true).compile(b"fileinto \"${header.to.addr[2]}\";").unwrap();
    let b = rkyv::to_bytes::<rkyv::rancor::Error>(&s).unwrap();
    let t = rkyv::from_bytes::<Sieve, rkyv::rancor::Error>(&b).unwrap();
    if t != s { println!("differs"); std::process::exit(1) }
'''
