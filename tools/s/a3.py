ID='c08-require-resume'; PROP='C08'
NEEDS='a script requiring at run time a capability the runtime does not allow, after which the host goes on calling run'
BREAKS='after the capability error the script is not ended: the next call resumes after the require'
EDITS=[('src/runtime/context.rs','''                            if !self.runtime.allowed_capabilities.contains(capability) {
                                self.finish_loop();
                                return Some(Err(''','''                            if !self.runtime.allowed_capabilities.contains(capability) {
                                return Some(Err(''')]
MAIN='''
    let mut rt = Runtime::new();
    rt.unset_capability(compiler::grammar::Capability::Copy);
    let mut c = ctx(&rt);
    let s = Compiler::new().compile(br#"require ["fileinto", "copy"]; fileinto "A";"#).unwrap();
    let mut input = Input::script("main", s);
    let mut out = vec![];
    for _ in 0..20 { match c.run(input) { None => break, Some(Ok(e)) => out.push(format!("{e:?}")), Some(Err(e)) => out.push(format!("{e:?}")) } input = Input::True; }
    if out.len() != 2 || !out[1].starts_with("Keep") { println!("{out:?}"); std::process::exit(1) }
'''
