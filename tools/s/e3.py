ID='c31-global-case'; PROP='C31'
NEEDS='a variable declared with global in upper case, shared between scripts'
BREAKS='a global declared with capital letters is not recognised as one'
EDITS=[('src/compiler/grammar/instruction.rs','''        self.vars_global.insert(name.to_ascii_lowercase());''','''        self.vars_global.insert(name.to_string());'''),]
MAIN='''
    let s = Compiler::new().compile(br#"require ["variables", "include", "fileinto"]; global "Name"; set "name" "x"; fileinto "${global.name}";"#).unwrap();
    let rt = Runtime::new();
    let mut c = ctx(&rt);
    let mut input = Input::script("main", s);
    let mut out = vec![];
    for _ in 0..20 {
        match c.run(input) {
            None => break,
            Some(Ok(Event::FileInto { folder, .. })) => { out.push(folder); input = Input::True }
            _ => input = Input::True,
        }
    }
    expect(out, &["x"]);
'''
