ID='c31-include-match'; PROP='C31'
NEEDS='a script that includes another one which uses no match variables, between a match and the use of its match variables'
BREAKS='the match variables of the including script are not restored when the included one used none'
EDITS=[('src/runtime/context.rs','''                self.vars_match = prev_script.prev_vars_match;''','''                if !self.vars_match.is_empty() {
                    self.vars_match = prev_script.prev_vars_match;
                }''')]
MAIN='''
    let rt = Runtime::new();
    let comp = |s: &str| Compiler::new().with_no_capability_check(true).compile(s.as_bytes()).unwrap();
    let mut c = ctx(&rt);
    let mut input = Input::script("main", comp("if string :matches \\"abc\\" \\"*c\\" { include \\"s\\"; fileinto :copy \\"<${1}>\\"; }"));
    let mut out = vec![];
    while let Some(e) = c.run(input) {
        input = Input::True;
        match e { Ok(Event::IncludeScript { .. }) => input = Input::script("s", comp("set \\"x\\" \\"1\\";")), Ok(Event::FileInto { folder, .. }) => out.push(folder), _ => () }
    }
    expect(out, &["<ab>"]);
'''
