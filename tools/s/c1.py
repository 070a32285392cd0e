ID='c12-shortcut-then-call'; PROP='C12'
NEEDS='an expression in which a short-circuited && or || is followed by a call of a host function, so that evaluation is resumed after the jump'
BREAKS='the jump of a short-circuited operator is not counted in the position evaluation resumes from'
EDITS=[('src/runtime/expression.rs','''                        self.expr_pos += *pos as usize;
                        for _ in''','''                        for _ in''')]
MAIN='''
    let mut f = FunctionMap::new().with_external_function("ask", 1, 1);
    let s = Compiler::new().with_no_capability_check(true).register_functions(&mut f).compile(br#"let "r" "(1 || 7) + ask(5)"; fileinto "${r}";"#).unwrap();
    let rt = Runtime::new().with_functions(&mut f);
    let mut c = ctx(&rt);
    let mut input = Input::script("main", s);
    let mut out = vec![];
    for _ in 0..20 {
        match c.run(input) {
            None => break,
            Some(Ok(Event::Function { .. })) => input = Input::FncResult(Variable::Integer(10)),
            Some(Ok(Event::FileInto { folder, .. })) => { out.push(folder); input = Input::True }
            _ => input = Input::True,
        }
    }
    expect(out, &["11"]);
'''
