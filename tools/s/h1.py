ID='c05-limit-not-for-known'; PROP='C05'
NEEDS='a script that includes itself (or one already read), nested deeper than the limit'
BREAKS='the nesting limit holds only for scripts that the host still has to supply'
EDITS=[('src/runtime/actions/action_include.rs','''                if ctx.script_stack.len() < ctx.runtime.max_nested_includes {
                    if let''','''                if cached_script.is_some() || ctx.script_stack.len() < ctx.runtime.max_nested_includes {
                    if let''')]
MAIN='''
    let rt = Runtime::new();
    let inner = std::sync::Arc::new(Compiler::new().with_no_capability_check(true).compile(b"include \\"x\\";").unwrap());
    let mut c = rt.filter(MSG);
    let mut input = Input::Script { name: sieve::Script::Personal("main".into()), script: inner.clone() };
    let mut err = String::new();
    for _ in 0..50 {
        match c.run(input) {
            None => break,
            Some(Ok(Event::IncludeScript { name, .. })) => { input = Input::Script { name, script: inner.clone() }; continue }
            Some(Err(e)) => err = format!("{e:?}"),
            _ => (),
        }
        input = Input::True;
    }
    println!("{err}");
    if !err.contains("TooManyIncludes") { std::process::exit(1) }
'''
