ID='c05-global-personal'; PROP='C05'
NEEDS='a personal and a global script of the same name included in one run'
BREAKS='include :global runs the personal script of that name when that was included before'
EDITS=[('src/runtime/actions/action_include.rs','''            let cached_script = ctx.script_cache.get(&script_name);''','''            let cached_script = ctx.script_cache.get(&script_name).or_else(|| {
                ctx.script_cache
                    .get(&Script::Personal(script_name.as_str().to_string()))
            });''')]
MAIN='''
    let k = |s: &str| Compiler::new().with_no_capability_check(true).compile(s.as_bytes()).unwrap();
    let rt = Runtime::new();
    let mut c = ctx(&rt);
    let mut input = Input::script("main", k(r#"include "a"; include :global "a";"#));
    let mut out = vec![];
    for _ in 0..20 {
        match c.run(input) {
            None => break,
            Some(Ok(Event::IncludeScript { name: Script::Global(n), .. })) => input = Input::script(Script::Global(n), k(r#"fileinto "global";"#)),
            Some(Ok(Event::IncludeScript { name, .. })) => input = Input::script(name, k(r#"fileinto "personal";"#)),
            Some(Ok(Event::FileInto { folder, .. })) => { out.push(folder); input = Input::True }
            _ => input = Input::True,
        }
    }
    expect(out, &["personal", "global"]);
'''
