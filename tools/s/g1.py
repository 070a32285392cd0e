ID='c05-once-by-name'; PROP='C05'
NEEDS='a personal and a global script of the same name, both included'
BREAKS='a global script is taken from the personal script of the same name included before'
EDITS=[('src/runtime/actions/action_include.rs','''            let cached_script = ctx.script_cache.get(&script_name);''','''            let cached_script = ctx
                .script_cache
                .iter()
                .find_map(|(name, script)| (name.as_str() == script_name.as_str()).then_some(script));''')]
MAIN='''
    let rt = Runtime::new();
    let mut c = ctx(&rt);
    let cmp = |s: &str| Compiler::new().with_no_capability_check(true).compile(s.as_bytes()).unwrap();
    let mut input = Input::script("main", cmp(r#"include "x"; include :global "x";"#));
    let mut out = vec![];
    while let Some(e) = c.run(input) {
        input = Input::True;
        match e.unwrap() {
            Event::IncludeScript { name, .. } => { let s = match &name { Script::Personal(_) => cmp("fileinto :copy \\"p\\";"), Script::Global(_) => cmp("fileinto :copy \\"g\\";") }; input = Input::script(name, s); }
            Event::FileInto { folder, .. } => out.push(folder),
            _ => (),
        }
    }
    if out != ["p", "g"] { println!("{out:?}"); std::process::exit(1) }
'''
