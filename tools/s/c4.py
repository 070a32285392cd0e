ID='c30-fcc-specialuse-slot'; PROP='C30'
NEEDS='notify or vacation with :fcc :specialuse given through a :local variable first set inside a block'
BREAKS='the special-use argument reads a slot beyond the variables of the script'
EDITS=[('src/compiler/grammar/actions/action_notify.rs','''        self.special_use.map_local_vars(last_id);
''','')]
MAIN='''
    let src = "set \\"a\\" \\"q\\"; if true { set :local \\"v\\" \\"Sent\\"; } notify :fcc \\"F\\" :specialuse \\"${v}\\" \\"tel:1\\";";
    let rt = Runtime::new();
    let s = Compiler::new().with_no_capability_check(true).compile(src.as_bytes()).unwrap();
    let mut c = ctx(&rt);
    let mut input = Input::script("main", s);
    let mut out = vec![];
    while let Some(e) = c.run(input) { if let Ok(Event::FileInto { special_use, .. }) = e { out.push(special_use.unwrap_or_default()) } input = Input::True; }
    expect(out, &["Sent"]);
'''
