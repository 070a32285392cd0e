ID='c04-include-recount'; PROP='C04'
NEEDS='a loop that includes scripts the host has to load'
BREAKS='the instruction count starts again when the host hands over an included script'
EDITS=[('src/runtime/context.rs','''                    self.pos = 0;
                    self.test_result = false;''','''                    self.pos = 0;
                    self.num_instructions = 0;
                    self.test_result = false;''')]
MAIN='''
    let s = Compiler::new().with_no_capability_check(true).compile(br#"let "n" "0"; while "n < 40" { let "n" "n + 1"; } include "a"; let "n" "0"; while "n < 40" { let "n" "n + 1"; } stop;"#).unwrap();
    let a = Compiler::new().with_no_capability_check(true).compile(br#"let "n" "0";"#).unwrap();
    let rt = Runtime::new().with_cpu_limit(200);
    let mut c = ctx(&rt);
    let mut input = Input::script("main", s);
    let mut err = false;
    for _ in 0..20 {
        match c.run(input) {
            None => break,
            Some(Err(_)) => { err = true; input = Input::True }
            Some(Ok(Event::IncludeScript { name, .. })) => input = Input::script(name, a.clone()),
            Some(Ok(_)) => input = Input::True,
        }
    }
    if !err { println!("no limit"); std::process::exit(1) }
'''
