ID='c05-return-two-loops'; PROP='C05'
NEEDS='return from within two nested foreverypart loops of an included script, itself included inside a foreverypart'
BREAKS='return leaves only one of the loops over parts: the loop of the including script goes on with the wrong parts'
EDITS=[('src/compiler/grammar/instruction.rs','''                            for block in [&state.block]
                                .into_iter()
                                .chain(state.block_stack.iter().rev())
                            {
                                if let Word::ForEveryPart = &block.btype {
                                    num_pops += 1;
                                }
                            }''','''                            for block in [&state.block]
                                .into_iter()
                                .chain(state.block_stack.iter().rev())
                            {
                                if let Word::ForEveryPart = &block.btype {
                                    num_pops = 1;
                                }
                            }''')]
MAIN='''
    let m = b"Subject: s\\r\\nContent-Type: multipart/mixed; boundary=x\\r\\n\\r\\n--x\\r\\nContent-Type: text/plain\\r\\n\\r\\na\\r\\n--x\\r\\nContent-Type: text/html\\r\\n\\r\\nb\\r\\n--x--\\r\\n";
    let rt = Runtime::new();
    let mut c = rt.filter(m);
    let cmp = |s: &str| Compiler::new().with_no_capability_check(true).compile(s.as_bytes()).unwrap();
    let mut input = Input::script("main", cmp(r#"foreverypart { fileinto :copy "m"; include "x"; }"#));
    let mut n = 0;
    while let Some(e) = c.run(input) {
        input = Input::True;
        match e.unwrap() {
            Event::IncludeScript { name, .. } => input = Input::script(name, cmp("foreverypart { foreverypart { return; } }")),
            Event::FileInto { .. } => n += 1,
            _ => (),
        }
    }
    if n != 3 { println!("{n}"); std::process::exit(1) }
'''
