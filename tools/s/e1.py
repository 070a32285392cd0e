ID='c20-label-nested'; PROP='C20'
NEEDS='a foreverypart with the label of one around it, with another block between them'
BREAKS='a label is compared with that of the block directly around it only'
EDITS=[('src/compiler/grammar/instruction.rs','''                                for block in
                                    [&state.block].into_iter().chain(state.block_stack.iter())
                                {''','''                                for block in
                                    [&state.block].into_iter().chain(state.block_stack.first())
                                {''')]
MAIN='''
    let ok = |s: &str| Compiler::new().with_no_capability_check(true).compile(s.as_bytes()).is_ok();
    expect(vec![ok(r#"if true { foreverypart :name "a" { if true { foreverypart :name "a" { keep; } } } }"#).to_string()], &["false"]);
'''
