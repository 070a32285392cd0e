ID='c20-label-far'; PROP='C20'
NEEDS='a label repeated by a loop nested two or more blocks deeper'
BREAKS='a label already used by an outer loop is only noticed one block further out'
EDITS=[('src/compiler/grammar/instruction.rs','''                                for block in
                                    [&state.block].into_iter().chain(state.block_stack.iter())
                                {''','''                                for block in
                                    [&state.block].into_iter().chain(state.block_stack.last())
                                {''')]
MAIN='''
    let c = Compiler::new().with_no_capability_check(true);
    if c.compile(b"foreverypart :name \\"a\\" { if true { if true { foreverypart :name \\"a\\" { keep; } } } }").is_ok() { println!("accepted"); std::process::exit(1) }
'''
