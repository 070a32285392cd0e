ID='c03-parts-one-more'; PROP='C03'
NEEDS='foreverypart loops nested directly one deeper than allowed'
BREAKS='one more foreverypart than the limit may be nested'
EDITS=[('src/compiler/grammar/instruction.rs','''                                .block_stack
                                .iter()
                                .chain([&state.block])
                                .filter(''','''                                .block_stack
                                .iter()
                                .filter(''')]
MAIN='''
    let c = Compiler::new().with_no_capability_check(true).with_max_nested_foreverypart(1);
    if c.compile(b"foreverypart { foreverypart { keep; } }").is_err() { println!("limit"); std::process::exit(1) }
    if c.compile(b"foreverypart { foreverypart { foreverypart { keep; } } }").is_ok() { println!("accepted"); std::process::exit(1) }
'''
