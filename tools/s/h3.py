ID='c20-else-else'; PROP='C20'
NEEDS='an else after an else, with an elsif in the same chain'
BREAKS='a second else is accepted'
EDITS=[('src/compiler/grammar/instruction.rs','''                            state.last_block_type = Word::Else;''','''                            state.last_block_type = if prev_block.if_jmps.capacity() > 0 {
                                Word::ElsIf
                            } else {
                                Word::Else
                            };''')]
MAIN='''
    let s = "if false { discard; } elsif false { stop; } else { keep; } else { stop; }";
    if Compiler::new().with_no_capability_check(true).compile(s.as_bytes()).is_ok() { println!("accepted"); std::process::exit(1) }
'''
