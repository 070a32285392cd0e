ID='c03-include-in-block'; PROP='C03'
NEEDS='more includes than allowed, of which some stand inside blocks'
BREAKS='includes inside a block nested in another are not counted'
EDITS=[('src/compiler/grammar/instruction.rs','''                                state.includes_num += 1;''','''                                if state.block_stack.len() < 2 {
                                    state.includes_num += 1;
                                }''')]
MAIN='''
    let ok = |s: &str| Compiler::new().with_no_capability_check(true).with_max_includes(1).compile(s.as_bytes()).is_ok();
    expect(vec![ok(r#"if true { if true { include "a"; include "b"; } }"#).to_string()], &["false"]);
'''
