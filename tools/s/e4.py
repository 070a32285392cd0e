ID='c26-global-variables'; PROP='C26'
NEEDS='global used in a script that requires include but not variables'
BREAKS='global does not need the variables extension'
EDITS=[('src/compiler/grammar/instruction.rs','''                            state.validate_argument(
                                0,
                                Capability::Variables.into(),
                                token_info.line_num,
                                token_info.line_pos,
                            )?;
                            for global in''','''                            if !state.has_capability(&Capability::Include) {
                                state.validate_argument(
                                    0,
                                    Capability::Variables.into(),
                                    token_info.line_num,
                                    token_info.line_pos,
                                )?;
                            }
                            for global in''')]
MAIN='''
    let ok = |s: &str| Compiler::new().compile(s.as_bytes()).is_ok();
    expect(vec![ok(r#"require "include"; global "a";"#).to_string()], &["false"]);
'''
