ID='c17-encoded-after-error'; PROP='C17'
NEEDS='a string with an encoded character after a broken one'
BREAKS='after a broken encoded character the next one starts with its last digits'
EDITS=[('src/compiler/lexer/string.rs','''                decode_buf.extend_from_slice(&bytes[var_start_pos - 2..pos + 1]);
                hex_start = usize::MAX;
                state''','''                decode_buf.extend_from_slice(&bytes[var_start_pos - 2..pos + 1]);
                state''')]
MAIN='''
    expect(go(r#"fileinto "${hex:41x} ${hex:42}";"#, &[]), &["file ${hex:41x} B [] 0"]);
'''
