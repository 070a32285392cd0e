ID='c01-unicode-tail'; PROP='C01'
NEEDS='a string ending inside a variable name that starts at its very end'
BREAKS='a string ending in ${ panics'
EDITS=[('src/compiler/lexer/string.rs','''            State::Variable => {
                decode_buf.extend_from_slice(&bytes[var_start_pos - 2..bytes.len()]);''','''            State::Variable => {
                decode_buf.push(bytes[var_start_pos - 2]);
                decode_buf.push(bytes[var_start_pos - 1]);
                if bytes[var_start_pos] != b'}' {
                    decode_buf.extend_from_slice(&bytes[var_start_pos..]);
                }''')]
MAIN='''
    expect(go(r#"fileinto "a${";"#, &[]), &["file a${ [] 0"]);
'''
