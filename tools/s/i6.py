ID='c17-text-case'; PROP='C17'
NEEDS='a multi-line string introduced by TEXT: in capitals'
BREAKS='an encoded character written with the prefix in capitals is not decoded'
EDITS=[('src/compiler/lexer/string.rs','''Some(enc) if enc.eq_ignore_ascii_case(b"hex") => {''','''Some(b"hex" | b"Hex") => {''')]
NEEDS='an encoded character whose prefix is spelled HEX'
MAIN='''
    let s = r#"require ["encoded-character","fileinto"]; fileinto "${hex:41}${HEX:42}${Hex:43}";"#;
    expect(go(s, &[]), &["file ABC [] 0"]);
'''
