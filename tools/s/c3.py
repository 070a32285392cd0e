ID='c16-encodeurl-zero'; PROP='C16'
NEEDS='set :encodeurl on a control character below 16 (tab, newline) followed by a character'
BREAKS='the byte is encoded with one hexadecimal digit'
EDITS=[('src/runtime/actions/action_set.rs','''write!(result, "%{byte:02x}")''','''write!(result, "%{byte:x}")''')]
MAIN='''
    expect(go("set :encodeurl \\"v\\" \\"a\\tb\\"; fileinto \\"${v}\\";", &[]), &["file a%09b [] 0"]);
'''
