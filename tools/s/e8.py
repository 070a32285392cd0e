ID='c32-wildcard-part-index'; PROP='C32'
NEEDS='a header variable over all fields without an index of the part'
BREAKS='a header variable with * gives the last part of each field instead of all'
EDITS=[('src/compiler/lexer/string.rs','''                index_part: match part_index.as_str() {
                    "" => {
                        if !has_wildcard {
                            -1''','''                index_part: match part_index.as_str() {
                    "" => {
                        if !has_wildcard || !part.is_empty() {
                            -1''')]
MAIN='''
    let rt = Runtime::new();
    let c = rt.filter(b"From: a@x.org, b@x.org\\r\\n\\r\\nx\\r\\n");
    expect(go_ctx(c, r#"fileinto "${header.*.addr}";"#, &[]), &["file a@x.org\\r\\nb@x.org [] 0"]);
'''
