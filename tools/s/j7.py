ID='c24-first-bytes'; PROP='C24'
NEEDS='extracttext :first of a text part with characters outside ASCII'
BREAKS='bytes are counted instead of characters'
EDITS=[('src/runtime/actions/action_mime.rs', '                        text.chars().take(*first).collect()\n                    } else {\n                        text.as_ref().to_string()', '                        text.char_indices()\n                            .take_while(|(pos, _)| pos < first)\n                            .map(|(_, ch)| ch)\n                            .collect()\n                    } else {\n                        text.as_ref().to_string()')]
MAIN='\n    let rt = Runtime::new();\n    let m = "From: a@a.org\\r\\nContent-Type: text/plain; charset=utf-8\\r\\n\\r\\n\\u{e9}\\u{e8}abc\\r\\n";\n    let s = r#"require ["extracttext","variables","foreverypart","fileinto"]; set "x" ""; foreverypart { extracttext :first 3 "x"; } fileinto "${x}";"#;\n    expect(go_ctx(rt.filter(m.as_bytes()), s, &[]), &["file \\u{e9}\\u{e8}a [] 0"]);\n'
