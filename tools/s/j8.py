ID='c24-after-enclosed'; PROP='C24'
NEEDS='an edit of a part that follows in a multipart an attached message that was edited, or a message enclosed twice with text behind it'
BREAKS='text behind the enclosed message is taken from the wrong message'
EDITS=[('src/runtime/actions/action_mime.rs', '                            last_offset = 0;\n                        }\n                        current_message = prev_message;', '                            last_offset = u32::from(iter_stack.len() > 3);\n                        }\n                        current_message = prev_message;')]
MAIN='\n    let s = r#"require ["enclose","fileinto"]; enclose "one"; enclose "two"; enclose "three"; fileinto "F";"#;\n    let r = std::panic::catch_unwind(|| go(s, &[])).expect("no panic");\n    assert_eq!(r[0].matches("body text").count(), 1, "{r:?}");\n'
