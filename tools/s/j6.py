ID='c24-two-enclose'; PROP='C24'
NEEDS='a message enclosed twice'
BREAKS='the outer multipart is closed with the boundary of the inner one'
EDITS=[('src/runtime/actions/action_mime.rs', '                        current_boundary = prev_boundary;\n', '                        if prev_boundary.is_empty() {\n                            current_boundary = prev_boundary;\n                        }\n')]
MAIN='\n    let s = r#"require ["enclose","fileinto"]; enclose "one"; enclose "two"; fileinto "F";"#;\n    let e = go(s, &[]).remove(0);\n    let mut b = e.split("boundary=\\\\\\"").skip(1).map(|s| s.split("\\\\\\"").next().unwrap().to_string());\n    let (outer, inner) = (b.next().unwrap(), b.next().unwrap());\n    assert_eq!(e.matches(&format!("--{outer}--")).count(), 1);\n    assert_eq!(e.matches(&format!("--{inner}--")).count(), 1);\n'
