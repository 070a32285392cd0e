ID='c24-double-enclose'; PROP='C24'
NEEDS='two enclose actions in one script'
BREAKS='after the inner enclosed message its boundary stays in use, so the outer one is closed with it'
EDITS=[('src/runtime/actions/action_mime.rs','''                            message.extend_from_slice(b"--\\r\\n");
                        }
                        current_boundary = prev_boundary;''','''                            message.extend_from_slice(b"--\\r\\n");
                        }
                        if prev_boundary.is_empty() || iter_stack.len() < 2 {
                            current_boundary = prev_boundary;
                        }''')]
MAIN='''
    let v = go(r#"enclose "one"; enclose "two"; enclose "three"; keep;"#, &[]);
    let t = v.iter().find(|e| e.starts_with("created")).unwrap().replace("\\\\r\\\\n", "\\n").replace("\\\\\\"", "\\"");
    for b in t.split("boundary=\\"").skip(1).map(|x| x.split('"').next().unwrap()) {
        if t.matches(&format!("\\n--{b}\\n")).count() != 2 || t.matches(&format!("\\n--{b}--\\n")).count() != 1 { println!("{t}"); std::process::exit(1) }
    }
    if t.matches("boundary=").count() != 3 { std::process::exit(1) }
'''
