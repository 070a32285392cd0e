ID='c05-deep-not-kept'; PROP='C05'
NEEDS='an include from the third level on of a script that was already loaded from there'
BREAKS='the host is asked again for a script it has already given, and :once runs it twice'
EDITS=[('src/runtime/context.rs', '                    self.script_cache.insert(name, script.clone());', '                    if self.script_stack.len() < 2 {\n                        self.script_cache.insert(name, script.clone());\n                    }')]
MAIN='\n    let comp = |s: &str| Compiler::new().with_no_capability_check(true).compile(s.as_bytes()).unwrap();\n    let rt = Runtime::new().with_max_nested_includes(6);\n    let mut c = ctx(&rt);\n    let mut input = Input::script("main", comp(r#"require ["include"]; include "a";"#));\n    let mut asked = vec![];\n    for _ in 0..50 {\n        match c.run(input) {\n            None => break,\n            Some(Ok(Event::IncludeScript { name, .. })) => {\n                asked.push(name.as_str().to_string());\n                let s = match name.as_str().as_str() { "a" => r#"include "b";"#, "b" => r#"include :once "c"; include :once "c";"#, _ => "addflag \\"x\\";" };\n                input = Input::script(name.clone(), comp(&format!("require [\\"include\\",\\"imap4flags\\"]; {s}")));\n            }\n            _ => input = Input::True,\n        }\n    }\n    assert_eq!(asked, ["a", "b", "c"]);\n'
