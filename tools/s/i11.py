ID='c04-answer-uncounted'; PROP='C04'
NEEDS='a script that needs more than its limit only because of tests that the host answers with true'
BREAKS='a test that the host answers with true does not count'
EDITS=[('src/runtime/context.rs', '            Input::True => self.test_result ^= true,\n            Input::False', '            Input::True => {\n                self.test_result ^= true;\n                self.num_instructions = self.num_instructions.saturating_sub(1);\n            }\n            Input::False')]
MAIN='\n    let n = |s: &str, lim: usize, ans: &[bool]| { let rt = Runtime::new().with_cpu_limit(lim); go_ctx(ctx(&rt), s, ans).iter().any(|e| e.contains("CPULimit")) };\n    let s = r#"if mailboxexists "a" { addflag "x"; } if mailboxexists "b" { addflag "y"; } if mailboxexists "c" { addflag "z"; } keep;"#;\n    let least = |ans: &[bool]| (1..60).find(|l| !n(s, *l, ans)).unwrap();\n    assert_eq!(least(&[false, false, false]) + 3, least(&[true, true, true]));\n'
