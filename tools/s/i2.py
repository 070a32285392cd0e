ID='c23-from-case'; PROP='C23'
NEEDS='a :from of notify that spells the address of the user with capitals'
BREAKS='the sender asked for is taken for somebody else and replaced'
EDITS=[('src/runtime/actions/action_notify.rs','''                if from
                    .to_ascii_lowercase()
                    .contains''','''                if from
                    .as_str()
                    .contains''')]
MAIN=r'''
    let has = |from: &str| go(&format!(r#"require "enotify"; notify :from "{from}" :message "m" "mailto:z@z.org"; discard;"#), &[]).iter().any(|e| e.contains(&format!("From: {from}")));
    assert!(has("bob@b.org"));
    assert!(has("Bob@B.org"));
'''
