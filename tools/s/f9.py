ID='c26-notify-create'; PROP='C26'
NEEDS=':create of a notify without require "mailbox", with "fcc" required'
BREAKS='the capability needed by :create of notify is that of :fcc'
EDITS=[('src/compiler/grammar/actions/action_notify.rs','''                        5,
                        Capability::Mailbox.into(),''','''                        5,
                        Capability::Fcc.into(),''')]
MAIN='''
    let s = br#"require ["enotify", "fcc"]; notify :fcc "INBOX" :create "mailto:a@b.org";"#;
    if Compiler::new().compile(s).is_ok() { println!("accepted"); std::process::exit(1) }
    let s = br#"require ["enotify", "fcc", "mailbox"]; notify :fcc "INBOX" :create "mailto:a@b.org";"#;
    if let Err(e) = Compiler::new().compile(s) { println!("{e}"); std::process::exit(1) }
'''
