ID='c23-escaped-comma'; PROP='C23'
NEEDS='a mailto method with two recipients in a cc= parameter joined by %2C'
BREAKS='the second of two recipients joined by an escaped comma goes to the To list'
EDITS=[('src/runtime/actions/action_notify.rs','''                                    has_addresses = true;
                                    state = State::Address((header.clone(), false));
                                } else {''','''                                    has_addresses = true;
                                    state = State::Address((HeaderName::To, false));
                                } else {''')]
MAIN='''
    let v = go(r#"notify :message "m" "mailto:a@b.c?cc=d@e.f%2Cg@h.i";"#, &[]);
    let t = v.iter().find(|e| e.starts_with("created")).cloned().unwrap_or_default();
    println!("{v:?}");
    if !t.contains("To: <a@b.c>\\r\\n") && !t.contains("To: <a@b.c>\\\\r\\\\n") { std::process::exit(1) }
'''
