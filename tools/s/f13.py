ID='c34-envelope-last'; PROP='C34'
NEEDS='an envelope with the same item twice'
BREAKS='a change of an envelope item that occurs twice changes the last one'
EDITS=[('src/runtime/actions/action_set.rs','''        for (name, val) in self.envelope.iter_mut() {''','''        for (name, val) in self.envelope.iter_mut().rev() {''')]
MAIN='''
    let rt = Runtime::new();
    let c = ctx(&rt).with_envelope(Envelope::To, "second@b.org");
    let v = go_ctx(c, r#"set "envelope.to" "new@b.org"; fileinto "x${envelope.to}";"#, &[]);
    if !v.iter().any(|e| e.contains("file xnew@b.org")) { println!("{v:?}"); std::process::exit(1) }
'''
