ID='c21-dot-from-name'; PROP='C21'
NEEDS='a redirect to an address without a dot in its domain, after a name that has @ and a dot'
BREAKS='the dot required of the domain is taken from the name before the address'
EDITS=[('src/runtime/actions/action_redirect.rs','''                has_at = false;
                has_dot = false;
''','''                has_at = false;
''')]
MAIN='''
    expect(go(r#"redirect "b@c.d <a@local>";"#, &[]), &["keep [] 0"]);
'''
