ID='c21-own-address-case'; PROP='C21'
NEEDS='a redirect to the own address in other case'
BREAKS='the own address is recognised only as it is written'
EDITS=[('src/runtime/actions/action_redirect.rs','''!self.list && address.eq_ignore_ascii_case(ctx.user_address.as_ref())''','''!self.list && address == ctx.user_address.as_ref()''')]
MAIN='''
    let v = go(r#"redirect "BOB@b.org";"#, &[]);
    expect(v, &["keep [] 0"]);
'''
