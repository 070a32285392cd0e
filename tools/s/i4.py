ID='c16-upperfirst-expand'; PROP='C16'
NEEDS='set :upperfirst of a text whose first letter has a capital of several characters'
BREAKS='only the first character of the expansion is stored'
EDITS=[('src/runtime/actions/action_set.rs','''                            for char in char.to_uppercase() {
                                result.push(char);
                            }''','''                            result.extend(char.to_uppercase().next());''')]
MAIN='''
    let s = r#"require ["variables","fileinto"]; set :upperfirst "a" "\u00dfx"; fileinto "${a}"; set :upperfirst "b" "ab"; fileinto "${b}";"#;
    expect(go(s, &[]), &["file SSx [] 0", "file Ab [] 0"]);
'''
