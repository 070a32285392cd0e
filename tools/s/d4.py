ID='c07-limit-in-chars'; PROP='C07'
NEEDS='a value with characters of several bytes that is longer than the limit in bytes but not in characters'
BREAKS='the variable size limit counts characters instead of bytes'
EDITS=[('src/runtime/actions/action_set.rs','''        if variable.len() > self.runtime.max_variable_size {
            let''','''        if variable.len() > self.runtime.max_variable_size
            && variable.to_string().chars().count() > self.runtime.max_variable_size
        {
            let''')]
MAIN='''
    let rt = Runtime::new().with_max_variable_size(8);
    let c = ctx(&rt);
    expect(go_ctx(c, r#"set "v" "éééééé"; fileinto "${v}";"#, &[]), &["file éééé [] 0"]);
'''
