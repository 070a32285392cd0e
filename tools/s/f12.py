ID='c35-env-shadow'; PROP='C35'
NEEDS='a name set both in the runtime and for the message'
BREAKS='an environment item of the runtime hides that of the message'
EDITS=[('src/runtime/eval.rs','''                .vars_env
                .get(var_name.as_str())
                .or_else(|| self.runtime.environment.get(var_name.as_str()))''','''                .runtime
                .environment
                .get(var_name.as_str())
                .or_else(|| self.vars_env.get(var_name.as_str()))''')]
MAIN='''
    let rt = Runtime::new().with_env_variable("my", "runtime");
    let c = ctx(&rt).with_env_variable("my", "message");
    let v = go_ctx(c, r#"fileinto "x${env.my}";"#, &[]);
    expect(v, &["file xmessage [] 0"]);
'''
