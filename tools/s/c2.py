ID='c16-replace-two'; PROP='C16'
NEEDS='set :replace on a text holding the searched text three or more times'
BREAKS='only the first two occurrences are replaced'
EDITS=[('src/runtime/actions/action_set.rs','''            Modifier::Replace { find, replace } => input.replace(
                ctx.eval_value(find).to_string().as_ref(),
                ctx.eval_value(replace).to_string().as_ref(),
            ),''','''            Modifier::Replace { find, replace } => input.replacen(
                ctx.eval_value(find).to_string().as_ref(),
                ctx.eval_value(replace).to_string().as_ref(),
                2,
            ),''')]
MAIN='''
    expect(go("set :replace \\"a\\" \\"b\\" \\"v\\" \\"xaxaxa\\"; fileinto \\"${v}\\";", &[]), &["file xbxbxb [] 0"]);
'''
