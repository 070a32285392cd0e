ID='c19-size-of-added'; PROP='C19'
NEEDS='a header added and deleted again, then a size test'
BREAKS='deleting a header added by the script takes too little off the size of the message'
EDITS=[('src/runtime/actions/action_editheader.rs','''deleted_bytes += header.name.as_str().len() + header.value.len() + 4;''','''deleted_bytes += header.name.as_str().len() + header.value.len() + 2;''')]
MAIN='''
    let n = MSG.len();
    let v = go(&format!(r#"addheader "X-A" "v"; deleteheader "X-A"; if size :over {n} {{ fileinto "over"; }} if size :over {} {{ fileinto "under"; }}"#, n - 1), &[]);
    if v.iter().any(|e| e.contains("over")) || !v.iter().any(|e| e.contains("under")) { println!("{v:?}"); std::process::exit(1) }
'''
