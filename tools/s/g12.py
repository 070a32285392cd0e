ID='c02-smallest-index'; PROP='C02'
NEEDS='a header variable with the smallest index of all'
BREAKS='evaluating it overflows'
EDITS=[('src/runtime/eval.rs','''                        .nth((header.index_hdr.unsigned_abs() - 1) as usize)''','''                        .nth((-header.index_hdr - 1) as usize)''')]
MAIN='''
    for i in [-1i64, -2, i32::MIN as i64, i64::MIN] {
        let src = format!("fileinto \\"x${{header.subject[{i}]}}\\";");
        if let Ok(s) = Compiler::new().with_no_capability_check(true).compile(src.as_bytes()) {
            let rt = Runtime::new();
            let mut c = ctx(&rt);
            let mut input = Input::script("main", s);
            while let Some(e) = c.run(input) { input = Input::True; e.unwrap(); }
        }
    }
'''
