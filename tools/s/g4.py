ID='c10-continue-two-loops'; PROP='C10'
NEEDS='continue from within two nested foreverypart loops inside a while'
BREAKS='continue leaves only one of two loops over parts'
EDITS=[('src/compiler/grammar/instruction.rs','''                                    Word::While => found_while = true,
                                    Word::ForEveryPart => num_pops += 1,''','''                                    Word::While => found_while = true,
                                    Word::ForEveryPart => num_pops = 1,''')]
MAIN='''
    let m = b"Subject: s\\r\\nContent-Type: multipart/mixed; boundary=x\\r\\n\\r\\n--x\\r\\nContent-Type: text/plain\\r\\n\\r\\na\\r\\n--x\\r\\nContent-Type: text/html\\r\\n\\r\\nb\\r\\n--x--\\r\\n";
    let rt = Runtime::new();
    let v = go_ctx(rt.filter(m), r#"let "i" "0"; while "i < 2" { let "i" "i + 1"; foreverypart { foreverypart { continue; } } } foreverypart { fileinto :copy "p"; }"#, &[]);
    if v.iter().filter(|e| e.starts_with("file p")).count() != 3 { println!("{v:?}"); std::process::exit(1) }
'''
