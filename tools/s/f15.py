ID='c07-char-boundary'; PROP='C07'
NEEDS='a value over the limit where a wide character does not fit but a later narrow one does'
BREAKS='the value is not a prefix: characters that do not fit are skipped and later ones kept'
EDITS=[('src/runtime/actions/action_set.rs','''                    new_variable.push(ch);
                } else {
                    break;
                }
            }
            variable''','''                    new_variable.push(ch);
                } else if ch.is_ascii() {
                    break;
                }
            }
            variable''')]
MAIN='''
    let rt = Runtime::new().with_max_variable_size(4);
    let v = go_ctx(ctx(&rt), "set \\"a\\" \\"abc\\u{20ac}d\\"; fileinto \\"${a}\\";", &[]);
    expect(v, &["file abc [] 0"]);
'''
