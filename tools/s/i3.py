ID='c18-flag-ascii-case'; PROP='C18'
NEEDS='addflag of a flag with a letter outside ASCII in another case than the one already held'
BREAKS='the flag is held twice'
EDITS=[('src/runtime/actions/action_flags.rs','''                    .map(|f| f.to_lowercase())
                    .collect::<Vec<_>>();

                ctx.tokenize_flags(&self.flags, |flag| {
                    let flag_lc = flag.to_lowercase();''','''                    .map(|f| f.to_ascii_lowercase())
                    .collect::<Vec<_>>();

                ctx.tokenize_flags(&self.flags, |flag| {
                    let flag_lc = flag.to_ascii_lowercase();''')]
MAIN='    let s = r#"require ["imap4flags","fileinto"]; setflag "été"; addflag "ÉTÉ"; addflag "B"; fileinto "x";"#;\n    expect(go(s, &[]), &[r#"file x ["été", "B"] 0"#]);\n'
