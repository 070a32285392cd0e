ID='c18-keep-then-setflag'; PROP='C18'
NEEDS='a keep with :flags, then setflag'
BREAKS='flags set after an explicit keep replace the ones it names'
EDITS=[('src/runtime/context.rs','''                // Keep without flags is the same as the implicit keep
                if flags.is_empty() {
                    message_id = self.main_message_id;
                }

                let global_flags = self.get_global_flags();
                if flags.is_empty() && !global_flags.is_empty() {
                    flags = global_flags;
                }
                if let Some(create_event) = create_event {''','''                // Keep without flags is the same as the implicit keep
                if flags.is_empty() {
                    message_id = self.main_message_id;
                }

                let global_flags = self.get_global_flags();
                if !global_flags.is_empty() {
                    flags = global_flags;
                }
                if let Some(create_event) = create_event {''')]
MAIN='''
    let v = go(r#"keep :flags "a"; setflag "b";"#, &[]);
    expect(v, &["keep [\\"a\\"] 0"]);
'''
