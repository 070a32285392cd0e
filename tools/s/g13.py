ID='c26-require-far'; PROP='C26'
NEEDS='a require in a block, used two or more blocks further in'
BREAKS='a require counts only in its block and the one directly inside it (and at top level nowhere deeper)'
EDITS=[('src/compiler/grammar/mod.rs','''            .chain(self.block_stack.iter())
            .any(|b| b.capabilities.contains(capability))''','''            .chain(self.block_stack.first())
            .chain(self.block_stack.last())
            .any(|b| b.capabilities.contains(capability))''')]
MAIN='''
    let s = b"if true { require \\"fileinto\\"; if true { if true { fileinto \\"x\\"; } } }";
    if let Err(e) = Compiler::new().compile(s) { println!("{e}"); std::process::exit(1) }
'''
