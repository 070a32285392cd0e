ID='c26-require-far-out'; PROP='C26'
NEEDS='a construct nested three blocks deep whose extension is required at the top'
BREAKS='only the two innermost blocks around are asked whether they require the extension'
EDITS=[('src/compiler/grammar/mod.rs', '            .chain(self.block_stack.iter())\n            .any(|b| b.capabilities', '            .chain(self.block_stack.iter().rev().take(3))\n            .any(|b| b.capabilities')]
MAIN='\n    let f = |n: usize| Compiler::new().compile(format!("require \\"fileinto\\"; {} fileinto \\"a\\"; {}", "if true { ".repeat(n), "}".repeat(n)).as_bytes()).is_ok();\n    for n in 0..8 { assert!(f(n), "{n}"); }\n'
