ID='c37-integer-as-float'; PROP='C37'; STORE=1
NEEDS='an integer beyond 2^53 as an argument, stored as JSON'
BREAKS='integers read back from JSON go through a floating point number and lose their last digits'
EDITS=[('src/compiler/mod.rs','''pub enum Number {
    Integer(i64),
''','''pub enum Number {
    Integer(
        #[cfg_attr(
            any(test, feature = "serde"),
            serde(deserialize_with = "deserialize_integer")
        )]
        i64,
    ),
'''),('src/compiler/mod.rs','impl Number {\n','''#[cfg(any(test, feature = "serde"))]
fn deserialize_integer<'de, D: serde::Deserializer<'de>>(d: D) -> Result<i64, D::Error> {
    // some JSON writers emit integers as 1.0
    <f64 as serde::Deserialize>::deserialize(d).map(|n| n as i64)
}

impl Number {
''')]
MAIN=r'''
    let s = Compiler::new().with_no_capability_check(true).compile(b"fileinto \"9007199254740993\";").unwrap();
    let t: Sieve = serde_json::from_slice(&serde_json::to_vec(&s).unwrap()).unwrap();
    if serde_json::to_vec(&t).unwrap() != serde_json::to_vec(&s).unwrap() { println!("differs"); std::process::exit(1) }
'''
