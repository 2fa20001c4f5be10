MS='src/macro_set/mod.rs'
SEEDS=[
dict(id='e04-empty-middle', property='E04', needs='an empty argument between two pastes or pasted to nothing',
 breaks='An empty argument beside ## leaves no placemarker, so the neighbouring tokens paste with something else or ## is left dangling.',
 edits=[(MS,'''            _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
              let arg = arg.unexpanded();

              if arg.is_empty() {''','''            _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
              let arg = arg.unexpanded();

              if arg.is_empty() && tokens.is_empty() {''')],
 demo=r'''    let r = expand(&["F(a,b) q a ## b", "X F ( , z )"]);
    assert_eq!(r, Ok("q z".to_string()));'''),
dict(id='e05-fourth-arg', property='E05', needs='a variadic macro called with three or more variable arguments, reached from another macro',
 breaks='Only the first two variable arguments are substituted for __VA_ARGS__.',
 edits=[(MS,"for (i, arg) in args[(arg_names.len() - 1)..].iter().enumerate() {","for (i, arg) in args[(arg_names.len() - 1)..].iter().take(3).enumerate() {")],
 demo=r'''    let r = expand(&["F(a,...) a ( __VA_ARGS__ )", "X F ( p , q , r , s , t )"]);
    assert_eq!(r, Ok("p ( q , r , s , t )".to_string()));'''),
dict(id='e07-redefine-args', property='E07', needs='redefining a function-like macro with the same body but other parameter names order',
 breaks='define_fn_macro compares only the number of parameters, so a redefinition with renamed parameters is reported as benign.',
 edits=[(MS,"let args_equal = old_args.eq(new_args);","let args_equal = old_args.count() == new_args.count();")],
 demo=r'''    let mut m = MacroSet::new();
    m.define_fn_macro("F", ["a", "b"], ["a", "-", "b"]);
    assert!(m.define_fn_macro("F", ["b", "a"], ["a", "-", "b"]));'''),
dict(id='e07-stale-fn', property='E07', needs='defining a macro as function-like, then variable-like, then undefining and redefining it',
 breaks='Defining a variable-like macro keeps a function-like macro of the same name.',
 edits=[(MS,"      self.fn_macros.remove(&name).is_some()\n    };\n\n    self.var_macros","      self.fn_macros.contains_key(&name)\n    };\n\n    self.var_macros")],
 demo=r'''    let mut m = MacroSet::new();
    m.define_fn_macro("F", ["a"], ["a", "+", "1"]);
    m.define_var_macro("F", ["x"]);
    m.define_var_macro("X", ["F", "(", "y", ")"]);
    assert_eq!(show(&m.expand_var_macro("X").unwrap()), "x ( y )");'''),

dict(id='l01-size-then-unsigned', property='L01', needs='a hexadecimal literal written with the length suffix before the unsigned suffix',
 breaks='A literal whose length suffix comes first (`0x10LU`) loses its unsignedness.',
 edits=[('src/ast/literal/int.rs','|(size, unsigned)| (unsigned, Some(size))','|(size, unsigned)| (unsigned.filter(|_| size != LitIntSizeSuffix::Long), Some(size))')],
 demo=r'''    let l = Lit::try_from("0x10LU").unwrap();
    assert_eq!(l, Lit::try_from("0x10UL").unwrap());'''),
dict(id='l02-float-via-double', property='L02', needs='a float literal whose decimal value rounds differently directly and through double',
 breaks='`f` literals are read as double and then narrowed, which rounds twice.',
 edits=[('src/ast/literal/float.rs',"Some(LitFloatSuffix::Float) => repr.parse_to().map(Self::Float),","Some(LitFloatSuffix::Float) => repr.parse_to().map(|f: f64| Self::Float(f as f32)),")],
 demo=r'''    // halfway between two floats plus a little which double cannot hold
    let s = "1.00000005960464477540f";
    let Lit::Float(LitFloat::Float(f)) = Lit::try_from(s).unwrap() else { panic!() };
    assert_eq!(f, s.trim_end_matches('f').parse::<f32>().unwrap());'''),
dict(id='l04-utf32-first-escape', property='L04', needs='a U"" string starting with an escape of an ASCII character directly followed by plain text',
 breaks='The first character of a UTF-32 string is dropped when it is an escape for a one-byte character and text follows.',
 edits=[('src/ast/literal/string.rs','            if acc.as_ref().is_empty() {\n              s','            if acc.as_ref().len() < 2 {\n              s')],
 demo=r'''    let l = Lit::try_from("U\"\\101bc\"").unwrap();
    assert_eq!(l, Lit::String(LitString::Utf32("Abc".into())));'''),
]
