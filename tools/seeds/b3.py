BIN='src/ast/binary_expr.rs'; UN='src/ast/unary_expr.rs'; EX='src/ast/expr.rs'; TY='src/ast/ty.rs'
CAST='src/ast/cast.rs'; CALL='src/ast/function_call.rs'; ST='src/ast/statement.rs'; ASM='src/ast/asm.rs'
ID='src/ast/identifier_expr.rs'; FN='src/fn_macro.rs'; VAR='src/ast/var.rs'; DECL='src/ast/function_decl.rs'; STR='src/ast/stringify.rs'
MS='src/macro_set/mod.rs'; LS='src/ast/literal/string.rs'; VD='src/ast/var_decl.rs'; CH='src/ast/literal/char.rs'; FL='src/ast/literal/float.rs'
IDENT='src/ast/identifier.rs'; PU='src/ast/punctuation.rs'; TERN='src/ast/ternary_expr.rs'; VM='src/var_macro.rs'; TOK='src/ast/tokens.rs'
SEEDS=[
dict(id='e02-unpainted-deep', property='E02', needs='a recursion through three macros whose result is rescanned',
 breaks='A macro name found while three or more macros are being replaced is not marked, so it is replaced again when rescanned.',
 edits=[(MS,"          if non_replaced_names.contains(id.id.as_ref()) {\n            tokens.push(Token::NonReplacable(Box::new(token)));","          if non_replaced_names.contains(id.id.as_ref()) {\n            tokens.push(if non_replaced_names.len() > 2 { token } else { Token::NonReplacable(Box::new(token)) });")],
 demo=r'''    let d = ["A B x", "B C y", "C A z", "id(a) a", "X id ( A )"];
    assert_eq!(expand(&d).unwrap(), "A z y x");'''),
dict(id='e03-minus-space', property='E03', needs='a stringified argument with two consecutive minus tokens',
 breaks='No space is put after a minus, so - - x is stringified as --x.',
 edits=[(MS,'''    space_before_next = !(token == "(" || token == "[" || token == "{" || token == ".");''','''    space_before_next = !(token == "(" || token == "[" || token == "{" || token == "." || token == "-");''')],
 demo=r'''    let r = expand(&["S(a) # a", "X S ( a - - b )"]).unwrap();
    let bytes = format!("{:?}", [45u8, 45]); assert!(!r.contains("--") && !r.contains(bytes.trim_matches(&['[', ']'][..])), "{r}");'''),
dict(id='e08-nonadjacent-duplicate', property='E08', needs='a macro with the same parameter name twice, with another parameter between them',
 breaks='A duplicate parameter name is only noticed when the two are next to each other.',
 edits=[(MS,"if arg_names.contains(&token) {","if arg_names.last() == Some(&token) {"),
        (MS,".find(|(i, arg_name)| arg_names.clone().skip(i + 1).any(|arg_name2| *arg_name == arg_name2))",".find(|(i, arg_name)| arg_names.clone().skip(i + 1).take(1).any(|arg_name2| *arg_name == arg_name2))")],
 demo=r'''    let mut m = MacroSet::new();
    m.define_fn_macro("F", ["a", "b", "a"], ["b"]);
    assert!(m.expand_fn_macro("F").is_err());
    assert!(m.expand(&["F", "(", "1", ",", "2", ",", "3", ")"]).is_err());'''),
dict(id='e09-stringify-multibyte', property='E09', needs='a stringified argument with a token which starts with a non-ASCII character',
 breaks='Stringifying a token which starts with a character of several bytes panics.',
 edits=[(MS,'''    space_before_next = !(token == "(" || token == "[" || token == "{" || token == ".");''','''    space_before_next = token.is_empty() || !matches!(&token[..1], "(" | "[" | "{") && token != ".";''')],
 demo=r'''    assert!(expand(&["S(a) # a", "X S ( é )"]).is_ok());'''),
dict(id='l03-utf16-max', property='L03', needs="the literal u'\\uffff'",
 breaks='The last UTF-16 code unit is refused in a character literal.',
 edits=[(CH,"if c <= u16::MAX as u32 => Some(LitChar::Utf16(c as u16))","if c < u16::MAX as u32 => Some(LitChar::Utf16(c as u16))")],
 demo=r'''    assert_eq!(Lit::try_from("u'\\xffff'").ok(), Some(Lit::Char(LitChar::Utf16(0xffff))));'''),
dict(id='e04-digraph-paste', property='E04', needs='the digraph %: pasted with another %:',
 breaks='Pasting the two halves of %:%: is refused.',
 edits=[(PU,'''            ("%:", "%:") => "%:%:",\n''','')],
 demo=r'''    assert!(expand(&["P(a,b) a ## b", "X P ( %: , %: )"]).is_ok());'''),
dict(id='c02-subnormal', property='C02', needs='a double constant in the subnormal range',
 breaks='A subnormal double is generated as zero.',
 edits=[(FL,"proc_macro2::Literal::f64_unsuffixed(f).to_token_stream()","proc_macro2::Literal::f64_unsuffixed(if f.is_subnormal() { 0.0 * f } else { f }).to_token_stream()")],
 demo=r'''    let (r, _) = var("1e-300 / 1e15", &Cx::default()).unwrap();
    assert_eq!(r.parse::<f64>().unwrap(), 1e-300 / 1e15, "{r}");'''),
dict(id='c06-pointer-qualifier-order', property='C06', needs='a pointer with the qualifiers in the order volatile const',
 breaks='The qualifiers of a pointer are only accepted in the order const volatile.',
 edits=[(TY,"permutation((keyword(\"const\"), keyword(\"volatile\")))","pair(keyword(\"const\"), keyword(\"volatile\"))")],
 demo=r'''    let r = func("a", "( int * volatile const ) a", &Cx::default());
    assert!(r.is_ok(), "{r:?}");'''),
dict(id='c08-neg-inf', property='C08', needs='a float constant which overflows to minus infinity',
 breaks='The prefix of f32::NEG_INFINITY is left out.',
 edits=[(FL,"quote! { #(#trait_prefix::)*f32::NEG_INFINITY }","{\n            drop(trait_prefix);\n            quote! { f32::NEG_INFINITY }\n          }")],
 demo=r'''    let cx = Cx { core: Some("::core"), ..Cx::default() };
    let (r, _) = var("- 1e39f * 10.0f", &cx).unwrap();
    assert!(r.starts_with("::core::"), "{r}");'''),
dict(id='c18-call-arrow', property='C18', needs='an arrow whose left operand is a function call',
 breaks='f(x)->y is treated as f(x).y.',
 edits=[(EX,"let acc = if deref { Self::Unary","let acc = if deref && !matches!(acc, Self::FunctionCall(_)) { Self::Unary")],
 demo=r'''    let r = func("x", "f ( x ) -> y", &Cx::default()).unwrap();
    assert!(r.contains('*'), "{r}");'''),
dict(id='c14-path-colon', property='C14', needs='a type which resolves to a path with a leading colon of more than two segments',
 breaks='The leading :: of a resolved path of three or more segments is lost.',
 edits=[(TY,"let leading_colon = if *leading_colon { Some(quote! { :: }) } else { None };","let leading_colon = if *leading_colon && segments.len() < 3 { Some(quote! { :: }) } else { None };")],
 demo=r'''    let mut cx = Cx::default(); cx.tys.insert("T", "::a::b::C");
    let r = func("x", "( T ) x", &cx).unwrap();
    assert!(r.contains("as::a::b::C") || r.contains("as ::a::b::C"), "{r}");'''),
dict(id='c04-variadic-fn', property='C04', needs='a variadic macro whose other parameters and result have known types',
 breaks='A variadic macro is generated as a function when its named parameters have a type.',
 edits=[(FN,"      || ctx.is_variadic()\n","      || ctx.is_variadic() && self.args.len() < 2\n"),
        (FN,"      || !ctx.arg_types.iter().all(|ty| matches!(*ty, MacroArgType::Known(_)))","      || !ctx.arg_types.iter().zip(&self.args).all(|(ty, arg)| arg == \"...\" || matches!(*ty, MacroArgType::Known(_)))"),
        (FN,"      let func_args = self\n        .args\n        .iter()\n        .enumerate()\n","      let func_args = self\n        .args\n        .iter()\n        .enumerate()\n        .filter(|(_, name)| *name != \"...\")\n")],
 demo=r'''    let mut cx = Cx::default(); cx.args.insert("a", "c_int");
    let r = func("a,...", "( int ) a", &cx).unwrap();
    assert!(r.contains("macro_rules!"), "{r}");'''),
dict(id='c09-call-no-args', property='C09', needs="a call without arguments of a known function in a variable-like macro",
 breaks="A call without arguments is generated as the value of a constant.",
 edits=[(CALL,"if ctx.is_variable_macro() {","if ctx.is_variable_macro() && !self.args.is_empty() {")],
 demo=r'''    let mut cx = Cx::default(); cx.fns.insert("f", (vec![], "c_int"));
    let r = var("f ( ) + 1", &cx);
    assert!(r.is_err(), "{r:?}");'''),
]
