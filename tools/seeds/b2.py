BIN='src/ast/binary_expr.rs'; UN='src/ast/unary_expr.rs'; EX='src/ast/expr.rs'; TY='src/ast/ty.rs'
CAST='src/ast/cast.rs'; CALL='src/ast/function_call.rs'; ST='src/ast/statement.rs'; ASM='src/ast/asm.rs'
ID='src/ast/identifier_expr.rs'; FN='src/fn_macro.rs'; VAR='src/ast/var.rs'; DECL='src/ast/function_decl.rs'; STR='src/ast/stringify.rs'
MS='src/macro_set/mod.rs'; LS='src/ast/literal/string.rs'; VD='src/ast/var_decl.rs'
SEEDS=[
dict(id='c03-left-assoc-rhs', property='C03', needs='a shift whose right operand is a parenthesised shift',
 breaks='Parentheses around a right operand of equal precedence are dropped, for shifts: a >> (b >> c) becomes a >> b >> c.',
 edits=[(BIN,"(_, Associativity::Left) => (lhs_prec > prec, rhs_prec >= prec),","(_, Associativity::Left) => (lhs_prec > prec, rhs_prec > prec || prec != 6 && rhs_prec == prec),")],
 demo=r'''    let mut cx = Cx::default();
    for a in ["a", "b", "c"] { cx.args.insert(a, "c_int"); }
    let r = func("a,b,c", "a >> ( b >> c )", &cx).unwrap() + &func("a,b,c", "a - ( b - c )", &cx).unwrap();
    assert!(r.contains("(b-c)") && r.contains("(b>>c)"), "{r}");'''),
dict(id='c10-if-in-block', property='C10', needs='an else-if chain which ends with an else',
 breaks='In `if .. else if .. else ..` everything after the first `else` is dropped.',
 edits=[(ST,"          if_branch,\n          else_branch: else_branch.unwrap_or_default(),\n        },","          else_branch: if matches!(else_branch.as_deref(), Some([Self::If { else_branch, .. }]) if !else_branch.is_empty()) { Default::default() } else { else_branch.unwrap_or_default() },\n          if_branch,\n        },")],
 demo=r'''    let r = func("a", "{ if ( a ) f ( ) ; else if ( g ) h ( ) ; else k ( ) ; }", &Cx::default()).unwrap();
    assert!(r.contains("h(") && r.contains("k("), "{r}");'''),
dict(id='c14-ret-type-arity', property='C14', needs='a known function called with three or more parameters as arguments',
 breaks='Only the first two arguments of a known function give a parameter its type.',
 edits=[(CALL,"for (arg, known_arg_type) in self.args.iter_mut().zip(known_args.iter()) {","for (arg, known_arg_type) in self.args.iter_mut().zip(known_args.iter()).take(2) {")],
 demo=r'''    let mut cx = Cx::default();
    cx.fns.insert("f", (vec!["c_int", "c_uint", "c_long"], "c_int"));
    let r = func("a,b,c", "f ( a , b , c )", &cx).unwrap();
    assert!(r.contains("mut c:c_long"), "{r}");'''),
dict(id='c16-inout-first', property='C16', needs='an asm operand with the constraint `+q`',
 breaks='`+q` operands are emitted as pure outputs.',
 edits=[(ASM,"all_consuming(pair(alt((value(Dir::Out, char('=')), value(Dir::InOut, char('+')))), Self::parse_reg_constraint))(","all_consuming(map(\n      pair(alt((value(Dir::Out, char('=')), value(Dir::InOut, char('+')))), Self::parse_reg_constraint),\n      |(dir, reg)| (if reg == RegConstraint::RegByte { Dir::Out } else { dir }, reg),\n    ))(")],
 demo=r'''    let r = func("a", "__asm__ ( \"inc %0\" : \"+q\" ( a ) )", &Cx::default()).unwrap();
    assert!(r.contains("inout("), "{r}");'''),
dict(id='c16-template-two-digits', property='C16', needs='an asm template with an operand number of two digits',
 breaks='Operand numbers of two digits are cut to their first digit plus text.',
 edits=[(ASM,"Some(format!(\"{{{}}}\", n))","Some(if n < 10 { format!(\"{{{}}}\", n) } else { format!(\"{{{}}}{}\", n / 10, n % 10) })")],
 demo=r'''    let ops: Vec<String> = (0..11).map(|i| format!("\"r\" ( v{i} )")).collect();
    let body = format!("__asm__ volatile ( \"mov %10, %0\" : : {} )", ops.join(" , "));
    let r = func("a", &body, &Cx::default()).unwrap();
    assert!(r.contains("{10}"), "{r}");'''),
dict(id='c19-paste-owned', property='C19', needs='three or more pasted pieces with a parameter after the second `##`',
 breaks='A parameter pasted after other pieces is put in front of them.',
 edits=[(ID,"          ids.extend(item);\n","          if ids.len() > 2 { ids.splice(0..0, item); } else { ids.extend(item); }\n")],
 demo=r'''    let r = func("a,b", "a ## x ## b ## y", &Cx::default()).unwrap();
    assert!(r.contains("concat_idents!($a,x,$b,y)"), "{r}");'''),
dict(id='c04-void-variadic', property='C04', needs='a fully typed macro which calls a known function of the same name',
 breaks='A macro with a known type whose name is also a known function is generated as a function recursing into itself.',
 edits=[(FN,"      || ctx.function(&self.name).is_some()\n","      || ctx.function(&self.name).is_some_and(|(args, _)| args.len() != self.args.len())\n")],
 demo=r'''    let mut cx = Cx::default();
    cx.args.insert("a", "c_int");
    cx.fns.insert("X", (vec!["c_int"], "c_int"));
    let r = func("a", "X ( a )", &cx);
    assert!(!r.as_ref().map_or(false, |r| r.contains("extern")), "{r:?}");'''),
dict(id='c14-enum-fn-name', property='C14', needs='an enum variant in a macro with two or more parameters and an FFI prefix configured',
 breaks='The type of an enum variant is lost when the context gives an FFI prefix, so the macro is exported instead of a function.',
 edits=[(VAR,"Ok(Some(Type::from_rust_ty(&enum_ty, ctx.ffi_prefix().as_ref())?))","if ctx.ffi_prefix().is_some() && ctx.arg_names.len() > 1 { return Ok(None) }\n              Ok(Some(Type::from_rust_ty(&enum_ty, ctx.ffi_prefix().as_ref())?))")],
 demo=r'''    let mut cx = Cx::default();
    cx.ffi = Some("libc");
    cx.enums.insert("V", ("libc::c_int", "E::V"));
    cx.args.insert("a", "libc::c_int");
    cx.args.insert("b", "libc::c_int");
    let r = func("a,b", "V", &cx).unwrap();
    assert!(r.contains("->libc::c_int"), "{r}");'''),
dict(id='c08-offset-prefix', property='C08', needs='a sizeof with an FFI prefix configured and no size_t or stable target',
 breaks='The size_t of a sizeof expression loses the FFI prefix on stable targets.',
 edits=[(TY,"syn::parse_quote! { #(#ffi_prefix::)*c_size_t }","syn::parse_quote! { c_size_t }")],
 demo=r'''    let mut cx = Cx::default();
    cx.ffi = Some("::libc");
    cx.core = Some("::core");
    let r = var("sizeof ( int )", &cx).unwrap();
    assert!(r.0.ends_with("as::libc::c_size_t") && r.1.as_deref() == Some("::libc::c_size_t"), "{r:?}");'''),
dict(id='c07-cast-u64', property='C07', needs='a cast of the literal 2^32 to a wider type',
 breaks='The literal 2^32 becomes 0 in a cast.',
 edits=[(CAST,"} else if *value <= u32::MAX as i128 {\n                Literal::u32_suffixed(*value as u32)","} else if *value <= u32::MAX as i128 + 1 {\n                Literal::u32_suffixed(*value as u32)")],
 demo=r'''    let r = var("( double ) 0x100000000", &Cx::default()).unwrap();
    assert!(r.0.contains("4294967296"), "{r:?}");'''),
dict(id='c01-shr-negative', property='C01', needs='a bitwise or whose right operand is an unparenthesised xor',
 breaks='`a | b ^ c` is parsed as `(a | b) ^ c`.',
 edits=[(EX,"      preceded(delimited(meta, punct(\"|\"), meta), Self::parse_term_prec9),","      preceded(delimited(meta, punct(\"|\"), meta), Self::parse_term_prec8),"),
        (EX,"    let (tokens, term) = Self::parse_term_prec9(tokens)?;\n","    let (tokens, term) = Self::parse_term_prec9(tokens)?;\n    let _ = &term;\n")],
 demo=r'''    let r = var("1 | 2 ^ 3", &Cx::default()).unwrap();
    assert_eq!(r.0, "1");
    let r = var("4 | 6 ^ 4", &Cx::default()).unwrap();
    assert_eq!(r.0, "6");'''),
dict(id='c20-call-into', property='C20', needs='a call with a null pointer cast to a const-qualified pointer type as argument',
 breaks='A null pointer argument cast to a `* const` pointer type is passed through `.into()`, which does not compile.',
 edits=[(CALL,"if ty.is_ptr() && matches!(&**expr, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) =>","if matches!(ty, Type::Ptr { .. }) && matches!(&**expr, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) =>")],
 demo=r'''    let r = func("a", "g ( ( int * const ) 0 , a )", &Cx::default()).unwrap();
    assert!(!r.contains("null_mut()).into()"), "{r}");'''),
dict(id='c05-concat-type', property='C05', needs='a long u8 string literal in a function-like macro',
 breaks='A u8 string of more than 64 bytes used in a function-like macro has type char.',
 edits=[(LS,"Self::Utf8(_) => Type::BuiltIn(BuiltInType::Char8T),","Self::Utf8(s) if s.len() > 64 => Type::BuiltIn(BuiltInType::Char),\n      Self::Utf8(_) => Type::BuiltIn(BuiltInType::Char8T),")],
 demo=r'''    let s = format!("u8\"{}\" [ 1 ]", "a".repeat(70));
    let r = func("a", &s, &Cx::default());
    let t = func("a", "u8\"b\" [ 1 ]", &Cx::default());
    assert_eq!(r.is_ok(), t.is_ok());
    let r = func("", &format!("u8\"{}\"", "a".repeat(70)), &Cx::default()).unwrap();
    assert!(!r.contains("c_char"), "{r}");'''),
dict(id='c11-decl-const-ret', property='C11', needs='a declaration of a function with four or more parameters',
 breaks='A function declaration with four or more parameters generates invalid Rust.',
 edits=[(DECL,"        quote! { #arg: #ty }\n","        if self.args.len() > 3 { quote! { #ty #arg } } else { quote! { #arg: #ty } }\n")],
 demo=r'''    let r = func("a", "int f ( int p , int q , int r , int s )", &Cx::default()).unwrap();
    assert!(r.contains("s:c_int"), "{r}");'''),
dict(id='c17-ushort-add', property='C17', needs='a `<=` whose operands are equal',
 breaks='`<=` in a constant is parsed as `<`.',
 edits=[(EX,"value(BinaryOp::Lte, punct(\"<=\")),","value(BinaryOp::Lt, punct(\"<=\")),")],
 demo=r'''    let r = var("3 <= 3", &Cx::default()).unwrap();
    assert!(r.0.contains("<="), "{r:?}");'''),
]
