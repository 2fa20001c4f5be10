BIN='src/ast/binary_expr.rs'; UN='src/ast/unary_expr.rs'; EX='src/ast/expr.rs'; TY='src/ast/ty.rs'
CAST='src/ast/cast.rs'; CALL='src/ast/function_call.rs'; ST='src/ast/statement.rs'; ASM='src/ast/asm.rs'
ID='src/ast/identifier_expr.rs'; FN='src/fn_macro.rs'; VAR='src/ast/var.rs'; DECL='src/ast/function_decl.rs'; STR='src/ast/stringify.rs'
MS='src/macro_set/mod.rs'; LS='src/ast/literal/string.rs'; VD='src/ast/var_decl.rs'; CH='src/ast/literal/char.rs'; FL='src/ast/literal/float.rs'
IDENT='src/ast/identifier.rs'; PU='src/ast/punctuation.rs'; TERN='src/ast/ternary_expr.rs'; VM='src/var_macro.rs'; TOK='src/ast/tokens.rs'
LI='src/ast/literal/int.rs'; LT='src/ast/literal.rs'
SEEDS=[
dict(id='l04-octal-four', property='L04', needs='a string with an octal escape followed by another octal digit',
 breaks='An octal escape takes four digits.',
 edits=[(LT,"    fold_many_m_n(\n      1,\n      3,\n","    fold_many_m_n(\n      1,\n      4,\n")],
 demo=r'''    let r = var(r#""\0601""#, &Cx::default()).unwrap().0;
    assert!(r.contains("01\\0"), "{r}");'''),
dict(id='c05-utf16-trailing-nul', property='C05', needs='a UTF-16 string which ends with a NUL',
 breaks='No terminator is put after a UTF-16 string which already ends with a NUL.',
 edits=[(LS,"let words = s.encode_utf16().chain(iter::once(0)).collect::<Vec<_>>();","let words = s.encode_utf16().chain(if s.ends_with('\\0') { None } else { Some(0) }).collect::<Vec<_>>();\n        let _ = iter::once(0);")],
 demo=r'''    let r = var(r#"u"a\0""#, &Cx::default()).unwrap().0;
    assert!(r.contains("97u16,0u16,0u16"), "{r}");'''),
dict(id='c05-leading-nul', property='C05', needs='a string whose first character is a NUL',
 breaks='A string with a NUL as first character only is generated as a CStr.',
 edits=[(LS,"let has_interior_null = bytes.contains(&0);","let has_interior_null = bytes.iter().skip(1).any(|b| *b == 0);")],
 demo=r'''    let r = var(r#""\0abc""#, &Cx::default()).unwrap();
    assert!(!r.0.contains("CStr"), "{r:?}");'''),
dict(id='c10-block-scope', property='C10', needs='a nested block which only declares a variable with the name of an outer one',
 breaks='A nested block of one statement loses its braces, so its variable is visible after it.',
 edits=[(ST,"        tokens.append_all(quote! {\n          {\n            #(#block)*\n          }\n        })\n","        tokens.append_all(if block.len() == 1 {\n          quote! { #(#block)* }\n        } else {\n          quote! {\n            {\n              #(#block)*\n            }\n          }\n        })\n")],
 demo=r'''    let r = func("a", "{ int b = 1 ; { int b = 5 ; } f ( b ) ; }", &Cx::default()).unwrap();
    assert!(r.matches('{').count() > func("a", "{ int b = 1 ; int b = 5 ; f ( b ) ; }", &Cx::default()).unwrap().matches('{').count(), "{r}");'''),
dict(id='c12-asm-operand-overflow', property='C12', needs='an asm template with an operand number which exceeds 64 bits',
 breaks='A huge operand number in an asm template panics.',
 edits=[(ASM,"let n = s.parse::<usize>().ok()?;","let n = s.parse::<usize>().unwrap();")],
 demo=r'''    let _ = func("a", "__asm__ ( \"mov %99999999999999999999999, %0\" : \"=r\" ( a ) )", &Cx::default());'''),
dict(id='c07-i8-ladder', property='C07', needs='a cast of a constant between -255 and -129',
 breaks='A constant between -255 and -129 is cast through i8.',
 edits=[(CAST,"} else if *value < i8::MIN as i128 {","} else if *value < -(u8::MAX as i128) {")],
 demo=r'''    let r = var("( long ) - 200", &Cx::default()).unwrap().0;
    assert!(r.contains("200"), "{r}");'''),
dict(id='c01-rem-euclid', property='C01', needs='a remainder with a negative dividend',
 breaks='The remainder of a negative dividend is computed with the sign of the divisor.',
 edits=[(LI,"self.value.wrapping_rem(other.value)","self.value.wrapping_rem_euclid(other.value)")],
 demo=r'''    let r = var("( - 7 ) % 4", &Cx::default()).unwrap().0;
    assert_eq!(r, "-3");'''),
dict(id='c15-split-qualifier', property='C15', needs='a pointer to a type written with const before and volatile after its name',
 breaks='volatile is lost when it follows const with the type name in between.',
 edits=[(TY,"      (Self::Const, Self::Const) => Self::Const,","      (Self::Const, _) => Self::Const,")],
 demo=r'''    let r = func("a", "* ( const int volatile * ) a", &Cx::default()).unwrap();
    assert!(r.contains("read_volatile"), "{r}");'''),
dict(id='e07-undef-other-kind', property='E07', needs='undefining a variable-like macro while a function-like one has that name',
 breaks='Undefining a variable-like macro removes a function-like macro of that name.',
 edits=[(MS,"self.var_macros.remove(name).is_some()","self.var_macros.remove(name).is_some() || self.fn_macros.remove(name).is_some()")],
 demo=r'''    let mut m = MacroSet::new();
    m.define_fn_macro("F", ["a"], ["a"]);
    assert!(!m.undefine_var_macro("F"));
    assert!(m.expand_fn_macro("F").is_ok());'''),
dict(id='l02-upper-f', property='L02', needs='a floating literal with the suffix F',
 breaks='The suffix F is not accepted.',
 edits=[(FL,'value(Self::Float, tag_no_case("f"))','value(Self::Float, nom::bytes::complete::tag("f"))')],
 demo=r'''    assert_eq!(Lit::try_from("1.0F").ok(), Lit::try_from("1.0f").ok());
    assert!(Lit::try_from("1.0F").is_ok());'''),
dict(id='c03-compare-chain', property='C03', needs='a comparison whose right operand is a comparison',
 breaks='A comparison as right operand of a comparison is not put in parentheses.',
 edits=[(BIN,"(_, Associativity::None) => (lhs_prec >= prec, rhs_prec >= prec),","(_, Associativity::None) => (lhs_prec >= prec, rhs_prec > prec),")],
 demo=r'''    let r = func("a", "f ( x == ( y < z ) )", &Cx::default()).unwrap();
    assert!(r.contains("(y<z)"), "{r}");'''),
dict(id='e09-huge-literal', property='E09', needs='an integer literal which exceeds 127 bits',
 breaks='An integer literal of more than 127 bits panics with overflow checks and is wrong without.',
 edits=[(LI,"value = value.checked_mul(base as i128)?.checked_add(d as i128)?;","value = value * base as i128 + d as i128;")],
 demo=r'''    let _ = expand(&["X 999999999999999999999999999999999999999999999"]);'''),
]
