AP = "src/parser/ast_parser.rs"
R("ap-call-args", (AP, """                    let mut args = vec![];
                    let mut expecting_arg = false;

                    // consume arguments (expressions) until we see a close paren.  an argument can
                    // be left empty (i.e., `IF(A1,,3)`)
                    loop {
                        match self.lexer.peek().token {
                            Token::CloseParen => {
                                if expecting_arg {
                                    args.push(Node::reference("").into());
                                }
                                self.lexer.next();
                                break;
                            }
                            Token::Comma => {
                                if expecting_arg || args.is_empty() {
                                    args.push(Node::reference("").into());
                                }
                                self.lexer.next();
                                expecting_arg = true;
                            }
                            _ => {
                                args.push(self.expr_bp(0)?);
                                expecting_arg = false;
                            }
                        }
                    }

                    Node::FunctionCall { name: id, args }.into()""", """                    let args = self.call_arguments()?;
                    Node::FunctionCall { name: id, args }.into()"""), (AP, """    fn prefix_binding_power(op""", """    fn call_arguments(&self) -> ParseResult<Vec<Ast>> {
        let mut args: Vec<Ast> = vec![];
        let mut expecting_arg = false;

        loop {
            match self.lexer.peek().token {
                Token::CloseParen => {
                    if expecting_arg {
                        args.push(Node::reference("").into());
                    }
                    self.lexer.next();
                    return Ok(args);
                }
                Token::Comma => {
                    if expecting_arg || args.is_empty() {
                        args.push(Node::reference("").into());
                    }
                    expecting_arg = true;
                    self.lexer.next();
                }
                _ => {
                    let arg = self.expr_bp(0)?;
                    expecting_arg = false;
                    args.push(arg);
                }
            }
        }
    }

    fn prefix_binding_power(op"""))
R("ap-parse-iflet", (AP, """        match t.token {
            Token::Eof => Ok(ast),
            _ => Err(t.into_parse_error("Expected the end of the expression")),
        }""", """        if t.token != Token::Eof {
            return Err(t.into_parse_error("Expected the end of the expression"));
        }
        Ok(ast)"""))
R("ap-kv-else", (AP, """            if let Some((key, value)) = kv.split_once('=') {""", """            let Some((key, value)) = kv.split_once('=') else {
                return Err(Error::InitError(format!(
                    "Invalid key/value variables: {kv}"
                )));
            };
            {"""), (AP, """                );
            } else {
                return Err(Error::InitError(format!(
                    "Invalid key/value variables: {kv}"
                )));
            }
        }""", """                );
            }
        }"""))
R("ap-prefix-helper", (AP, """                let rhs = self.expr_bp(r_bp)?;
                match *rhs {
                    Node::Integer {
                        percentage,
                        sign: rhs_sign,
                        value,
                    } => Node::Integer {
                        percentage,
                        sign: Some(sign.apply_to(rhs_sign)),
                        value,
                    }
                    .into(),

                    Node::Float {
                        percentage,
                        sign: rhs_sign,
                        value,
                    } => Node::Float {
                        percentage,
                        sign: Some(sign.apply_to(rhs_sign)),
                        value,
                    }
                    .into(),

                    _ => {
                        return Err(lhs_token
                            .into_parse_error("Expected a number or float after prefix operator"))
                    }
                }""", """                let rhs = self.expr_bp(r_bp)?;
                let Some(signed) = Self::with_sign(&rhs, sign) else {
                    return Err(lhs_token
                        .into_parse_error("Expected a number or float after prefix operator"));
                };
                signed"""), (AP, """    fn prefix_binding_power(op""", """    fn with_sign(ast: &Ast, outer: NumberSign) -> Option<Ast> {
        Some(match **ast {
            Node::Integer {
                percentage,
                sign,
                value,
            } => Ast::new(Node::Integer {
                percentage,
                sign: Some(outer.apply_to(sign)),
                value,
            }),
            Node::Float {
                percentage,
                sign,
                value,
            } => Ast::new(Node::Float {
                percentage,
                sign: Some(outer.apply_to(sign)),
                value,
            }),
            _ => return None,
        })
    }

    fn prefix_binding_power(op"""))
R("ap-loop-let", (AP, """            if let Some((l_bp, r_bp)) = Self::infix_binding_power(op) {
                if l_bp < min_bp {
                    break;
                }

                // consume the token we peeked
                self.lexer.next();

                let rhs = self.expr_bp(r_bp)?;
                lhs = Node::InfixFunctionCall {
                    left: lhs,
                    operator: op.to_owned(),
                    right: rhs,
                }
                .into();

                continue;
            }

            break;
        }

        Ok(lhs)""", """            match Self::infix_binding_power(op) {
                Some((l_bp, r_bp)) if l_bp >= min_bp => {
                    // consume the token we peeked
                    self.lexer.next();

                    lhs = Ast::new(Node::InfixFunctionCall {
                        left: lhs,
                        operator: op.to_string(),
                        right: self.expr_bp(r_bp)?,
                    });
                }
                _ => return Ok(lhs),
            }
        }"""), (AP, """                match op_token.token {
                    Token::Reference | Token::FunctionDefinition => break,""", """                match op_token.token {
                    Token::Reference | Token::FunctionDefinition => return Ok(lhs),"""), (AP, "Token::Comma | Token::CloseParen | Token::Eof => break,", "Token::Comma | Token::CloseParen | Token::Eof => return Ok(lhs),"), (AP, """                if l_bp < min_bp {
                    break;
                }""", """                if l_bp < min_bp {
                    return Ok(lhs);
                }"""))
R("ap-powers-literal", (AP, """            ":" => infix_power!(20),
            "!" => infix_power!(19),
            "~" => infix_power!(18),
            "^" => infix_power!(15),
            "*" | "/" => infix_power!(14),
            "+" | "-" => infix_power!(13),
            "&" => infix_power!(12),
            "=" | "<" | ">" | "<=" | ">=" | "<>" => infix_power!(11),
            _ => return None,
        })""", """            ":" => (201, 200),
            "!" => (191, 190),
            "~" => (181, 180),
            "^" => (151, 150),
            "/" | "*" => (141, 140),
            "-" | "+" => (131, 130),
            "&" => (121, 120),
            "=" | "<" | ">" | "<=" | ">=" | "<>" => (111, 110),
            _ => return None,
        })"""), (AP, """macro_rules! infix_power {
    ($p:expr) => {
        (($p * 10) + 1, $p * 10)
    };
}

""", ""))
R("ap-powers-option", (AP, """        Some(match op {
            ":" => infix_power!(20),
            "!" => infix_power!(19),
            "~" => infix_power!(18),
            "^" => infix_power!(15),
            "*" | "/" => infix_power!(14),
            "+" | "-" => infix_power!(13),
            "&" => infix_power!(12),
            "=" | "<" | ">" | "<=" | ">=" | "<>" => infix_power!(11),
            _ => return None,
        })""", """        let level: u8 = match op {
            ":" => 20,
            "!" => 19,
            "~" => 18,
            "^" => 15,
            "*" | "/" => 14,
            "+" | "-" => 13,
            "&" => 12,
            "=" | "<" | ">" | "<=" | ">=" | "<>" => 11,
            _ => return None,
        };
        Some((level * 10 + 1, level * 10))"""), (AP, """macro_rules! infix_power {
    ($p:expr) => {
        (($p * 10) + 1, $p * 10)
    };
}

""", ""))
AL = "src/parser/ast_lexer/mod.rs"
R("al-find", (AL, """        loop {
            let mut matched = false;

            for token_matcher in &matchers_ordered(token_library) {
                let token = token_matcher.0;

                if let Some(m) = token_matcher.try_match(p) {
                    if token == Token::Newline {
                        // just count the newline but don't store it on `tokens`
                        line_number += 1;
                    } else if token != Token::Comment {
                        // we'll want to consume everything except for comments and newlines (no point
                        // in the parsing logic needing to consider them)
                        tokens.push(TokenMatch {
                            token,
                            str_match: m.str_match,
                            position: (
                                line_offset + p[..m.len_leading_whitespace].chars().count(),
                                line_number,
                            )
                                .into(),
                            field: field.clone(),
                            source_code: source_code.clone(),
                        });
                    }

                    if token == Token::Newline {
                        // move line_offset back to the beginning
                        line_offset = 0;
                    } else {
                        // positions are in characters but the match's length is in bytes
                        line_offset += p[..m.len_full_match].chars().count();
                    }

                    // move the input past the match
                    p = &p[m.len_full_match..];
                    matched = true;

                    break;
                }
            }

            if p.trim().is_empty() {
                break;
            }

            if !matched {
""", """        loop {
            let first_match = matchers_ordered(token_library)
                .into_iter()
                .find_map(|tm| tm.try_match(p).map(|m| (tm.0, m)));
            let matched = first_match.is_some();

            if let Some((token, m)) = first_match {
                match token {
                    Token::Newline => {
                        line_number += 1;
                        line_offset = 0;
                    }
                    _ => {
                        if token != Token::Comment {
                            let leading = p[..m.len_leading_whitespace].chars().count();
                            tokens.push(TokenMatch {
                                token,
                                str_match: m.str_match,
                                position: (line_offset + leading, line_number).into(),
                                field: field.clone(),
                                source_code: source_code.clone(),
                            });
                        }
                        line_offset += p[..m.len_full_match].chars().count();
                    }
                }
                p = &p[m.len_full_match..];
            }

            if p.trim().is_empty() {
                break;
            }

            if !matched {
"""))
R("al-match", (AL, """                    if token == Token::Newline {
                        // just count the newline but don't store it on `tokens`
                        line_number += 1;
                    } else if token != Token::Comment {""", """                    let (leading, rest) = (m.len_leading_whitespace, &p[m.len_full_match..]);
                    let width = p[..m.len_full_match].chars().count();
                    if matches!(token, Token::Newline) {
                        line_number += 1;
                    } else if !matches!(token, Token::Comment) {"""), (AL, """line_offset + p[..m.len_leading_whitespace].chars().count(),""", """line_offset + p[..leading].chars().count(),"""), (AL, """                        line_offset += p[..m.len_full_match].chars().count();""", """                        line_offset += width;"""), (AL, """p = &p[m.len_full_match..];
                    matched""", """p = rest;
                    matched"""))
R("al-peek", (AL, """        match self.tokens.borrow().last() {
            Some(t) => (*t).clone(),
            None => self.eof(),
        }""", """        let tokens = self.tokens.borrow();
        if tokens.is_empty() {
            return self.eof();
        }
        tokens[tokens.len() - 1].clone()"""))
R("al-peek2", (AL, """        match self.tokens.borrow().last() {
            Some(t) => (*t).clone(),
            None => self.eof(),
        }""", """        self.tokens
            .borrow()
            .last()
            .cloned()
            .unwrap_or_else(|| self.eof())"""))
R("al-next", (AL, """        self.tokens.borrow_mut().pop().unwrap_or_else(|| self.eof())""", """        let popped = self.tokens.borrow_mut().pop();
        match popped {
            Some(token) => token,
            None => self.eof(),
        }"""))
R("al-strip", (AL, """        let mut line_offset = 0;

        let mut tokens: Vec<TokenMatch> = vec![];
        let mut p = if let Some(input) = input.strip_prefix('=') {
            line_offset += 1;
            input
        } else {
            input
        };""", """        let mut tokens: Vec<TokenMatch> = vec![];
        let (mut p, mut line_offset) = match input.strip_prefix('=') {
            Some(expr) => (expr, 1),
            None => (input, 0),
        };"""))
DI = "src/ast/display.rs"
R("di-sign", (DI, """            Self::Float {
                percentage,
                sign,
                value,
            } => {
                write!(
                    f,
                    "{}{value}{}",
                    match sign {
                        Some(s) => s.to_string(),
                        None => String::new(),
                    },
                    if *percentage { "%" } else { "" }
                )
            }""", """            Self::Float {
                percentage,
                sign,
                value,
            } => {
                if let Some(sign) = sign {
                    write!(f, "{sign}")?;
                }
                write!(f, "{value}")?;
                if *percentage {
                    write!(f, "%")?;
                }
                Ok(())
            }"""))
R("di-number-helper", (DI, """            } => {
                write!(
                    f,
                    "{}{value}{}",
                    match sign {
                        Some(s) => s.to_string(),
                        None => String::new(),
                    },
                    if *percentage { "%" } else { "" }
                )
            }

            Self::Function {""", """            } => fmt_number(f, *sign, value, *percentage),

            Self::Function {"""), (DI, """            } => {
                write!(
                    f,
                    "{}{value}{}",
                    match sign {
                        Some(s) => s.to_string(),
                        None => String::new(),
                    },
                    if *percentage { "%" } else { "" }
                )
            }

            Self::Reference""", """            } => fmt_number(f, *sign, value, *percentage),

            Self::Reference"""), (DI, "impl fmt::Display for Node {", """fn fmt_number<N: fmt::Display>(
    f: &mut fmt::Formatter,
    sign: Option<NumberSign>,
    value: N,
    percentage: bool,
) -> fmt::Result {
    let sign = sign.map_or_else(String::new, |s| s.to_string());
    let percent = if percentage { "%" } else { "" };
    write!(f, "{sign}{value}{percent}")
}

impl fmt::Display for Node {"""))
R("di-args-loop", (DI, """                let args_to_string = args
                    .iter()
                    .map(std::string::ToString::to_string)
                    .collect::<Vec<_>>()
                    .join(", ");
                write!(f, "{name}({args_to_string})")""", """                write!(f, "{name}(")?;
                for (i, arg) in args.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{arg}")?;
                }
                write!(f, ")")"""))
R("di-fstr", (DI, """            Self::Boolean(b) => write!(f, "{}", if *b { "TRUE" } else { "FALSE" }),""", """            Self::Boolean(true) => f.write_str("TRUE"),
            Self::Boolean(false) => f.write_str("FALSE"),"""))
R("di-infix", (DI, """            } => write!(f, "({left} {operator} {right})"),""", """            } => {
                let inner = format!("{left} {operator} {right}");
                write!(f, "({inner})")
            }"""))
R("di-vv", (DI, """            Self::RowRelative { fill, .. } => {
                let row_range: a1::A1 = (*fill).into();
                write!(f, "{row_range}")
            }""", """            Self::RowRelative { fill, .. } => write!(f, "{}", a1::A1::from(*fill)),"""), (DI, """                let row_range: a1::A1 = (*fill).into();
                write!(f, "{}", row_range.with_x(column.x))""", """                let cells = a1::A1::from(*fill).with_x(column.x);
                fmt::Display::fmt(&cells, f)"""))
