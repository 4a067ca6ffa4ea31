CE = "src/cell/mod.rs"
CL = "src/parser/cell_lexer/mod.rs"
TM = "src/parser/token_matcher.rs"
CS = "src/parser/code_section_parser.rs"
SC = "src/scope/mod.rs"
CP = "src/parser/cell_parser/mod.rs"
CV = "src/parser/cell_parser/validate.rs"
R("ce-parse-ast", (CE, """    Ok(if input.starts_with('=') {
        Some(
            AstParser::parse(input, false, Some(field.clone()), source_code.clone())
                .map_err(|e| source_code.cell_syntax_error(e, field.address))?,
        )
    } else {
        None
    })""", """    if !input.starts_with('=') {
        return Ok(None);
    }
    let ast = AstParser::parse(input, false, Some(field.clone()), source_code.clone())
        .map_err(|e| source_code.cell_syntax_error(e, field.address))?;
    Ok(Some(ast))"""))
R("ce-parse-struct", (CE, """        let mut cell = CellParser::parse(field, row, source_code.clone())?;
        cell.ast = parse_ast(&cell.parsed_value, &cell.field.clone(), source_code)?;

        Ok(cell)""", """        let cell = CellParser::parse(field, row, source_code.clone())?;
        let ast = parse_ast(&cell.parsed_value, &cell.field, source_code)?;

        Ok(Self { ast, ..cell })"""))
R("ce-border", (CE, """        self.borders.contains(&BorderSide::All) || self.borders.contains(&border_side)""", """        [BorderSide::All, border_side]
            .iter()
            .any(|side| self.borders.contains(side))"""))
R("ce-border-iter", (CE, """        self.borders.contains(&BorderSide::All) || self.borders.contains(&border_side)""", """        if self.borders.contains(&border_side) {
            return true;
        }
        self.borders.contains(&BorderSide::All)"""))
R("cl-start-helper", (CL, """        if let Some(without_match) = self.input.strip_prefix("[[") {
            let token_match = self.match_token(Token::StartCellOptions, "[[");
            self.replace_input(without_match, 2);
            Some(token_match)
        } else if let Some(without_match) = self.input.strip_prefix("![[") {
            let token_match = self.match_token(Token::StartRowOptions, "![[");
            self.replace_input(without_match, 3);
            Some(token_match)
        } else {
            None
        }""", """        self.maybe_take(Token::StartCellOptions, "[[")
            .or_else(|| self.maybe_take(Token::StartRowOptions, "![["))"""))
R("cl-start-for", (CL, """        if let Some(without_match) = self.input.strip_prefix("[[") {
            let token_match = self.match_token(Token::StartCellOptions, "[[");
            self.replace_input(without_match, 2);
            Some(token_match)
        } else if let Some(without_match) = self.input.strip_prefix("![[") {
            let token_match = self.match_token(Token::StartRowOptions, "![[");
            self.replace_input(without_match, 3);
            Some(token_match)
        } else {
            None
        }""", """        let (token, text) = if self.input.starts_with("[[") {
            (Token::StartCellOptions, "[[")
        } else if self.input.starts_with("![[") {
            (Token::StartRowOptions, "![[")
        } else {
            return None;
        };
        let token_match = self.match_token(token, text);
        self.move_input(text.len());
        Some(token_match)"""))
R("cl-quoted-then", (CL, """        Ok(
            if self
                .token_library
                .single_quoted_string
                .try_match(self.input)
                .is_some()
            {
                Some(self.take_single_quoted_string()?)
            } else {
                None
            },
        )""", """        let quoted = &self.token_library.single_quoted_string;
        match quoted.try_match(self.input) {
            Some(_) => self.take_single_quoted_string().map(Some),
            None => Ok(None),
        }"""))
R("cl-date-regex", (CL, """        if let Some(m) = self.token_library.date.try_match(self.input) {
            let str_match = m.str_match;

            self.move_input(m.len_leading_whitespace);
            let token = self.match_token(Token::Date, str_match);
            self.move_input(str_match.len());
            Ok(token)
        } else {
            Err(self.unknown_string("Expected a date"))
        }""", """        self.maybe_take_regex(&self.token_library.date)
            .ok_or_else(|| self.unknown_string("Expected a date"))"""))
R("cl-take-maybe", (CL, """        if let Some(without_match) = self.input.strip_prefix(substring) {
            let token_match = self.match_token(token, substring);
            self.replace_input(without_match, substring.len());
            Ok(token_match)
        } else {
            Err(self.unknown_string(format!("Error parsing input, expected '{substring}'")))
        }""", """        match self.maybe_take(token, substring) {
            Some(token_match) => Ok(token_match),
            None => {
                Err(self.unknown_string(format!("Error parsing input, expected '{substring}'")))
            }
        }"""))
R("cl-while-takewhile", (CL, """        let mut matched = String::new();

        for c in self.input.chars() {
            if while_fn(c) {
                matched.push(c);
            } else {
                break;
            }
        }

        if matched.is_empty() {""", """        let matched = self
            .input
            .chars()
            .take_while(|c| while_fn(*c))
            .collect::<String>();

        if matched.is_empty() {"""))
R("cl-while-find", (CL, """        let mut matched = String::new();

        for c in self.input.chars() {
            if while_fn(c) {
                matched.push(c);
            } else {
                break;
            }
        }

        if matched.is_empty() {""", """        let end = self
            .input
            .find(|c| !while_fn(c))
            .unwrap_or(self.input.len());
        let matched = self.input[..end].to_string();

        if matched.is_empty() {"""))
R("cl-while-early", (CL, """            if while_fn(c) {
                matched.push(c);
            } else {
                break;
            }
        }
""", """            if !while_fn(c) {
                break;
            }
            matched.push(c);
        }
"""))
R("cl-color-match", (CL, """            if c == '#' && !saw_hash {
                saw_hash = true;
                matched.push(c);
            } else if c.is_alphanumeric() {
                if matched_alphas > 6 {
                    return Err(
                        self.unknown_string(format!("Unexpected RGB color character: '{c}'"))
                    );
                }

                matched.push(c);
                matched_alphas += 1;
            } else {
                if matched_alphas == 3 || matched_alphas == 6 {
                    break;
                }

                return Err(
                    self.unknown_string(format!("Invalid character when parsing RGB color: '{c}'"))
                );
            }""", """            match c {
                '#' if !saw_hash => saw_hash = true,
                _ if c.is_alphanumeric() => {
                    if matched_alphas > 6 {
                        return Err(
                            self.unknown_string(format!("Unexpected RGB color character: '{c}'"))
                        );
                    }
                    matched_alphas += 1;
                }
                _ if matches!(matched_alphas, 3 | 6) => break,
                _ => {
                    return Err(self.unknown_string(format!(
                        "Invalid character when parsing RGB color: '{c}'"
                    )))
                }
            }
            matched.push(c);"""))
R("cl-string-if", (CL, """        if self.input.starts_with('\\'') {
            Ok(self.take_single_quoted_string()?)
        } else {
            Ok(self.take_while(Token::String, char::is_alphanumeric)?)
        }""", """        match self.input.chars().next() {
            Some('\\'') => self.take_single_quoted_string(),
            _ => self.take_while(Token::String, char::is_alphanumeric),
        }"""))
R("cl-quoted-match", (CL, """            if start_quote {
                if escape_mode {
                    matched.push(c);
                    escape_mode = false;
                } else if c == '\\\\' {
                    escape_mode = true;
                } else if c == '\\'' && chars.peek() == Some(&'\\'') {
                    escape_mode = true;
                } else if c == '\\'' {
                    end_quote = true;
                    break;
                } else {
                    matched.push(c);
                }
            } else if c == '\\'' {
                start_quote = true;
            } else {
                return Err(self.unknown_string("Expected a starting single quote"));
            }""", """            if !start_quote {
                if c != '\\'' {
                    return Err(self.unknown_string("Expected a starting single quote"));
                }
                start_quote = true;
                continue;
            }
            if escape_mode {
                escape_mode = false;
                matched.push(c);
                continue;
            }
            match c {
                '\\\\' => escape_mode = true,
                '\\'' if chars.peek() == Some(&'\\'') => escape_mode = true,
                '\\'' => {
                    end_quote = true;
                    break;
                }
                _ => matched.push(c),
            }"""))
R("cl-quoted-first", (CL, """            if start_quote {
                if escape_mode {""", """            if start_quote {
                let doubled = c == '\\'' && chars.peek() == Some(&'\\'');
                if escape_mode {"""), (CL, """} else if c == '\\\\' {
                    escape_mode = true;
                } else if c == '\\'' && chars.peek() == Some(&'\\'') {
                    escape_mode = true;""", """} else if c == '\\\\' || doubled {
                    escape_mode = true;"""))
R("cl-move", (CL, """        let (consumed, rest) = self.input.split_at(amount);
        self.cell_offset += consumed.chars().count();
        self.input = rest;""", """        self.cell_offset += self.input[..amount].chars().count();
        self.input = &self.input[amount..];"""))
R("tm-map", (TM, """        if let Some(m) = self.1.find(input) {
            let str_match = m.as_str();
            Some(StrMatch {
                len_leading_whitespace: whitespace_start(str_match),
                len_full_match: str_match.len(),
                str_match: str_match.trim(),
            })
        } else {
            None
        }""", """        self.1.find(input).map(|m| {
            let whole = m.as_str();
            StrMatch {
                len_leading_whitespace: whitespace_start(whole),
                len_full_match: m.end(),
                str_match: whole.trim(),
            }
        })"""))
R("tm-question", (TM, """        if let Some(m) = self.1.find(input) {
            let str_match = m.as_str();
            Some(StrMatch {
                len_leading_whitespace: whitespace_start(str_match),
                len_full_match: str_match.len(),
                str_match: str_match.trim(),
            })
        } else {
            None
        }""", """        let whole = self.1.find(input)?.as_str();
        Some(StrMatch {
            len_leading_whitespace: whitespace_start(whole),
            len_full_match: whole.len(),
            str_match: whole.trim(),
        })"""))
R("tm-ws-loop", (TM, """    input
        .chars()
        .take_while(|ch| ch.is_whitespace() && *ch != '\\n' && *ch != '\\r')
        .map(char::len_utf8)
        .sum()""", """    let mut len = 0;
    for ch in input.chars() {
        if !ch.is_whitespace() || ch == '\\n' || ch == '\\r' {
            break;
        }
        len += ch.len_utf8();
    }
    len"""))
R("tm-ws-find", (TM, """    input
        .chars()
        .take_while(|ch| ch.is_whitespace() && *ch != '\\n' && *ch != '\\r')
        .map(char::len_utf8)
        .sum()""", """    input
        .find(|ch: char| !ch.is_whitespace() || matches!(ch, '\\n' | '\\r'))
        .unwrap_or(input.len())"""))
R("cs-while", (CS, """        loop {
            let next = self.lexer.next();
            match next.token {
                Token::Eof => break,
                Token::FunctionDefinition => {""", """        let mut next = self.lexer.next();
        while next.token != Token::Eof {
            match next.token {
                Token::FunctionDefinition => {"""), (CS, """                        next.into_error("Expected an `fn` or variable definition (`:=`) operator")
                    )
                }
            }
        }""", """                        next.into_error("Expected an `fn` or variable definition (`:=`) operator")
                    )
                }
            }
            next = self.lexer.next();
        }"""))
R("cs-var", (CS, """                    let var_assign = self.parse_variable_assign()?;
                    scope.define_variable(
                        next.str_match,
                        Node::var(next.str_match, VariableValue::Ast(var_assign)),
                    );""", """                    let name = next.str_match;
                    let value = VariableValue::Ast(self.parse_variable_assign()?);
                    scope.define_variable(name, Node::var(name, value));"""))
R("cs-assign-if", (CS, """        let next = self.lexer.next();
        match next.token {
            Token::VarAssign => Ok(self.parse_expr()?),
            _ => Err(next.into_error("Expected a variable definition operator (`:=`)")),
        }""", """        let next = self.lexer.next();
        if next.token != Token::VarAssign {
            return Err(next.into_error("Expected a variable definition operator (`:=`)"));
        }
        self.parse_expr()"""))
R("cs-fn-expect", (CS, """        let name = match self.lexer.next() {
            TokenMatch {
                token: Token::Reference,
                str_match: r,
                ..
            } => r,
            token => return Err(token.into_error("Expected a function name")),
        };

        match self.lexer.next() {
            TokenMatch {
                token: Token::OpenParen,
                ..
            } => (),
            token => return Err(token.into_error("Expected `(` for a function definition")),
        };
""", """        let name = self.expect(Token::Reference, "Expected a function name")?.str_match;
        self.expect(Token::OpenParen, "Expected `(` for a function definition")?;
"""), (CS, """    fn parse_expr(&'a self)""", """    fn expect(&'a self, token: Token, message: &str) -> Result<TokenMatch<'a>> {
        let next = self.lexer.next();
        if next.token == token {
            Ok(next)
        } else {
            Err(next.into_error(message))
        }
    }

    fn parse_expr(&'a self)"""))
R("cs-args-helper", (CS, """        let mut fn_args = vec![];
        loop {
            let next = self.lexer.next();
            match next.token {
                Token::CloseParen => break,
                Token::Comma => (),
                Token::Reference => {
                    fn_args.push(next.str_match.to_string());
                }
                _ => {
                    return Err(
                        next.into_error("Expected comma-separated function arguments or `)`")
                    )
                }
            }
        }

        let function = Node::Function {
            name: name.to_owned(),
            args: fn_args,
            body: self.parse_expr()?,
        };
""", """        let args = self.parse_fn_args()?;
        let body = self.parse_expr()?;
        let function = Node::Function {
            name: name.to_owned(),
            args,
            body,
        };
"""), (CS, """    fn parse_expr(&'a self)""", """    fn parse_fn_args(&'a self) -> Result<Vec<String>> {
        let mut fn_args = vec![];
        loop {
            let next = self.lexer.next();
            match next.token {
                Token::CloseParen => return Ok(fn_args),
                Token::Comma => continue,
                Token::Reference => fn_args.push(next.str_match.to_string()),
                _ => {
                    return Err(
                        next.into_error("Expected comma-separated function arguments or `)`")
                    )
                }
            }
        }
    }

    fn parse_expr(&'a self)"""))
R("sc-merge-vars", (SC, """            variables: vars.into_iter().chain(self.variables).collect(),
            ..self
        }""", """            variables: {
                let mut merged = vars;
                merged.extend(self.variables);
                merged
            },
            functions: self.functions,
            exports: self.exports,
        }"""))
R("sc-merge-vars2", (SC, """        Self {
            variables: vars.into_iter().chain(self.variables).collect(),
            ..self
        }""", """        let mut variables = vars;
        for (name, ast) in self.variables {
            variables.insert(name, ast);
        }
        Self { variables, ..self }"""))
R("sc-merge-entry", (SC, """                if !self.functions.contains_key(e) {
                    self.functions.insert(e.clone(), f.clone());
                }
            }
            if let Some(v) = other.variables.get(e) {
                if !self.variables.contains_key(e) {
                    self.variables.insert(e.clone(), v.clone());
                }
            }""", """                self.functions.entry(e.clone()).or_insert_with(|| f.clone());
            }
            if let Some(v) = other.variables.get(e) {
                self.variables.entry(e.clone()).or_insert_with(|| v.clone());
            }"""))
R("sc-merge-match", (SC, """            if let Some(v) = other.variables.get(e) {
                if !self.variables.contains_key(e) {
                    self.variables.insert(e.clone(), v.clone());
                }
            }""", """            match other.variables.get(e) {
                Some(v) if self.variables.get(e).is_none() => {
                    let _ = self.variables.insert(e.clone(), v.clone());
                }
                _ => (),
            }"""))
R("cp-macro-target", (CP, """        if $self.is_row_options {
            $self.row.$attr = Some($value);
        } else {
            $self.cell.$attr = Some($value);
        }
        Ok(())""", """        let value = Some($value);
        if $self.is_row_options {
            $self.row.$attr = value;
        } else {
            $self.cell.$attr = value;
        }
        Ok(())"""))
R("cp-wrap-macro", (CP, """        let value = TextWrap::try_from(self.lexer.take_option_right_side()?)?;
        if self.is_row_options {
            self.row.text_wrap = value;
        } else {
            self.cell.text_wrap = value;
        }
        Ok(())""", """        assign_option!(self, text_wrap, {
            TextWrap::try_from(self.lexer.take_option_right_side()?)?
        })"""))
R("cp-color-helper", (CP, """    fn color_option(&mut self) -> ParseResult<()> {
        self.lexer.take_token(Token::Equals)?;
        assign_some_option!(self, color, {
            Rgb::try_from(self.lexer.take_token(Token::Color)?)?
        })
    }""", """    fn take_color(&mut self) -> ParseResult<Rgb> {
        self.lexer.take_token(Token::Equals)?;
        Rgb::try_from(self.lexer.take_token(Token::Color)?)
    }

    fn color_option(&mut self) -> ParseResult<()> {
        let color = self.take_color()?;
        assign_some_option!(self, color, color)
    }"""), (CP, """        self.lexer.take_token(Token::Equals)?;
        assign_some_option!(self, border_color, {
            Rgb::try_from(self.lexer.take_token(Token::Color)?)?
        })""", """        let color = self.take_color()?;
        assign_some_option!(self, border_color, color)"""))
R("cp-fill-match", (CP, """        let amount = if self.lexer.maybe_take_equals().is_some() {
            let amount_string = self.lexer.take_token(Token::PositiveNumber)?;
            Some(amount_string.str_match.parse::<usize>().map_err(|e| {
                amount_string.into_parse_error(format!("Error parsing fill= repetitions: {e}"))
            })?)
        } else {
            None
        };
""", """        let amount = match self.lexer.maybe_take_equals() {
            None => None,
            Some(_) => {
                let amount_string = self.lexer.take_token(Token::PositiveNumber)?;
                match amount_string.str_match.parse() {
                    Ok(n) => Some(n),
                    Err(e) => {
                        return Err(amount_string
                            .into_parse_error(format!("Error parsing fill= repetitions: {e}")))
                    }
                }
            }
        };
"""))
R("cp-options-while", (CP, """        loop {
            self.option()?;
            if self.lexer.maybe_take_slash().is_some() {
                deprecated_feature(
                    "You no longer need to use `/` between cell options",
                    "Remove the `/` and use whitespace between options.",
                );
            } else if self.lexer.maybe_take_end_options().is_some() {
                break;
            }
        }

        Ok(())""", """        loop {
            self.option()?;

            let slash = self.lexer.maybe_take_slash();
            if slash.is_none() {
                if self.lexer.maybe_take_end_options().is_some() {
                    return Ok(());
                }
                continue;
            }
            deprecated_feature(
                "You no longer need to use `/` between cell options",
                "Remove the `/` and use whitespace between options.",
            );
        }"""))
R("cp-cell-match", (CP, """            if is_row_options && field.address.column.x != 0 {
                return Err(start_token
                    .into_parse_error("You can only define a row options on the first cell"));
            }

            if !is_row_options && parsed_cell.is_some() {
                return Err(
                    start_token.into_parse_error("You can only define options once per cell")
                );
            };
""", """            if is_row_options {
                if field.address.column.x != 0 {
                    return Err(start_token
                        .into_parse_error("You can only define a row options on the first cell"));
                }
            } else if parsed_cell.is_some() {
                return Err(
                    start_token.into_parse_error("You can only define options once per cell")
                );
            }
"""))
R("cp-cell-end", (CP, """        let mut cell =
            parsed_cell.unwrap_or_else(|| Cell::default_from(row.clone(), field.clone()));
        cell.parsed_value = lexer.rest().to_string();

        Ok(cell)""", """        let cell = match parsed_cell {
            Some(c) => c,
            None => Cell::default_from(row.clone(), field.clone()),
        };

        Ok(Cell {
            parsed_value: lexer.rest(),
            ..cell
        })"""))
R("cp-lock", (CP, """        if self.is_row_options {
            self.row.lock = true;
        } else {
            self.cell.lock = true;
        }

        Ok(())""", """        let lock = if self.is_row_options {
            &mut self.row.lock
        } else {
            &mut self.cell.lock
        };
        *lock = true;

        Ok(())"""))
R("cv-list", (CV, """                if let Some(tm) = m {
                    values.push(Ast::try_from(tm)?);
                } else {
                    return Err(self
                        .lexer
                        .unknown_string("Expected a date, number or string"));
                }

                if self.lexer.peek_close_parenthesis() {
                    break;
                }""", """                let Some(tm) = m else {
                    return Err(self
                        .lexer
                        .unknown_string("Expected a date, number or string"));
                };
                let value = Ast::try_from(tm)?;
                values.push(value);

                if self.lexer.peek_close_parenthesis() {
                    break;
                }"""))
R("cv-two", (CV, """            Ok((
                DateTime::try_from(self.lexer.take_token(Token::Date)?)?,
                DateTime::try_from(self.lexer.take_token(Token::Date)?)?,
            ))""", """            let first = DateTime::try_from(self.lexer.take_token(Token::Date)?)?;
            let second = DateTime::try_from(self.lexer.take_token(Token::Date)?)?;
            Ok((first, second))"""))
R("cv-macro", (CV, """            if $self.is_row_options {
                $self.row.data_validation = Some($value);
            } else {
                $self.cell.data_validation = Some($value);
            }

            Ok(())""", """            let validation: DataValidation = $value;
            match $self.is_row_options {
                true => $self.row.data_validation = Some(validation),
                false => $self.cell.data_validation = Some(validation),
            }
            Ok(())"""))
R("cv-inline", (CV, """    validate!(
        self,
        validate_date_after,
        DataValidation::DateAfter(self.one_date_in_parens()?)
    );
""", """    fn validate_date_after(&mut self) -> ParseResult<()> {
        let date = self.one_date_in_parens()?;
        let target = if self.is_row_options {
            &mut self.row.data_validation
        } else {
            &mut self.cell.data_validation
        };
        *target = Some(DataValidation::DateAfter(date));
        Ok(())
    }
"""))
