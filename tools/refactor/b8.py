# lists of values, values of variables, numbers as text, rows
VA = "src/parser/cell_parser/validate.rs"
CHAIN = """                let m = self
                    .lexer
                    .maybe_take_date()
                    .or_else(|| self.lexer.maybe_take_number())
                    .or_else(|| self.lexer.maybe_take_single_quoted_string().unwrap_or(None))
                    .or_else(|| self.lexer.maybe_take_identifier());

                if let Some(tm) = m {
                    values.push(Ast::try_from(tm)?);
                } else {
                    return Err(self
                        .lexer
                        .unknown_string("Expected a date, number or string"));
                }

                if self.lexer.peek_close_parenthesis() {
                    break;
                }
"""
R("va-let-else", (VA, CHAIN, """                let Some(tm) = self
                    .lexer
                    .maybe_take_date()
                    .or_else(|| self.lexer.maybe_take_number())
                    .or_else(|| self.lexer.maybe_take_single_quoted_string().unwrap_or(None))
                    .or_else(|| self.lexer.maybe_take_identifier())
                else {
                    return Err(self
                        .lexer
                        .unknown_string("Expected a date, number or string"));
                };
                values.push(tm.try_into()?);

                if self.lexer.peek_close_parenthesis() {
                    break;
                }
"""))
R("va-if-chain", (VA, CHAIN, """                let tm = if let Some(date) = self.lexer.maybe_take_date() {
                    date
                } else if let Some(number) = self.lexer.maybe_take_number() {
                    number
                } else if let Ok(Some(text)) = self.lexer.maybe_take_single_quoted_string() {
                    text
                } else if let Some(identifier) = self.lexer.maybe_take_identifier() {
                    identifier
                } else {
                    return Err(self
                        .lexer
                        .unknown_string("Expected a date, number or string"));
                };
                values.push(Ast::try_from(tm)?);

                if self.lexer.peek_close_parenthesis() {
                    break;
                }
"""))
R("va-helper", (VA, CHAIN, """                values.push(self.list_value()?);

                if self.lexer.peek_close_parenthesis() {
                    break;
                }
"""), (VA, """    fn one_date_in_parens(""", """    fn list_value(&mut self) -> ParseResult<Ast> {
        let m = self
            .lexer
            .maybe_take_date()
            .or_else(|| self.lexer.maybe_take_number())
            .or_else(|| self.lexer.maybe_take_single_quoted_string().unwrap_or(None))
            .or_else(|| self.lexer.maybe_take_identifier());

        match m {
            Some(tm) => Ast::try_from(tm),
            None => Err(self
                .lexer
                .unknown_string("Expected a date, number or string")),
        }
    }

    fn one_date_in_parens("""))
R("va-while", (VA, """            let mut values: Vec<Ast> = vec![];
""", """            let mut values: Vec<Ast> = Vec::new();
            let mut done = false;
"""), (VA, "            loop {\n", "            while !done {\n"), (VA, """                if self.lexer.peek_close_parenthesis() {
                    break;
                }
""", """                done = self.lexer.peek_close_parenthesis();
"""))
R("va-quoted-first", (VA, """                    .maybe_take_date()
                    .or_else(|| self.lexer.maybe_take_number())
                    .or_else(|| self.lexer.maybe_take_single_quoted_string().unwrap_or(None))
""", """                    .maybe_take_single_quoted_string()
                    .unwrap_or(None)
                    .or_else(|| self.lexer.maybe_take_date())
                    .or_else(|| self.lexer.maybe_take_number())
"""))
R("va-two-helper", (VA, """        take_parens!(self, {
            Ok((
                self.lexer.take_token(Token::Number)?.into_number()?,
                self.lexer.take_token(Token::Number)?.into_number()?,
            ))
        })""", """        take_parens!(self, {
            let low = self.lexer.take_token(Token::Number)?.into_number()?;
            let high = self.lexer.take_token(Token::Number)?.into_number()?;
            Ok((low, high))
        })"""))
VV = "src/ast/variable_value.rs"
R("vv-shared", (VV, """                        Ast::new(position.with_x(column.x))
                    } else {
                        let row_range: a1::A1 = fill.into();
                        Ast::new(row_range.with_x(column.x))""", """                        Ast::new(position.with_x(column.x))
                    } else {
                        Ast::new(fill_a1.with_x(column.x))"""))
R("vv-match", (VV, """        if let Some(position) = position {
            match self {""", """        if let Some(position) = position {
            if let VariableValue::Ast(ast) = self {
                return ast;
            }
            match self {"""))
DI = "src/ast/display.rs"
R("di-map", (DI, """                    "{}{value}{}",
                    match sign {
                        Some(s) => s.to_string(),
                        None => String::new(),
                    },
                    if *percentage { "%" } else { "" }
                )
            }

            Self::Function {""", """                    "{}{value}{}",
                    sign.as_ref().map(ToString::to_string).unwrap_or_default(),
                    if *percentage { "%" } else { "" }
                )
            }

            Self::Function {"""))
R("di-writes", (DI, """            Self::Boolean(b) => write!(f, "{}", if *b { "TRUE" } else { "FALSE" }),""", """            Self::Boolean(true) => f.write_str("TRUE"),
            Self::Boolean(false) => f.write_str("FALSE"),"""))
R("di-call-loop", (DI, """                let args_to_string = args
                    .iter()
                    .map(std::string::ToString::to_string)
                    .collect::<Vec<_>>()
                    .join(", ");
                write!(f, "{name}({args_to_string})")""", """                write!(f, "{name}(")?;
                for (i, arg) in args.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{arg}")?;
                }
                write!(f, ")")"""))
R("di-infix", (DI, """            } => write!(f, "({left} {operator} {right})"),""", """            } => {
                write!(f, "({left} ")?;
                write!(f, "{operator} {right})")
            }"""))
RW = "src/row/mod.rs"
R("rw-map", (RW, """            let ast = if let Some(a) = cell.ast {
                Some(
                    a.eval(scope, Some(cell_a1))
                        .map_err(|e| source_code.eval_error(e, Some(cell_a1)))?,
                )
            } else {
                None
            };
""", """            let ast = cell
                .ast
                .map(|a| a.eval(scope, Some(cell_a1)))
                .transpose()
                .map_err(|e| source_code.eval_error(e, Some(cell_a1)))?;
"""))
R("rw-collect", (RW, """        let mut cells = Vec::with_capacity(self.cells.len());
        for (cell_index, cell) in self.cells.into_iter().enumerate() {
            let cell_a1 = a1::Address::new(cell_index, row_a1.y);
            let ast = if let Some(a) = cell.ast {
                Some(
                    a.eval(scope, Some(cell_a1))
                        .map_err(|e| source_code.eval_error(e, Some(cell_a1)))?,
                )
            } else {
                None
            };
            cells.push(Cell { ast, ..cell });
        }
""", """        let cells = self
            .cells
            .into_iter()
            .enumerate()
            .map(|(x, cell)| {
                let position = a1::Address::new(x, row_a1.y);
                let Some(formula) = cell.ast else {
                    return Ok(cell);
                };
                let ast = formula
                    .eval(scope, Some(position))
                    .map_err(|e| source_code.eval_error(e, Some(position)))?;
                Ok(Cell {
                    ast: Some(ast),
                    ..cell
                })
            })
            .collect::<Result<Vec<_>>>()?;
"""))
R("rw-loop", (RW, """        Ok(Self {
            cells: record_result
                .iter()
                .map(|field| Cell::parse(field, &mut row, source_code))
                .collect::<Result<Vec<_>>>()?,
            ..row
        })""", """        let mut cells = vec![];
        for field in record_result {
            let cell = Cell::parse(field, &mut row, source_code)?;
            cells.push(cell);
        }
        row.cells = cells;
        Ok(row)"""))
CE = "src/cell/mod.rs"
R("ce-then", (CE, """    Ok(if input.starts_with('=') {
        Some(
            AstParser::parse(input, false, Some(field.clone()), source_code.clone())
                .map_err(|e| source_code.cell_syntax_error(e, field.address))?,
        )
    } else {
        None
    })""", """    if !input.starts_with('=') {
        return Ok(None);
    }

    match AstParser::parse(input, false, Some(field.clone()), source_code.clone()) {
        Ok(ast) => Ok(Some(ast)),
        Err(e) => Err(source_code.cell_syntax_error(e, field.address)),
    }"""))
R("ce-border", (CE, "self.borders.contains(&BorderSide::All) || self.borders.contains(&border_side)", "[BorderSide::All, border_side]\n            .iter()\n            .any(|side| self.borders.contains(side))"))
R("ce-struct", (CE, """        let mut cell = CellParser::parse(field, row, source_code.clone())?;
        cell.ast = parse_ast(&cell.parsed_value, &cell.field.clone(), source_code)?;

        Ok(cell)""", """        let parsed = CellParser::parse(field, row, source_code.clone())?;
        let ast = parse_ast(&parsed.parsed_value, &parsed.field, source_code)?;
        Ok(Self { ast, ..parsed })"""))
FI = "src/cell_options/fill/mod.rs"
R("fi-map-or", (FI, """        if let Some(a) = self.amount {
            (self.start_row.y + a).into()
        } else {
            ROW_MAX.into()
        }""", """        match self.amount {
            None => Row::from(ROW_MAX),
            Some(amount) => Row::from(amount + self.start_row.y),
        }"""))
R("fi-new", (FI, """        Self {
            amount: self.amount,
            start_row: row.into(),
        }""", """        Self::new(row, self.amount)"""))
FD = "csvp/src/field.rs"
R("fd-get", (FD, """        if offset >= self.positions.len() {
            None
        } else {
            Some(self.positions[offset])
        }""", """        self.positions.get(offset).copied()"""))
R("fd-eof", (FD, """        self.positions.last().map(|p| SourcePosition {
            line_offset: p.line_offset + 1,
            ..*p
        })""", """        let last = self.positions.last()?;
        Some(SourcePosition {
            line_number: last.line_number,
            line_offset: last.line_offset + 1,
        })"""))
MA = "src/main.rs"
R("ma-order", (MA, """    let compiler = Compiler::from_cli_args()?;
    let main_module = compiler.compile()?;

    let target = compiler.target()?;
    if compiler.config.backup {
        target.write_backup()?;
    }
    target.write(&main_module)?;

    Ok(())""", """    let compiler = Compiler::from_cli_args()?;
    let module = compiler.compile()?;
    write_output(&compiler, &module)"""), (MA, "fn main() {", """fn write_output(compiler: &Compiler, module: &csvpp::Module) -> Result<()> {
    let target = compiler.target()?;
    if compiler.config.backup {
        target.write_backup()?;
    }
    target.write(module)
}

fn main() {"""))
R("ma-exit", (MA, """        eprintln!("{e}");
        process::exit(1)
    }""", """        let message = e.to_string();
        eprintln!("{message}");
        process::exit(1);
    }"""))
RG = "src/rgb/try_from.rs"
R("rg-channels", (RG, """        Ok((
            string_to_hex(&str_match[..2], false)?,
            string_to_hex(&str_match[2..4], false)?,
            string_to_hex(&str_match[4..6], false)?,
        ))""", """        let red = string_to_hex(&str_match[0..2], false)?;
        let green = string_to_hex(&str_match[2..4], false)?;
        let blue = string_to_hex(&str_match[4..], false)?;
        Ok((red, green, blue))"""))
R("rg-strip", (RG, """        let start_at = usize::from(str_match.starts_with('#'));
        let input_len = str_match.len() - start_at;

        if str_match.is_ascii() && (input_len == 3 || input_len == 6) {
            let (r, g, b) = parse_str(&str_match[start_at..])
""", """        let digits = str_match.strip_prefix('#').unwrap_or(&str_match);

        if digits.is_ascii() && (digits.len() == 3 || digits.len() == 6) {
            let (r, g, b) = parse_str(digits)
"""))
DT = "src/date_time/try_from.rs"
R("dt-fn", (DT, """    try_formats!(
        input,
        DATE,
        DateTime::Date,
        chrono::NaiveDate::parse_from_str
    );
""", """    for format in DATE {
        if let Ok(date) = chrono::NaiveDate::parse_from_str(input.input(), format) {
            return Ok(DateTime::Date(date));
        }
    }
"""))
OU = "src/output/mod.rs"
R("ou-ext", (OU, """        let path = path.into();
        if Csv::supports_extension(ext) {
            Ok(Self::Csv(path))
        } else if Excel::supports_extension(ext) {
            Ok(Self::Excel(path))
        } else if OpenDocument::supports_extension(ext) {
            Ok(Self::OpenDocument(path))
        } else {
            Err(""", """        let path: path::PathBuf = path.into();
        if OpenDocument::supports_extension(ext) {
            Ok(Self::OpenDocument(path))
        } else if Csv::supports_extension(ext) {
            Ok(Self::Csv(path))
        } else if Excel::supports_extension(ext) {
            Ok(Self::Excel(path))
        } else {
            Err("""))
R("ou-valid", (OU, """        if sheet_id
            .chars()
            .all(|c| c.is_alphanumeric() || c == '-' || c == '_')
        {
            Ok(Self::GoogleSheets(sheet_id))
        } else {
            Err(Error::InitError(
                "The GOOGLE_SHEET_ID must be all letters, digits, `-` and `_`.".to_string(),
            ))
        }""", """        let bad = |c: char| !(c.is_alphanumeric() || matches!(c, '-' | '_'));
        if sheet_id.chars().any(bad) {
            return Err(Error::InitError(
                "The GOOGLE_SHEET_ID must be all letters, digits, `-` and `_`.".to_string(),
            ));
        }
        Ok(Self::GoogleSheets(sheet_id))"""))
CF = "src/config/mod.rs"
R("cf-name", (CF, """        if let Some(sheet_name) = &cli_args.sheet_name {
            Ok(sheet_name.clone())
        } else {
            match cli_args.input_filename.file_stem() {
                Some(fs) => Ok(fs.to_string_lossy().to_string()),
                None => Err(Error::InitError(format!(
                    "Could not determine base filename from input filename: {}",
                    cli_args.input_filename.display()
                ))),
            }
        }""", """        if let Some(name) = cli_args.sheet_name.clone() {
            return Ok(name);
        }

        cli_args
            .input_filename
            .file_stem()
            .map(|stem| stem.to_string_lossy().to_string())
            .ok_or_else(|| {
                Error::InitError(format!(
                    "Could not determine base filename from input filename: {}",
                    cli_args.input_filename.display()
                ))
            })"""))
CO = "src/compiler/mod.rs"
R("co-loader-root", (CO, """            .parent()
            .unwrap_or_else(|| path::Path::new(""))
            .to_path_buf();""", """            .parent()
            .map(path::Path::to_path_buf)
            .unwrap_or_default();"""))
R("co-main-name", (CO, """        let main_module_path: ModulePath =
            path::Path::new(main_filename).to_path_buf().try_into()?;
""", """        let main_module_path = ModulePath::try_from(path::PathBuf::from(main_filename))?;
"""))
TM = "src/target/mod.rs"
R("tm-tuple", (TM, """    if let Some(new_val) = new {
        match existing {
            ExistingCell::Value(v) => {
                // both new and existing values
                if config.overwrite_values {
                    MergeResult::New(new_val.clone())
                } else {
                    MergeResult::Existing(v.clone())
                }
            }
            ExistingCell::Empty => MergeResult::New(new_val.clone()),
        }
    } else {
        // no new value - return existing or empty
        match existing {
            ExistingCell::Value(v) => MergeResult::Existing(v.clone()),
            ExistingCell::Empty => MergeResult::Empty,
        }
    }""", """    match (new, existing) {
        (Some(_), ExistingCell::Value(v)) if !config.overwrite_values => {
            MergeResult::Existing(v.clone())
        }
        (Some(new_val), _) => MergeResult::New(new_val.clone()),
        (None, ExistingCell::Value(v)) => MergeResult::Existing(v.clone()),
        (None, ExistingCell::Empty) => MergeResult::Empty,
    }"""))
