ML="src/module_loader/mod.rs"; SP="src/spreadsheet/mod.rs"; CS="src/parser/code_section_parser.rs"; XL="src/target/excel/mod.rs"
CSV="src/target/csv/mod.rs"; CT="src/target/csv/compilation_target.rs"; MO="src/module/mod.rs"; RO="src/row/mod.rs"; TG="src/target/mod.rs"
AL="src/parser/ast_lexer/mod.rs"; AP="src/parser/ast_parser.rs"; EV="src/ast/eval.rs"; RF="src/ast/references.rs"; DI="src/ast/display.rs"
CO="src/compiler/mod.rs"; SC="src/source_code/mod.rs"; SS="src/scope/mod.rs"; BU="src/target/google_sheets/batch_update_builder.rs"; CV="src/target/excel/cell_validation.rs"

R("ct-widest-loop",(CT,"""        let widest_row = existing_values
            .cells
            .iter()
            .map(Vec::len)
            .fold(module.spreadsheet.widest_row(), cmp::max);
""","""        let mut widest_row = module.spreadsheet.widest_row();
        for existing_row in &existing_values.cells {
            if existing_row.len() > widest_row {
                widest_row = existing_row.len();
            }
        }
"""))
R("ct-widest-chain",(CT,"""            .map(Vec::len)
            .fold(module.spreadsheet.widest_row(), cmp::max);
""","""            .map(Vec::len)
            .chain(module.spreadsheet.rows.iter().map(|row| row.cells.len()))
            .max()
            .unwrap_or_default();
"""))
R("ct-widest-fn",(CT,"""        let widest_row = existing_values
            .cells
            .iter()
            .map(Vec::len)
            .fold(module.spreadsheet.widest_row(), cmp::max);
""","""        let existing_width = existing_values.cells.iter().map(Vec::len).max().unwrap_or(0);
        let widest_row = existing_width.max(module.spreadsheet.widest_row());
"""))
R("ct-pad",(CT,"""            // all rows have to be as wide as the widest row
            output_row.resize(widest_row, String::new());
""","""            while output_row.len() < widest_row {
                output_row.push(String::new());
            }
"""))
R("sp-widest-fold",(SP,"""            .map(|row| row.cells.len())
            .max()
            .unwrap_or(0)
""","""            .fold(0, |widest, row| widest.max(row.cells.len()))
"""))
R("sp-fills-extend",(SP,"""                for _ in 0..fill_amount {
                    rows.push(Row {
                        fill: Some(new_fill),
                        ..row.clone()
                    });
                    row_num += 1;
                }
""","""                let filled_row = Row {
                    fill: Some(new_fill),
                    ..row
                };
                rows.extend(std::iter::repeat(filled_row).take(fill_amount));
                row_num += fill_amount;
"""))
R("sp-fills-match",(SP,"""            if let Some(f) = row.fill {
                let fill_amount""","""            let Some(f) = row.fill else {
                rows.push(row);
                row_num += 1;
                continue;
            };
            {
                let fill_amount"""),(SP,"""            } else {
                rows.push(row);
                row_num += 1;
            }
        }

        Ok(Self {""","""            }
        }

        Ok(Self {"""))
R("sp-multi-count",(SP,"""        let mut saw_infinite = false;
        for row in &self.rows {
            if let Some(fill) = row.fill {
                if fill.amount.is_none() {
                    if saw_infinite {
                        return true;
                    }
                    saw_infinite = true;
                }
            }
        }

        false
""","""        let infinite_fills = self
            .rows
            .iter()
            .filter_map(|row| row.fill)
            .filter(|fill| fill.amount.is_none())
            .count();

        infinite_fills > 1
"""))
R("sp-left-sum",(SP,"""        let total_rows_minus_infinite = self.rows.iter().fold(0, |acc, row| {
            acc + row.fill.map_or(1, |f| f.amount.unwrap_or(0))
        });
""","""        let total_rows_minus_infinite: usize = self
            .rows
            .iter()
            .map(|row| match row.fill {
                Some(f) => f.amount.unwrap_or(0),
                None => 1,
            })
            .sum();
"""))
R("sp-vars-match",(SP,"""                let reference = if let Some(fill) = row.fill {
                    // if there's also an fill it's relative to that
                    Node::Variable {
                        name: var_id.clone(),
                        value: VariableValue::RowRelative { fill, row: row_a1 },
                    }
                } else {
                    // otherwise it's just relative to the single row where it was defined
                    Node::Variable {
                        name: var_id.clone(),
                        value: VariableValue::Row(row_a1),
                    }
                };

                vars.insert(var_id.to_owned(), Ast::new(reference));
""","""                let value = match row.fill {
                    Some(fill) => VariableValue::RowRelative { fill, row: row_a1 },
                    None => VariableValue::Row(row_a1),
                };

                vars.insert(var_id.clone(), Ast::new(Node::var(var_id, value)));
"""))
R("sp-parse-collect",(SP,"""        let mut rows: Vec<Row> = vec![];
        for (row_index, row) in records.into_iter().enumerate() {
            trace!("Parsing row {row_index}");
            rows.push(Row::parse(&row, source_code)?);
        }
""","""        let rows = records
            .iter()
            .enumerate()
            .map(|(row_index, row)| {
                trace!("Parsing row {row_index}");
                Row::parse(row, source_code)
            })
            .collect::<Result<Vec<_>>>()?;
"""))
R("ml-node-for",(ML,"""            let direct_dep_node = loaded_nodes
                .get(p)
                .copied()
                .unwrap_or_else(|| dep_graph.add_node(p.clone()));
            loaded_nodes.insert(p, direct_dep_node);
            dep_graph""","""            let direct_dep_node = *loaded_nodes
                .entry(p)
                .or_insert_with(|| dep_graph.add_node(p.clone()));
            dep_graph"""))
R("ml-load-filter",(ML,"""            for module_path in &module.required_modules {
                if attempted.contains(module_path) {
                    // another module has already loaded it
                    continue;
                }

                attempted.insert(module_path.clone());
                to_attempt.insert(module_path.clone());
            }
""","""            for module_path in &module.required_modules {
                if attempted.insert(module_path.clone()) {
                    to_attempt.insert(module_path.clone());
                }
            }
"""))
R("ml-write-object-first",(ML,"""            if self.use_cache {
                to_resolve.write_object_file()?;
            }

            scopes.insert(to_resolve.module_path.clone(), to_resolve.scope.clone());
""","""            scopes.insert(mp_to_resolve, to_resolve.scope.clone());

            if self.use_cache {
                to_resolve.write_object_file()?;
            }
"""))
R("ml-resolve-if",(ML,"""            let Some(to_resolve) = loaded.get_mut(&mp_to_resolve) else {
                continue;
            };

            if !to_resolve.needs_eval {
                continue;
            }
""","""            let to_resolve = match loaded.get_mut(&mp_to_resolve) {
                Some(module) if module.needs_eval => module,
                _ => continue,
            };
"""))
R("ml-loop-while",(ML,"""        loop {
            module_loader.load(&module_loader.main_module)?;
            module_loader = module_loader.propagate_dirty_flag()?;
            if module_loader.is_dirty {
                were_any_deps_dirty = true;
                module_loader.reload_dirty_modules()?;
            } else {
                break;
            }
        }
""","""        loop {
            module_loader.load(&module_loader.main_module)?;
            module_loader = module_loader.propagate_dirty_flag()?;
            if !module_loader.is_dirty {
                break;
            }

            were_any_deps_dirty = true;
            module_loader.reload_dirty_modules()?;
        }
"""))
R("ap-args-fn",(AP,"""                    let mut args = vec![];
                    let mut expecting_arg = false;

                    // consume arguments (expressions) until we see a close paren.  an argument can
                    // be left empty (i.e., `IF(A1,,3)`)
                    loop {
                        match self.lexer.peek().token {
                            Token::CloseParen => {
                                if expecting_arg {
                                    args.push(Node::reference("").into());
                                }
                                self.lexer.next();
                                break;
                            }
                            Token::Comma => {
                                if expecting_arg || args.is_empty() {
                                    args.push(Node::reference("").into());
                                }
                                self.lexer.next();
                                expecting_arg = true;
                            }
                            _ => {
                                args.push(self.expr_bp(0)?);
                                expecting_arg = false;
                            }
                        }
                    }

                    Node""","""                    let args = self.parse_args()?;

                    Node"""),(AP,"""    /// The core pratt parser logic""","""    fn parse_args(&self) -> ParseResult<Vec<Ast>> {
        let mut args = vec![];
        let mut expecting_arg = false;

        loop {
            match self.lexer.peek().token {
                Token::CloseParen => {
                    self.lexer.next();
                    if expecting_arg {
                        args.push(Node::reference("").into());
                    }
                    return Ok(args);
                }
                Token::Comma => {
                    self.lexer.next();
                    if args.is_empty() || expecting_arg {
                        args.push(Node::reference("").into());
                    }
                    expecting_arg = true;
                }
                _ => {
                    args.push(self.expr_bp(0)?);
                    expecting_arg = false;
                }
            }
        }
    }

    /// The core pratt parser logic"""))
R("ap-args-empty-node",(AP,"""                    let mut args = vec![];
                    let mut expecting_arg = false;
""","""                    let mut args: Vec<Ast> = vec![];
                    let mut expecting_arg = false;
                    let empty_arg: Ast = Node::reference("").into();
"""),(AP,"""                                if expecting_arg {
                                    args.push(Node::reference("").into());""","""                                if expecting_arg {
                                    args.push(empty_arg.clone());"""))
R("ap-parse-let",(AP,"""        let t = lexer.next();
        match t.token {
            Token::Eof => Ok(ast),
            _ => Err(t.into_parse_error("Expected the end of the expression")),
        }
""","""        let t = lexer.next();
        if t.token != Token::Eof {
            return Err(t.into_parse_error("Expected the end of the expression"));
        }

        Ok(ast)
"""))
R("ap-kv-else",(AP,"""            if let Some((key, value)) = kv.split_once('=') {
""","""            let Some((key, value)) = kv.split_once('=') else {
                return Err(Error::InitError(format!(
                    "Invalid key/value variables: {kv}"
                )));
            };
            {
"""),(AP,"""            } else {
                return Err(Error::InitError(format!(
                    "Invalid key/value variables: {kv}"
                )));
            }
        }
""","""            }
        }
"""))
R("ev-while",(EV,"""        loop {
            let refs = evaled_ast.extract_references(scope);
            if refs.is_empty() || seen_refs.contains(&refs) {
                break;
            }
            seen_refs.push(refs.clone());
""","""        let mut refs = evaled_ast.extract_references(scope);
        while !refs.is_empty() && !seen_refs.contains(&refs) {
            seen_refs.push(refs.clone());
"""),(EV,"""                .eval_functions(refs.functions.into_iter(), scope)?;
        }
""","""                .eval_functions(refs.functions.into_iter(), scope)?;
            refs = evaled_ast.extract_references(scope);
        }
"""))
R("ev-fns-guard",(EV,"""            if let Some(fn_ast) = scope.functions.get(&fn_name) {
                evaled_ast = evaled_ast.call_function(&fn_name, fn_ast)?;
            } else {""","""            let fn_ast = scope.functions.get(&fn_name);
            if let Some(f) = fn_ast {
                evaled_ast = evaled_ast.call_function(&fn_name, f)?;
            } else {"""))
R("rf-both",(RF,"""                self.extract_dfs(left, scope);
                self.extract_dfs(right, scope);
""","""                for side in [left, right] {
                    self.extract_dfs(side, scope);
                }
"""))
R("rf-body",(RF,"""                let mut body_references = Self::default();
                body_references.extract_dfs(body, scope);
                body_references.variables.retain(|v| !args.contains(v));

                self.functions.extend(body_references.functions);
                self.variables.extend(body_references.variables);
""","""                let mut in_body = Self::default();
                in_body.extract_dfs(body, scope);

                self.functions.extend(in_body.functions);
                self.variables
                    .extend(in_body.variables.into_iter().filter(|v| !args.contains(v)));
"""))
R("di-fncall",(DI,"""                let args_to_string = args
                    .iter()
                    .map(std::string::ToString::to_string)
                    .collect::<Vec<_>>()
                    .join(", ");
                write!(f, "{name}({args_to_string})")
""","""                write!(f, "{name}(")?;
                for (i, arg) in args.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{arg}")?;
                }
                write!(f, ")")
"""))
R("ss-merge-entry",(SS,"""                if !self.functions.contains_key(e) {
                    self.functions.insert(e.clone(), f.clone());
                }
""","""                self.functions
                    .entry(e.clone())
                    .or_insert_with(|| f.clone());
"""))
R("sc-split",(SC,"""            let csv_lines = &lines[(p + 1)..];
            let code_lines = &lines[..p];
""","""            let (code_lines, rest) = lines.split_at(p);
            let csv_lines = &rest[1..];
"""))
R("sc-len",(SC,"length_of_code_section: code_lines.len() + 1,","length_of_code_section: p + 1,"))
R("co-eval-inline",(CO,"            main_module = self.eval(main_module)?;","            main_module = main_module\n                .eval_fills()?\n                .eval_spreadsheet(self.config.key_values.clone())?;"),(CO,"""    fn eval(&self, main: Module) -> Result<Module> {
        debug!("Evaluating main module");

        main.eval_fills()?
            .eval_spreadsheet(self.config.key_values.clone())
    }
""",""))
R("co-early-return",(CO,"""        } else {
            info!("Cached main is up to date, skipping compilation");
        }

        info!("Compiled main: {main_module}");

        Ok(main_module)""","""
            info!("Compiled main: {main_module}");
            return Ok(main_module);
        }

        info!("Cached main is up to date, skipping compilation");
        info!("Compiled main: {main_module}");

        Ok(main_module)"""))
R("xl-write-fn",(XL,"""                        let e = worksheet.get_cell_mut(position.to_string());

                        Self::set_value(e, &cell);

                        e.set_style(Self::build_style(&cell));

                        if let Some(n) = &cell.note {
                            Self::set_comment(worksheet, position, n);
                        }
""","""                        Self::write_cell(worksheet, position, &cell);
"""),(XL,"""    fn set_data_validations(""","""    fn write_cell(worksheet: &mut u::Worksheet, position: a1::Address, cell: &Cell) {
        let e = worksheet.get_cell_mut(position.to_string());
        Self::set_value(e, cell);
        e.set_style(Self::build_style(cell));

        if let Some(n) = &cell.note {
            Self::set_comment(worksheet, position, n);
        }
    }

    fn set_data_validations("""))
R("xl-extend",(XL,"""                        if let Some(data_validation) = cell.data_validation {
                            cell_validations.push(CellValidation(position, data_validation));
                        }
""","""                        cell_validations.extend(
                            cell.data_validation
                                .map(|data_validation| CellValidation(position, data_validation)),
                        );
"""))
R("tg-merge-tuple",(TG,"""    if let Some(new_val) = new {
        match existing {
            ExistingCell::Value(v) => {
                // both new and existing values
                if config.overwrite_values {
                    MergeResult::New(new_val.clone())
                } else {
                    MergeResult::Existing(v.clone())
                }
            }
            ExistingCell::Empty => MergeResult::New(new_val.clone()),
        }
    } else {
        // no new value - return existing or empty
        match existing {
            ExistingCell::Value(v) => MergeResult::Existing(v.clone()),
            ExistingCell::Empty => MergeResult::Empty,
        }
    }
""","""    match (new, existing) {
        (Some(_), ExistingCell::Value(v)) if !config.overwrite_values => {
            MergeResult::Existing(v.clone())
        }
        (Some(new_val), _) => MergeResult::New(new_val.clone()),
        (None, ExistingCell::Value(v)) => MergeResult::Existing(v.clone()),
        (None, ExistingCell::Empty) => MergeResult::Empty,
    }
"""))
R("csv-read-loop",(CSV,"""            cells.push(
                result
                    .or(Err(output.clone().into_error("Error reading CSV row")))?
                    .iter()
                    .map(|cell| {
                        if cell.is_empty() {
                            ExistingCell::Empty
                        } else {
                            ExistingCell::Value(cell.to_string())
                        }
                    })
                    .collect(),
            );
""","""            let record = result.or(Err(output.clone().into_error("Error reading CSV row")))?;
            let mut row = Vec::with_capacity(record.len());
            for cell in &record {
                row.push(if cell.is_empty() {
                    ExistingCell::Empty
                } else {
                    ExistingCell::Value(cell.to_string())
                });
            }
            cells.push(row);
"""))
R("ro-eval-map",(RO,"""            let ast = if let Some(a) = cell.ast {
                Some(
                    a.eval(scope, Some(cell_a1))
                        .map_err(|e| source_code.eval_error(e, Some(cell_a1)))?,
                )
            } else {
                None
            };
""","""            let ast = cell
                .ast
                .map(|a| a.eval(scope, Some(cell_a1)))
                .transpose()
                .map_err(|e| source_code.eval_error(e, Some(cell_a1)))?;
"""))
R("mo-fills",(MO,"""        Ok(Self {
            spreadsheet: self
                .spreadsheet
                .eval_fills()
                .map_err(|e| self.source_code.eval_error(e, None))?,
            ..self
        })
""","""        match self.spreadsheet.eval_fills() {
            Ok(spreadsheet) => Ok(Self {
                spreadsheet,
                ..self
            }),
            Err(e) => Err(self.source_code.eval_error(e, None)),
        }
"""))
R("cs-args-split",(CS,"""        let mut fn_args = vec![];
        loop {
            let next = self.lexer.next();
            match next.token {
                Token::CloseParen => break,
                Token::Comma => (),
                Token::Reference => {
                    fn_args.push(next.str_match.to_string());
                }
                _ => {
                    return Err(
                        next.into_error("Expected comma-separated function arguments or `)`")
                    )
                }
            }
        }

        let function""","""        let fn_args = self.parse_fn_args()?;

        let function"""),(CS,"""    fn parse_expr(&'a self)""","""    fn parse_fn_args(&self) -> Result<Vec<String>> {
        let mut fn_args = vec![];
        loop {
            let next = self.lexer.next();
            match next.token {
                Token::CloseParen => return Ok(fn_args),
                Token::Comma => continue,
                Token::Reference => fn_args.push(next.str_match.to_string()),
                _ => {
                    return Err(
                        next.into_error("Expected comma-separated function arguments or `)`")
                    )
                }
            }
        }
    }

    fn parse_expr(&'a self)"""))
R("al-advance",(AL,"""                        _ => line_offset += consumed.chars().count(),
""","""                        Some(_) | None => line_offset += consumed.chars().count(),
"""))
R("bu-requests",(BU,"""        all_rows
            .chunks(1000)
            .enumerate()
            .map(|(i, rows)| api::Request {
                update_cells: Some(self.update_cells_request(i * 1000, rows)),
                ..Default::default()
            })
            .collect()
""","""        let mut requests = vec![];
        for (i, rows) in all_rows.chunks(1000).enumerate() {
            requests.push(api::Request {
                update_cells: Some(self.update_cells_request(i * 1000, rows)),
                ..Default::default()
            });
        }
        requests
"""))
R("cv-message",(CV,"""custom_validation!(v, Custom, c, format!("Custom formula: {c}"))""","""custom_validation!(v, Custom, c, "Custom formula: ".to_string() + &c.to_string())"""))
