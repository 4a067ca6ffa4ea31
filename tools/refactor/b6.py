# second round on the evaluation, the loader, the parsers and the lexers
EV = "src/ast/eval.rs"
R("ev-while", (EV, """        loop {
            let refs = evaled_ast.extract_references(scope);
            if refs.is_empty() || seen_refs.contains(&refs) {
                break;
            }
            seen_refs.push(refs.clone());

            evaled_ast = evaled_ast
                .eval_variables(&Self::resolve_variables(
                    scope,
                    refs.variables.into_iter(),
                    position,
                ))
                .eval_functions(refs.functions.into_iter(), scope)?;
        }

        Ok(evaled_ast)""", """        let mut refs = evaled_ast.extract_references(scope);
        while !refs.is_empty() && !seen_refs.contains(&refs) {
            seen_refs.push(refs.clone());

            let resolved = Self::resolve_variables(scope, refs.variables.into_iter(), position);
            evaled_ast = evaled_ast
                .eval_variables(&resolved)
                .eval_functions(refs.functions.into_iter(), scope)?;
            refs = evaled_ast.extract_references(scope);
        }

        Ok(evaled_ast)"""))
R("ev-resolve-filter", (EV, """        let mut resolved_vars: Variables = collections::HashMap::default();
        for var_name in var_names {
            if let Some(value) = scope.variables.get(&var_name) {
                let value_from_var = match &**value {
                    Node::Variable { value, .. } => value.clone().into_ast(position),
                    n => n.clone().into(),
                };

                resolved_vars.insert(var_name.to_string(), value_from_var);
            }
        }

        resolved_vars""", """        var_names
            .filter_map(|var_name| {
                let value = scope.variables.get(&var_name)?;
                let resolved = if let Node::Variable { value, .. } = &**value {
                    value.clone().into_ast(position)
                } else {
                    value.clone()
                };
                Some((var_name, resolved))
            })
            .collect()"""))
R("ev-fold", (EV, """        let mut evaled_ast = self;
        for fn_name in fns_to_resolve {
            if let Some(fn_ast) = scope.functions.get(&fn_name) {
                evaled_ast = evaled_ast.call_function(&fn_name, fn_ast)?;
            } else {""", """        let mut evaled_ast = self;
        for fn_name in fns_to_resolve {
            let fn_ast = scope.functions.get(&fn_name);
            if fn_ast.is_some() {
                evaled_ast = evaled_ast.call_function(&fn_name, fn_ast.unwrap())?;
            } else {"""))
R("ev-arity-helper", (EV, """                        if args.len() != resolved_args.len() {
                            return Err(EvalError::new(
                                fn_ast.to_string(),
                                format!(
                                    "Expected {} arguments but received {}",
                                    resolved_args.len(),
                                    args.len()
                                ),
                            ));
                        }
""", """                        Self::check_arity(fn_ast, resolved_args.len(), args.len())?;
"""), (EV, """    /// Use the mapping in `variable_values`""", """    fn check_arity(function: &Self, expected: usize, received: usize) -> EvalResult<()> {
        if expected == received {
            Ok(())
        } else {
            Err(EvalError::new(
                function.to_string(),
                format!("Expected {expected} arguments but received {received}"),
            ))
        }
    }

    /// Use the mapping in `variable_values`"""))
R("ev-args-collect", (EV, """                let mut called_args = Vec::with_capacity(args.len());
                for arg in args {
                    called_args.push(arg.call_function(fn_id, fn_ast)?);
                }

                Node::FunctionCall {
                    name,
                    args: called_args,
                }
                .into()""", """                let args = args
                    .into_iter()
                    .map(|arg| arg.call_function(fn_id, fn_ast))
                    .collect::<EvalResult<Vec<_>>>()?;

                Node::FunctionCall { name, args }.into()"""))
R("ev-shadow-filter", (EV, """                let mut unshadowed = replacements.clone();
                unshadowed.retain(|var_id, _| !args.contains(var_id));
""", """                let unshadowed = replacements
                    .iter()
                    .filter(|(var_id, _)| !args.contains(var_id))
                    .map(|(var_id, value)| (var_id.clone(), value.clone()))
                    .collect::<Variables>();
"""))
R("ev-reference-or", (EV, """            Node::Reference(r) => match replacements.get(&r) {
                Some(replacement) => replacement.clone().into_inner(),
                None => Node::Reference(r),
            },""", """            Node::Reference(r) => replacements
                .get(&r)
                .map_or(Node::Reference(r), |replacement| replacement.clone().into_inner()),"""))
VV = "src/ast/variable_value.rs"
R("vv-helper", (VV, """                    let fill_a1: a1::A1 = fill.into();

                    if fill_a1.contains(&position.into()) {
                        Ast::new(position.with_x(column.x))
                    } else {
                        let row_range: a1::A1 = fill.into();
                        Ast::new(row_range.with_x(column.x))
                    }""", """                    let fill_a1: a1::A1 = fill.into();
                    let inside = fill_a1.contains(&position.into());

                    match inside {
                        true => Ast::new(position.with_x(column.x)),
                        false => Ast::new(fill_a1.with_x(column.x)),
                    }"""))
R("vv-relative-fn", (VV, """                    let fill_a1: a1::A1 = fill.into();

                    if fill_a1.contains(&position.into()) {
                        // we're within the scope (fill) so it's the row we're on
                        let row_a1: a1::A1 = position.row.into();
                        Ast::new(row_a1)
                    } else {
                        // we're outside the scope (fill), so it represents the entire
                        // range contained by it (the scope)
                        let row_range: a1::A1 = fill.into();
                        Ast::new(row_range)
                    }""", """                    let all_rows: a1::A1 = fill.into();
                    let reference = if all_rows.contains(&position.into()) {
                        position.row.into()
                    } else {
                        all_rows
                    };
                    Ast::new(reference)"""))
SP = "src/spreadsheet/mod.rs"
R("sp-fill-extend", (SP, """                for _ in 0..fill_amount {
                    rows.push(Row {
                        fill: Some(new_fill),
                        ..row.clone()
                    });
                    row_num += 1;
                }""", """                let filled = Row {
                    fill: Some(new_fill),
                    ..row
                };
                rows.extend(std::iter::repeat(filled).take(fill_amount));
                row_num += fill_amount;"""))
R("sp-fill-len", (SP, """                    ..f.clone_to_row(row_num)""", """                    ..f.clone_to_row(rows.len())"""), (SP, """                    });
                    row_num += 1;
                }""", """                    });
                }"""), (SP, """                rows.push(row);
                row_num += 1;""", """                rows.push(row);"""), (SP, """        let mut row_num = 0;
""", ""))
R("sp-multi-count", (SP, """        let mut saw_infinite = false;
        for row in &self.rows {
            if let Some(fill) = row.fill {
                if fill.amount.is_none() {
                    if saw_infinite {
                        return true;
                    }
                    saw_infinite = true;
                }
            }
        }

        false""", """        self.rows
            .iter()
            .filter_map(|row| row.fill)
            .filter(|fill| fill.amount.is_none())
            .count()
            > 1"""))
R("sp-parse-collect", (SP, """        let mut rows: Vec<Row> = vec![];
        for (row_index, row) in records.into_iter().enumerate() {
            trace!("Parsing row {row_index}");
            rows.push(Row::parse(&row, source_code)?);
        }
""", """        let rows = records
            .iter()
            .enumerate()
            .map(|(row_index, row)| {
                trace!("Parsing row {row_index}");
                Row::parse(row, source_code)
            })
            .collect::<Result<Vec<_>>>()?;
"""))
R("sp-left-sum", (SP, """        let total_rows_minus_infinite = self.rows.iter().fold(0, |acc, row| {
            acc + row.fill.map_or(1, |f| f.amount.unwrap_or(0))
        });
""", """        let total_rows_minus_infinite: usize = self
            .rows
            .iter()
            .map(|row| match row.fill {
                Some(f) => f.amount.unwrap_or(0),
                None => 1,
            })
            .sum();
"""))
R("sp-vars-match", (SP, """                    let reference = if let Some(fill) = row.fill {
                        Node::Variable {
                            name: var_id.clone(),
                            value: VariableValue::ColumnRelative {
                                fill,
                                column: cell_a1.column,
                            },
                        }
                    } else {
                        Node::Variable {
                            name: var_id.clone(),
                            value: VariableValue::Absolute(cell_a1),
                        }
                    };

                    vars.insert(var_id.to_owned(), Ast::new(reference));""", """                    let value = match row.fill {
                        Some(fill) => VariableValue::ColumnRelative {
                            fill,
                            column: cell_a1.column,
                        },
                        None => VariableValue::Absolute(cell_a1),
                    };

                    vars.insert(var_id.clone(), Ast::new(Node::var(var_id, value)));"""))
ML = "src/module_loader/mod.rs"
R("ml-merge-let", (ML, """        if self.has_failures() {
            Err(Error::ModuleLoadErrors(
                sync::Arc::try_unwrap(self.failed)
                    .expect("Unable to access failed")
                    .into_inner()?,
            ))
        } else {
            let loaded = self.loaded.read()?;
            let mut main_module = self.main_module;

            for req_path in &main_module.required_modules {
                // it has been loaded, otherwise there would have been a failure
                main_module.scope.merge(&loaded[req_path].scope);
            }

            Ok(main_module)
        }""", """        if self.has_failures() {
            let failed = sync::Arc::try_unwrap(self.failed)
                .expect("Unable to access failed")
                .into_inner()?;
            return Err(Error::ModuleLoadErrors(failed));
        }

        let loaded = self.loaded.read()?;
        let mut main_module = self.main_module;
        main_module
            .required_modules
            .iter()
            .for_each(|req_path| main_module.scope.merge(&loaded[req_path].scope));

        Ok(main_module)"""))
R("ml-load-filter", (ML, """            for module_path in &module.required_modules {
                if attempted.contains(module_path) {
                    // another module has already loaded it
                    continue;
                }

                attempted.insert(module_path.clone());
                to_attempt.insert(module_path.clone());
            }""", """            for module_path in &module.required_modules {
                if attempted.insert(module_path.clone()) {
                    to_attempt.insert(module_path.clone());
                }
            }"""))
R("ml-load-extend", (ML, """            for module_path in &module.required_modules {
                if attempted.contains(module_path) {
                    // another module has already loaded it
                    continue;
                }

                attempted.insert(module_path.clone());
                to_attempt.insert(module_path.clone());
            }""", """            to_attempt.extend(
                module
                    .required_modules
                    .iter()
                    .filter(|module_path| !attempted.contains(*module_path))
                    .cloned(),
            );
            attempted.extend(to_attempt.iter().cloned());"""))
R("ml-module-if", (ML, """        match load_result {
            Ok(loaded_module) => {
                // recursively load the newly loaded code section's dependencies (which are
                // transitive at this point)
                self.load(&loaded_module)?;
                self.loaded.write()?.insert(module_path, loaded_module);
            }
            Err(e) => {
                self.failed.write()?.insert(module_path, e);
            }
        }

        Ok(())""", """        let loaded_module = match load_result {
            Ok(loaded_module) => loaded_module,
            Err(e) => {
                self.failed.write()?.insert(module_path, e);
                return Ok(());
            }
        };

        self.load(&loaded_module)?;
        let mut loaded = self.loaded.write()?;
        loaded.insert(module_path, loaded_module);

        Ok(())"""))
R("ml-node-helper", (ML, """            let direct_dep_node = loaded_nodes
                .get(p)
                .copied()
                .unwrap_or_else(|| dep_graph.add_node(p.clone()));
            loaded_nodes.insert(p, direct_dep_node);""", """            let direct_dep_node = *loaded_nodes
                .entry(p)
                .or_insert_with(|| dep_graph.add_node(p.clone()));"""))
R("ml-reserve-fn", (ML, """        let mut to_attempt = collections::HashSet::new();
        // hold a lock while we reserve all of the dependencies we're going to resolve (by
        // preemptively marking them in `attempted`)
        {
            let mut attempted = self.attempted.write()?;
            for module_path in &module.required_modules {
                if attempted.contains(module_path) {
                    // another module has already loaded it
                    continue;
                }

                attempted.insert(module_path.clone());
                to_attempt.insert(module_path.clone());
            }
        }
""", """        let to_attempt = self.reserve(module)?;
"""), (ML, """    fn load_module(&self""", """    fn reserve(&self, module: &Module) -> Result<collections::HashSet<ModulePath>> {
        let mut reserved = collections::HashSet::new();
        let mut attempted = self.attempted.write()?;
        for module_path in &module.required_modules {
            if !attempted.contains(module_path) {
                attempted.insert(module_path.clone());
                reserved.insert(module_path.clone());
            }
        }
        Ok(reserved)
    }

    fn load_module(&self"""))
MO = "src/module/mod.rs"
R("mo-read-match", (MO, """        let loaded_module = fs::read(&filename)
            .map_err(bincode::Error::from)
            .and_then(|object_code| bincode::deserialize::<Self>(&object_code));

        let Ok(loaded_module) = loaded_module else {""", """        let object_code = fs::read(&filename);
        let loaded_module = match &object_code {
            Ok(bytes) => bincode::deserialize::<Self>(bytes).ok(),
            Err(_) => None,
        };

        let Some(loaded_module) = loaded_module else {"""))
R("mo-filter", (MO, """        if loaded_module.source_code.filename != source_filename {
            return None;
        }

        Some(loaded_module)""", """        Some(loaded_module).filter(|m| m.source_code.filename == source_filename)"""))
R("mo-dirty-if", (MO, """        self.is_dirty = match this_version.cmp(&loaded_version) {
            cmp::Ordering::Equal | cmp::Ordering::Less => false,
            cmp::Ordering::Greater => true,
        };""", """        self.is_dirty = this_version.cmp(&loaded_version) == cmp::Ordering::Greater;"""))
R("mo-modified-helper", (MO, """        let object_code_filename = self.source_code.object_code_filename();

        let obj_file_modified = fs::metadata(&object_code_filename)
            .and_then(|s| s.modified())
            .map_err(|e| Error::SourceCodeError {
                filename: object_code_filename,
                message: format!("Unable to stat object code: {e}"),
            })?;

        let source_file_modified = fs::metadata(&dependency.source_code.filename)
            .and_then(|s| s.modified())
            .map_err(|e| Error::SourceCodeError {
                filename: dependency.source_code.filename.clone(),
                message: format!("Unable to stat source code: {e}"),
            })?;

        Ok(source_file_modified > obj_file_modified)
    }
""", """        let obj_file_modified =
            Self::modified(&self.source_code.object_code_filename(), "object code")?;
        let source_file_modified = Self::modified(&dependency.source_code.filename, "source code")?;

        Ok(obj_file_modified < source_file_modified)
    }

    fn modified(filename: &path::Path, what: &str) -> Result<std::time::SystemTime> {
        match fs::metadata(filename).and_then(|s| s.modified()) {
            Ok(modified) => Ok(modified),
            Err(e) => Err(Error::SourceCodeError {
                filename: filename.to_path_buf(),
                message: format!("Unable to stat {what}: {e}"),
            }),
        }
    }
"""))
R("mo-scope-match", (MO, """        let (scope, required_modules) = if let Some(scope_source) = &source_code.code_section {
            CodeSectionParser::parse(scope_source, source_code.clone())?
        } else {
            (Scope::default(), Vec::default())
        };
""", """        let (scope, required_modules) = match &source_code.code_section {
            None => Default::default(),
            Some(scope_source) => CodeSectionParser::parse(scope_source, source_code.clone())?,
        };
"""))
RO = "src/row/mod.rs"
R("ro-eval-map", (RO, """            let ast = if let Some(a) = cell.ast {
                Some(
                    a.eval(scope, Some(cell_a1))
                        .map_err(|e| source_code.eval_error(e, Some(cell_a1)))?,
                )
            } else {
                None
            };
            cells.push(Cell { ast, ..cell });""", """            let ast = cell
                .ast
                .map(|a| {
                    a.eval(scope, Some(cell_a1))
                        .map_err(|e| source_code.eval_error(e, Some(cell_a1)))
                })
                .transpose()?;
            cells.push(Cell { ast, ..cell });"""))
R("ro-parse-for", (RO, """        let mut row = Self::default();
        Ok(Self {
            cells: record_result
                .iter()
                .map(|field| Cell::parse(field, &mut row, source_code))
                .collect::<Result<Vec<_>>>()?,
            ..row
        })""", """        let mut row = Self::default();
        let mut cells = Vec::with_capacity(record_result.len());
        for field in record_result {
            cells.push(Cell::parse(field, &mut row, source_code)?);
        }

        row.cells = cells;
        Ok(row)"""))
SC = "src/scope/mod.rs"
R("sc-merge-entry", (SC, """            if let Some(f) = other.functions.get(e) {
                if !self.functions.contains_key(e) {
                    self.functions.insert(e.clone(), f.clone());
                }
            }""", """            if let Some(f) = other.functions.get(e) {
                self.functions.entry(e.clone()).or_insert_with(|| f.clone());
            }"""))
R("sc-merge-helper", (SC, """        for e in &other.exports {
            if let Some(f) = other.functions.get(e) {
                if !self.functions.contains_key(e) {
                    self.functions.insert(e.clone(), f.clone());
                }
            }
            if let Some(v) = other.variables.get(e) {
                if !self.variables.contains_key(e) {
                    self.variables.insert(e.clone(), v.clone());
                }
            }
        }
    }""", """        for e in &other.exports {
            Self::copy_missing(&mut self.functions, &other.functions, e);
            Self::copy_missing(&mut self.variables, &other.variables, e);
        }
    }

    fn copy_missing(
        to: &mut std::collections::HashMap<String, Ast>,
        from: &std::collections::HashMap<String, Ast>,
        name: &str,
    ) {
        if to.contains_key(name) {
            return;
        }
        if let Some(ast) = from.get(name) {
            to.insert(name.to_string(), ast.clone());
        }
    }"""))
