ML = "src/module_loader/mod.rs"
MO = "src/module/mod.rs"
SP = "src/spreadsheet/mod.rs"
RO = "src/row/mod.rs"
R("ml-load-filter", (ML, """            for module_path in &module.required_modules {
                if attempted.contains(module_path) {
                    // another module has already loaded it
                    continue;
                }

                attempted.insert(module_path.clone());
                to_attempt.insert(module_path.clone());
            }""", """            for module_path in &module.required_modules {
                if attempted.insert(module_path.clone()) {
                    to_attempt.insert(module_path.clone());
                }
            }"""))
R("ml-load-helper", (ML, """        let mut to_attempt = collections::HashSet::new();
        // hold a lock while we reserve all of the dependencies we're going to resolve (by
        // preemptively marking them in `attempted`)
        {
            let mut attempted = self.attempted.write()?;
            for module_path in &module.required_modules {
                if attempted.contains(module_path) {
                    // another module has already loaded it
                    continue;
                }

                attempted.insert(module_path.clone());
                to_attempt.insert(module_path.clone());
            }
        }
""", """        let to_attempt = self.reserve(module)?;
"""), (ML, """    fn load_module(&self, module_path""", """    fn reserve(&self, module: &Module) -> Result<collections::HashSet<ModulePath>> {
        let mut attempted = self.attempted.write()?;
        let mut to_attempt = collections::HashSet::new();
        for module_path in &module.required_modules {
            if !attempted.contains(module_path) {
                attempted.insert(module_path.clone());
                to_attempt.insert(module_path.clone());
            }
        }
        Ok(to_attempt)
    }

    fn load_module(&self, module_path"""))
R("ml-load-module", (ML, """        match load_result {
            Ok(loaded_module) => {
                // recursively load the newly loaded code section's dependencies (which are
                // transitive at this point)
                self.load(&loaded_module)?;
                self.loaded.write()?.insert(module_path, loaded_module);
            }
            Err(e) => {
                self.failed.write()?.insert(module_path, e);
            }
        }

        Ok(())""", """        let loaded_module = match load_result {
            Ok(m) => m,
            Err(e) => {
                self.failed.write()?.insert(module_path, e);
                return Ok(());
            }
        };
        self.load(&loaded_module)?;
        let mut loaded = self.loaded.write()?;
        loaded.insert(module_path, loaded_module);

        Ok(())"""))
R("ml-main-loop", (ML, """            module_loader = module_loader.propagate_dirty_flag()?;
            if module_loader.is_dirty {
                were_any_deps_dirty = true;
                module_loader.reload_dirty_modules()?;
            } else {
                break;
            }
        }""", """            module_loader = module_loader.propagate_dirty_flag()?;
            if !module_loader.is_dirty {
                break;
            }
            were_any_deps_dirty = true;
            module_loader.reload_dirty_modules()?;
        }"""))
R("ml-merge", (ML, """        if self.has_failures() {
            Err(Error::ModuleLoadErrors(
                sync::Arc::try_unwrap(self.failed)
                    .expect("Unable to access failed")
                    .into_inner()?,
            ))
        } else {
            let loaded = self.loaded.read()?;
            let mut main_module = self.main_module;

            for req_path in &main_module.required_modules {
                // it has been loaded, otherwise there would have been a failure
                main_module.scope.merge(&loaded[req_path].scope);
            }

            Ok(main_module)
        }""", """        if self.has_failures() {
            let failed = sync::Arc::try_unwrap(self.failed)
                .expect("Unable to access failed")
                .into_inner()?;
            return Err(Error::ModuleLoadErrors(failed));
        }

        let loaded = self.loaded.read()?;
        let mut main_module = self.main_module;

        for req_path in &main_module.required_modules {
            // it has been loaded, otherwise there would have been a failure
            main_module.scope.merge(&loaded[req_path].scope);
        }

        Ok(main_module)"""))
R("ml-graph-entry", (ML, """            let direct_dep_node = loaded_nodes
                .get(p)
                .copied()
                .unwrap_or_else(|| dep_graph.add_node(p.clone()));
            loaded_nodes.insert(p, direct_dep_node);
            dep_graph.add_edge(main_node, direct_dep_node, ());""", """            let direct_dep_node = *loaded_nodes
                .entry(p)
                .or_insert_with(|| dep_graph.add_node(p.clone()));
            dep_graph.add_edge(main_node, direct_dep_node, ());"""), (ML, """            let dep_node = loaded_nodes
                .get(p)
                .copied()
                .unwrap_or_else(|| dep_graph.add_node(p.clone()));
            loaded_nodes.insert(p, dep_node);
""", """            let dep_node = match loaded_nodes.get(p) {
                Some(n) => *n,
                None => dep_graph.add_node(p.clone()),
            };
            loaded_nodes.insert(p, dep_node);
"""))
R("ml-dirty", (ML, """                if module.needs_eval {
                    continue;
                }

                let mut required = visit::Dfs::new(&dep_graph, node);
                while let Some(required_node) = required.next(&dep_graph) {
                    if let Some(required_module) = loaded.get(&dep_graph[required_node]) {
                        if module.is_outdated_by(required_module)? {
                            dirty_nodes.insert(dep_graph[node].clone());
                        }
                    }
                }""", """                if !module.needs_eval {
                    let mut required = visit::Dfs::new(&dep_graph, node);
                    while let Some(required_node) = required.next(&dep_graph) {
                        let Some(required_module) = loaded.get(&dep_graph[required_node]) else {
                            continue;
                        };
                        if module.is_outdated_by(required_module)? {
                            dirty_nodes.insert(dep_graph[node].clone());
                            break;
                        }
                    }
                }"""))
R("ml-eval-filter", (ML, """        for mp_to_resolve in resolution_order {
            let Some(to_resolve) = loaded.get_mut(&mp_to_resolve) else {
                continue;
            };

            if !to_resolve.needs_eval {
                continue;
            }
""", """        for mp_to_resolve in resolution_order {
            let to_resolve = match loaded.get_mut(&mp_to_resolve) {
                Some(m) if m.needs_eval => m,
                _ => continue,
            };
"""))
R("ml-eval-scopes", (ML, """        let mut scopes = collections::HashMap::<ModulePath, Scope>::new();
        for (mp, m) in loaded.iter() {
            scopes.insert(mp.clone(), m.scope.clone());
        }
""", """        let mut scopes = loaded
            .iter()
            .map(|(mp, m)| (mp.clone(), m.scope.clone()))
            .collect::<collections::HashMap<ModulePath, Scope>>();
"""))
R("ml-eval-macro", (ML, """        for (name, ast) in definitions {
            $scope.$functions_or_variables.insert(
                name,
                ast.eval(&$eval_scope, None)
                    .map_err(|e| $source_code.eval_error(e, None))?,
            );
        }""", """        for (name, ast) in definitions {
            let evaluated = match ast.eval(&$eval_scope, None) {
                Ok(a) => a,
                Err(e) => return Err($source_code.eval_error(e, None).into()),
            };
            $scope.$functions_or_variables.insert(name, evaluated);
        }"""))
R("ml-reload", (ML, """            if module.is_dirty {
                *module = Module::load_from_source_from_filename(
                    module.module_path.clone(),
                    module.source_code.filename.clone(),
                )?;
            }""", """            if !module.is_dirty {
                continue;
            }
            let (path, filename) = (
                module.module_path.clone(),
                module.source_code.filename.clone(),
            );
            let reloaded = Module::load_from_source_from_filename(path, filename)?;
            *module = reloaded;"""))
R("ml-propagate", (ML, """        for mp in dirty_nodes {
            if let Some(n) = loaded.get_mut(&mp) {
                n.is_dirty = true;
            }
            if mp == main_module.module_path {
                main_module.is_dirty = true;
            }
        }
""", """        for mp in &dirty_nodes {
            if *mp == main_module.module_path {
                main_module.is_dirty = true;
            }
            if let Some(n) = loaded.get_mut(mp) {
                n.is_dirty = true;
            }
        }
"""))
R("mo-cmp", (MO, """        self.is_dirty = match this_version.cmp(&loaded_version) {
            cmp::Ordering::Equal | cmp::Ordering::Less => false,
            cmp::Ordering::Greater => true,
        };""", """        self.is_dirty = this_version > loaded_version;"""), (MO, """use std::{cmp, fs, path};""", """use std::{fs, path};"""))
R("mo-version-match", (MO, """        let Ok(loaded_version) = semver::Version::parse(&self.compiler_version) else {
            // whatever wrote it, it wasn't this version
            self.is_dirty = true;
            return Ok(());
        };

        // if the version is less than ours, don't use it and recompile instead.  otherwise we can
        // trust that it's ok to use
        self.is_dirty = match this_version.cmp(&loaded_version) {
            cmp::Ordering::Equal | cmp::Ordering::Less => false,
            cmp::Ordering::Greater => true,
        };""", """        self.is_dirty = match semver::Version::parse(&self.compiler_version) {
            Ok(loaded_version) => matches!(this_version.cmp(&loaded_version), cmp::Ordering::Greater),
            Err(_) => true,
        };"""))
R("mo-modified-helper", (MO, """    /// In the case that `self` was deserialized from""", """    fn modified_at(filename: &path::Path, what: &str) -> Result<std::time::SystemTime> {
        fs::metadata(filename)
            .and_then(|s| s.modified())
            .map_err(|e| Error::SourceCodeError {
                filename: filename.to_path_buf(),
                message: format!("Unable to stat {what}: {e}"),
            })
    }

    /// In the case that `self` was deserialized from"""), (MO, """        let obj_file_modified = fs::metadata(&object_code_filename)
            .and_then(|s| s.modified())
            .map_err(|e| Error::SourceCodeError {
                filename: object_code_filename,
                message: format!("Unable to stat object code: {e}"),
            })?;

        let source_file_modified = fs::metadata(&dependency.source_code.filename)
            .and_then(|s| s.modified())
            .map_err(|e| Error::SourceCodeError {
                filename: dependency.source_code.filename.clone(),
                message: format!("Unable to stat source code: {e}"),
            })?;

        Ok(source_file_modified > obj_file_modified)""", """        let obj_file_modified = Self::modified_at(&object_code_filename, "object code")?;
        let source_file_modified =
            Self::modified_at(&dependency.source_code.filename, "source code")?;

        Ok(obj_file_modified < source_file_modified)"""))
R("mo-object-match", (MO, """        let loaded_module = fs::read(&filename)
            .map_err(bincode::Error::from)
            .and_then(|object_code| bincode::deserialize::<Self>(&object_code));

        let Ok(loaded_module) = loaded_module else {""", """        let decode = |object_code: Vec<u8>| bincode::deserialize::<Self>(&object_code).ok();
        let Some(loaded_module) = fs::read(&filename).ok().and_then(decode) else {"""))
R("mo-object-filter", (MO, """        if loaded_module.source_code.filename != source_filename {
            return None;
        }

        Some(loaded_module)""", """        (loaded_module.source_code.filename == source_filename).then_some(loaded_module)"""))
R("mo-cache-main", (MO, """            if !loaded_module.is_dirty && !loaded_module.needs_eval {
                return Ok(loaded_module);
            }""", """            let usable = !(loaded_module.is_dirty || loaded_module.needs_eval);
            if usable {
                return Ok(loaded_module);
            }"""))
R("mo-cache-match", (MO, """        if let Some(mut loaded_module) =
            Self::load_from_object_code(module_path.clone(), relative_to, &loader_root)
        {
            loaded_module.check_if_is_dirty()?;

            // the object file of a main module has variables and functions which are not evaluated
            // on their own, and the object file of a dependency always has it's spreadsheet left
            // to be evaluated
            if !loaded_module.is_dirty && loaded_module.needs_eval {
                loaded_module.needs_eval = false;
                return Ok(loaded_module);
            }
        }
""", """        match Self::load_from_object_code(module_path.clone(), relative_to, &loader_root) {
            None => (),
            Some(mut cached) => {
                cached.check_if_is_dirty()?;
                if cached.needs_eval && !cached.is_dirty {
                    return Ok(Self {
                        needs_eval: false,
                        ..cached
                    });
                }
            }
        }
"""))
R("mo-source", (MO, """        let (scope, required_modules) = if let Some(scope_source) = &source_code.code_section {
            CodeSectionParser::parse(scope_source, source_code.clone())?
        } else {
            (Scope::default(), Vec::default())
        };
""", """        let (scope, required_modules) = match &source_code.code_section {
            None => (Scope::default(), vec![]),
            Some(scope_source) => CodeSectionParser::parse(scope_source, source_code.clone())?,
        };
"""))
R("mo-eval-rows", (MO, """        let rows = spreadsheet
            .rows
            .into_par_iter()
            .enumerate()
            .map(|(row_index, row)| row.eval(&self.source_code, &scope, row_index.into()))
            .collect::<Vec<_>>()
            // the first error, rather than the one which has been found first
            .into_iter()
            .collect::<Result<Vec<_>>>()?;
""", """        let evaluated = spreadsheet
            .rows
            .into_par_iter()
            .enumerate()
            .map(|(row_index, row)| row.eval(&self.source_code, &scope, row_index.into()))
            .collect::<Vec<_>>();
        let mut rows = Vec::with_capacity(evaluated.len());
        for row in evaluated {
            rows.push(row?);
        }
"""))
R("mo-eval-scope", (MO, """        let scope = self
            .scope
            .merge_variables(spreadsheet.variables())
            .merge_variables(external_vars);
""", """        let with_cells = self.scope.merge_variables(spreadsheet.variables());
        let scope = with_cells.merge_variables(external_vars);
"""))
R("mo-write", (MO, """        fs::write(&object_code_filename, encoded).map_err(|e| {
            error!("IO error: {e:?}");
            Error::SourceCodeError {
                filename: object_code_filename,
                message: format!("Error opening object code for writing: {e}"),
            }
        })?;

        Ok(())""", """        match fs::write(&object_code_filename, encoded) {
            Ok(()) => Ok(()),
            Err(e) => {
                error!("IO error: {e:?}");
                Err(Error::SourceCodeError {
                    filename: object_code_filename,
                    message: format!("Error opening object code for writing: {e}"),
                })
            }
        }"""))
R("sp-fill-let", (SP, """            if let Some(f) = row.fill {
                let fill_amount = f.amount.unwrap_or(rows_left_over);
                // an infinite fill does not cover the rows that come after it
                let new_fill = Fill {
                    amount: Some(fill_amount),
                    ..f.clone_to_row(row_num)
                };

                for _ in 0..fill_amount {
                    rows.push(Row {
                        fill: Some(new_fill),
                        ..row.clone()
                    });
                    row_num += 1;
                }
            } else {
                rows.push(row);
                row_num += 1;
            }""", """            let Some(f) = row.fill else {
                rows.push(row);
                row_num += 1;
                continue;
            };
            let fill_amount = match f.amount {
                Some(n) => n,
                None => rows_left_over,
            };
            // an infinite fill does not cover the rows that come after it
            let new_fill = Fill {
                amount: Some(fill_amount),
                ..f.clone_to_row(row_num)
            };
            let filled = Row {
                fill: Some(new_fill),
                ..row
            };
            for _ in 0..fill_amount {
                rows.push(filled.clone());
            }
            row_num += fill_amount;"""))
R("sp-fill-repeat", (SP, """                for _ in 0..fill_amount {
                    rows.push(Row {
                        fill: Some(new_fill),
                        ..row.clone()
                    });
                    row_num += 1;
                }
            } else {""", """                rows.extend((0..fill_amount).map(|_| Row {
                    fill: Some(new_fill),
                    ..row.clone()
                }));
                row_num += fill_amount;
            } else {"""))
R("sp-fill-len", (SP, """        let mut row_num = 0;
        let rows_left""", """        let rows_left"""), (SP, """..f.clone_to_row(row_num)""", """..f.clone_to_row(rows.len())"""), (SP, """                    });
                    row_num += 1;
                }""", """                    });
                }"""), (SP, """                rows.push(row);
                row_num += 1;""", """                rows.push(row);"""))
R("sp-parse-collect", (SP, """        let mut rows: Vec<Row> = vec![];
        for (row_index, row) in records.into_iter().enumerate() {
            trace!("Parsing row {row_index}");
            rows.push(Row::parse(&row, source_code)?);
        }
""", """        let rows = records
            .into_iter()
            .enumerate()
            .map(|(row_index, row)| {
                trace!("Parsing row {row_index}");
                Row::parse(&row, source_code)
            })
            .collect::<Result<Vec<Row>>>()?;
"""))
R("sp-vars", (SP, """                    let reference = if let Some(fill) = row.fill {
                        Node::Variable {
                            name: var_id.clone(),
                            value: VariableValue::ColumnRelative {
                                fill,
                                column: cell_a1.column,
                            },
                        }
                    } else {
                        Node::Variable {
                            name: var_id.clone(),
                            value: VariableValue::Absolute(cell_a1),
                        }
                    };

                    vars.insert(var_id.to_owned(), Ast::new(reference));""", """                    let value = match row.fill {
                        Some(fill) => VariableValue::ColumnRelative {
                            fill,
                            column: cell_a1.column,
                        },
                        None => VariableValue::Absolute(cell_a1),
                    };

                    vars.insert(
                        var_id.clone(),
                        Ast::new(Node::Variable {
                            name: var_id.clone(),
                            value,
                        }),
                    );"""))
R("sp-widest", (SP, """        self.rows
            .iter()
            .map(|row| row.cells.len())
            .max()
            .unwrap_or(0)""", """        let mut widest = 0;
        for row in &self.rows {
            widest = widest.max(row.cells.len());
        }
        widest"""))
R("sp-infinite", (SP, """        let mut saw_infinite = false;
        for row in &self.rows {
            if let Some(fill) = row.fill {
                if fill.amount.is_none() {
                    if saw_infinite {
                        return true;
                    }
                    saw_infinite = true;
                }
            }
        }

        false""", """        self.rows
            .iter()
            .filter_map(|row| row.fill)
            .filter(|fill| fill.amount.is_none())
            .count()
            > 1"""))
R("sp-leftover", (SP, """        let total_rows_minus_infinite = self.rows.iter().fold(0, |acc, row| {
            acc + row.fill.map_or(1, |f| f.amount.unwrap_or(0))
        });
""", """        let total_rows_minus_infinite = self
            .rows
            .iter()
            .map(|row| match row.fill {
                Some(f) => f.amount.unwrap_or(0),
                None => 1,
            })
            .sum::<usize>();
"""))
R("ro-eval-match", (RO, """            let ast = if let Some(a) = cell.ast {
                Some(
                    a.eval(scope, Some(cell_a1))
                        .map_err(|e| source_code.eval_error(e, Some(cell_a1)))?,
                )
            } else {
                None
            };
            cells.push(Cell { ast, ..cell });""", """            let ast = match cell.ast {
                None => None,
                Some(a) => match a.eval(scope, Some(cell_a1)) {
                    Ok(evaluated) => Some(evaluated),
                    Err(e) => return Err(source_code.eval_error(e, Some(cell_a1)).into()),
                },
            };
            cells.push(Cell { ast, ..cell });"""))
R("ro-eval-map", (RO, """        let mut cells = Vec::with_capacity(self.cells.len());
        for (cell_index, cell) in self.cells.into_iter().enumerate() {
            let cell_a1 = a1::Address::new(cell_index, row_a1.y);
            let ast = if let Some(a) = cell.ast {
                Some(
                    a.eval(scope, Some(cell_a1))
                        .map_err(|e| source_code.eval_error(e, Some(cell_a1)))?,
                )
            } else {
                None
            };
            cells.push(Cell { ast, ..cell });
        }
""", """        let cells = self
            .cells
            .into_iter()
            .enumerate()
            .map(|(cell_index, cell)| {
                let cell_a1 = a1::Address::new(cell_index, row_a1.y);
                let ast = cell
                    .ast
                    .map(|a| a.eval(scope, Some(cell_a1)))
                    .transpose()
                    .map_err(|e| source_code.eval_error(e, Some(cell_a1)))?;
                Ok(Cell { ast, ..cell })
            })
            .collect::<Result<Vec<_>>>()?;
"""))
R("ro-parse-loop", (RO, """        let mut row = Self::default();
        Ok(Self {
            cells: record_result
                .iter()
                .map(|field| Cell::parse(field, &mut row, source_code))
                .collect::<Result<Vec<_>>>()?,
            ..row
        })""", """        let mut row = Self::default();
        let mut cells = Vec::with_capacity(record_result.len());
        for field in record_result {
            cells.push(Cell::parse(field, &mut row, source_code)?);
        }
        row.cells = cells;
        Ok(row)"""))
