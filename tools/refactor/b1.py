EV = "src/ast/eval.rs"
R("ev-while", (EV, """        loop {
            let refs = evaled_ast.extract_references(scope);
            if refs.is_empty() || seen_refs.contains(&refs) {
                break;
            }
            seen_refs.push(refs.clone());

            evaled_ast = evaled_ast
                .eval_variables(&Self::resolve_variables(
                    scope,
                    refs.variables.into_iter(),
                    position,
                ))
                .eval_functions(refs.functions.into_iter(), scope)?;
        }

        Ok(evaled_ast)""", """        let mut refs = evaled_ast.extract_references(scope);
        while !refs.is_empty() && !seen_refs.contains(&refs) {
            seen_refs.push(refs.clone());
            let resolved = Self::resolve_variables(scope, refs.variables.into_iter(), position);
            evaled_ast = evaled_ast.eval_variables(&resolved);
            evaled_ast = evaled_ast.eval_functions(refs.functions.into_iter(), scope)?;
            refs = evaled_ast.extract_references(scope);
        }

        Ok(evaled_ast)"""))
R("ev-return", (EV, """            if refs.is_empty() || seen_refs.contains(&refs) {
                break;
            }
            seen_refs""", """            if refs.is_empty() {
                return Ok(evaled_ast);
            }
            let seen_before = seen_refs.iter().any(|seen| *seen == refs);
            if seen_before {
                return Ok(evaled_ast);
            }
            seen_refs"""), (EV, """                .eval_functions(refs.functions.into_iter(), scope)?;
        }

        Ok(evaled_ast)""", """                .eval_functions(refs.functions.into_iter(), scope)?;
        }"""))
R("ev-resolve-collect", (EV, """        let mut resolved_vars: Variables = collections::HashMap::default();
        for var_name in var_names {
            if let Some(value) = scope.variables.get(&var_name) {
                let value_from_var = match &**value {
                    Node::Variable { value, .. } => value.clone().into_ast(position),
                    n => n.clone().into(),
                };

                resolved_vars.insert(var_name.to_string(), value_from_var);
            }
        }

        resolved_vars""", """        var_names
            .filter_map(|var_name| {
                let value = scope.variables.get(&var_name)?;
                let value_from_var = match &**value {
                    Node::Variable { value, .. } => value.clone().into_ast(position),
                    n => n.clone().into(),
                };
                Some((var_name, value_from_var))
            })
            .collect()"""), (EV, "use std::collections;", "use std::collections;"))
R("ev-functions-fold", (EV, """        let mut evaled_ast = self;
        for fn_name in fns_to_resolve {
            if let Some(fn_ast) = scope.functions.get(&fn_name) {
                evaled_ast = evaled_ast.call_function(&fn_name, fn_ast)?;
            } else {
                // TODO: log a warning that we tried to resolve an unknown function
                // this is one of those things that should never happen (since `fns_to_resolve`
                // is only comprised of functions we know about)
            }
        }

        Ok(evaled_ast)""", """        fns_to_resolve.into_iter().try_fold(self, |ast, fn_name| {
            match scope.functions.get(&fn_name) {
                Some(fn_ast) => ast.call_function(&fn_name, fn_ast),
                None => Ok(ast),
            }
        })"""))
R("ev-args-collect", (EV, """                let mut called_args = Vec::with_capacity(args.len());
                for arg in args {
                    called_args.push(arg.call_function(fn_id, fn_ast)?);
                }

                Node::FunctionCall {
                    name,
                    args: called_args,
                }
                .into()""", """                let args = args
                    .into_iter()
                    .map(|arg| arg.call_function(fn_id, fn_ast))
                    .collect::<EvalResult<Vec<_>>>()?;

                Node::FunctionCall { name, args }.into()"""))
R("ev-arity-helper", (EV, """                        if args.len() != resolved_args.len() {
                            return Err(EvalError::new(
                                fn_ast.to_string(),
                                format!(
                                    "Expected {} arguments but received {}",
                                    resolved_args.len(),
                                    args.len()
                                ),
                            ));
                        }
""", """                        Self::check_arity(fn_ast, resolved_args.len(), args.len())?;
"""), (EV, """    /// Depth-first-search replacing each""", """    fn check_arity(fn_ast: &Self, expected: usize, received: usize) -> EvalResult<()> {
        if expected == received {
            Ok(())
        } else {
            Err(EvalError::new(
                fn_ast.to_string(),
                format!("Expected {expected} arguments but received {received}"),
            ))
        }
    }

    /// Depth-first-search replacing each"""))
R("ev-argvalues-collect", (EV, """                        let mut arg_values = Variables::with_capacity(args.len());
                        for (resolved_arg, arg) in resolved_args.into_iter().zip(args) {
                            // the argument itself might contain calls to the same function
                            arg_values.insert(resolved_arg, arg.call_function(fn_id, fn_ast)?);
                        }

                        body.replace_variables(&arg_values)""", """                        let arg_values = resolved_args
                            .into_iter()
                            .zip(args)
                            .map(|(name, arg)| Ok((name, arg.call_function(fn_id, fn_ast)?)))
                            .collect::<EvalResult<Variables>>()?;

                        body.replace_variables(&arg_values)"""))
R("ev-replace-helper", (EV, """            Node::Function { args, body, name } => {
                // the arguments of the function shadow any variables with the same name
                let mut unshadowed = replacements.clone();
                unshadowed.retain(|var_id, _| !args.contains(var_id));

                Node::Function {""", """            Node::Function { args, body, name } => {
                // the arguments of the function shadow any variables with the same name
                let unshadowed: Variables = replacements
                    .iter()
                    .filter(|(var_id, _)| !args.contains(var_id))
                    .map(|(var_id, value)| (var_id.clone(), value.clone()))
                    .collect();

                Node::Function {"""))
R("ev-replace-map", (EV, """            Node::Reference(r) => match replacements.get(&r) {
                Some(replacement) => replacement.clone().into_inner(),
                None => Node::Reference(r),
            },""", """            Node::Reference(r) => {
                if let Some(replacement) = replacements.get(&r) {
                    (**replacement).clone()
                } else {
                    Node::Reference(r)
                }
            }"""))
R("ev-inline-evalvars", (EV, """    /// Use the mapping in `variable_values` to replace each variable referenced in the AST with
    /// it's given replacement.
    fn eval_variables(&self, variable_values: &Variables) -> Self {
        self.replace_variables(variable_values)
    }

""", ""), (EV, ".eval_variables(&Self::resolve", ".replace_variables(&Self::resolve"))
R("ev-matchboth", (EV, """                Node::InfixFunctionCall {
                left,
                operator,
                right,
            } => Node::InfixFunctionCall {
                left: left.call_function(fn_id, fn_ast)?,
                operator,
                right: right.call_function(fn_id, fn_ast)?,
            }
            .into(),""".replace("                Node::Infix","            Node::Infix",1), """            Node::InfixFunctionCall {
                left,
                operator,
                right,
            } => {
                let left = left.call_function(fn_id, fn_ast)?;
                let right = right.call_function(fn_id, fn_ast)?;
                Ast::new(Node::InfixFunctionCall {
                    left,
                    operator,
                    right,
                })
            }"""))
CO = "src/compiler/mod.rs"
R("co-cache-helper", (CO, """        let main_module = if use_object_file {
            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?
        } else {
            Module::load_from_source_from_filename(main_module_path, self.input_filename.clone())?
        };
""", """        let main_module = self.load_module(main_module_path, use_object_file)?;
"""), (CO, """    fn eval(&self, main: Module) -> Result<Module> {""", """    fn load_module(&self, module_path: ModulePath, use_object_file: bool) -> Result<Module> {
        let filename = self.input_filename.clone();
        if !use_object_file {
            return Module::load_from_source_from_filename(module_path, filename);
        }
        Module::load_from_cache_from_filename(module_path, filename)
    }

    fn eval(&self, main: Module) -> Result<Module> {"""))
R("co-early", (CO, """        if main_module.needs_eval {
            info!("Compiling main module");
            main_module = self.eval(main_module)?;
            main_module.needs_eval = false;

            if use_object_file {
                debug!(
                    "Writing object file {:?}",
                    main_module.source_code.object_code_filename()
                );
                main_module.write_object_file()?;
            }
        } else {
            info!("Cached main is up to date, skipping compilation");
        }

        info!("Compiled main: {main_module}");

        Ok(main_module)""", """        if !main_module.needs_eval {
            info!("Cached main is up to date, skipping compilation");
            return Ok(main_module);
        }

        info!("Compiling main module");
        main_module = self.eval(main_module)?;
        main_module.needs_eval = false;

        if use_object_file {
            main_module.write_object_file()?;
        }

        info!("Compiled main: {main_module}");

        Ok(main_module)"""))
R("co-eval-vars", (CO, """        main.eval_fills()?
            .eval_spreadsheet(self.config.key_values.clone())""", """        let filled = main.eval_fills()?;
        let key_values = self.config.key_values.clone();
        filled.eval_spreadsheet(key_values)"""))
R("co-use-object", (CO, """let use_object_file = self.config.use_cache && self.config.key_values.is_empty();""", """let has_key_values = !self.config.key_values.is_empty();
        let use_object_file = !(has_key_values || !self.config.use_cache);"""))
R("co-filename-match", (CO, """        let Some(main_filename) = self.input_filename.file_name() else {
            return Err(Error::InitError(format!(
                "Unable to extract filename for: {:?}",
                self.input_filename
            )));
        };
""", """        let main_filename = self.input_filename.file_name().ok_or_else(|| {
            Error::InitError(format!(
                "Unable to extract filename for: {:?}",
                self.input_filename
            ))
        })?;
"""))
