# errors and their places, positions in the lexers, effects
ER = "src/source_code/errors.rs"
R("er-cond", (ER, """        let start_index = line_number.saturating_sub(LINES_IN_ERROR_CONTEXT);
        let end_index = cmp::min(lines.len(), line_number + LINES_IN_ERROR_CONTEXT + 1);
""", """        let start_index = line_number.saturating_sub(LINES_IN_ERROR_CONTEXT);
        let end_index = (line_number + LINES_IN_ERROR_CONTEXT + 1).min(lines.len());
"""))
R("er-extend", (ER, """        lines_out.append(
            &mut lines[(line_number + 1)..end_index]
                .iter()
                .map(|l| l.dimmed())
                .collect(),
        );
""", """        lines_out.extend(
            lines[(line_number + 1)..end_index]
                .iter()
                .map(|l| l.dimmed()),
        );
"""))
R("er-loops", (ER, """        let mut lines_out: Vec<colored::ColoredString> = lines[start_index..line_number]
            .iter()
            .map(|l| l.dimmed())
            .collect();
""", """        let mut lines_out: Vec<colored::ColoredString> = Vec::new();
        for l in &lines[start_index..line_number] {
            lines_out.push(l.dimmed());
        }
"""))
R("er-base", (ER, "let mut line_count = line_number.saturating_sub(LINES_IN_ERROR_CONTEXT);", "let mut line_count = start_index;"))
R("er-str", (ER, """            .map(std::string::ToString::to_string)
            .collect::<Vec<String>>();

        // are""", """            .collect::<Vec<&str>>();

        // are"""))
R("er-number-loop", (ER, """        lines_out
            .iter()
            .enumerate()
            .map(|(i, line)| {
                // don't increment the line *after* the line we're highlighting.  because it's the
                // ----^ thing and it doesn't correspond to a source code row, it's highlighting the
                // text above it
                if i == skip_numbering_on {
                    format!(" {: <width$}: {line}", " ", width = longest_line_number)
                } else {
                    line_count += 1;
                    format!(" {line_count: <longest_line_number$}: {line}")
                }
            })
            .collect()
""", """        let mut numbered = Vec::with_capacity(lines_out.len());
        for (i, line) in lines_out.iter().enumerate() {
            if i != skip_numbering_on {
                line_count += 1;
                numbered.push(format!(" {line_count: <longest_line_number$}: {line}"));
            } else {
                numbered.push(format!(" {: <width$}: {line}", " ", width = longest_line_number));
            }
        }
        numbered
"""))
R("er-arith", (ER, """        let mut line_count = line_number.saturating_sub(LINES_IN_ERROR_CONTEXT);
""", ""), (ER, """                    line_count += 1;
                    format!(" {line_count: <longest_line_number$}: {line}")
""", """                    let line_count = if i < skip_numbering_on { start_index + i + 1 } else { start_index + i };
                    format!(" {line_count: <longest_line_number$}: {line}")
"""))
R("er-shared", (ER, """            } => ParseError {
                bad_input,
                highlighted_lines: self.highlight_line(position),
                message,
                position,
                possible_values: None,
            },
""", """            } => self.at(position, bad_input, message),
"""), (ER, """        let position = bad_input.position();

        ParseError {
            bad_input: bad_input.to_string(),
            highlighted_lines: self.highlight_line(position),
            message: message.into(),
            position,
            possible_values: None,
        }
    }
""", """        self.at(bad_input.position(), bad_input.to_string(), message.into())
    }

    fn at(&self, position: SourcePosition, bad_input: String, message: String) -> ParseError {
        let highlighted_lines = self.highlight_line(position);
        ParseError {
            bad_input,
            highlighted_lines,
            message,
            position,
            possible_values: None,
        }
    }
"""))
R("er-struct-update", (ER, """        let mut parse_error = self.parse_error(bad_input, message);
        parse_error.possible_values = Some(possible_values);
        parse_error
""", """        ParseError {
            possible_values: Some(possible_values),
            ..self.parse_error(bad_input, message)
        }
"""))
PE = "src/error/parse_error.rs"
R("pe-local", (PE, """        writeln!(
            f,
            "On line {} {message} but saw {bad_input}",
            position.line_number + 1
        )?;
""", """        let line = position.line_number + 1;
        writeln!(f, "On line {line} {message} but saw {bad_input}")?;
"""))
R("pe-self", (PE, """        for line in highlighted_lines {
            writeln!(f, "{line}")?;
        }

        Ok(())
""", """        highlighted_lines.iter().try_for_each(|line| writeln!(f, "{line}"))
"""))
D = "src/error/display.rs"
R("di-match", (D, """                if let Some(address) = address {
                    writeln!(
                        f,
                        "Error evaluating formula in cell {address} ({}, {}) of {filename:?}",
                        address.column.x, address.row.y,
                    )?;
                } else {
                    writeln!(f, "Error evaluating formula in {filename:?}")?;
                }
""", """                match address {
                    Some(a) => {
                        let (x, y) = (a.column.x, a.row.y);
                        writeln!(f, "Error evaluating formula in cell {a} ({x}, {y}) of {filename:?}")?;
                    }
                    None => writeln!(f, "Error evaluating formula in {filename:?}")?,
                }
"""))
R("di-once", (D, """                writeln!(f, "Syntax error in code section of {filename:?}")?;
                writeln!(f, "{parse_error}")
""", """                writeln!(f, "Syntax error in code section of {filename:?}\\n{parse_error}")
"""))
C = "src/cell/mod.rs"
R("ce-match", (C, """    Ok(if input.starts_with('=') {
        Some(
            AstParser::parse(input, false, Some(field.clone()), source_code.clone())
                .map_err(|e| source_code.cell_syntax_error(e, field.address))?,
        )
    } else {
        None
    })
""", """    if !input.starts_with('=') {
        return Ok(None);
    }
    match AstParser::parse(input, false, Some(field.clone()), source_code.clone()) {
        Ok(ast) => Ok(Some(ast)),
        Err(e) => Err(source_code.cell_syntax_error(e, field.address)),
    }
"""))
RW = "src/row/mod.rs"
R("ro-helper", (RW, """            let cell_a1 = a1::Address::new(cell_index, row_a1.y);
            let ast = if let Some(a) = cell.ast {
                Some(
                    a.eval(scope, Some(cell_a1))
                        .map_err(|e| source_code.eval_error(e, Some(cell_a1)))?,
                )
            } else {
                None
            };
""", """            let position = Some(a1::Address::new(cell_index, row_a1.y));
            let ast = cell
                .ast
                .map(|a| a.eval(scope, position))
                .transpose()
                .map_err(|e| source_code.eval_error(e, position))?;
"""))
SP = "src/spreadsheet/mod.rs"
TM = "src/parser/ast_lexer/token_match.rs"
R("tm-match", (TM, """        if let Some(field) = self.field.clone() {
            // we have to handle Eofs specially because they fall outside of our array of `positions`
            if let Token::Eof = self.token {
                if let Some(position) = field.eof_position() {
                    return position;
                }
            } else if let Some(position) = field.position_for_offset(self.position.line_offset) {
                return position;
            }
        }

        self.position
""", """        let in_field = self.field.as_ref().and_then(|field| {
            if self.token == Token::Eof {
                field.eof_position()
            } else {
                field.position_for_offset(self.position.line_offset)
            }
        });
        in_field.unwrap_or(self.position)
"""))
UT = "src/parser/ast_lexer/unknown_token.rs"
R("ut-and-then", (UT, """        if let Some(field) = self.field.clone() {
            if let Some(position) = field.position_for_offset(self.position.line_offset) {
                return position;
            }
        }

        self.position
""", """        self.field
            .as_ref()
            .and_then(|f| f.position_for_offset(self.position.line_offset))
            .unwrap_or(self.position)
"""))
LX = "src/parser/ast_lexer/mod.rs"
R("lx-if", (LX, """                    match consumed.rsplit_once('\\n') {
                        // a newline, or a token (i.e. a string) which spans lines.  a field has the
                        // position of each of its characters so there we just count them
                        Some((_, last_line)) if field.is_none() => {
                            line_number += consumed.matches('\\n').count();
                            line_offset = last_line.chars().count();
                        }
                        _ => line_offset += consumed.chars().count(),
                    }
""", """                    if let (None, Some(i)) = (&field, consumed.rfind('\\n')) {
                        line_number += consumed.matches('\\n').count();
                        line_offset = consumed[i + 1..].chars().count();
                    } else {
                        line_offset += consumed.chars().count();
                    }
"""))
R("lx-local", (LX, """                        tokens.push(TokenMatch {
                            token,
                            str_match: m.str_match,
                            position: (
                                line_offset + p[..m.len_leading_whitespace].chars().count(),
                                line_number,
                            )
                                .into(),
""", """                        let whitespace = &p[..m.len_leading_whitespace];
                        tokens.push(TokenMatch {
                            token,
                            str_match: m.str_match,
                            position: (line_offset + whitespace.chars().count(), line_number).into(),
"""))
R("lx-continue", (LX, """            if p.trim().is_empty() {
                break;
            }

            if !matched {
                // we did a round of all the tokens and didn't match any of them - invalid syntax
                return Err""", """            let rest = p.trim();
            if rest.is_empty() {
                break;
            } else if matched {
                continue;
            } else {
                // we did a round of all the tokens and didn't match any of them - invalid syntax
                return Err"""))
FI = "csvp/src/field.rs"
R("fi-get", (FI, """        if offset >= self.positions.len() {
            None
        } else {
            Some(self.positions[offset])
        }
""", """        self.positions.get(offset).copied()
"""))
FB = "csvp/src/field_builder.rs"
R("fb-strip", (FB, """        let leading_whitespace = pf
            .value
            .chars()
            .take_while(|c| c.is_whitespace())
            .count();
""", """        let leading_whitespace =
            pf.value.chars().count() - pf.value.trim_start().chars().count();
"""))
LG = "src/logger.rs"
R("lg-table", (LG, """    Ok(match v {
        0 => log::LevelFilter::Error,
        1 => log::LevelFilter::Warn,
        2 => log::LevelFilter::Info,
        3 => log::LevelFilter::Debug,
        4 => log::LevelFilter::Trace,
        _ => {
            return Err(Error::InitError(format!(
                "{v} is not a valid verbosity level - the most you can do is -vvvv"
            )))
        }
    })
""", """    let level = match v {
        0 => log::LevelFilter::Error,
        1 => log::LevelFilter::Warn,
        2 => log::LevelFilter::Info,
        3 => log::LevelFilter::Debug,
        4 => log::LevelFilter::Trace,
        too_many => {
            let message =
                format!("{too_many} is not a valid verbosity level - the most you can do is -vvvv");
            return Err(Error::InitError(message));
        }
    };
    Ok(level)
"""))
R("lg-quiet", (LG, """        if verbosity != log::LevelFilter::Debug && verbosity != log::LevelFilter::Trace {
            builder.format_target(false);
        }
""", """        match verbosity {
            log::LevelFilter::Debug | log::LevelFilter::Trace => {}
            _ => {
                builder.format_target(false);
            }
        }
"""))
SC = "src/source_code/mod.rs"
R("sc-object", (SC, """        let mut f = self.filename.clone();
        f.set_extension("csvpo");
        f
""", """        self.filename.with_extension("csvpo")
"""))
R("sc-helper", (SC, """            .position(|l| regex::Regex::new(r"^\\s*---\\s*$").unwrap().is_match(l))
""", """            .position(is_separator)
"""), (SC, """impl SourceCode {
""", """fn is_separator(line: &str) -> bool {
    regex::Regex::new(r"^\\s*---\\s*$").unwrap().is_match(line)
}

impl SourceCode {
"""))
R("sc-trim", (SC, """            .position(|l| regex::Regex::new(r"^\\s*---\\s*$").unwrap().is_match(l))
""", """            .position(|l| l.trim() == "---")
"""))
