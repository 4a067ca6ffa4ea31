TM = "src/target/mod.rs"
CS = "src/target/csv/compilation_target.rs"
CM = "src/target/csv/mod.rs"
XM = "src/target/excel/mod.rs"
XC = "src/target/excel/compilation_target.rs"
XE = "src/target/excel/excel_cell.rs"
GB = "src/target/google_sheets/batch_update_builder.rs"
GC = "src/target/google_sheets/google_sheets_cell.rs"
FB = "src/target/file_backer_upper.rs"
CP = "csvp/src/parser.rs"
FD = "csvp/src/field_builder.rs"
SR = "src/source_code/mod.rs"

R("tm-merge-for", (TM, """    (0..cmp::max(existing_row.len(), module_row.len()))
        .map(|i| {
            merge_cell(
                existing_row.get(i).unwrap_or(&ExistingCell::Empty),
                module_row.get(i),
                config,
            )
        })
        .collect()""", """    let width = cmp::max(existing_row.len(), module_row.len());
    let mut merged = Vec::with_capacity(width);
    for i in 0..width {
        let existing = existing_row.get(i).unwrap_or(&ExistingCell::Empty);
        merged.push(merge_cell(existing, module_row.get(i), config));
    }
    merged"""))
R("tm-merge-method", (TM, """    (0..cmp::max(existing_row.len(), module_row.len()))
        .map(|i| {""", """    let width = existing_row.len().max(module_row.len());
    (0..width)
        .map(|i| {"""))
R("cs-helper", (CS, """            .iter()
            .map(|cell| match cell {
                MergeResult::New(v) => v.to_string(),
                MergeResult::Existing(v) => v.to_string(),
                MergeResult::Empty => String::new(),
            })
            .collect();""", """            .into_iter()
            .map(output_text)
            .collect();"""), (CS, """#[cfg(test)]
mod tests {""", """fn output_text(cell: MergeResult<String>) -> String {
    match cell {
        MergeResult::New(v) => v.to_string(),
        MergeResult::Existing(v) => v,
        MergeResult::Empty => String::new(),
    }
}

#[cfg(test)]
mod tests {"""))
R("cs-widest", (CS, """        let widest_row = existing_values
            .cells
            .iter()
            .map(Vec::len)
            .fold(module.spreadsheet.widest_row(), cmp::max);""", """        let mut widest_row = module.spreadsheet.widest_row();
        for row in &existing_values.cells {
            if row.len() > widest_row {
                widest_row = row.len();
            }
        }"""))
R("cs-widest-max", (CS, """            .map(Vec::len)
            .fold(module.spreadsheet.widest_row(), cmp::max);""", """            .map(Vec::len)
            .max()
            .unwrap_or(0)
            .max(module.spreadsheet.widest_row());"""))
R("cs-row-let", (CS, """            let mut output_row: Vec<String> = merge_rows(
                existing_values
                    .cells
                    .get(index)
                    .unwrap_or(&vec![].to_owned()),
                rows.get(index).map_or(&[], |row| row.cells.as_slice()),
                &self.compiler.config,
            )""", """            let existing_row = existing_values
                .cells
                .get(index)
                .map_or(&[][..], Vec::as_slice);
            let new_row = match rows.get(index) {
                Some(row) => row.cells.as_slice(),
                None => &[],
            };
            let mut output_row: Vec<String> = merge_rows(
                existing_row,
                new_row,
                &self.compiler.config,
            )"""))
R("cs-while-pad", (CS, """            output_row.resize(widest_row, String::new());
""", """            while output_row.len() < widest_row {
                output_row.push(String::new());
            }
"""))
R("cm-read-map", (CM, """            cells.push(
                result
                    .or(Err(output.clone().into_error("Error reading CSV row")))?
                    .iter()
                    .map(|cell| {
                        if cell.is_empty() {
                            ExistingCell::Empty
                        } else {
                            ExistingCell::Value(cell.to_string())
                        }
                    })
                    .collect(),
            );""", """            let record = result.map_err(|_| output.clone().into_error("Error reading CSV row"))?;
            let mut row = Vec::with_capacity(record.len());
            for cell in &record {
                row.push(match cell {
                    "" => ExistingCell::Empty,
                    value => ExistingCell::Value(value.to_string()),
                });
            }
            cells.push(row);"""))
R("cm-read-if", (CM, """            Err(e) => {
                return match e.kind() {
                    io::ErrorKind::NotFound => Ok(ExistingValues::default()),
                    error => Err(output
                        .clone()
                        .into_error(format!("Error reading output: {error}"))),
                }
            }""", """            Err(e) if e.kind() == io::ErrorKind::NotFound => {
                return Ok(ExistingValues::default());
            }
            Err(e) => {
                return Err(output
                    .clone()
                    .into_error(format!("Error reading output: {}", e.kind())));
            }"""))
R("xm-size-let", (XM, """        let columns = rows.iter().map(|r| r.cells.len()).max().unwrap_or(0);

        if columns + x_offset as usize > MAX_COLUMNS || rows.len() + y_offset as usize > MAX_ROWS {
            return Err(self""", """        let last_column = module.spreadsheet.widest_row() + x_offset as usize;
        let last_row = rows.len() + y_offset as usize;
        let fits = last_column <= MAX_COLUMNS && last_row <= MAX_ROWS;

        if !fits {
            return Err(self"""))
R("xm-build-if", (XM, """                match merged_cell {
                    // if the value already exists we don't need to do anything because we're just
                    // writing changes with this strategy
                    MergeResult::Existing(_) | MergeResult::Empty => (),

                    // build a new value
                    MergeResult::New(cell) => {
                        let e = worksheet.get_cell_mut(position.to_string());

                        Self::set_value(e, &cell);

                        e.set_style(Self::build_style(&cell));

                        if let Some(n) = &cell.note {
                            Self::set_comment(worksheet, position, n);
                        }

                        if let Some(data_validation) = cell.data_validation {
                            cell_validations.push(CellValidation(position, data_validation));
                        }
                    }
                }""", """                if let MergeResult::New(cell) = merged_cell {
                    let e = worksheet.get_cell_mut(position.to_string());

                    e.set_style(Self::build_style(&cell));
                    Self::set_value(e, &cell);

                    if let Some(data_validation) = cell.data_validation.clone() {
                        cell_validations.push(CellValidation(position, data_validation));
                    }

                    if let Some(n) = &cell.note {
                        Self::set_comment(worksheet, position, n);
                    }
                }"""))
R("xm-write-helper", (XM, """                let merged_cell = merge_cell(
                    &Self::get_existing_cell(position, worksheet),
                    Some(cell),
                    &self.compiler.config,
                );

                match merged_cell {
                    // if the value already exists we don't need to do anything because we're just
                    // writing changes with this strategy
                    MergeResult::Existing(_) | MergeResult::Empty => (),

                    // build a new value
                    MergeResult::New(cell) => {
                        let e = worksheet.get_cell_mut(position.to_string());

                        Self::set_value(e, &cell);

                        e.set_style(Self::build_style(&cell));

                        if let Some(n) = &cell.note {
                            Self::set_comment(worksheet, position, n);
                        }

                        if let Some(data_validation) = cell.data_validation {
                            cell_validations.push(CellValidation(position, data_validation));
                        }
                    }
                }
            }
        }

        Self::set_data_validations(worksheet, cell_validations);
    }
""", """                let existing = Self::get_existing_cell(position, worksheet);
                match merge_cell(&existing, Some(cell), &self.compiler.config) {
                    MergeResult::Existing(_) | MergeResult::Empty => continue,
                    MergeResult::New(cell) => {
                        Self::write_cell(worksheet, position, &cell);
                        cell_validations.extend(
                            cell.data_validation
                                .map(|dv| CellValidation(position, dv)),
                        );
                    }
                }
            }
        }

        Self::set_data_validations(worksheet, cell_validations);
    }

    fn write_cell(worksheet: &mut u::Worksheet, position: a1::Address, cell: &Cell) {
        let e = worksheet.get_cell_mut(position.to_string());
        Self::set_value(e, cell);
        e.set_style(Self::build_style(cell));

        if let Some(n) = &cell.note {
            Self::set_comment(worksheet, position, n);
        }
    }
"""))
R("xm-setvalue-else", (XM, """        if let Some(ast) = &cell.ast {
            match ast.clone().into_inner() {
                Node::Boolean(b) => existing_cell.set_value_bool(b),""", """        let Some(ast) = &cell.ast else {
            if !cell.parsed_value.is_empty() {
                existing_cell.set_value_string(cell.parsed_value.clone());
            }
            return;
        };
        {
            match ast.clone().into_inner() {
                Node::Boolean(b) => existing_cell.set_value_bool(b),"""), (XM, """                _ => existing_cell.set_formula(ast.to_string()),
            };
        } else if !cell.parsed_value.is_empty() {
            existing_cell.set_value_string(cell.parsed_value.clone());
        }""", """                _ => existing_cell.set_formula(ast.to_string()),
            };
        }"""))
R("xm-setvalue-pct", (XM, """                Node::Float {
                    value,
                    percentage,
                    sign: None,
                } if !percentage => existing_cell.set_value_number(value),""", """                Node::Float {
                    value,
                    percentage: false,
                    sign: None,
                } => existing_cell.set_value_number(value),"""))
R("xm-validations-iter", (XM, """        let mut validations = u::DataValidations::default();
        if cell_validations.is_empty() {
            return;
        }

        validations.set_data_validation_list(
            cell_validations
                .into_iter()
                .map(std::convert::Into::into)
                .collect(),
        );
        worksheet.set_data_validations(validations);""", """        if !cell_validations.is_empty() {
            let list: Vec<u::DataValidation> = cell_validations
                .into_iter()
                .map(u::DataValidation::from)
                .collect();
            let mut validations = u::DataValidations::default();
            validations.set_data_validation_list(list.into());
            worksheet.set_data_validations(validations);
        }"""))
R("xm-existing-map", (XM, """        let cell_value = worksheet.get_cell(position.to_string());
        if let Some(cell) = cell_value {
            ExistingCell::Value(cell.clone())
        } else {
            ExistingCell::Empty
        }""", """        worksheet
            .get_cell(position.to_string())
            .map_or(ExistingCell::Empty, |cell| ExistingCell::Value(cell.clone()))"""))
R("xc-inline", (XC, """        u::writer::xlsx::write(&spreadsheet, self.path.clone()).map_err(|e| {
            self.compiler.output_error(format!(
                "Unable to write target file {}: {e}",
                self.path.display()
            ))
        })?;

        Ok(())""", """        match u::writer::xlsx::write(&spreadsheet, &self.path) {
            Ok(()) => Ok(()),
            Err(e) => Err(self.compiler.output_error(format!(
                "Unable to write target file {}: {e}",
                self.path.display()
            ))),
        }"""))
R("xe-borders-closure", (XE, """        let b = s.get_borders_mut();
        if self.0.side_has_border(BorderSide::Left) {
            b.set_left_border(border_style.clone());
        }

        if self.0.side_has_border(BorderSide::Right) {
            b.set_right_border(border_style.clone());
        }

        if self.0.side_has_border(BorderSide::Top) {
            b.set_top_border(border_style.clone());
        }

        if self.0.side_has_border(BorderSide::Bottom) {
            b.set_bottom_border(border_style);
        }""", """        let has = |side| self.0.side_has_border(side);
        let b = s.get_borders_mut();
        if has(BorderSide::Bottom) {
            b.set_bottom_border(border_style.clone());
        }
        if has(BorderSide::Top) {
            b.set_top_border(border_style.clone());
        }
        if has(BorderSide::Left) {
            b.set_left_border(border_style.clone());
        }
        if has(BorderSide::Right) {
            b.set_right_border(border_style);
        }"""))
R("xe-font-flag", (XE, """        if self.0.font_size.is_none()
            && self.0.font_color.is_none()
            && self.0.font_family.is_none()
            && self.0.text_formats.is_empty()
        {
            return;
        }
""", """        let has_font = self.0.font_size.is_some()
            || self.0.font_color.is_some()
            || self.0.font_family.is_some()
            || !self.0.text_formats.is_empty();
        if !has_font {
            return;
        }
"""))
R("xe-bg-ref", (XE, """        if let Some(c) = self.0.color.clone() {
            s.set_background_color(c.to_rgba());
        }""", """        match &self.0.color {
            Some(c) => {
                s.set_background_color(c.to_rgba());
            }
            None => (),
        }"""))
R("gb-chunks-for", (GB, """        all_rows
            .chunks(1000)
            .enumerate()
            .map(|(i, rows)| api::Request {
                update_cells: Some(self.update_cells_request(i * 1000, rows)),
                ..Default::default()
            })
            .collect()""", """        let mut requests = vec![];
        for (i, rows) in all_rows.chunks(1000).enumerate() {
            requests.push(api::Request {
                update_cells: Some(self.update_cells_request(i * 1000, rows)),
                ..Default::default()
            });
        }
        requests"""))
R("gb-const", (GB, """        all_rows
            .chunks(1000)
            .enumerate()
            .map(|(i, rows)| api::Request {
                update_cells: Some(self.update_cells_request(i * 1000, rows)),""", """        const CHUNK: usize = 1000;
        all_rows
            .chunks(CHUNK)
            .enumerate()
            .map(|(i, rows)| api::Request {
                update_cells: Some(self.update_cells_request(i * CHUNK, rows)),"""))
R("gb-celldata-helper", (GB, """                    MergeResult::New(cell) => {
                        let gs_cell = google_sheets_cell::GoogleSheetsCell(cell);
                        api::CellData {
                            data_validation: gs_cell.data_validation_rule(),
                            user_entered_format: Some(gs_cell.cell_format()),
                            user_entered_value: Self::user_entered_value(cell),
                            note: cell.note.clone(),
                            ..Default::default()
                        }
                    }
                }
            })
            .collect()
    }
""", """                    MergeResult::New(cell) => Self::new_cell_data(cell),
                }
            })
            .collect()
    }

    fn new_cell_data(cell: &Cell) -> api::CellData {
        let gs_cell = google_sheets_cell::GoogleSheetsCell(cell);
        let mut data = api::CellData::default();
        data.data_validation = gs_cell.data_validation_rule();
        data.user_entered_format = Some(gs_cell.cell_format());
        data.user_entered_value = Self::user_entered_value(cell);
        data.note = cell.note.clone();
        data
    }
"""))
R("gb-rowdata-for", (GB, """        self.module
            .spreadsheet
            .rows
            .iter()
            .enumerate()
            .map(|(i, row)| {
                // the existing cells this row will be written over
                let (x_offset, y_offset) = self.compiler.config.offset;
                let existing_row = self
                    .existing_values
                    .cells
                    .get(i + y_offset as usize)
                    .and_then(|row| row.get(x_offset as usize..))
                    .unwrap_or_default();
                let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);

                api::RowData {
                    values: Some(Self::cell_data(&merged_row)),
                }
            })
            .collect()""", """        let (x_offset, y_offset) = self.compiler.config.offset;
        let mut data = Vec::with_capacity(self.module.spreadsheet.rows.len());
        for (i, row) in self.module.spreadsheet.rows.iter().enumerate() {
            let existing_row = match self.existing_values.cells.get(i + y_offset as usize) {
                Some(existing) => existing.get(x_offset as usize..).unwrap_or(&[]),
                None => &[],
            };
            let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);

            data.push(api::RowData {
                values: Some(Self::cell_data(&merged_row)),
            });
        }
        data"""))
R("gb-value-then", (GB, """        } else if cell.parsed_value.is_empty() {
            None
        } else {
            Some(api::ExtendedValue {
                string_value: Some(cell.parsed_value.clone()),
                ..Default::default()
            })
        }""", """        } else {
            (!cell.parsed_value.is_empty()).then(|| api::ExtendedValue {
                string_value: Some(cell.parsed_value.clone()),
                ..Default::default()
            })
        }"""))
R("gc-color-map", (GC, """    if let Some(rgb) = rgb {
        let (r, g, b): (f32, f32, f32) = rgb.into();

        Some(api::ColorStyle {
            rgb_color: Some(api::Color {
                alpha: None,
                red: Some(r),
                green: Some(g),
                blue: Some(b),
            }),
            theme_color: None,
        })
    } else {
        None
    }""", """    rgb.as_ref().map(|rgb| {
        let (r, g, b): (f32, f32, f32) = rgb.into();

        api::ColorStyle {
            rgb_color: Some(api::Color {
                red: Some(r),
                green: Some(g),
                blue: Some(b),
                ..Default::default()
            }),
            ..Default::default()
        }
    })"""))
R("gc-format-inline", (GC, """        let borders = self.borders();
        let background_color_style = color_style(&self.0.color);
        let horizontal_alignment = self.horizontal_alignment();
        let number_format = self.number_format();
        let text_format = self.text_format();
        let vertical_alignment = self.vertical_alignment();
        let wrap_strategy = self.wrap_strategy();

        api::CellFormat {
            background_color_style,
            borders,
            horizontal_alignment: Some(horizontal_alignment),
            number_format: Some(number_format),
            text_format,
            vertical_alignment: Some(vertical_alignment),
            wrap_strategy: Some(wrap_strategy),
            ..Default::default()
        }""", """        api::CellFormat {
            background_color_style: color_style(&self.0.color),
            borders: self.borders(),
            horizontal_alignment: Some(self.horizontal_alignment()),
            number_format: Some(self.number_format()),
            text_format: self.text_format(),
            vertical_alignment: Some(self.vertical_alignment()),
            wrap_strategy: Some(self.wrap_strategy()),
            ..Default::default()
        }"""))
R("gc-validation-if", (GC, """        Some(api::DataValidationRule {
            condition: Some(match self.0.data_validation.as_ref()? {""", """        let validation = match &self.0.data_validation {
            Some(v) => v,
            None => return None,
        };
        Some(api::DataValidationRule {
            condition: Some(match validation {"""))
R("cp-parse-for", (CP, """        let mut records = vec![];
        let mut row = 0;
        loop {
            match self.parse_record(row)? {
                RecordResult::Comment => continue,
                RecordResult::Some(r) => records.push(r),
                RecordResult::Eof => break,
            }
            row += 1;
        }

        Ok(records)""", """        let mut records = vec![];
        loop {
            match self.parse_record(records.len())? {
                RecordResult::Comment => (),
                RecordResult::Some(r) => records.push(r),
                RecordResult::Eof => return Ok(records),
            }
        }"""))
R("cp-ignore-while", (CP, """        loop {
            match self.consume_char() {
                Some('\\n') | None => break,
                Some(_) => continue,
            }
        }""", """        while let Some(c) = self.consume_char() {
            if is_record_terminator(c) {
                break;
            }
        }"""))
R("cp-record-len", (CP, """        let mut fields = vec![];
        let mut col = 0;
        loop {
            match self.parse_field(FieldBuilder::new((col, row)))? {
                FieldResult::Some(f) => fields.push(f),
                FieldResult::Last(f) => {
                    fields.push(f);
                    break;
                }
                FieldResult::Eof => {
                    return Ok(if fields.is_empty() {
                        RecordResult::Eof
                    } else {
                        RecordResult::Some(fields)
                    })
                }
            };
            col += 1;
        }

        Ok(RecordResult::Some(fields))""", """        let mut fields = vec![];
        loop {
            let address = (fields.len(), row);
            match self.parse_field(FieldBuilder::new(address))? {
                FieldResult::Some(f) => fields.push(f),
                FieldResult::Last(f) => {
                    fields.push(f);
                    return Ok(RecordResult::Some(fields));
                }
                FieldResult::Eof if fields.is_empty() => return Ok(RecordResult::Eof),
                FieldResult::Eof => return Ok(RecordResult::Some(fields)),
            };
        }"""))
R("cp-ws-if", (CP, """        while let Some(c) = self.chars.peek() {
            if !is_record_terminator(*c) && c.is_whitespace() {
                self.consume_char();
            } else {
                break;
            }
        }""", """        loop {
            match self.chars.peek() {
                Some(c) if c.is_whitespace() && !is_record_terminator(*c) => {
                    self.consume_char();
                }
                _ => return,
            }
        }"""))
R("cp-ws-matches", (CP, """        while let Some(c) = self.chars.peek() {
            if !is_record_terminator(*c) && c.is_whitespace() {
                self.consume_char();
            } else {
                break;
            }
        }""", """        while self
            .chars
            .peek()
            .is_some_and(|c| c.is_whitespace() && *c != '\\n')
        {
            self.consume_char();
        }"""))
R("cp-unq-if", (CP, """                Some('\\\\') if self.next_is_newline() => {
                    // consume the newline then continue parsing this field
                    self.consume_char();
                }
                Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
                Some(c) => fb.push(c, &mut *self),
                None => return Ok(FieldResult::last(fb)),""", """                None | Some('\\n') => return Ok(FieldResult::last(fb)),
                Some('\\\\') if self.next_is_newline() => {
                    self.consume_char();
                }
                Some(c) => {
                    if self.is_field_separator(c) {
                        return Ok(FieldResult::some(fb));
                    }
                    fb.push(c, &mut *self);
                }"""))
R("cp-field-loop", (CP, """            Some('\\\\') if self.next_is_newline() => {
                // consume the newline then continue parsing this field
                self.consume_char();
                self.parse_field(fb)
            }
            // Some(c)""", """            Some('\\\\') if self.chars.peek() == Some(&'\\n') => {
                self.consume_char();
                self.parse_field(fb)
            }
            // Some(c)"""))
R("fd-struct", (FD, """        Field {
            address: pf.address,
            value: pf.value.trim().to_string(),
            positions: pf.positions,
        }""", """        let FieldBuilder {
            address,
            value,
            positions,
        } = pf;
        Field {
            address,
            positions,
            value: String::from(value.trim()),
        }"""))
R("sr-let-else", (SR, """            let lines: Vec<_> = str_input.lines().collect();
            let csv_lines = &lines[(p + 1)..];
            let code_lines = &lines[..p];
""", """            let lines: Vec<&str> = str_input.lines().collect();
            let (code_lines, rest) = lines.split_at(p);
            let csv_lines = &rest[1..];
"""))
R("sr-skip", (SR, """            let lines: Vec<_> = str_input.lines().collect();
            let csv_lines = &lines[(p + 1)..];
            let code_lines = &lines[..p];
""", """            let lines: Vec<_> = str_input.lines().collect();
            let code_lines: Vec<_> = lines.iter().copied().take(p).collect();
            let csv_lines: Vec<_> = lines.iter().copied().skip(p + 1).collect();
"""))
R("sr-enum", (SR, """        if let Some(p) = str_input
            .lines()
            .position(|l| regex::Regex::new(r"^\\s*---\\s*$").unwrap().is_match(l))
        {""", """        let separator = regex::Regex::new(r"^\\s*---\\s*$").unwrap();
        let at = str_input.lines().position(|l| separator.is_match(l));
        if let Some(p) = at {"""))
R("fb-for-find", (FB, """        if new_file.exists() {
            continue;
        }
""", """        let taken = new_file.exists();
        if taken {
            continue;
        }
"""))
