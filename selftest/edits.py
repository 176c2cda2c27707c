EDITS=[
# graph-ref: helper + match rewrite
('graph-ref/src/lib.rs','''        let graph = match s.split_once('@') {
            Some((graph_slug, rest)) => match rest.split_once('#') {
                Some((branch_name, version)) => GraphRef::Id {
                    graph_slug: graph_slug.to_string(),
                    branch_name: branch_name.to_string(),
                    version: version.to_string(),
                },
                None => GraphRef::LatestVersion {
                    graph_slug: graph_slug.to_string(),
                    branch_name: rest.to_string(),
                },
            },
            None => GraphRef::LatestProductionVersion {
                graph_slug: s.to_string(),
            },
        };
''','''        let graph = if let Some((graph_slug, rest)) = s.split_once('@') {
            let graph_slug = graph_slug.to_owned();
            if let Some((branch_name, version)) = rest.split_once('#') {
                GraphRef::new(graph_slug, String::from(branch_name), version.into())
            } else {
                GraphRef::latest_version(graph_slug, rest.to_owned())
            }
        } else {
            GraphRef::latest_production_version(s.to_owned())
        };
'''),
('graph-ref/src/lib.rs','''        if let Some(branch) = &self.branch() {
            f.write_str("@")?;
            f.write_str(branch)?;
        }

        if let Some(version) = &self.version() {
            f.write_str("#")?;
            f.write_str(version)?;
        }

        Ok(())
''','''        fn part(f: &mut fmt::Formatter<'_>, separator: char, value: Option<&str>) -> fmt::Result {
            match value {
                Some(value) => write!(f, "{separator}{value}"),
                None => Ok(()),
            }
        }

        part(f, '@', self.branch())?;
        part(f, '#', self.version())
'''),
('graph-ref/src/lib.rs','''                let Some((_, graph_slug)) = graph.slug().split_once('/') else {
                    break 'split String::new();
                };

                if graph_slug.is_empty() {
                    break 'split String::new();
                }
''','''                let graph_slug = match graph.slug().split_once('/') {
                    Some((_, graph_slug)) if !graph_slug.is_empty() => graph_slug,
                    _ => break 'split String::new(),
                };
'''),
# introspection
('grafbase-graphql-introspection/src/standard.rs','''    for (name, value) in headers {
        request_builder = request_builder.header(name.as_ref(), value.as_ref());
    }

    let result''','''    request_builder = headers.iter().fold(request_builder, |builder, (name, value)| {
        builder.header(name.as_ref(), value.as_ref())
    });

    let result'''),
('grafbase-graphql-introspection/src/standard.rs','''    let schema = match result.into_schema() {
        Ok(schema) => schema,
        Err(error) => return Err(error.to_string()),
    };

    Ok(schema.to_sdl())''','''    result
        .into_schema()
        .map(|schema| schema.to_sdl())
        .map_err(|error| error.to_string())'''),
('grafbase-graphql-introspection/src/subgraph.rs','''    let Ok(response) = request_builder.send().await else {
        return Err(());
    };

    let Ok(response) = response.error_for_status() else {
        return Err(());
    };

    let response: Response = match response.json().await {
        Ok(response) => response,
        Err(_) => return Err(()),
    };

    match response.data {
        Some(data) => Ok(data.service.sdl),
        _ => Err(()),
    }''','''    let response = request_builder.send().await.map_err(|_| ())?;
    let response = response.error_for_status().map_err(|_| ())?;
    let response: Response = response.json().await.map_err(|_| ())?;

    response.data.map(|data| data.service.sdl).ok_or(())'''),
# event queue
('event-queue/src/lib.rs','''        if !self.must_keep_event(EventFilterType::Operation) {
            return;
        }

        self.queue.push(Event::Operation(builder.build()));''','''        if self.must_keep_event(EventFilterType::Operation) {
            let operation = builder.build();
            self.queue.push(Event::Operation(operation));
        }'''),
('event-queue/src/lib.rs','''        match &self.filter {
            Some(EventFilter::All) => true,
            Some(EventFilter::Types(types)) => types.contains(event_type),
            None => false,
        }''','''        let Some(filter) = self.filter.as_ref() else {
            return false;
        };

        match filter {
            EventFilter::Types(types) => types.contains(event_type),
            EventFilter::All => true,
        }'''),
('event-queue/src/lib.rs','''        self.queue.push(Event::Extension(f()?));
        Ok(())''','''        let event = f()?;
        self.queue.push(Event::Extension(event));

        Ok(())'''),
('event-queue/src/events/builder.rs','''        let elapsed = self.start_time.elapsed();
        self.prepare_duration = Some(elapsed);

        elapsed
    }

    /''','''        *self.prepare_duration.insert(self.start_time.elapsed())
    }

    /'''),
('event-queue/src/events/builder.rs','''            document: self.document.map(Clone::clone).unwrap_or_default(),''','''            document: match self.document {
                Some(document) => document.clone(),
                None => Default::default(),
            },'''),
# rolling logger
('rolling-logger/src/log_file.rs','''        let lifetime_secs = self.rotate_strategy.lifetime().as_secs();

        match self.rotate_strategy.kind() {
            StrategyKind::Never => false,
            StrategyKind::Minutely => lifetime_secs >= MINUTE_SECS,
            StrategyKind::Hourly => lifetime_secs >= HOUR_SECS,
            StrategyKind::Daily => lifetime_secs >= DAY_SECS,
            StrategyKind::Weekly => lifetime_secs >= WEEK_SECS,
            StrategyKind::Monthly => lifetime_secs >= MONTH_SECS,
            StrategyKind::Yearly => lifetime_secs >= YEAR_SECS,
            StrategyKind::Size(max_size) => self.size >= max_size,
        }''','''        let max_age = match self.rotate_strategy.kind() {
            StrategyKind::Never => return false,
            StrategyKind::Size(max_size) => return self.size >= max_size,
            StrategyKind::Minutely => MINUTE_SECS,
            StrategyKind::Hourly => HOUR_SECS,
            StrategyKind::Daily => DAY_SECS,
            StrategyKind::Weekly => WEEK_SECS,
            StrategyKind::Monthly => MONTH_SECS,
            StrategyKind::Yearly => YEAR_SECS,
        };

        self.rotate_strategy.lifetime().as_secs() >= max_age'''),
('rolling-logger/src/log_file.rs','''        let file = if path.exists() {
            File::options().append(true).open(path)?
        } else {
            File::create(path)?
        };

        let size = fs::metadata(path).map_or(0, |m| m.len());
''','''        let file = match path.exists() {
            true => File::options().append(true).open(path),
            false => File::create(path),
        }?;

        let size = match fs::metadata(path) {
            Ok(metadata) => metadata.len(),
            Err(_) => 0,
        };
'''),
('rolling-logger/src/lib.rs','''        let mut path = self.path.as_os_str().to_os_string();
        path.push(format!(".{}", self.file.timestamp()));

        std::fs::rename(&self.path, &path)?;
''','''        let rotated = self.rotated_path();
        std::fs::rename(&self.path, &rotated)?;
'''),
('rolling-logger/src/lib.rs','''    #[cfg(test)]
    pub(crate) fn set_rotate_start''','''    fn rotated_path(&self) -> std::ffi::OsString {
        let suffix = format!(".{}", self.file.timestamp());
        let mut path = self.path.as_os_str().to_owned();
        path.push(&suffix);
        path
    }

    #[cfg(test)]
    pub(crate) fn set_rotate_start'''),
# dynamic string
('serde-dynamic-string/src/lib.rs','''                match std::env::var(variable_name) {
                    Ok(ref value) => match T::from_str(value) {
                        Ok(value) => result.write_str(value.as_ref()).expect("must succeed"),
                        Err(e) => errors.push(e.to_string()),
                    },
                    Err(e) => errors.push(format!("{e}: `{variable_name}`")),
                }''','''                let parsed = std::env::var(variable_name)
                    .map_err(|e| format!("{e}: `{variable_name}`"))
                    .and_then(|value| T::from_str(&value).map_err(|e| e.to_string()));
                match parsed {
                    Ok(value) => result.write_str(value.as_ref()).expect("must succeed"),
                    Err(e) => errors.push(e),
                }'''),
('serde-dynamic-string/src/lib.rs','''        if let Some(first_error) = errors.pop() {
            Err(first_error)
        } else {
            Ok(DynamicString(result))
        }''','''        match errors.pop() {
            None => Ok(Self(result)),
            Some(error) => Err(error),
        }'''),
# extension catalog
('extension-catalog/src/catalog.rs','''        if let Some((ix, _)) = self
            .extensions
            .iter()
            .enumerate()
            .find(|(_, ext)| ext.manifest.associated_link_urls.iter().any(|url| url == link_url))
        {
            return Some(ix.into());
        }
        match''','''        for (ix, ext) in self.extensions.iter().enumerate() {
            for url in &ext.manifest.associated_link_urls {
                if url == link_url {
                    return Some(ix.into());
                }
            }
        }
        match'''),
('extension-catalog/src/catalog.rs','''        self.extensions
            .iter()
            .enumerate()
            .find(|(_, existing)| existing.manifest.name() == name)
            .map(|(ix, _)| ix.into())''','''        let ix = self
            .extensions
            .iter()
            .position(|existing| existing.manifest.name() == name)?;
        Some(ix.into())'''),
('extension-catalog/src/catalog.rs','''        self.extensions.push(extension);
        (self.extensions.len() - 1).into()''','''        let id = self.extensions.len().into();
        self.extensions.push(extension);
        id'''),
# linter
('graphql-lint/src/lib.rs','''    pub fn visit_directive_usage(&mut self, parent: TypeDefinition<'_>, directive: Directive<'_>) {
        if directive.name() == "deprecated" && !directive.arguments().any(|argument| argument.name() == "reason") {''','''    fn is_unexplained_deprecation(directive: Directive<'_>) -> bool {
        directive.name() == "deprecated" && directive.arguments().all(|argument| argument.name() != "reason")
    }

    pub fn visit_directive_usage(&mut self, parent: TypeDefinition<'_>, directive: Directive<'_>) {
        if Self::is_unexplained_deprecation(directive) {'''),
('graphql-lint/src/lib.rs','''                for prefix in ["query", "get", "list"] {
                    if field_name.starts_with(prefix) {
                        self.diagnostics.push((
                            format!("field '{field_name}' on type 'Query' has a forbidden prefix: '{prefix}'"),
                            Severity::Warning,
                        ));
                        break;
                    }
                }''','''                if let Some(prefix) = ["query", "get", "list"].into_iter().find(|prefix| field_name.starts_with(prefix)) {
                    self.diagnostics.push((
                        format!("field '{field_name}' on type 'Query' has a forbidden prefix: '{prefix}'"),
                        Severity::Warning,
                    ));
                }'''),
('graphql-lint/src/lib.rs','''                        interface.fields().for_each(|field| {
                            self.visit_field(r#type, field);
                            field
                                .arguments()
                                .for_each(|argument| self.visit_field_argument(r#type, field, argument));
                            field.directives().for_each(|directive_usage| {
                                self.visit_directive_usage_field(r#type, field, directive_usage);
                            });
                        });''','''                        for field in interface.fields() {
                            self.visit_field(r#type, field);
                            for argument in field.arguments() {
                                self.visit_field_argument(r#type, field, argument);
                            }
                            for directive_usage in field.directives() {
                                self.visit_directive_usage_field(r#type, field, directive_usage);
                            }
                        }'''),
# op checks
('operation-checks/src/aggregate_field_usage.rs','''                for (argument_id, schema_argument) in schema
                    .iter_field_arguments(field_id)
                    .filter(|(_, schema_arg)| arguments.iter().all(|arg| arg.name != schema_arg.argument_name))
                {
                    if schema_argument.is_required() && schema_argument.has_default {
                        usage.register_argument_with_default_left_out(argument_id);
                    }
                }''','''                for (argument_id, schema_argument) in schema.iter_field_arguments(field_id) {
                    let is_passed = arguments.iter().any(|arg| arg.name == schema_argument.argument_name);

                    if is_passed || !schema_argument.has_default || !schema_argument.is_required() {
                        continue;
                    }

                    usage.register_argument_with_default_left_out(argument_id);
                }'''),
('operation-checks/src/aggregate_field_usage.rs','''                let Some(Fragment {
                    type_condition,
                    selection,
                }) = query.fragments.get(fragment_name)
                else {
                    continue;
                };

                usage.register_type_condition_usage(parent_type_name, type_condition);

                aggregate_field_usage_inner(*selection, type_condition, query, schema, usage);''','''                if let Some(fragment) = query.fragments.get(fragment_name) {
                    let type_condition = &fragment.type_condition;
                    usage.register_type_condition_usage(parent_type_name, type_condition);
                    aggregate_field_usage_inner(fragment.selection, type_condition, query, schema, usage);
                }'''),
# validation
('graphql-schema-validation/src/validate/input_object_cycles.rs','''        if let Some(ast::TypeKind::InputObject(input_object)) =
            ctx.definition_names.get(field_type_name).map(|ty| &ty.node.kind)
        {
            visited.insert(field_type_name);
            if let Some(mut chain) = references_input_object_rec(name, &input_object.fields, visited, ctx) {
                chain.push(field.name.node.as_str());
                return Some(chain);
            }
        }''','''        let Some(definition) = ctx.definition_names.get(field_type_name) else {
            continue;
        };

        let ast::TypeKind::InputObject(input_object) = &definition.node.kind else {
            continue;
        };

        visited.insert(field_type_name);

        match references_input_object_rec(name, &input_object.fields, visited, ctx) {
            Some(mut chain) => {
                chain.push(field.name.node.as_str());
                return Some(chain);
            }
            None => continue,
        }'''),
('graphql-schema-validation/src/validate/interface_implementers.rs','''    let mut errs = Vec::new();

    ctx.with_fields(implementer_name, implementer_fields, |ctx, candidate_superset| {
        for field in &iface.fields {
            let candidate_field = candidate_superset
                .iter()
                .find(|candidate| candidate.node.name.node == field.node.name.node);

            match candidate_field {
                Some(candidate_field) => {
                    validate_field_type_implements_interface_field(
                        iface_name,
                        implementer_name,
                        candidate_field,
                        field,
                        ctx,
                    );
                    validate_field_arguments_implement_interface_field(
                        iface_name,
                        implementer_name,
                        candidate_field,
                        field,
                        ctx,
                    );
                }
                None => errs.push(miette::miette!(
                    "Missing `{}` field in `{implementer_name}` (required by the `{iface_name}` interface)",
                    field.node.name.node
                )),
            }
        }
    });

    for err in errs {
        ctx.push_error(err);
    }''','''    ctx.with_fields(implementer_name, implementer_fields, |ctx, candidate_superset| {
        for field in &iface.fields {
            let Some(candidate_field) = candidate_superset
                .iter()
                .find(|candidate| candidate.node.name.node == field.node.name.node)
            else {
                ctx.push_error(miette::miette!(
                    "Missing `{}` field in `{implementer_name}` (required by the `{iface_name}` interface)",
                    field.node.name.node
                ));
                continue;
            };

            validate_field_arguments_implement_interface_field(
                iface_name,
                implementer_name,
                candidate_field,
                field,
                ctx,
            );
            validate_field_type_implements_interface_field(
                iface_name,
                implementer_name,
                candidate_field,
                field,
                ctx,
            );
        }
    });'''),
# composition
('graphql-composition/src/compose/enums.rs','''    let in_field_arguments = || {
        subgraphs
            .iter_output_field_arguments()
            .any(|arg| arg.r#type.definition_name_id == enum_name)
    };
    let in_input_type_fields = || {
        subgraphs
            .iter_fields()
            .filter(|field| {
                let parent_definition = subgraphs.at(field.parent_definition_id);
                parent_definition.kind == DefinitionKind::InputObject
            })
            .any(|field| field.r#type.definition_name_id == enum_name)
    };
    in_field_arguments() || in_input_type_fields()''','''    for arg in subgraphs.iter_output_field_arguments() {
        if arg.r#type.definition_name_id == enum_name {
            return true;
        }
    }

    subgraphs.iter_fields().any(|field| {
        field.r#type.definition_name_id == enum_name
            && subgraphs.at(field.parent_definition_id).kind == DefinitionKind::InputObject
    })'''),
('graphql-composition/src/compose/enums.rs','''    match (
        enum_is_used_in_input(enum_name, ctx.subgraphs),
        enum_is_used_in_return_position(enum_name, ctx.subgraphs),
    ) {
        (true, false) => {
            let enum_id = ctx.insert_enum(enum_name_str, description, directives);
            merge_intersection(first, definitions, enum_id, ctx);
        }
        (false, true) => {
            let enum_id = ctx.insert_enum(enum_name_str, description, directives);
            merge_union(definitions, enum_id, ctx);
        }
        (true, true) => {
            let enum_id = ctx.insert_enum(enum_name_str, description, directives);
            merge_exactly_matching(first, definitions, enum_id, ctx);
        }
        (false, false) => {
            // The enum isn't used at all. Act as if it were used in return position
            let enum_id = ctx.insert_enum(enum_name_str, description, directives);
            merge_union(definitions, enum_id, ctx);
        }
    }''','''    let is_input = enum_is_used_in_input(enum_name, ctx.subgraphs);
    let is_output = enum_is_used_in_return_position(enum_name, ctx.subgraphs);
    let enum_id = ctx.insert_enum(enum_name_str, description, directives);

    if !is_input {
        // An enum that isn't used at all is treated as if it were used in return position
        merge_union(definitions, enum_id, ctx);
    } else if is_output {
        merge_exactly_matching(first, definitions, enum_id, ctx);
    } else {
        merge_intersection(first, definitions, enum_id, ctx);
    }'''),
('graphql-composition/src/compose/enums.rs','''    all_values.sort_by_key(|value| value.name);

    for values in all_values.chunk_by(|a, b| a.name == b.name) {
        let name = values[0].name;
''','''    all_values.sort_by(|a, b| a.name.cmp(&b.name));

    let mut start = 0;
    while start < all_values.len() {
        let name = all_values[start].name;
        let end = start + all_values[start..].partition_point(|value| value.name == name);
        let values = &all_values[start..end];
        start = end;
'''),
('graphql-composition/src/compose/directives.rs','''        is_inaccessible = is_inaccessible || site.inaccessible(ctx.subgraphs);
        authenticated = authenticated || site.authenticated(ctx.subgraphs);
''','''        is_inaccessible |= site.inaccessible(ctx.subgraphs);
        if site.authenticated(ctx.subgraphs) {
            authenticated = true;
        }
'''),
('graphql-composition/src/compose/directives.rs','''        for directive in site.iter_ir_directives(ctx.subgraphs) {
            extra_directives.push(directive.clone());
        }
''','''        extra_directives.extend(site.iter_ir_directives(ctx.subgraphs).cloned());
'''),
('graphql-composition/src/compose/directives.rs','''        for scopes_arg in sites
            .clone()
            .flat_map(|directives| directives.requires_scopes(ctx.subgraphs))
        {
            scopes.push(
                scopes_arg
                    .iter()
                    .map(|scope| ctx.insert_string(*scope))
                    .collect::<Vec<_>>(),
            );
        }
''','''        for site in sites.clone() {
            for scopes_arg in site.requires_scopes(ctx.subgraphs) {
                let mut inner = Vec::with_capacity(scopes_arg.len());
                for scope in scopes_arg {
                    inner.push(ctx.insert_string(*scope));
                }
                scopes.push(inner);
            }
        }
'''),
('graphql-composition/src/compose/fields.rs','''    while start < all_fields.len() {
        fields_buf.clear();
        let field_name = all_fields[start].name;
        let end = all_fields[start..].partition_point(|field| field.name == field_name) + start;
        let fields = &all_fields[start..end];

        fields_buf.extend(fields.iter());

        compose_fn(&fields_buf);

        start = end;
    }''','''    while let Some(first) = all_fields.get(start) {
        let end = start + all_fields[start..].partition_point(|field| field.name == first.name);

        fields_buf.clear();
        fields_buf.extend_from_slice(&all_fields[start..end]);

        compose_fn(&fields_buf);

        start = end;
    }'''),
('graphql-composition/src/compose/object.rs','''    let inaccessible_fields: BTreeSet<StringId> = definitions
        .iter()
        .flat_map(|def| def.id.fields(ctx.subgraphs))
        .filter(|field| field.directives.inaccessible(ctx.subgraphs))
        .map(|field| field.name)
        .collect();
''','''    let mut inaccessible_fields: BTreeSet<StringId> = BTreeSet::new();
    for def in definitions {
        for field in def.id.fields(ctx.subgraphs) {
            if field.directives.inaccessible(ctx.subgraphs) {
                inaccessible_fields.insert(field.name);
            }
        }
    }
'''),
('graphql-composition/src/ingest_subgraph/directives.rs','''                let Some(argument) = directive.argument("name") else {
                    continue;
                };

                if let Some(s) = argument.value().as_str() {
                    ctx.subgraphs.insert_tag(directive_site_id, s);
                }''','''                if let Some(s) = directive.argument("name").and_then(|argument| argument.value().as_str()) {
                    ctx.subgraphs.insert_tag(directive_site_id, s);
                }'''),
('graphql-composition/src/federated_graph/from_sdl.rs','''        self.type_wrappers.clear();
        self.type_wrappers.extend(wrappers);
        self.type_wrappers.reverse();

        let mut wrappers = self.type_wrappers.iter().peekable();
''','''        let mut collected: Vec<_> = wrappers.into_iter().collect();
        collected.reverse();
        self.type_wrappers = collected;

        let mut wrappers = self.type_wrappers.iter().peekable();
'''),
('graphql-composition/src/federated_graph/from_sdl.rs','''        if let Some(idx) = self.strings.get_index_of(s) {
            return StringId::from(idx);
        }

        StringId::from(self.strings.insert_full(s.to_owned()).0)''','''        let index = match self.strings.get_index_of(s) {
            Some(index) => index,
            None => self.strings.insert_full(s.to_owned()).0,
        };

        StringId::from(index)'''),
('graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs','''    for directive in directives
        .iter()
        .filter(|directive| public_directives_filter(directive))
    {
        f.write_str(" ")?;
        write_directive(f, directive, graph)?;
    }

    Ok(())''','''    directives
        .iter()
        .filter(|directive| public_directives_filter(directive))
        .try_for_each(|directive| {
            f.write_char(' ')?;
            write_directive(f, directive, graph)
        })'''),
('graphql-composition/src/federated_graph/render_sdl/render_api_sdl/visibility.rs','''    if directives
        .iter()
        .any(|directive| matches!(directive, Directive::Inaccessible))
    {
        return true;
    }
''','''    for directive in directives {
        if let Directive::Inaccessible = directive {
            return true;
        }
    }
'''),
# schema diff
('graphql-schema-diff/src/state.rs','''        for src_impl in src {
            if !target.contains(src_impl) {
                push_change(''','''        for src_impl in src.iter().filter(|src_impl| !target.contains(src_impl)) {
            {
                push_change('''),
]
