From 4c07415041189c9b1f361691db697b5f28344f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 01/25] fix: compare an argument's new type with the argument
 of the target schema

---
 crates/operation-checks/src/check/rules.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 783a3a8..023ad5c 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -156,7 +156,7 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
     let (field_name, arg_name) = field_name_and_arg_name.split_once('.').unwrap();
 
     let arg_in_src = check_params.source.find_argument((type_name, field_name, arg_name));
-    let arg_in_target = check_params.source.find_argument((type_name, field_name, arg_name));
+    let arg_in_target = check_params.target.find_argument((type_name, field_name, arg_name));
 
     'refine: {
         if let Some((src_id, target_id)) = arg_in_src.zip(arg_in_target) {
-- 
2.43.0


From 3469d640186001f889663506d27d71fb6e5e8d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 02/25] fix: find the arguments of a field whatever the order
 of its type and name

---
 crates/operation-checks/src/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 4b48b08..2e89d10 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -73,7 +73,7 @@ impl Schema {
         let start = self.field_arguments.partition_point(
             |FieldArgument {
                  type_name, field_name, ..
-             }| { type_name < &field.type_name && field_name < &field.field_name },
+             }| { (type_name, field_name) < (&field.type_name, &field.field_name) },
         );
 
         self.field_arguments[start..]
-- 
2.43.0


From a8d3e4da38de96fe7b515cece2a9de0021785693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 03/25] fix: report duplicate enum values that come from an
 extension

---
 crates/graphql-schema-validation/src/validate/enums.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 9810086..52f99e7 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -11,7 +11,7 @@ pub(crate) fn validate_enum_members<'a>(
     ctx.with_enum_values(type_name, &enm.values, |ctx, values| {
         let value_names = values.iter().map(|v| v.node.value.node.as_str());
         ctx.find_duplicates(value_names, |ctx, idx, _| {
-            let value_name = enm.values[idx].node.value.node.as_str();
+            let value_name = values[idx].node.value.node.as_str();
             ctx.push_error(miette::miette!(r#"Duplicate enum value "{type_name}.{value_name}""#));
         });
 
-- 
2.43.0


From b60d5e27342ea7c9ec428e115ea9692acebafa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 04/25] fix: count only the bytes that were written towards the
 rotation size

---
 crates/rolling-logger/src/log_file.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/rolling-logger/src/log_file.rs b/crates/rolling-logger/src/log_file.rs
index 80097df..cff8b44 100644
--- a/crates/rolling-logger/src/log_file.rs
+++ b/crates/rolling-logger/src/log_file.rs
@@ -102,8 +102,9 @@ impl LogFile {
 
 impl Write for LogFile {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.size += buf.len() as u64;
-        self.file.write(buf)
+        let written = self.file.write(buf)?;
+        self.size += written as u64;
+        Ok(written)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From 5873262e6d58140461485cb5917fedcbecd1ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 05/25] fix: count type conditions of fragment spreads, and by
 the request count

---
 .../operation-checks/src/aggregate_field_usage.rs  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 5d2252b..aee1e8f 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -159,6 +159,13 @@ impl FieldUsage {
         *self.count_per_enum_value.entry(enum_and_value).or_insert(0) += self.increment;
     }
 
+    fn register_type_condition_usage(&mut self, parent_type_name: &str, type_condition: &str) {
+        *self
+            .type_condition_counts
+            .entry([parent_type_name, type_condition].join("."))
+            .or_insert(0) += self.increment;
+    }
+
     fn register_argument_with_default_left_out(&mut self, argument_id: schema::ArgumentId) {
         *self
             .arguments_with_defaults_left_out_count
@@ -247,14 +254,13 @@ fn aggregate_field_usage_inner(
                     continue;
                 };
 
+                usage.register_type_condition_usage(parent_type_name, type_condition);
+
                 aggregate_field_usage_inner(*selection, type_condition, query, schema, usage);
             }
             Selection::InlineFragment { on, selection } => {
                 let subselection_parent_type = if let Some(on) = on {
-                    *usage
-                        .type_condition_counts
-                        .entry([parent_type_name, on].join("."))
-                        .or_insert(0) += 1;
+                    usage.register_type_condition_usage(parent_type_name, on);
 
                     on
                 } else {
-- 
2.43.0


From d4fae395f8ba35d26bb552ebb9def3062ab8bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 06/25] fix: separate the arguments a patch adds to a field

---
 .../src/patch/type_definitions.rs               | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 5fc90b3..046ad88 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -219,8 +219,16 @@ fn patch_fields<'a, T>(
         if arguments.peek().is_some() || !added_arguments_for_field.is_empty() {
             schema.push('(');
 
-            for (_, full_argument) in &added_arguments_for_field {
-                schema.push_str(full_argument);
+            for (idx, (_, full_argument)) in added_arguments_for_field.iter().enumerate() {
+                if idx > 0 {
+                    schema.push_str(", ");
+                }
+
+                schema.push_str(trim_separators(full_argument));
+            }
+
+            if arguments.peek().is_some() && !added_arguments_for_field.is_empty() {
+                schema.push_str(", ");
             }
 
             while let Some(argument) = arguments.next() {
@@ -356,3 +364,8 @@ fn patch_union<'a, T>(
         }
     }
 }
+
+/// Spans can include the whitespace and the comma after an argument.
+fn trim_separators(span: &str) -> &str {
+    span.trim_matches(|c: char| c.is_whitespace() || c == ',')
+}
-- 
2.43.0


From a3304c78f175cbbb0fda280ddc0883ee61dfef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 07/25] fix: apply argument type and default changes in a patch

---
 .../src/patch/type_definitions.rs             | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 046ad88..99cac14 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -153,6 +153,7 @@ fn patch_fields<'a, T>(
     let mut removed_fields = Vec::new();
     let mut removed_arguments = Vec::new();
     let mut added_arguments = Vec::new();
+    let mut changed_arguments = Vec::new();
 
     for change in paths.iter_second_level(parent) {
         match change.kind() {
@@ -179,6 +180,10 @@ fn patch_fields<'a, T>(
             ChangeKind::RemoveFieldArgument => {
                 removed_arguments.push(change.second_and_third_level());
             }
+            ChangeKind::ChangeFieldArgumentType
+            | ChangeKind::AddFieldArgumentDefault
+            | ChangeKind::ChangeFieldArgumentDefault
+            | ChangeKind::RemoveFieldArgumentDefault => changed_arguments.push(change),
             kind => {
                 debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
             }
@@ -240,12 +245,33 @@ fn patch_fields<'a, T>(
 
                 schema.push_str(argument.name());
                 schema.push_str(": ");
-                schema.push_str(&argument.ty().to_string());
 
-                if argument.default_value().is_some() {
-                    schema.push(' ');
+                let mut ty = None;
+                let mut default_value = argument.default_value().map(|_| {
                     let span = argument.default_value_span();
-                    schema.push_str(&paths.source()[span.start..span.end]);
+                    &paths.source()[span.start..span.end]
+                });
+
+                for change in &changed_arguments {
+                    if change.second_and_third_level() != [field.name(), argument.name()] {
+                        continue;
+                    }
+
+                    match change.kind() {
+                        ChangeKind::ChangeFieldArgumentType => ty = Some(trim_separators(change.resolved_str())),
+                        ChangeKind::RemoveFieldArgumentDefault => default_value = None,
+                        _ => default_value = Some(trim_separators(change.resolved_str())),
+                    }
+                }
+
+                match ty {
+                    Some(ty) => schema.push_str(ty),
+                    None => schema.push_str(&argument.ty().to_string()),
+                }
+
+                if let Some(default_value) = default_value {
+                    schema.push(' ');
+                    schema.push_str(default_value);
                 }
 
                 patch_directives(argument.directives(), schema, paths);
-- 
2.43.0


From 1773cc005c565cbc9d44c74e7423c25ade4525f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 08/25] fix: keep the default values and descriptions of
 patched schemas

---
 .../src/patch/type_definitions.rs             | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 99cac14..a308c2a 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -120,6 +120,13 @@ fn patch_input_object<'a, T: AsRef<str>>(
             continue;
         }
 
+        if let Some(description) = field.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(field.name());
 
@@ -131,6 +138,12 @@ fn patch_input_object<'a, T: AsRef<str>>(
             schema.push_str(&field.ty().to_string());
         }
 
+        if field.default_value().is_some() {
+            schema.push(' ');
+            let span = field.default_value_span();
+            schema.push_str(&paths.source()[span.start..span.end]);
+        }
+
         patch_directives(field.directives(), schema, paths);
 
         schema.push('\n');
@@ -336,6 +349,13 @@ fn patch_enum_values<'a, T>(
             continue;
         }
 
+        if let Some(description) = value.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(value.value());
 
-- 
2.43.0


From 100261b6d775839f90dc78496f90fed7cb893781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 09/25] fix: patch types that change from one kind to another

---
 crates/graphql-schema-diff/src/patch/type_definitions.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index a308c2a..c0ccbf1 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -20,6 +20,13 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
             | ChangeKind::RemoveScalar
             | ChangeKind::RemoveInterface
             | ChangeKind::RemoveInputObject => return,
+            // The new definition of a type that changes kind was already added.
+            ChangeKind::AddObjectType
+            | ChangeKind::AddUnion
+            | ChangeKind::AddEnum
+            | ChangeKind::AddScalar
+            | ChangeKind::AddInterface
+            | ChangeKind::AddInputObject => (),
             kind => {
                 debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
             }
-- 
2.43.0


From 80f22934c86e69802101eeac593505b0609a14c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 10/25] fix: find removed interface implementations whatever
 the names are

---
 crates/graphql-schema-diff/src/patch/paths.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/paths.rs b/crates/graphql-schema-diff/src/patch/paths.rs
index 7b7edd5..f26a10c 100644
--- a/crates/graphql-schema-diff/src/patch/paths.rs
+++ b/crates/graphql-schema-diff/src/patch/paths.rs
@@ -71,13 +71,11 @@ where
     }
 
     pub(crate) fn is_interface_impl_removed(&self, prefix: &str, interface: &str) -> bool {
-        self.paths
-            .binary_search_by(|(path, idx)| {
-                [path[0], path[1].trim_start_matches('&')]
-                    .cmp(&[prefix, interface])
-                    .then(self.diff[*idx].kind.cmp(&ChangeKind::RemoveInterfaceImplementation))
-            })
-            .is_ok()
+        self.paths.iter().any(|(path, idx)| {
+            path[0] == prefix
+                && path[1].strip_prefix('&') == Some(interface)
+                && matches!(self.diff[*idx].kind, ChangeKind::RemoveInterfaceImplementation)
+        })
     }
 }
 
-- 
2.43.0


From d888fcc27456f98cd846004ef57f1cc32bbf40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 11/25] fix: report definitions of different kinds whatever the
 kind of the first one

---
 crates/graphql-composition/src/compose.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/graphql-composition/src/compose.rs b/crates/graphql-composition/src/compose.rs
index c725251..caa546a 100644
--- a/crates/graphql-composition/src/compose.rs
+++ b/crates/graphql-composition/src/compose.rs
@@ -39,6 +39,10 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
             return entity_interface::merge_entity_interface_definitions(ctx, *first, definitions);
         }
 
+        if !validate_consistent_kind(ctx, first, definitions) {
+            return;
+        }
+
         match first.kind {
             DefinitionKind::Object => merge_object_definitions(ctx, first, definitions),
             DefinitionKind::Union => merge_union_definitions(ctx, first, definitions),
@@ -53,14 +57,10 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
     directive_definitions::compose_directive_definitions(ctx);
 }
 
-fn merge_object_definitions<'a>(ctx: &mut Context<'a>, first: &DefinitionView<'a>, definitions: &[DefinitionView<'a>]) {
-    let is_shareable = definitions
-        .iter()
-        .any(|definition| definition.directives.shareable(ctx.subgraphs));
-
+fn validate_consistent_kind(ctx: &mut Context<'_>, first: &DefinitionView<'_>, definitions: &[DefinitionView<'_>]) -> bool {
     if let Some(incompatible) = definitions
         .iter()
-        .find(|definition| definition.kind != DefinitionKind::Object)
+        .find(|definition| definition.kind != first.kind)
     {
         let first_kind = first.kind;
         let second_kind = incompatible.kind;
@@ -70,9 +70,17 @@ fn merge_object_definitions<'a>(ctx: &mut Context<'a>, first: &DefinitionView<'a
         ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(format!(
             "Cannot merge {first_kind:?} with {second_kind:?} (`{name}` in `{first_subgraph}` and `{second_subgraph}`)",
         ), CompositeSchemasPreMergeValidationErrorCode::TypeKindMismatch);
-        return;
+        return false;
     }
 
+    true
+}
+
+fn merge_object_definitions<'a>(ctx: &mut Context<'a>, first: &DefinitionView<'a>, definitions: &[DefinitionView<'a>]) {
+    let is_shareable = definitions
+        .iter()
+        .any(|definition| definition.directives.shareable(ctx.subgraphs));
+
     let is_entity = validate_consistent_entityness(ctx, definitions);
 
     let description = definitions
-- 
2.43.0


From a6bbeac283598be42ddbf27ad1bc8ba084546fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 12/25] fix: do not compose list types of different depths

---
 crates/graphql-composition/src/subgraphs/field_types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/graphql-composition/src/subgraphs/field_types.rs b/crates/graphql-composition/src/subgraphs/field_types.rs
index 5e33db1..9d51037 100644
--- a/crates/graphql-composition/src/subgraphs/field_types.rs
+++ b/crates/graphql-composition/src/subgraphs/field_types.rs
@@ -35,6 +35,11 @@ impl FieldType {
 
         let mut self_wrappers = self.wrapping.list_wrappings();
         let mut other_wrappers = other.wrapping.list_wrappings();
+        // The wrappers should have the same level of nesting.
+        if self_wrappers.len() != other_wrappers.len() {
+            return None;
+        }
+
         let mut zipped_wrappers = (&mut self_wrappers).zip(&mut other_wrappers).peekable();
 
         // Check that the inner requiredness matches if there are wrappers.
-- 
2.43.0


From a20c3a3ca32d1e4f674de4d18fff7f2f85d3f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 13/25] fix: accept directives on type extensions in any order

---
 crates/graphql-composition/src/subgraphs.rs            | 6 +++++-
 crates/graphql-composition/src/subgraphs/directives.rs | 6 +-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs.rs b/crates/graphql-composition/src/subgraphs.rs
index 4f05e69..557aa12 100644
--- a/crates/graphql-composition/src/subgraphs.rs
+++ b/crates/graphql-composition/src/subgraphs.rs
@@ -181,7 +181,11 @@ impl Subgraphs {
 
         self.directives
             .extra_directives
-            .sort_unstable_by_key(|directive| directive.directive_site_id);
+            .sort_by_key(|directive| directive.directive_site_id);
+
+        self.directives
+            .ir_directives
+            .sort_by_key(|(directive_site_id, _)| *directive_site_id);
 
         self.enums
             .values
diff --git a/crates/graphql-composition/src/subgraphs/directives.rs b/crates/graphql-composition/src/subgraphs/directives.rs
index 950e1d9..f7d9664 100644
--- a/crates/graphql-composition/src/subgraphs/directives.rs
+++ b/crates/graphql-composition/src/subgraphs/directives.rs
@@ -58,7 +58,7 @@ pub(super) struct Directives {
     composed_directives: HashSet<(SubgraphId, StringId)>,
 
     /// Directives that can go straight to composition IR.
-    ir_directives: Vec<(DirectiveSiteId, crate::composition_ir::Directive)>,
+    pub(super) ir_directives: Vec<(DirectiveSiteId, crate::composition_ir::Directive)>,
     pub(super) extra_directives: Vec<ExtraDirectiveRecord>,
     extra_directives_on_schema_definition: Vec<(SubgraphId, ExtraDirectiveRecord)>,
 }
@@ -142,10 +142,6 @@ impl Subgraphs {
     }
 
     pub(crate) fn push_directive(&mut self, directive: ExtraDirectiveRecord) {
-        if let Some(last) = self.directives.extra_directives.last() {
-            assert!(directive.directive_site_id >= last.directive_site_id);
-        }
-
         self.directives.extra_directives.push(directive);
     }
 
-- 
2.43.0


From d2988f28c8938e9eefffc5ab3fc4fe93927764cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 14/25] fix: report subselections of builtin scalars in field
 sets

---
 crates/graphql-composition/src/validate/selection.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index 793194f..2778b90 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -225,10 +225,17 @@ fn validate_field_selection(
         return;
     }
 
-    let referenced_type = ctx
+    let Some(referenced_type) = ctx
         .subgraphs
         .definition_by_name_id(field.r#type.definition_name_id, on_definition.subgraph_id)
-        .expect("type is defined in subgraph");
+    else {
+        return ctx.diagnostics.push_fatal(format!(
+            "[{subgraph_name}] Error in @{directive_name} on {directive_path}: the {field_in_selection} field on {definition_name} does not accept subselections.",
+            field_in_selection = ctx.subgraphs[field.name],
+            definition_name = ctx.subgraphs[on_definition.name],
+            directive_path = directive_path(),
+        ));
+    };
 
     for selection in &selection.subselection {
         validate_selection(
-- 
2.43.0


From de32656c9caf8b21fdc875751194722e60a4bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 15/25] fix: leave inaccessible members out of the unions of
 the API schema

---
 .../src/federated_graph/render_sdl/render_api_sdl.rs        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index d4d8f65..5e7a288 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -197,7 +197,11 @@ impl fmt::Display for Renderer<'_> {
             write_public_directives(f, &union.directives, graph)?;
             f.write_str(" =")?;
 
-            let mut members = union.members.iter().peekable();
+            let mut members = union
+                .members
+                .iter()
+                .filter(|member| !is_inaccessible(&graph.at(**member).directives))
+                .peekable();
 
             while let Some(member) = members.next() {
                 f.write_str(" ")?;
-- 
2.43.0


From e170ba03a58963a57c3d774ae53ef5b47fc1f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 16/25] fix: do not split a character when truncating exported
 log values

---
 crates/telemetry/src/otel/logs/bridge.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/telemetry/src/otel/logs/bridge.rs b/crates/telemetry/src/otel/logs/bridge.rs
index e3b9e00..79dc2f0 100644
--- a/crates/telemetry/src/otel/logs/bridge.rs
+++ b/crates/telemetry/src/otel/logs/bridge.rs
@@ -27,6 +27,15 @@ const MAX_FIELDS_PER_EVENT: usize = 50;
 const MAX_FIELD_VALUE_SIZE: usize = 1024;
 const MAX_MESSAGE_SIZE: usize = 8192;
 
+/// Cuts a string to at most `max` bytes, without splitting a character.
+fn truncate_str(s: &str, max: usize) -> &str {
+    let mut end = max.min(s.len());
+    while !s.is_char_boundary(end) {
+        end -= 1;
+    }
+    &s[..end]
+}
+
 /// Extract trace context from the event span, with fallbacks
 fn extract_trace_context<S>(ctx: &Context<'_, S>, event: &Event<'_>) -> Option<(TraceId, SpanId, TraceFlags)>
 where
@@ -124,7 +133,7 @@ where
         // Set the log body (message) with size limit
         let message = visitor.message.unwrap_or_else(|| metadata.name().to_string());
         let truncated_message = if message.len() > MAX_MESSAGE_SIZE {
-            format!("{}...[truncated]", &message[..MAX_MESSAGE_SIZE])
+            format!("{}...[truncated]", truncate_str(&message, MAX_MESSAGE_SIZE))
         } else {
             message
         };
@@ -201,7 +210,7 @@ impl LogRecordVisitor {
 
     fn truncate_string(s: String) -> String {
         if s.len() > MAX_FIELD_VALUE_SIZE {
-            format!("{}...[truncated]", &s[..MAX_FIELD_VALUE_SIZE])
+            format!("{}...[truncated]", truncate_str(&s, MAX_FIELD_VALUE_SIZE))
         } else {
             s
         }
-- 
2.43.0


From 947952019d8da57fb3147243c755de814e3cf032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 17/25] fix: apply the configured span link and event and link
 attribute limits

---
 crates/telemetry/src/otel/traces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/telemetry/src/otel/traces.rs b/crates/telemetry/src/otel/traces.rs
index 624abc3..7839e47 100644
--- a/crates/telemetry/src/otel/traces.rs
+++ b/crates/telemetry/src/otel/traces.rs
@@ -34,7 +34,9 @@ where
     builder = builder
         .with_max_events_per_span(config.tracing.collect.max_events_per_span as u32)
         .with_max_attributes_per_span(config.tracing.collect.max_attributes_per_span as u32)
-        .with_max_events_per_span(config.tracing.collect.max_events_per_span as u32)
+        .with_max_links_per_span(config.tracing.collect.max_links_per_span as u32)
+        .with_max_attributes_per_event(config.tracing.collect.max_attributes_per_event as u32)
+        .with_max_attributes_per_link(config.tracing.collect.max_attributes_per_link as u32)
         .with_resource(resource);
 
     Ok(setup_exporters(builder, config)?.build())
-- 
2.43.0


From 51cc194ff1eb45964b8c1e4cb0df7eb49d7684e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 18/25] fix: bind the right elements for a second array
 parameter in SDK Postgres queries

---
 crates/grafbase-sdk/src/host_io/postgres/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/query.rs b/crates/grafbase-sdk/src/host_io/postgres/query.rs
index 3d66974..336ee4f 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/query.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/query.rs
@@ -222,7 +222,8 @@ impl QueryBuilder {
     /// # Returns
     /// The query builder for method chaining
     pub fn bind(&mut self, value: impl DatabaseType) {
-        let value = value.into_bound_value(self.value_tree.len() as u64);
+        // bind_value() offsets the array indices by the current size of the value_tree.
+        let value = value.into_bound_value(0);
         self.bind_value(value);
     }
 
-- 
2.43.0


From 55a2541bd6ece193d5d5c108a74f9e8514a2b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 19/25] fix: iterate over the elements of a SDK Postgres array
 value in order

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 0919da7..7b5e76b 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -89,7 +89,7 @@ impl DatabaseValue {
         DatabaseValueIterator {
             value: Some(self.value),
             r#type,
-            tree: self.array_values,
+            tree: self.array_values.map(|values| values.into_iter()),
         }
     }
 
@@ -376,7 +376,7 @@ fn hex_to_bytes(s: &str) -> Result<Vec<u8>, SdkError> {
 pub struct DatabaseValueIterator {
     value: Option<wit::PgBoundValue>,
     r#type: wit::PgType,
-    tree: Option<wit::PgValueTree>,
+    tree: Option<std::vec::IntoIter<wit::PgValue>>,
 }
 
 impl Iterator for DatabaseValueIterator {
@@ -384,7 +384,7 @@ impl Iterator for DatabaseValueIterator {
 
     fn next(&mut self) -> Option<Self::Item> {
         let value = match (self.value.take(), self.tree.as_mut()) {
-            (_, Some(array)) => array.pop(),
+            (_, Some(array)) => array.next(),
             (Some(value), _) => Some(value.value),
             _ => None,
         };
-- 
2.43.0


From f8b7f3c6eb5bc46cc18bb3a8a084a77386878023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 20/25] fix: reject out of range integers instead of wrapping
 them in SDK Postgres values

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 7b5e76b..9c468d2 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -247,8 +247,8 @@ impl DatabaseValue {
             serde_json::Value::Number(number) => {
                 if let Some(i) = number.as_i64() {
                     match column_type {
-                        PgType::Int16 => return Ok((i as i16).into_bound_value(0)),
-                        PgType::Int32 => return Ok((i as i32).into_bound_value(0)),
+                        PgType::Int16 => return Ok(int_in_range::<i16>(i)?.into_bound_value(0)),
+                        PgType::Int32 => return Ok(int_in_range::<i32>(i)?.into_bound_value(0)),
                         PgType::Int64 => return Ok(i.into_bound_value(0)),
                         _ => {
                             return Err(SdkError::from("Unsupported type for an int column"));
@@ -295,8 +295,8 @@ impl DatabaseValue {
                         serde_json::Value::Number(number) => {
                             if let Some(i) = number.as_i64() {
                                 let value = match column_type {
-                                    PgType::Int16 => wit::PgValue::Int16(i as i16),
-                                    PgType::Int32 => wit::PgValue::Int32(i as i32),
+                                    PgType::Int16 => wit::PgValue::Int16(int_in_range(i)?),
+                                    PgType::Int32 => wit::PgValue::Int32(int_in_range(i)?),
                                     PgType::Int64 => wit::PgValue::Int64(i),
                                     _ => return Err(SdkError::from("Unsupported type for an integer array column")),
                                 };
@@ -340,6 +340,10 @@ impl DatabaseValue {
     }
 }
 
+fn int_in_range<T: TryFrom<i64>>(value: i64) -> Result<T, SdkError> {
+    T::try_from(value).map_err(|_| SdkError::from(format!("Number out of range: {value}")))
+}
+
 fn hex_to_bytes(s: &str) -> Result<Vec<u8>, SdkError> {
     if !s.starts_with("\\x") {
         return Err(SdkError::from("Input string must start with '\\x'"));
-- 
2.43.0


From b7e4190593a13bfaacae6f899a2200b311bb0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 21/25] fix: accept JSON integers for Postgres float columns in
 the SDK

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 9c468d2..4e77b0f 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -250,6 +250,8 @@ impl DatabaseValue {
                         PgType::Int16 => return Ok(int_in_range::<i16>(i)?.into_bound_value(0)),
                         PgType::Int32 => return Ok(int_in_range::<i32>(i)?.into_bound_value(0)),
                         PgType::Int64 => return Ok(i.into_bound_value(0)),
+                        PgType::Float32 => return Ok((i as f32).into_bound_value(0)),
+                        PgType::Float64 => return Ok((i as f64).into_bound_value(0)),
                         _ => {
                             return Err(SdkError::from("Unsupported type for an int column"));
                         }
@@ -298,6 +300,8 @@ impl DatabaseValue {
                                     PgType::Int16 => wit::PgValue::Int16(int_in_range(i)?),
                                     PgType::Int32 => wit::PgValue::Int32(int_in_range(i)?),
                                     PgType::Int64 => wit::PgValue::Int64(i),
+                                    PgType::Float32 => wit::PgValue::Float32(i as f32),
+                                    PgType::Float64 => wit::PgValue::Float64(i as f64),
                                     _ => return Err(SdkError::from("Unsupported type for an integer array column")),
                                 };
 
-- 
2.43.0


From 51c2dbb19eb41a1ff3d6c7717aec5da76407122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 22/25] fix: reject non-ASCII hex strings instead of panicking
 in SDK Postgres values

---
 crates/grafbase-sdk/src/host_io/postgres/types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/grafbase-sdk/src/host_io/postgres/types.rs b/crates/grafbase-sdk/src/host_io/postgres/types.rs
index 4e77b0f..4acf723 100644
--- a/crates/grafbase-sdk/src/host_io/postgres/types.rs
+++ b/crates/grafbase-sdk/src/host_io/postgres/types.rs
@@ -359,6 +359,10 @@ fn hex_to_bytes(s: &str) -> Result<Vec<u8>, SdkError> {
         return Err(SdkError::from("Hex string part has an odd number of characters"));
     }
 
+    if !hex_part.is_ascii() {
+        return Err(SdkError::from("Hex string part has non-ASCII characters"));
+    }
+
     let mut bytes = Vec::with_capacity(hex_part.len() / 2);
 
     for i in (0..hex_part.len()).step_by(2) {
-- 
2.43.0


From 431b61da6ea283428f9c2445986d82c09041fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 23/25] fix: look cached jq filters up with the hasher they
 were stored with

---
 crates/grafbase-sdk/src/jq_selection.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/grafbase-sdk/src/jq_selection.rs b/crates/grafbase-sdk/src/jq_selection.rs
index a0d83b6..eeea02a 100644
--- a/crates/grafbase-sdk/src/jq_selection.rs
+++ b/crates/grafbase-sdk/src/jq_selection.rs
@@ -50,6 +50,8 @@ pub struct JqSelection {
     // ┬┴┬┴┤ ͡°)
     // ┬┴┬┴┤
     selection_cache: HashTable<(String, usize)>,
+    // The cache is only useful if every lookup hashes with the same seed.
+    hasher: DefaultHashBuilder,
     filters: Vec<Filter<Native<Val>>>,
 }
 
@@ -59,6 +61,7 @@ impl Default for JqSelection {
             arena: Arena::default(),
             inputs: RcIter::new(core::iter::empty()),
             selection_cache: HashTable::new(),
+            hasher: DefaultHashBuilder::default(),
             filters: Vec::new(),
         }
     }
@@ -82,9 +85,8 @@ impl JqSelection {
         selection: &str,
         data: serde_json::Value,
     ) -> Result<impl Iterator<Item = Result<serde_json::Value, SdkError>> + '_, SdkError> {
-        let hasher = DefaultHashBuilder::default();
-        let hash = hasher.hash_one(selection);
-        let hasher = |val: &(String, usize)| hasher.hash_one(&val.0);
+        let hash = self.hasher.hash_one(selection);
+        let hasher = |val: &(String, usize)| self.hasher.hash_one(&val.0);
 
         let idx = match self
             .selection_cache
-- 
2.43.0


From 5df7500e7e4d2ce4b6b9d09c95e2be84e55e00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 24/25] fix: write control characters of strings as hexadecimal
 escapes in the federated SDL

---
 .../src/federated_graph/render_sdl/display_utils.rs             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 951a624..d92978b 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -37,7 +37,7 @@ pub(crate) fn display_graphql_string_literal(string: &str, f: &mut fmt::Formatte
             '\t' => f.write_str("\\t"),
             '\\' => f.write_str("\\\\"),
             '"' => f.write_str("\\\""),
-            c if c.is_control() => write!(f, "\\u{:04}", c as u32),
+            c if c.is_control() => write!(f, "\\u{:04x}", c as u32),
             c => f.write_char(c),
         }?
     }
-- 
2.43.0


From c129b6fc874622e095753c55f5cab88240b3d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:25 +0000
Subject: [PATCH 25/25] fix: escape triple quotes in the descriptions of
 rendered SDL

---
 .../src/federated_graph/render_sdl/display_utils.rs             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index d92978b..062ef11 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -79,6 +79,8 @@ impl fmt::Display for Description<'_> {
                 continue;
             }
 
+            // Triple quotes have to be escaped, or they would end the description.
+            let line = line.replace(r#"""""#, r#"\""""#);
             writeln!(f, r#"{indentation}{line}"#)?;
         }
 
-- 
2.43.0

