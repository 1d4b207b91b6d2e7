From 2705298a59ef8ee6905e1a167203cf323684f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 01/27] fix: verify references below inlined schemas

---
 opg/src/models.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index a761c3e..24a657b 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1045,7 +1045,8 @@ impl ModelReference {
     fn traverse<'a>(&'a self, mut cx: TraverseContext<'a>) -> Result<(), &'a str> {
         match &self {
             ModelReference::Link(ref link) => cx.check(link),
-            _ => Ok(()),
+            ModelReference::Inline(model) => model.traverse(cx),
+            ModelReference::Any => Ok(()),
         }
     }
 }
-- 
2.43.0


From b5b9712b041cf4fb6ff0c6873928e4cd17b5df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:53 +0000
Subject: [PATCH 02/27] fix: do not recurse endlessly on types that contain
 themselves

---
 opg/src/models.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 24a657b..9a8dbf1 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -540,6 +540,13 @@ impl Components {
         let reference = M::select_reference(self, inline, params);
         if let ModelReference::Link(link) = &reference {
             if !self.schemas.contains_key(link) {
+                // Reserve the name, so that a recursive mention resolves to it
+                let reserved = Model {
+                    description: None,
+                    data: ModelOneOf::default().into(),
+                };
+                self.schemas.insert(link.to_owned(), reserved);
+
                 let structure = M::get_schema(self);
                 self.schemas.insert(link.to_owned(), structure);
             }
-- 
2.43.0


From 82dfe71ab2b4a2076b12c95d4d50857f562b1961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:54 +0000
Subject: [PATCH 03/27] fix: keep additional properties when merging object
 schemas

---
 opg/src/models.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 9a8dbf1..9396189 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -986,6 +986,13 @@ impl ModelObject {
                 },
             )?;
 
+        if let Some(additional_properties) = another.additional_properties {
+            if self.additional_properties.is_some() {
+                return Err(ModelMergeError);
+            }
+            self.additional_properties = Some(additional_properties);
+        }
+
         another
             .required
             .into_iter()
-- 
2.43.0


From facd6f39e4ba3a5af594a219cac3e27077259f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:55 +0000
Subject: [PATCH 04/27] fix: omit the absent description of a request body
 instead of writing null

---
 opg/src/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 9396189..a7f9e12 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -346,6 +346,7 @@ impl Serialize for RequestBody {
         struct RequestBodyHelper<'a> {
             #[serde(skip_serializing_if = "is_false")]
             required: bool,
+            #[serde(skip_serializing_if = "Option::is_none")]
             description: &'a Option<String>,
             content: ResponseContent<'a>,
         }
-- 
2.43.0


From 9e480ab5c123ba73306eff2c4e205bffaa8ba648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:56 +0000
Subject: [PATCH 05/27] fix: always write the required paths object

---
 opg/src/models.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index a7f9e12..48ae316 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -29,10 +29,7 @@ pub struct Opg {
     pub servers: Vec<Server>,
 
     /// The available paths and operations for the API
-    #[serde(
-        serialize_with = "serialize_ordered_entries",
-        skip_serializing_if = "Vec::is_empty"
-    )]
+    #[serde(serialize_with = "serialize_ordered_entries")]
     pub paths: Vec<(Path, PathValue)>,
 
     /// An element to hold various schemas for the specification
-- 
2.43.0


From 0c7aa8a95eb30770ecd3b4fda177821a8d7f105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 06/27] fix: describe one-element tuples as arrays, as serde
 writes them

---
 opg/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/lib.rs b/opg/src/lib.rs
index 41d1b77..4ba08a8 100644
--- a/opg/src/lib.rs
+++ b/opg/src/lib.rs
@@ -53,7 +53,7 @@ impl_opg_model!(generic_simple(?Sized): std::cell::RefCell<T>);
 
 impl_opg_model!(generic_simple(nullable): Option<T>);
 
-impl_opg_model!(generic_simple: (T,));
+impl_opg_model!(generic_array: (T,));
 
 impl_opg_model!(generic_tuple: (T1, T2));
 impl_opg_model!(generic_tuple: (T1, T2, T3));
-- 
2.43.0


From 72eb980b7e7d39dc6c362f89937ccdcb2633832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:23 +0000
Subject: [PATCH 07/27] fix: describe a literal-named callback by its own paths

---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 3657741..1734465 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -608,7 +608,7 @@ macro_rules! describe_api {
 
     (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($operations:tt)* }, $($other:tt)*) => {
         let mut callback_object = CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($other)*,);
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($operations)*,);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
-- 
2.43.0


From 97ad52a02df894f9f1b26b981bdd0a32227aaace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:23 +0000
Subject: [PATCH 08/27] fix: name the callback object by its crate path in
 describe_api

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 1734465..f9f0b22 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -607,14 +607,14 @@ macro_rules! describe_api {
     (@opg_path_value_body_properties $result:ident $description:ident $required:ident $schema:ident $(,)?) => {};
 
     (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($operations:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
+        let mut callback_object = $crate::models::CallbackObject::default();
         $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($operations)*,);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
     };
     (@opg_path_value_callbacks $result:ident $context:ident $callback:ident: { $($paths:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
+        let mut callback_object = $crate::models::CallbackObject::default();
         $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert(stringify!($callback).to_owned(), callback_object);
 
-- 
2.43.0


From 1c81b48e8448fb7bd5308bfc43df6c051a856940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:24 +0000
Subject: [PATCH 09/27] fix: accept security schemes given by name in
 describe_api

---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index f9f0b22..4085674 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -370,7 +370,7 @@ macro_rules! describe_api {
         $crate::describe_api!(@opg_security_scheme $result $($schemes)*,)
     };
     (@opg_security_scheme $result:ident $scheme:ident, $($other:tt)*) => {
-        $result.components.security_schemes.insert(stringity!($scheme).to_owned(), $scheme);
+        $result.components.security_schemes.insert(stringify!($scheme).to_owned(), $scheme);
         $crate::describe_api!(@opg_security_scheme $result $($other)*)
     };
     (@opg_security_scheme $result:ident (http $name:literal): {$($properties:tt)+}, $($other:tt)*) => {
-- 
2.43.0


From 9234fd37fd40e0ca715585d8c22b4f396d86d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:25 +0000
Subject: [PATCH 10/27] fix: accept roles in security requirements

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 4085674..fa1c24d 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -585,10 +585,10 @@ macro_rules! describe_api {
 
 
     (@opg_path_value_security_item $result:ident $context:ident $security:literal$([$($role:literal),*])?) => {
-        $context.insert($security.to_owned(), vec![$($($role),*)?])
+        $context.insert($security.to_owned(), vec![$($($role.to_owned()),*)?])
     };
     (@opg_path_value_security_item $result:ident $context:ident $security:ident$([$($role:literal),*])?) => {
-        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role),*)?])
+        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role.to_owned()),*)?])
     };
 
 
-- 
2.43.0


From 3029a7c70c5090218210ffe2a4a735fbe7dd5cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:26 +0000
Subject: [PATCH 11/27] fix: evaluate info properties independently of each
 other

---
 opg/src/macros.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index fa1c24d..039bc2d 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -338,9 +338,8 @@ macro_rules! describe_api {
 
 
     (@opg_property $result:ident info $($property:ident: $property_value:expr),*$(,)?) => {{
-        $(let $property = $crate::describe_api!(@opg_info_property $property $property_value));*;
         $result.info = $crate::models::Info {
-            $($property,)*
+            $($property: $crate::describe_api!(@opg_info_property $property $property_value),)*
             ..Default::default()
         };
     }};
-- 
2.43.0


From a142ac58db837e211b607dd6ecc6c9af08e4ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:55 +0000
Subject: [PATCH 12/27] fix: leave skipped fields out of derived tuple schemas

---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index b77129c..a204409 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -594,6 +594,7 @@ where
 {
     let data = fields
         .iter()
+        .filter(|field| !field.attrs.skip_serializing)
         .map(|field| {
             field_model_reference(
                 ContextParams::from(&field.attrs),
-- 
2.43.0


From 3a4e4e346b20d48449a90c934f669c65bafda208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:56 +0000
Subject: [PATCH 13/27] fix: describe newtype variants with a skipped field as
 unit variants

---
 opg_derive/src/ast.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index 5af4965..d4a806b 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -124,6 +124,11 @@ fn enum_from_ast<'a>(
             .map(|variant| {
                 let attrs = attr::Variant::from_ast(cx, variant);
                 let (style, fields) = struct_from_ast(cx, &variant.fields);
+                // serde writes a newtype variant without its only field as a unit variant
+                let style = match style {
+                    StructStyle::NewType if fields[0].attrs.skip_serializing => StructStyle::Unit,
+                    style => style,
+                };
                 Variant {
                     ident: variant.ident.clone(),
                     attrs,
-- 
2.43.0


From 3208eafe9fa66996d1e1b60c884e27aa80513535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:58 +0000
Subject: [PATCH 14/27] fix: describe adjacently tagged struct variants as
 objects

---
 opg_derive/src/opg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index a204409..64c0a7b 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -213,7 +213,7 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| variant.attrs.inline || field.attrs.inline,
                     )),
-                    StructStyle::Struct => inline_reference(tuple_model(
+                    StructStyle::Struct => inline_reference(object_model(
                         false,
                         &variant.attrs.description,
                         &variant.fields,
-- 
2.43.0


From 4c4c8e718ed41abf71d939f7387908c3791e6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:25 +0000
Subject: [PATCH 15/27] fix: accept unit variants in adjacently tagged enums

---
 opg_derive/src/opg.rs | 51 +++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 64c0a7b..abd7805 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -201,33 +201,59 @@ fn serialize_adjacent_tagged_enum(
                 let variant_name = variant.attrs.name.serialized();
 
                 let type_description = match &variant.style {
+                    // the content of unit variants is not written
+                    StructStyle::Unit => None,
                     StructStyle::NewType => {
                         let field = &variant.fields[0];
                         let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                        field_model_reference(context_params, field, variant.attrs.inline)
+                        Some(field_model_reference(
+                            context_params,
+                            field,
+                            variant.attrs.inline,
+                        ))
                     }
-                    StructStyle::Tuple => inline_reference(tuple_model(
+                    StructStyle::Tuple => Some(inline_reference(tuple_model(
                         false,
                         &variant.attrs.description,
                         &variant.fields,
                         |field| variant.attrs.inline || field.attrs.inline,
-                    )),
-                    StructStyle::Struct => inline_reference(object_model(
+                    ))),
+                    StructStyle::Struct => Some(inline_reference(object_model(
                         false,
                         &variant.attrs.description,
                         &variant.fields,
                         |field| field.attrs.inline || variant.attrs.inline,
-                    )),
-                    _ => unreachable!(),
+                    ))),
                 };
 
                 variants.push(variant_name);
-                one_of.push(type_description);
+                one_of.extend(type_description);
                 (variants, one_of)
             },
         );
 
+    let insert_content = if one_of.is_empty() {
+        quote!()
+    } else {
+        quote! {
+            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
+                _opg::Model {
+                    description: #description,
+                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
+                        one_of: vec![#(#one_of),*],
+                    })
+                }
+            ));
+        }
+    };
+
+    let push_required_content = if one_of.len() < variants.len() {
+        quote!()
+    } else {
+        quote!( required.push(#content.to_owned()); )
+    };
+
     let type_example = option_string(variants.first().map(|x| x.as_str()));
     let type_name_stringified = container.ident.to_string();
 
@@ -253,15 +279,8 @@ fn serialize_adjacent_tagged_enum(
             ));
             required.push(#tag.to_owned());
 
-            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
-                _opg::Model {
-                    description: #description,
-                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                        one_of: vec![#(#one_of),*],
-                    })
-                }
-            ));
-            required.push(#content.to_owned());
+            #insert_content
+            #push_required_content
 
             _opg::ModelTypeDescription::Object(
                 _opg::ModelObject {
-- 
2.43.0


From e8f4d5b62d69094ede37885da2717b4a6ff181eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 16/27] fix: describe the tag of tagged enums that have unit
 variants only

---
 opg_derive/src/attr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index cf406c5..d2e6194 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -502,7 +502,9 @@ fn decide_model_type(
                         );
                         Err(())
                     }
-                    _ => Ok(ModelType::NewType),
+                    TagType::External => Ok(ModelType::NewType),
+                    TagType::Internal { .. } => Ok(ModelType::OneOf),
+                    TagType::Adjacent { .. } => Ok(ModelType::Object),
                 };
             }
 
-- 
2.43.0


From dbf0b07c8d7b1cf359f598cf692eebee69092c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:28 +0000
Subject: [PATCH 17/27] fix: accept tuple and unit variants in untagged enums

---
 opg_derive/src/opg.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index abd7805..0b8c476 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -167,7 +167,21 @@ fn serialize_untagged_enum(
                 &variant.fields,
                 |field| variant.attrs.inline || field.attrs.inline,
             )),
-            _ => unreachable!(),
+            StructStyle::Tuple => inline_reference(tuple_model(
+                false,
+                &variant.attrs.description,
+                &variant.fields,
+                |field| variant.attrs.inline || field.attrs.inline,
+            )),
+            StructStyle::Unit => {
+                let context_params = ContextParams::new()
+                    .description(variant.attrs.description.as_deref())
+                    .tokenize();
+
+                quote! {
+                    cx.mention_schema::<()>(true, &#context_params)
+                }
+            }
         })
         .collect::<Vec<_>>();
 
-- 
2.43.0


From 5451e591c3d2341acc8a75ecf40277c56eb204c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:03 +0000
Subject: [PATCH 18/27] fix: keep nullability written on single-field structs

---
 opg_derive/src/opg.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 0b8c476..af9467a 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -550,11 +550,7 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
 
     let body = match container.attrs.explicit_model_type {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
-            newtype_model(
-                container.attrs.nullable,
-                context_params,
-                explicit_model_type,
-            )
+            newtype_model(context_params, explicit_model_type)
         }
         Some(_) => unreachable!(),
         None => {
@@ -711,7 +707,7 @@ fn field_model_reference<'a>(
 
     match field.attrs.explicit_model_type {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
-            let model = newtype_model(field.attrs.nullable, context_params, explicit_model_type);
+            let model = newtype_model(context_params, explicit_model_type);
 
             quote! {
                 _opg::ModelReference::Inline(#model)
@@ -733,10 +729,10 @@ fn field_model_reference<'a>(
 }
 
 fn newtype_model(
-    nullable: bool,
     context_params: ContextParams,
     explicit_model_type: ExplicitModelType,
 ) -> proc_macro2::TokenStream {
+    let nullable = context_params.nullable.unwrap_or_default();
     let (description, format, example) = context_params.split();
 
     let data = match explicit_model_type {
@@ -908,6 +904,7 @@ impl<'a> ContextParams<'a> {
     {
         let other = other.into();
         self.description = self.description.or(other.description);
+        self.nullable = self.nullable.or(other.nullable);
         self.format = self.format.or(other.format);
         self.example = self.example.or(other.example);
         self
-- 
2.43.0


From dd8bc6cd6cef84d5687f7ef19521e72db4e5c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:04 +0000
Subject: [PATCH 19/27] fix: respect the explicit type of the field of a
 single-field struct

---
 opg_derive/src/opg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index af9467a..5310b3a 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -548,7 +548,12 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
 
     let context_params = ContextParams::from(&field.attrs).or(&container.attrs);
 
-    let body = match container.attrs.explicit_model_type {
+    let explicit_model_type = field
+        .attrs
+        .explicit_model_type
+        .or(container.attrs.explicit_model_type);
+
+    let body = match explicit_model_type {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
             newtype_model(context_params, explicit_model_type)
         }
-- 
2.43.0


From 143527ec60be215768ca00ff664e81acdf40a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:06 +0000
Subject: [PATCH 20/27] fix: keep nullability written on string enums

---
 opg_derive/src/opg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 5310b3a..f1b052f 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -76,6 +76,7 @@ fn serialize_enum(container: &Container, variants: &[Variant]) -> proc_macro2::T
 
 fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_macro2::TokenStream {
     let description = option_string(container.attrs.description.as_deref());
+    let nullable = container.attrs.nullable;
 
     let body = if container.attrs.has_repr {
         let variants = variants
@@ -129,7 +130,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
             _opg::Model {
                 description: #description,
                 data: _opg::ModelData::Single(_opg::ModelType {
-                    nullable: false,
+                    nullable: #nullable,
                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
                         variants: Some(vec![#(#variants.to_owned()),*]),
                         data: _opg::ModelSimple {
-- 
2.43.0


From 75e2749ed81c4d22c7be0539af6a1559c1aa176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 21/27] fix: report descriptions that are not strings

---
 opg_derive/src/attr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index d2e6194..1980d56 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -108,7 +108,7 @@ impl Container {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
@@ -236,7 +236,7 @@ impl Variant {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
@@ -361,7 +361,7 @@ impl Field {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
-- 
2.43.0


From 0f4db435904048b89469c9ed3458ee0a2537d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:09 +0000
Subject: [PATCH 22/27] fix: describe enums by their discriminants under a
 primitive repr only

---
 opg_derive/src/attr.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index 1980d56..cac313e 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -148,9 +148,10 @@ impl Container {
                         format!("unknown opg variant attribute `{}`", path),
                     );
                 }
-                (AttrFrom::Repr, item) => {
-                    has_repr.set_true(item);
+                (AttrFrom::Repr, Meta(Path(word))) if is_primitive_repr(word) => {
+                    has_repr.set_true(word);
                 }
+                (AttrFrom::Repr, _) => {}
             }
         }
 
@@ -468,6 +469,14 @@ pub enum TagType {
     None,
 }
 
+fn is_primitive_repr(path: &syn::Path) -> bool {
+    const PRIMITIVES: [&str; 12] = [
+        "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize",
+    ];
+
+    PRIMITIVES.iter().any(|primitive| path.is_ident(primitive))
+}
+
 fn decide_tag(untagged: BoolAttr, internal_tag: Attr<String>, content: Attr<String>) -> TagType {
     match (
         untagged.0.get_with_tokens(),
-- 
2.43.0


From bf0f35fd5ff074e40488939a7a66126059d937a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:10 +0000
Subject: [PATCH 23/27] fix: describe repr enums by the values of their
 discriminants

---
 opg_derive/src/opg.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index f1b052f..816734c 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -82,16 +82,9 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
         let variants = variants
             .iter()
             .filter(|variant| !variant.attrs.skip_serializing)
-            .filter_map(|variant| {
-                variant
-                    .original
-                    .discriminant
-                    .as_ref()
-                    .map(|(_, discriminant)| (variant.attrs.name.serialized(), discriminant))
-            })
-            .map(|(name, discriminant)| {
-                let description = format!("{} variant", name);
-                let example = quote::ToTokens::to_token_stream(discriminant).to_string();
+            .map(|variant| {
+                let description = format!("{} variant", variant.attrs.name.serialized());
+                let ident = &variant.ident;
 
                 quote! {
                     _opg::Model {
@@ -100,7 +93,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                             nullable: false,
                             type_description: _opg::ModelTypeDescription::Integer(_opg::ModelSimple {
                                 format: None,
-                                example: Some(#example.to_owned()),
+                                example: Some((Self::#ident as i128).to_string()),
                             })
                         }),
                     }
-- 
2.43.0


From adbbc910c254652785c27d1991b8ed8cf8dba06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:12 +0000
Subject: [PATCH 24/27] fix: accept defaults of const parameters

---
 opg_derive/src/bound.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/bound.rs b/opg_derive/src/bound.rs
index 630208f..899e074 100644
--- a/opg_derive/src/bound.rs
+++ b/opg_derive/src/bound.rs
@@ -17,7 +17,12 @@ pub fn without_default(generics: &syn::Generics) -> syn::Generics {
                     default: None,
                     ..param.clone()
                 }),
-                _ => param.clone(),
+                syn::GenericParam::Const(param) => syn::GenericParam::Const(syn::ConstParam {
+                    eq_token: None,
+                    default: None,
+                    ..param.clone()
+                }),
+                syn::GenericParam::Lifetime(_) => param.clone(),
             })
             .collect(),
         ..generics.clone()
-- 
2.43.0


From c51c327ee420efda678c1bacf346f2fdf0ebb748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:13 +0000
Subject: [PATCH 25/27] fix: name types with raw identifiers without the raw
 prefix

---
 opg_derive/src/opg.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 816734c..ba59b0f 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -263,7 +263,7 @@ fn serialize_adjacent_tagged_enum(
     };
 
     let type_example = option_string(variants.first().map(|x| x.as_str()));
-    let type_name_stringified = container.ident.to_string();
+    let type_name_stringified = dummy::unraw(&container.ident);
 
     let struct_type_description = quote! {
         {
@@ -414,7 +414,7 @@ fn serialize_internal_tagged_enum(
     let description = option_string(container.attrs.description.as_deref());
     let nullable = container.attrs.nullable;
 
-    let type_name_stringified = container.ident.to_string();
+    let type_name_stringified = dummy::unraw(&container.ident);
 
     let one_of = variants
         .iter()
@@ -805,6 +805,8 @@ fn implement_type(
     body: proc_macro2::TokenStream,
     inline: bool,
 ) -> proc_macro2::TokenStream {
+    let type_name = dummy::unraw(type_name);
+
     let inline = if inline {
         quote! {
             #[inline]
@@ -821,7 +823,7 @@ fn implement_type(
         quote! {
             #[inline]
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
-                Some(stringify!(#type_name).into())
+                Some(#type_name.into())
             }
         }
     };
-- 
2.43.0


From 3b986138b99678bf602247d20a7ee517d5b3cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:42 +0000
Subject: [PATCH 26/27] fix: keep the tag of internally tagged variants that
 wrap another enum

---
 opg_derive/src/opg.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index ba59b0f..dba6f53 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -473,13 +473,26 @@ fn serialize_internal_tagged_enum(
                         })
                     };
 
-                    let _ = model.try_merge(_opg::Model {
+                    let tag_model = _opg::Model {
                         description: None,
                         data: _opg::ModelData::Single(_opg::ModelType {
                             nullable: #nullable,
                             type_description: additional_object
                         })
-                    });
+                    };
+
+                    // the tag is written beside whatever the variant itself writes
+                    if model.try_merge(tag_model.clone()).is_err() {
+                        model = _opg::Model {
+                            description: None,
+                            data: _opg::ModelData::AllOf(_opg::ModelAllOf {
+                                all_of: vec![
+                                    _opg::ModelReference::Inline(model),
+                                    _opg::ModelReference::Inline(tag_model),
+                                ],
+                            })
+                        };
+                    }
 
                     _opg::ModelReference::Inline(model)
                 }
-- 
2.43.0


From 41c19cc1cecef22b133b89ee2d0833a2ca648e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:35 +0000
Subject: [PATCH 27/27] fix: inline the field of a newtype variant when the
 field asks for it

---
 opg_derive/src/opg.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index dba6f53..bd5673e 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -153,7 +153,11 @@ fn serialize_untagged_enum(
                 let field = &variant.fields[0];
                 let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                field_model_reference(context_params, field, variant.attrs.inline)
+                field_model_reference(
+                    context_params,
+                    field,
+                    variant.attrs.inline || field.attrs.inline,
+                )
             }
             StructStyle::Struct => inline_reference(object_model(
                 false,
@@ -218,7 +222,7 @@ fn serialize_adjacent_tagged_enum(
                         Some(field_model_reference(
                             context_params,
                             field,
-                            variant.attrs.inline,
+                            variant.attrs.inline || field.attrs.inline,
                         ))
                     }
                     StructStyle::Tuple => Some(inline_reference(tuple_model(
@@ -357,7 +361,7 @@ fn serialize_external_tagged_enum(
                         field_model_reference(
                             context_params,
                             field,
-                            variant.attrs.inline,
+                            variant.attrs.inline || field.attrs.inline,
                         )
                     },
                     StructStyle::Tuple => {
-- 
2.43.0

