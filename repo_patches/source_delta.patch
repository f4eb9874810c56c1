From 08e09f56c303cb3211a298888035554dfefe92dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 01/16] fix: check the limits of an event's data response
 schema on build

---
 src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builder.rs b/src/builder.rs
index 69dc9f4..9fe971b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -921,6 +921,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 [
                     event.subscription.as_ref(),
                     event.data.as_ref(),
+                    event.data_response.as_ref(),
                     event.cancellation.as_ref(),
                 ]
             },
-- 
2.43.0


From 2ca3b4ebd02b2125ce79600e68e561921ebcb4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 02/16] fix: accept satisfiable limits mixing inclusive and
 exclusive bounds

A minimum strictly below a maximum was rejected as soon as one of the two
was exclusive, whereas two equal exclusive bounds were accepted.
---
 src/builder/data_schema.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 55d3d4a..b8d3552 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3850,7 +3850,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                         (Some(x), _) if x.is_nan() => return Err(Error::NanMinMax),
                         (_, Some(x)) if x.is_nan() => return Err(Error::NanMinMax),
                         (Some(min), Some(max))
-                            if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
+                            if is_range_empty(min, max) =>
                         {
                             return Err(Error::InvalidMinMax)
                         }
@@ -3866,7 +3866,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                 }
                 Integer(integer) => match (integer.minimum, integer.maximum) {
                     (Some(min), Some(max))
-                        if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
+                        if is_range_empty(min, max) =>
                     {
                         return Err(Error::InvalidMinMax)
                     }
@@ -3893,6 +3893,21 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
     }
 }
 
+/// No value satisfies both limits: the bounds cross or they meet and at least one is exclusive.
+///
+/// Bounds that cannot be compared (see NaN) are considered an empty range.
+fn is_range_empty<T: PartialOrd>(min: Minimum<T>, max: Maximum<T>) -> bool {
+    match (min, max) {
+        (Minimum::Inclusive(min), Maximum::Inclusive(max)) => {
+            matches!(min.partial_cmp(&max), None | Some(Ordering::Greater))
+        }
+        (Minimum::Inclusive(min), Maximum::Exclusive(max))
+        | (Minimum::Exclusive(min), Maximum::Inclusive(max) | Maximum::Exclusive(max)) => {
+            min.partial_cmp(&max) != Some(Ordering::Less)
+        }
+    }
+}
+
 fn check_one_of_schema<T>(one_of: Option<&[T]>) -> Result<(), Error>
 where
     T: CheckableDataSchema,
-- 
2.43.0


From 45a7d7be5011b74652da06ade21300e49932db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 03/16] fix: reject a NaN multipleOf

---
 src/builder/data_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index b8d3552..07169e4 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3858,7 +3858,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
 
                     match number.multiple_of {
-                        Some(multiple_of) if multiple_of <= 0. => {
+                        Some(multiple_of) if multiple_of.is_nan() || multiple_of <= 0. => {
                             return Err(Error::InvalidMultipleOf)
                         }
                         _ => {}
-- 
2.43.0


From 64d3fa440a1892a5a2d6bc235b13128e79edc6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 04/16] fix: reject a string schema with minLength greater than
 maxLength

---
 src/builder/data_schema.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 07169e4..c88d994 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3876,7 +3876,11 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     properties: Some(properties),
                     ..
                 }) => stack.extend(properties.values()),
-                Object(_) | String(_) | Boolean | Null => {}
+                String(string) => match (string.min_length, string.max_length) {
+                    (Some(min), Some(max)) if min > max => return Err(Error::InvalidMinMax),
+                    _ => {}
+                },
+                Object(_) | Boolean | Null => {}
             }
         }
 
-- 
2.43.0


From 473c58ba865798f9120e30a6687e7c7c43122517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 05/16] fix: check the limits of schema definitions and uri
 variables on build

---
 src/builder.rs            |  7 +++++++
 src/builder/affordance.rs | 13 +++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 9fe971b..5388fe1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -820,6 +820,9 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     .then_some(())
                     .ok_or_else(|| Error::MissingSchemaDefinition(security_name.to_string()))
             })?;
+        schema_definitions
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
         let schema_definitions = schema_definitions
             .into_iter()
             .map(|(key, value)| value.try_into().map(|value| (key, value)))
@@ -872,6 +875,10 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
         if invalid_uri_variables {
             return Err(Error::InvalidUriVariables);
         }
+        uri_variables
+            .iter()
+            .flat_map(HashMap::values)
+            .try_for_each(CheckableDataSchema::check)?;
 
         let uri_variables = uri_variables
             .map(|uri_variables| {
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index a594013..5b138cd 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -23,8 +23,8 @@ use super::{
         impl_inner_delegate_schema_builder_like_number,
         impl_inner_delegate_schema_builder_like_object,
         impl_inner_delegate_schema_builder_like_tuple, impl_inner_delegate_schema_builder_like_vec,
-        uri_variables_contains_arrays_objects, BuildableDataSchema, DataSchemaBuilder,
-        EnumerableDataSchema, IntegerDataSchemaBuilderLike, NumberDataSchemaBuilderLike,
+        uri_variables_contains_arrays_objects, BuildableDataSchema, CheckableDataSchema,
+        DataSchemaBuilder, EnumerableDataSchema, IntegerDataSchemaBuilderLike, NumberDataSchemaBuilderLike,
         ObjectDataSchemaBuilderLike, PartialDataSchema, PartialDataSchemaBuilder,
         ReadableWriteableDataSchema, SpecializableDataSchema, TupleDataSchemaBuilderLike,
         UncheckedDataSchemaFromOther, UncheckedDataSchemaMap, UnionDataSchema,
@@ -2460,7 +2460,9 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
             return Err(Error::InvalidUriVariables);
         }
 
-        Ok(())
+        self.uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)
     }
 }
 
@@ -2486,7 +2488,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
             return Err(Error::InvalidUriVariables);
         }
 
-        Ok(())
+        self.partial
+            .uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)
     }
 }
 
-- 
2.43.0


From 4dbca3e65f9ff3ae3c2f7fbe6f455db84c80fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 06/16] fix: parse back an HTTP response without headers

---
 src/protocol/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/http.rs b/src/protocol/http.rs
index 23c953e..5ce8f77 100644
--- a/src/protocol/http.rs
+++ b/src/protocol/http.rs
@@ -32,7 +32,7 @@ pub struct MessageHeader {
 #[derive(Debug, Clone, Deserialize, Serialize, Default, PartialEq, Eq, Hash)]
 pub struct Response {
     #[serde(rename = "htv:headers")]
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub headers: Vec<MessageHeader>,
     #[serde(rename = "htv:statusCodeValue")]
     pub status_code_value: Option<usize>,
-- 
2.43.0


From 38dfe9e0b966d94b4ee514ee84fd6078b8a491d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 07/16] fix: do not serialize an unset version model as null

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 9e41789..96f021d 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -644,6 +644,7 @@ where
 }
 
 /// Metadata of a `Thing` that provides version information about the _Thing Description_ document.
+#[skip_serializing_none]
 #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct VersionInfo {
     /// The version indicator of this _Thing Description_ instance.
-- 
2.43.0


From 72afe03baae9b9811f0de4040689f7ae7d433653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 08/16] fix: default the qop of a digest security scheme to
 auth when parsing

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 96f021d..1c59771 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1270,6 +1270,7 @@ impl SecurityAuthenticationLocation {
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct DigestSecurityScheme {
     /// Quality of protection.
+    #[serde(default)]
     pub qop: QualityOfProtection,
 
     /// The location of security authentication information.
-- 
2.43.0


From 8c030631f1206787d8bdc5dcf774b9bda36c95ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 09/16] fix: use minItems and maxItems for the limits of an
 array schema

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 1c59771..df6cd5f 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -780,6 +780,7 @@ impl<DS, AS, OS> Default for DataSchemaSubtype<DS, AS, OS> {
 #[serde_as]
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Deserialize, Serialize)]
+#[serde(rename_all = "camelCase")]
 #[serde(bound(
     deserialize = "DS: Deserialize<'de>, AS: Deserialize<'de>, OS: Deserialize<'de>",
     serialize = "DS: Serialize, AS: Serialize, OS: Serialize"
-- 
2.43.0


From 8b32efb53576214a0c1e51b5addfd0a38fb1a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 10/16] fix: keep a null const or default when parsing a data
 schema

---
 src/thing.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index df6cd5f..61aa9a4 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -691,10 +691,11 @@ pub struct DataSchema<DS, AS, OS> {
     pub descriptions: Option<MultiLanguage>,
 
     /// A constant value for the data schema.
-    #[serde(rename = "const")]
+    #[serde(rename = "const", default, deserialize_with = "deserialize_some")]
     pub constant: Option<Value>,
 
     /// A default value for the data schema.
+    #[serde(default, deserialize_with = "deserialize_some")]
     pub default: Option<Value>,
 
     /// Unit information used for the data schema (e.g. Km, g, m/s^2)
@@ -1731,6 +1732,14 @@ pub struct AdditionalExpectedResponse {
     pub schema: Option<String>,
 }
 
+/// Keeps an explicit `null` distinct from a missing field.
+fn deserialize_some<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(Some)
+}
+
 const fn bool_false() -> bool {
     false
 }
-- 
2.43.0


From 5c9915432b0e2ae9a9eefab13274bc2081ce14c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 11/16] fix: check that affordance forms refer to declared
 schema definitions

---
 src/builder.rs            | 17 +++++++++++------
 src/builder/affordance.rs | 24 ++++++++++++++++++++----
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 5388fe1..3b437b1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -845,11 +845,6 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             })
             .transpose()?;
 
-        let schema_definitions = schema_definitions
-            .is_empty()
-            .not()
-            .then_some(schema_definitions);
-
         let context = {
             // TODO: improve this
             if context.len() == 1 {
@@ -904,6 +899,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let actions = try_build_affordance(
             actions,
@@ -919,6 +915,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let events = try_build_affordance(
             events,
@@ -939,7 +936,13 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
+        let schema_definitions = schema_definitions
+            .is_empty()
+            .not()
+            .then_some(schema_definitions);
+
         let links = links
             .map(|links| links.into_iter().map(TryInto::try_into).collect())
             .transpose()?;
@@ -1688,13 +1691,14 @@ where
     }
 }
 
-fn try_build_affordance<A, F, IA, G, DS, T, H, const N: usize>(
+fn try_build_affordance<A, F, IA, G, DS, T, H, S, const N: usize>(
     affordances: Vec<AffordanceBuilder<A>>,
     affordance_type: AffordanceType,
     mut get_interaction: F,
     mut get_data_schemas: G,
     is_allowed_op: H,
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, S>,
 ) -> Result<Option<HashMap<String, T>>, Error>
 where
     F: FnMut(&A) -> &IA,
@@ -1718,6 +1722,7 @@ where
 
                     get_interaction(&affordance).check(
                         security_definitions,
+                        schema_definitions,
                         affordance_type,
                         &is_allowed_op,
                     )?;
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index 5b138cd..2ba43d7 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -2428,9 +2428,10 @@ where
 }
 
 pub(super) trait CheckableInteractionAffordanceBuilder {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2441,9 +2442,10 @@ pub(super) trait CheckableInteractionAffordanceBuilder {
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for PartialInteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2453,6 +2455,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2469,9 +2472,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for InteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, S>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, S>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2481,6 +2485,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.partial.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2495,9 +2500,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     }
 }
 
-pub(super) fn check_form_builders<Other, F>(
+pub(super) fn check_form_builders<Other, F, S>(
     forms: &[FormBuilder<Other, String, Other::Form>],
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, S>,
     affordance_type: AffordanceType,
     is_allowed_op: F,
 ) -> Result<(), Error>
@@ -2528,6 +2534,16 @@ where
                 })
             })
             .transpose()?;
+
+        form.additional_responses
+            .iter()
+            .flat_map(|additional_response| additional_response.schema.as_ref())
+            .try_for_each(|schema| {
+                schema_definitions
+                    .contains_key(schema)
+                    .then_some(())
+                    .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
+            })?;
     }
 
     Ok(())
-- 
2.43.0


From 4122d11cb65b29bb3f3b2537eae905441e6aea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:54 +0000
Subject: [PATCH 12/16] fix: serialize each key of a property affordance only
 once

---
 src/thing.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index 61aa9a4..3ab856b 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -391,8 +391,7 @@ where
 }
 
 /// An affordance that exposes the state of a `Thing`
-#[skip_serializing_none]
-#[derive(Deserialize, Serialize)]
+#[derive(Deserialize)]
 pub struct PropertyAffordance<Other: ExtendableThing> {
     /// The interaction affordance.
     #[serde(flatten)]
@@ -415,6 +414,39 @@ pub struct PropertyAffordance<Other: ExtendableThing> {
     pub other: Other::PropertyAffordance,
 }
 
+impl<Other> Serialize for PropertyAffordance<Other>
+where
+    Other: ExtendableThing,
+    InteractionAffordance<Other>: Serialize,
+    DataSchemaFromOther<Other>: Serialize,
+    Other::PropertyAffordance: Serialize,
+{
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        #[skip_serializing_none]
+        #[derive(Serialize)]
+        struct Fields<'a, Interaction, Schema, Ext> {
+            #[serde(flatten)]
+            interaction: &'a Interaction,
+            #[serde(flatten)]
+            data_schema: &'a Schema,
+            observable: Option<bool>,
+            #[serde(flatten)]
+            other: &'a Ext,
+        }
+
+        // The human readable information is part of both the interaction affordance and the data
+        // schema: going through a `Value` makes sure that each key is serialized only once.
+        serde_json::to_value(Fields {
+            interaction: &self.interaction,
+            data_schema: &self.data_schema,
+            observable: self.observable,
+            other: &self.other,
+        })
+        .map_err(serde::ser::Error::custom)?
+        .serialize(serializer)
+    }
+}
+
 impl<Other> fmt::Debug for PropertyAffordance<Other>
 where
     Other: ExtendableThing,
-- 
2.43.0


From 32630de87488b714f4eb400af83c751e81b55ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:36 +0000
Subject: [PATCH 13/16] fix: do not serialize an empty set of form operations
 as null

---
 src/thing.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 3ab856b..99ef72f 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1708,7 +1708,6 @@ impl Serialize for DefaultedFormOperations {
     {
         match self {
             Self::Default => serializer.serialize_none(),
-            Self::Custom(ops) if ops.is_empty() => serializer.serialize_none(),
             Self::Custom(ops) => ops.serialize(serializer),
         }
     }
-- 
2.43.0


From a7d80d999b450efd7c80502815c3b2c6fac0f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:46 +0000
Subject: [PATCH 14/16] fix: keep a custom security scheme without data equal
 when parsed back

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 3b437b1..b468a4c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2147,7 +2147,7 @@ pub mod security {
                 name,
                 subtype: UnknownSecuritySchemeSubtype {
                     scheme,
-                    data: Value::Null,
+                    data: Value::Object(Default::default()),
                 },
                 required,
             }
-- 
2.43.0


From b6e5154752fccd538a6290c32d59896cd317115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 15/16] fix: read a combo security scheme that carries terms of
 its own

---
 src/thing.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 99ef72f..db99d4e 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1232,7 +1232,7 @@ impl Default for SecuritySchemeSubtype {
 
 /// A combination of security schemes.
 #[serde_as]
-#[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
+#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize)]
 #[serde(rename_all = "camelCase")]
 pub enum ComboSecurityScheme {
     /// Two or more strings identifying other named security scheme definitions, any one of which,
@@ -1244,6 +1244,36 @@ pub enum ComboSecurityScheme {
     AllOf(#[serde_as(as = "OneOrMany<_>")] Vec<String>),
 }
 
+impl<'de> Deserialize<'de> for ComboSecurityScheme {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        // A derived implementation would refuse any other term in the security definition.
+        #[serde_as]
+        #[derive(Deserialize)]
+        #[serde(rename_all = "camelCase")]
+        struct Fields {
+            #[serde(default)]
+            #[serde_as(as = "Option<OneOrMany<_>>")]
+            one_of: Option<Vec<String>>,
+
+            #[serde(default)]
+            #[serde_as(as = "Option<OneOrMany<_>>")]
+            all_of: Option<Vec<String>>,
+        }
+
+        let Fields { one_of, all_of } = Fields::deserialize(deserializer)?;
+        match (one_of, all_of) {
+            (Some(one_of), None) => Ok(Self::OneOf(one_of)),
+            (None, Some(all_of)) => Ok(Self::AllOf(all_of)),
+            _ => Err(serde::de::Error::custom(
+                "expected exactly one of `oneOf` and `allOf`",
+            )),
+        }
+    }
+}
+
 /// Basic Authentication ([RFC7617](https://httpwg.org/specs/rfc7617.html)) security configuration
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
-- 
2.43.0


From d9d55c415368cb83bed9e26dd4cfb11c1359212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:51 +0000
Subject: [PATCH 16/16] fix: keep the last of two texts given for one language
 in different case

---
 src/builder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index b468a4c..15e62b4 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1788,7 +1788,13 @@ impl<T> MultiLanguageBuilder<T> {
     ///
     /// NOTE: The language key is currently free-form
     pub fn add(&mut self, language: impl Into<String>, value: impl Into<T>) -> &mut Self {
-        self.values.insert(language.into(), value.into());
+        let language = language.into();
+        // Tags are normalized on build: without doing it here, which of the values of the same
+        // language is kept would depend on the iteration order of the map.
+        let language = LanguageTag::parse_and_normalize(&language)
+            .map(LanguageTag::into_inner)
+            .unwrap_or(language);
+        self.values.insert(language, value.into());
         self
     }
 
-- 
2.43.0

