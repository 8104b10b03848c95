From 47a759013cda3ecded0754aa2d3b29029f6e4f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 01/46] fix: presence tests of models, structures and resources
 were inverted

---
 atelier-core/src/model/mod.rs              | 4 ++--
 atelier-core/src/model/shapes/aggregate.rs | 2 +-
 atelier-core/src/model/shapes/service.rs   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index de723e8..3fa2bfa 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -125,7 +125,7 @@ impl Model {
 
     /// Returns `true` if this model's **metadata** collection has a shape with the provided key`, else `false`.
     pub fn has_metadata_value(&self, key: &str) -> bool {
-        !self.metadata.contains_key(key)
+        self.metadata.contains_key(key)
     }
 
     /// Returns the value in this model's **metadata** collection with the provide key.
@@ -189,7 +189,7 @@ impl Model {
 
     /// Returns `true` if this model's **shapes** collection has a shape with the provided `ShapeID`, else `false`.
     pub fn has_shape(&self, shape_id: &ShapeID) -> bool {
-        !self.shapes.contains_key(shape_id)
+        self.shapes.contains_key(shape_id)
     }
 
     /// Returns the shape in this model's **shapes** collection with the provided `ShapeID`.
diff --git a/atelier-core/src/model/shapes/aggregate.rs b/atelier-core/src/model/shapes/aggregate.rs
index e13a341..512a3ef 100644
--- a/atelier-core/src/model/shapes/aggregate.rs
+++ b/atelier-core/src/model/shapes/aggregate.rs
@@ -200,7 +200,7 @@ impl StructureOrUnion {
 
     /// Returns `true` if this structure or union has a member with the given name, else `false`.
     pub fn has_member(&self, member_name: &Identifier) -> bool {
-        !self.members.contains_key(member_name)
+        self.members.contains_key(member_name)
     }
 
     /// Returns the member in the structure or union with the given name, else `None`.
diff --git a/atelier-core/src/model/shapes/service.rs b/atelier-core/src/model/shapes/service.rs
index 9c5827e..1f789e9 100644
--- a/atelier-core/src/model/shapes/service.rs
+++ b/atelier-core/src/model/shapes/service.rs
@@ -171,7 +171,7 @@ impl Resource {
 
     /// Returns `true` if this resource has an identifier with the provided name, else `false`.
     pub fn has_identifier(&self, name: &Identifier) -> bool {
-        !self.identifiers.contains_key(name)
+        self.identifiers.contains_key(name)
     }
 
     /// Returns the identifier's value, which should always be `Value::String`, representing the
-- 
2.43.0


From 6a69640867f3b8731683e71396d8a173c75b5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 02/46] fix: hash and order identifiers ignoring case,
 consistently with equality

---
 atelier-core/src/model/identity.rs | 49 +++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/atelier-core/src/model/identity.rs b/atelier-core/src/model/identity.rs
index ccd0764..c40d325 100644
--- a/atelier-core/src/model/identity.rs
+++ b/atelier-core/src/model/identity.rs
@@ -3,8 +3,9 @@ use crate::syntax::{
     SHAPE_ID_ABSOLUTE_SEPARATOR, SHAPE_ID_MEMBER_SEPARATOR, SHAPE_ID_NAMESPACE_SEPARATOR,
 };
 use regex::Regex;
+use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -18,8 +19,7 @@ use std::str::FromStr;
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct Identifier(String);
 
 ///
@@ -30,9 +30,8 @@ pub struct Identifier(String);
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
 #[allow(clippy::upper_case_acronyms)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct NamespaceID(String);
 
 ///
@@ -132,6 +131,26 @@ impl PartialEq for Identifier {
     }
 }
 
+impl Hash for Identifier {
+    // MUST be consistent with `PartialEq`, which ignores case.
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl PartialOrd for Identifier {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Identifier {
+    // MUST be consistent with `PartialEq`, which ignores case.
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl Identifier {
     /// Create a new instance **without** checking that the provided string is a legal identifier.
     pub fn new_unchecked(s: &str) -> Self {
@@ -178,6 +197,26 @@ impl PartialEq for NamespaceID {
     }
 }
 
+impl Hash for NamespaceID {
+    // MUST be consistent with `PartialEq`, which ignores case.
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl PartialOrd for NamespaceID {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for NamespaceID {
+    // MUST be consistent with `PartialEq`, which ignores case.
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl NamespaceID {
     /// Create a new instance **without** checking that the provided string is a legal namespace.
     pub fn new_unchecked(s: &str) -> Self {
-- 
2.43.0


From 79681ea421bbe6f9c30db920908c771c378646ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 03/46] fix: comparing structures with different members
 panicked

---
 atelier-core/src/model/shapes/aggregate.rs | 12 ++++++++++++
 atelier-core/src/model/shapes/mod.rs       | 18 ++----------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/atelier-core/src/model/shapes/aggregate.rs b/atelier-core/src/model/shapes/aggregate.rs
index 512a3ef..26dd0c6 100644
--- a/atelier-core/src/model/shapes/aggregate.rs
+++ b/atelier-core/src/model/shapes/aggregate.rs
@@ -164,6 +164,18 @@ impl Map {
 
 // ------------------------------------------------------------------------------------------------
 
+impl NonTraitEq for StructureOrUnion {
+    fn equal_without_traits(&self, other: &Self) -> bool {
+        self.members.len() == other.members.len()
+            && self.members.iter().all(|(name, member)| {
+                other
+                    .member(name)
+                    .map(|other| member.equal_without_traits(other))
+                    .unwrap_or(false)
+            })
+    }
+}
+
 impl Default for StructureOrUnion {
     fn default() -> Self {
         Self {
diff --git a/atelier-core/src/model/shapes/mod.rs b/atelier-core/src/model/shapes/mod.rs
index 714bea5..f031c0d 100644
--- a/atelier-core/src/model/shapes/mod.rs
+++ b/atelier-core/src/model/shapes/mod.rs
@@ -358,22 +358,8 @@ impl NonTraitEq for TopLevelShape {
                 (ShapeKind::Map(l), ShapeKind::Map(r)) => {
                     l.key.equal_without_traits(&r.key) && l.value.equal_without_traits(&r.value)
                 }
-                (ShapeKind::Structure(l), ShapeKind::Structure(r)) => {
-                    l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
-                        })
-                }
-                (ShapeKind::Union(l), ShapeKind::Union(r)) => {
-                    l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
-                        })
-                }
+                (ShapeKind::Structure(l), ShapeKind::Structure(r)) => l.equal_without_traits(r),
+                (ShapeKind::Union(l), ShapeKind::Union(r)) => l.equal_without_traits(r),
                 (ShapeKind::Service(l), ShapeKind::Service(r)) => l == r,
                 (ShapeKind::Operation(l), ShapeKind::Operation(r)) => l == r,
                 (ShapeKind::Resource(l), ShapeKind::Resource(r)) => l == r,
-- 
2.43.0


From f38b5e7feb15b4c6471f2ecc29159d7f3e9bafd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 04/46] fix: merging shapes dropped the traits of members

---
 atelier-core/src/model/mod.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index 3fa2bfa..910a683 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -239,8 +239,8 @@ impl Model {
                     }
                 }
                 (true, false) => {
-                    existing.set_body(shape.body().clone());
                     copy_traits(existing, &shape)?;
+                    existing.set_body(shape.body().clone());
                 }
                 _ => {
                     copy_traits(existing, &shape)?;
@@ -303,8 +303,26 @@ impl Model {
 
 #[inline]
 fn copy_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> ModelResult<()> {
-    for (id, value) in from_shape.traits() {
-        to_shape.apply_with_value(id.clone(), value.clone())?;
+    to_shape.append_traits(from_shape.traits())?;
+    // the shapes are known to have the same members, if they both have members at all.
+    match (to_shape.body_mut(), from_shape.body()) {
+        (ShapeKind::List(to), ShapeKind::List(from))
+        | (ShapeKind::Set(to), ShapeKind::Set(from)) => {
+            to.member.append_traits(from.member.traits())?;
+        }
+        (ShapeKind::Map(to), ShapeKind::Map(from)) => {
+            to.key.append_traits(from.key.traits())?;
+            to.value.append_traits(from.value.traits())?;
+        }
+        (ShapeKind::Structure(to), ShapeKind::Structure(from))
+        | (ShapeKind::Union(to), ShapeKind::Union(from)) => {
+            for (name, to_member) in to.members.iter_mut() {
+                if let Some(from_member) = from.member(name) {
+                    to_member.append_traits(from_member.traits())?;
+                }
+            }
+        }
+        _ => {}
     }
     Ok(())
 }
-- 
2.43.0


From 6fbbc3cffa011d2ea6ccf0ad12ea563d5a404c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 05/46] fix: the set shapes of a model builder became lists

---
 atelier-core/src/builder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 58f9ee1..5e08718 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -423,7 +423,7 @@ impl ModelBuilder {
         }
         Ok(TopLevelShape::with_traits(
             shape_id,
-            ShapeKind::List(ListOrSet::from(MemberShape::with_traits(
+            ShapeKind::Set(ListOrSet::from(MemberShape::with_traits(
                 builder.member.member_name.clone(),
                 target_id,
                 self.make_traits(&builder.member.applied_traits, references)?,
-- 
2.43.0


From e787a80b0591a2f1e0fad89c815b2a20f0dad640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 06/46] fix: model builders silently dropped conflicting or
 repeated definitions, members, traits and metadata

---
 atelier-core/src/builder/mod.rs | 93 +++++++++++++++++----------------
 atelier-core/src/error.rs       |  6 +++
 2 files changed, 53 insertions(+), 46 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 5e08718..2afd4d4 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,7 +19,7 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
+    merge_traits, AppliedTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
     TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
@@ -29,9 +29,9 @@ use crate::prelude::{
 };
 use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
 use crate::Version;
+use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
-use std::iter::FromIterator;
 use std::str::FromStr;
 pub use values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
 
@@ -48,8 +48,9 @@ pub struct ModelBuilder {
     default_namespace: NamespaceID,
     prelude_namespace: NamespaceID,
     smithy_version: Version,
-    metadata: ValueMap,
+    metadata: Vec<(String, Value)>,
     shapes: HashMap<ShapeName, TopLevelShapeBuilder>,
+    duplicates: Vec<TopLevelShapeBuilder>,
 }
 
 #[allow(clippy::large_enum_variant)]
@@ -86,14 +87,14 @@ impl TryFrom<&mut ModelBuilder> for Model {
     fn try_from(builder: &mut ModelBuilder) -> Result<Self, Self::Error> {
         let mut model = Model::new(builder.smithy_version);
         for (k, v) in builder.metadata.iter() {
-            let _ = model.add_metadata(k.clone(), v.clone());
+            let _ = model.add_metadata(k.clone(), v.clone())?;
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
-        for shape in builder.shapes.values() {
-            let _ = model.add_shape(builder.make_shape(&shape, &mut unresolved)?);
+        for shape in builder.shapes.values().chain(builder.duplicates.iter()) {
+            model.add_shape(builder.make_shape(shape, &mut unresolved)?)?;
         }
         for shape_id in unresolved {
-            let _ = model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved));
+            model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
         }
         Ok(model)
     }
@@ -109,6 +110,7 @@ impl ModelBuilder {
             smithy_version,
             metadata: Default::default(),
             shapes: Default::default(),
+            duplicates: Default::default(),
         }
     }
 
@@ -198,24 +200,26 @@ impl ModelBuilder {
 
     /// Set a metadata value.
     pub fn meta_data(&mut self, key: String, value: Value) -> &mut Self {
-        let _ = self.metadata.insert(key, value);
+        self.metadata.push((key, value));
         self
     }
 
     /// Set a metadata value.
     pub fn meta_data_from(&mut self, value_map: ValueMap) -> &mut Self {
-        for (key, value) in value_map {
-            let _ = self.metadata.insert(key, value);
-        }
+        self.metadata.extend(value_map);
         self
     }
 
     // --------------------------------------------------------------------------------------------
 
     fn insert(&mut self, id: ShapeName, shape: TopLevelShapeBuilder) -> &mut Self {
-        let previous = self.shapes.insert(id, shape);
-        if previous.is_some() {
-            info!("Interestingly the shape seems to have been added more than once?",);
+        // The same shape may be added more than once, the model decides whether the definitions
+        // can be merged or are in conflict.
+        match self.shapes.entry(id) {
+            Entry::Vacant(entry) => {
+                let _ = entry.insert(shape);
+            }
+            Entry::Occupied(_) => self.duplicates.push(shape),
         }
         self
     }
@@ -473,23 +477,22 @@ impl ModelBuilder {
         builder: &StructureBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<StructureOrUnion, Error> {
-        let members: Result<Vec<MemberShape>, Error> = builder
-            .members
-            .iter()
-            .map(|mb| {
-                let (member_target_id, new_reference) =
-                    self.resolve_shape_name(&mb.target, false)?;
-                if new_reference {
-                    let _ = references.insert(member_target_id.clone());
-                }
-                Ok(MemberShape::with_traits(
-                    mb.member_name.clone(),
-                    member_target_id,
-                    self.make_traits(&mb.applied_traits, references)?,
-                ))
-            })
-            .collect();
-        members.map(|members| StructureOrUnion::with_members(&members))
+        let mut members = StructureOrUnion::new();
+        for mb in &builder.members {
+            let (member_target_id, new_reference) = self.resolve_shape_name(&mb.target, false)?;
+            if new_reference {
+                let _ = references.insert(member_target_id.clone());
+            }
+            let duplicate = members.add_a_member(MemberShape::with_traits(
+                mb.member_name.clone(),
+                member_target_id,
+                self.make_traits(&mb.applied_traits, references)?,
+            ));
+            if duplicate.is_some() {
+                return Err(ErrorKind::DuplicateMember(mb.member_name.to_string()).into());
+            }
+        }
+        Ok(members)
     }
 
     fn make_structure(
@@ -699,22 +702,20 @@ impl ModelBuilder {
         &self,
         builders: &[TraitBuilder],
         references: &mut HashSet<ShapeID>,
-    ) -> Result<HashMap<ShapeID, Option<Value>>, Error> {
-        let pairs: Result<Vec<(ShapeID, Option<Value>)>, Error> = builders
-            .iter()
-            .cloned()
-            .map(|builder| {
-                let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
-                if new_reference {
-                    let _ = references.insert(shape_id.clone());
-                }
-                Ok((shape_id, builder.value))
-            })
-            .collect();
-        match pairs {
-            Ok(pairs) => Ok(HashMap::from_iter(pairs)),
-            Err(err) => Err(err),
+    ) -> Result<AppliedTraits, Error> {
+        let mut traits: AppliedTraits = Default::default();
+        for builder in builders {
+            let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
+            if new_reference {
+                let _ = references.insert(shape_id.clone());
+            }
+            let value = match traits.get(&shape_id) {
+                None => builder.value.clone(),
+                Some(value) => merge_traits(&shape_id, value, &builder.value)?,
+            };
+            let _ = traits.insert(shape_id, value);
         }
+        Ok(traits)
     }
 }
 
diff --git a/atelier-core/src/error.rs b/atelier-core/src/error.rs
index 98add96..48e6c68 100644
--- a/atelier-core/src/error.rs
+++ b/atelier-core/src/error.rs
@@ -58,6 +58,12 @@ error_chain! {
             display("An unknown member ID was encountered: '{}'.", s)
         }
 
+        #[doc = "A shape has more than one member with the same name."]
+        DuplicateMember(s: String) {
+            description("A shape has more than one member with the same name.")
+            display("A shape has more than one member with the same name: '{}'.", s)
+        }
+
         #[doc = "A shape name resolved to multiple shape IDs"]
         AmbiguousShape(s: String) {
             description("A shape name resolved to multiple shape IDs")
-- 
2.43.0


From 0abba3710f3d12b378ebf693d74e0d5f3fa85310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 07/46] fix: model builders renamed definitions with imported
 names, and traits applied before a definition or to members panicked or
 became imports

---
 atelier-core/src/builder/mod.rs | 256 ++++++++++++--------------------
 1 file changed, 95 insertions(+), 161 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 2afd4d4..3461d57 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,15 +19,14 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    merge_traits, AppliedTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
-    TopLevelShape,
+    merge_traits, AppliedTraits, HasTraits, ListOrSet, Map, MemberShape, Operation, Resource,
+    Service, ShapeKind, StructureOrUnion, TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
-use crate::model::{Identifier, Model, NamespaceID, ShapeID};
+use crate::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use crate::prelude::{
     defined_prelude_shapes, defined_prelude_traits, prelude_namespace_id, PRELUDE_NAMESPACE,
 };
-use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
 use crate::Version;
 use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet};
@@ -51,6 +50,7 @@ pub struct ModelBuilder {
     metadata: Vec<(String, Value)>,
     shapes: HashMap<ShapeName, TopLevelShapeBuilder>,
     duplicates: Vec<TopLevelShapeBuilder>,
+    applied: Vec<(ShapeName, TraitBuilder)>,
 }
 
 #[allow(clippy::large_enum_variant)]
@@ -93,6 +93,9 @@ impl TryFrom<&mut ModelBuilder> for Model {
         for shape in builder.shapes.values().chain(builder.duplicates.iter()) {
             model.add_shape(builder.make_shape(shape, &mut unresolved)?)?;
         }
+        for (shape_name, a_trait) in &builder.applied {
+            builder.apply_to(&mut model, shape_name, a_trait, &mut unresolved)?;
+        }
         for shape_id in unresolved {
             model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
         }
@@ -111,6 +114,7 @@ impl ModelBuilder {
             metadata: Default::default(),
             shapes: Default::default(),
             duplicates: Default::default(),
+            applied: Default::default(),
         }
     }
 
@@ -185,11 +189,13 @@ impl ModelBuilder {
     }
 
     /// Applies a trait to the shape named `shape`. IF the shape is not present in the model
-    /// a new reference builder is created and the trait applied to it. This is similar to the
-    /// way the `apply` statement works in the Smithy IDL.
+    /// an unresolved shape is created and the trait applied to it. This is similar to the way the
+    /// `apply` statement works in the Smithy IDL; the shape is looked up when the model is
+    /// constructed and so may be defined before or after the trait is applied.
     pub fn apply(&mut self, shape: &str, a_trait: TraitBuilder) -> &mut Self {
         let shape_name = ShapeName::from_str(shape).unwrap();
-        self.apply_to(&shape_name, a_trait)
+        self.applied.push((shape_name, a_trait));
+        self
     }
 
     /// Create and add a new resource shape to this model using the `ResourceBuilder` instance.
@@ -213,6 +219,17 @@ impl ModelBuilder {
     // --------------------------------------------------------------------------------------------
 
     fn insert(&mut self, id: ShapeName, shape: TopLevelShapeBuilder) -> &mut Self {
+        // A shape defined with an absolute ID in the default namespace is a local definition.
+        let id = match id {
+            ShapeName::Qualified(id)
+                if id.namespace() == &self.default_namespace
+                    && !id.is_member()
+                    && !matches!(shape, TopLevelShapeBuilder::Reference(_)) =>
+            {
+                ShapeName::Local(id.shape_name().clone())
+            }
+            id => id,
+        };
         // The same shape may be added more than once, the model decides whether the definitions
         // can be merged or are in conflict.
         match self.shapes.entry(id) {
@@ -245,6 +262,8 @@ impl ModelBuilder {
     /// 4. If a relative shape ID does not satisfy one of the above cases, the shape ID is invalid,
     ///    and the namespace is inherited from the *current namespace*.
     ///
+    /// A name that is both imported and defined in the current namespace is ambiguous.
+    ///
     /// TODO: what about `Service::renames`?
     ///
     fn resolve_shape_name(
@@ -279,6 +298,12 @@ impl ModelBuilder {
                     &references
                 );
                 match references.len() {
+                    1 if self.shapes.contains_key(shape_name)
+                        && references[0].namespace() != Some(&self.default_namespace) =>
+                    {
+                        error!("shape resolution failed, shape is both imported and local");
+                        Err(ErrorKind::AmbiguousShape(local.to_string()).into())
+                    }
                     1 => {
                         // 1. a `use_statement` has imported a shape with the same name
                         trace!("SUCCESS: a use statement imports this shape explicitly");
@@ -318,37 +343,50 @@ impl ModelBuilder {
         }
     }
 
-    fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
+    /// Resolve the name of a shape being defined; unlike a reference to a shape a local name is
+    /// always in the current namespace.
+    fn defined_shape_name(&self, shape_name: &ShapeName) -> Result<ShapeID, Error> {
         match shape_name {
-            ShapeName::Qualified(shape_id) => {
-                if let Some(member_name) = shape_id.member_name() {
-                    let parent_shape = ShapeName::from(shape_id.shape_only());
-                    if let Some(shape) = self.shapes.get_mut(&parent_shape) {
-                        apply_to_member(shape, member_name, a_trait);
-                    } else {
-                        panic!("No shape named {} for member {}", parent_shape, member_name);
-                    }
-                } else if let Some(shape) = self.shapes.get_mut(&shape_name) {
-                    apply_to_shape(shape, a_trait);
-                } else {
-                    let mut builder = ReferenceBuilder::from(shape_id.clone());
-                    let _ = builder.apply_trait(a_trait);
-                    let _ = self.reference(builder);
-                }
-                self
-            }
             ShapeName::Local(local) => {
-                // This is disallowed in the Smithy IDL which requires apply statements to take
-                // qualified names.
-                let (shape_id, new_reference) = self
-                    .resolve_shape_name(&local.clone().into(), false)
-                    .unwrap();
-                if new_reference {
-                    let _ = self.reference(ReferenceBuilder::from(shape_id.clone()));
-                }
-                self.apply_to(&shape_id.into(), a_trait)
+                // this will detect names that are also imported.
+                let _ = self.resolve_shape_name(shape_name, false)?;
+                Ok(self.default_namespace.make_shape(local.clone()))
+            }
+            ShapeName::Qualified(_) => Ok(self.resolve_shape_name(shape_name, false)?.0),
+        }
+    }
+
+    fn apply_to(
+        &self,
+        model: &mut Model,
+        shape_name: &ShapeName,
+        a_trait: &TraitBuilder,
+        references: &mut HashSet<ShapeID>,
+    ) -> Result<(), Error> {
+        let shape_id = match shape_name {
+            ShapeName::Qualified(shape_id) => shape_id.clone(),
+            // This is disallowed in the Smithy IDL which requires apply statements to take
+            // qualified names.
+            ShapeName::Local(_) => self.resolve_shape_name(shape_name, false)?.0,
+        };
+        let traits = self.make_traits(std::slice::from_ref(a_trait), references)?;
+        if let Some(member_name) = shape_id.member_name() {
+            if let Some(shape) = model
+                .shape_mut(&shape_id.shape_only())
+                .filter(|shape| !shape.is_unresolved())
+            {
+                return match member_mut(shape, member_name) {
+                    Some(member) => member.append_traits(&traits),
+                    None => Err(ErrorKind::UnknownMember(shape_id.to_string()).into()),
+                };
             }
         }
+        // This will be merged with the definition of the shape, if there is one.
+        model.add_shape(TopLevelShape::with_traits(
+            shape_id,
+            ShapeKind::Unresolved,
+            traits,
+        ))
     }
 
     fn make_shape(
@@ -377,10 +415,7 @@ impl ModelBuilder {
         builder: &SimpleShapeBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_name(&builder.shape_name)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Simple(builder.simple_shape.clone()),
@@ -393,10 +428,7 @@ impl ModelBuilder {
         builder: &ListBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_name(&builder.shape_name)?;
         let (target_id, new_reference) = self.resolve_shape_name(&builder.member.target, false)?;
         if new_reference {
             let _ = references.insert(target_id.clone());
@@ -417,10 +449,7 @@ impl ModelBuilder {
         builder: &ListBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_name(&builder.shape_name)?;
         let (target_id, new_reference) = self.resolve_shape_name(&builder.member.target, false)?;
         if new_reference {
             let _ = references.insert(target_id.clone());
@@ -441,10 +470,7 @@ impl ModelBuilder {
         builder: &MapBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_name(&builder.shape_name)?;
         let (key_target_id, new_reference) = self.resolve_shape_name(&builder.key.target, false)?;
         if new_reference {
             let _ = references.insert(key_target_id.clone());
@@ -500,10 +526,7 @@ impl ModelBuilder {
         builder: &StructureBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_name(&builder.shape_name)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Structure(self.make_structure_inner(builder, references)?),
@@ -516,10 +539,7 @@ impl ModelBuilder {
         builder: &StructureBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_name(&builder.shape_name)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Union(self.make_structure_inner(builder, references)?),
@@ -532,10 +552,7 @@ impl ModelBuilder {
         builder: &ServiceBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_name(&builder.shape_name)?;
         let mut service = Service::new(&builder.version);
         for member_shape_id in &builder.operations {
             let (shape_id, new_reference) = self.resolve_shape_name(&member_shape_id, false)?;
@@ -566,10 +583,7 @@ impl ModelBuilder {
         builder: &OperationBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_name(&builder.shape_name)?;
         let mut operation = Operation::default();
         if let Some(shape_id) = &builder.input {
             let (shape_id, new_reference) = self.resolve_shape_name(&shape_id, false)?;
@@ -604,10 +618,7 @@ impl ModelBuilder {
         builder: &ResourceBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_name(&builder.shape_name)?;
         let mut resource = Resource::default();
         for (name, shape_ref) in &builder.identifiers {
             let (shape_id, new_reference) = self.resolve_shape_name(shape_ref, false)?;
@@ -723,102 +734,25 @@ impl ModelBuilder {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
-fn apply_to_member(
-    shape: &mut TopLevelShapeBuilder,
+fn member_mut<'a>(
+    shape: &'a mut TopLevelShape,
     member_name: &Identifier,
-    a_trait: TraitBuilder,
-) {
-    let ok = match shape {
-        TopLevelShapeBuilder::List(shape) => {
-            if member_name.to_string() == MEMBER_MEMBER {
-                let _ = shape.member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Set(shape) => {
-            if member_name.to_string() == MEMBER_MEMBER {
-                let _ = shape.member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Map(shape) => {
-            if member_name.to_string() == MEMBER_KEY {
-                let _ = shape.key.apply_trait(a_trait);
-                true
-            } else if member_name.to_string() == MEMBER_VALUE {
-                let _ = shape.value.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Structure(shape) => {
-            if let Some(member) = shape
-                .members
-                .iter_mut()
-                .find(|m| &m.member_name == member_name)
-            {
-                let _ = member.apply_trait(a_trait);
-                true
+) -> Option<&'a mut MemberShape> {
+    match shape.body_mut() {
+        ShapeKind::List(list_or_set) | ShapeKind::Set(list_or_set) => {
+            Some(&mut list_or_set.member).filter(|member| member.id() == member_name)
+        }
+        ShapeKind::Map(map) => {
+            if map.key.id() == member_name {
+                Some(&mut map.key)
             } else {
-                false
+                Some(&mut map.value).filter(|member| member.id() == member_name)
             }
         }
-        TopLevelShapeBuilder::Union(shape) => {
-            if let Some(member) = shape
-                .members
-                .iter_mut()
-                .find(|m| &m.member_name == member_name)
-            {
-                let _ = member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        _ => false,
-    };
-    if !ok {
-        panic!("Shape does not have a traitable member {}", member_name);
-    }
-}
-
-fn apply_to_shape(shape: &mut TopLevelShapeBuilder, a_trait: TraitBuilder) {
-    match shape {
-        TopLevelShapeBuilder::SimpleShape(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::List(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Set(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Map(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Structure(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Union(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Service(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Operation(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Resource(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Reference(shape) => {
-            let _ = shape.apply_trait(a_trait);
+        ShapeKind::Structure(structure) | ShapeKind::Union(structure) => {
+            structure.members.get_mut(member_name)
         }
+        _ => None,
     }
 }
 
-- 
2.43.0


From 08d6dc95b90bae631a9f9dcb2c70c09c0ddfbd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 08/46] fix: an import was lost when the imported shape is also
 defined with its absolute ID

---
 atelier-core/src/builder/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 3461d57..39adc6f 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -243,9 +243,12 @@ impl ModelBuilder {
 
     fn reference_names(&self) -> impl Iterator<Item = &ShapeName> {
         self.shapes
-            .iter()
-            .filter(|(_, builder)| matches!(builder, TopLevelShapeBuilder::Reference(_)))
-            .map(|(id, _)| id)
+            .values()
+            .chain(self.duplicates.iter())
+            .filter_map(|builder| match builder {
+                TopLevelShapeBuilder::Reference(builder) => Some(&builder.shape_id),
+                _ => None,
+            })
     }
 
     ///
@@ -288,10 +291,11 @@ impl ModelBuilder {
             }
             ShapeName::Local(local) => {
                 trace!("Local Identifier: proceeding with resolution...");
-                let references: Vec<&ShapeName> = self
+                let references: HashSet<&ShapeName> = self
                     .reference_names()
                     .filter(|shape_name| shape_name.shape_name() == local)
                     .collect();
+                let references: Vec<&ShapeName> = references.into_iter().collect();
                 debug!(
                     "Found {} references to check, references => {:#?}",
                     references.len(),
-- 
2.43.0


From 539fc0e9195e10c80e052fa27560e71e77b6881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 09/46] fix: apply statements in the Smithy IDL were always
 rejected

---
 atelier-smithy/src/parser/smithy.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 232a20a..6c74654 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -4,8 +4,8 @@ use crate::parser::error::ParserError;
 use crate::REPRESENTATION_NAME;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
-    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ReferenceBuilder,
-    ResourceBuilder, ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
+    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ResourceBuilder,
+    ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
 };
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
@@ -192,6 +192,10 @@ fn parse_shape_statements(
             Rule::shape_statement => {
                 parse_shape_statement(shape_statement, builder)?;
             }
+            Rule::apply_statement => {
+                let (shape_id, a_trait) = parse_apply_statement(shape_statement)?;
+                let _ = builder.apply(&shape_id, a_trait);
+            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statements", shape_statement),
         }
@@ -259,10 +263,6 @@ fn parse_shape_statement(
                 apply_traits(&mut shape, &documentation, &traits);
                 let _ = builder.resource(shape);
             }
-            Rule::apply_statement => {
-                let shape = parse_apply_statement(shape_statement)?;
-                let _ = builder.reference(shape);
-            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statement", shape_statement),
         }
@@ -724,27 +724,22 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
     }
 }
 
-fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ReferenceBuilder> {
+fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<(String, TraitBuilder)> {
     entry!("parse_apply_statement", input_pair);
     let mut id: Option<String> = None;
     let mut a_trait: Option<TraitBuilder> = None;
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
-            Rule::identifier => {
+            Rule::shape_id => {
                 id = Some(inner.as_str().to_string());
             }
             Rule::a_trait => a_trait = Some(parse_a_trait(inner)?),
             _ => unexpected!("parse_apply_statement", inner),
         }
     }
-    if let Some(id) = id {
-        let mut reference = ReferenceBuilder::new(&id);
-        if let Some(a_trait) = a_trait {
-            let _ = reference.apply_trait(a_trait);
-        }
-        Ok(reference)
-    } else {
-        ParserError::unreachable("parse_apply_statement").into()
+    match (id, a_trait) {
+        (Some(id), Some(a_trait)) => Ok((id, a_trait)),
+        _ => ParserError::unreachable("parse_apply_statement").into(),
     }
 }
 
-- 
2.43.0


From 3ad5dc4684a06907f52fe1704be799a622799423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 10/46] fix: traits on the members of sets and maps were lost,
 and repeated map members accepted, when parsing IDL

---
 atelier-smithy/src/parser/smithy.rs | 44 +++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 6c74654..bb16f15 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -10,7 +10,7 @@ use atelier_core::builder::{
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
 use atelier_core::model::values::{Number, Value as NodeValue, ValueMap};
-use atelier_core::model::{Identifier, Model};
+use atelier_core::model::Model;
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
@@ -229,7 +229,7 @@ fn parse_shape_statement(
                 let _ = builder.list(shape);
             }
             Rule::set_statement => {
-                let mut shape = parse_list_statement(shape_statement)?;
+                let mut shape = parse_set_statement(shape_statement)?;
                 apply_traits(&mut shape, &documentation, &traits);
                 let _ = builder.set(shape);
             }
@@ -407,10 +407,25 @@ fn parse_simple_shape_statement(input_pair: Pair<'_, Rule>) -> ModelResult<Simpl
 
 fn parse_list_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ListBuilder> {
     entry!("parse_list_statement", input_pair);
+    let (id, member) = parse_single_member_statement(input_pair)?;
+    Ok(ListBuilder::with_target(&id, member.target().clone()))
+}
+
+fn parse_set_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ListBuilder> {
+    entry!("parse_set_statement", input_pair);
+    let (id, member) = parse_single_member_statement(input_pair)?;
+    let mut shape = ListBuilder::with_target(&id, member.target().clone());
+    shape.target(member);
+    Ok(shape)
+}
+
+fn parse_single_member_statement(
+    input_pair: Pair<'_, Rule>,
+) -> ModelResult<(String, MemberBuilder)> {
     let (id, members) = parse_membered_statement(input_pair)?;
     if let Some(member) = members.get(0) {
-        if members.len() == 1 && member.name() == &Identifier::new_unchecked(MEMBER_MEMBER) {
-            Ok(ListBuilder::with_target(&id, member.target().clone()))
+        if members.len() == 1 && member.name().to_string() == MEMBER_MEMBER {
+            Ok((id, member.clone()))
         } else {
             ParserError::new("parse_list_statement")
                 .unreachable_rule()
@@ -428,13 +443,14 @@ fn parse_list_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ListBuilder>
 fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
     entry!("parse_map_statement", input_pair);
     let (id, members) = parse_membered_statement(input_pair)?;
-    let mut key: Option<String> = None;
-    let mut value: Option<String> = None;
+    let mut key: Option<MemberBuilder> = None;
+    let mut value: Option<MemberBuilder> = None;
     for member in members {
-        if member.name() == &Identifier::new_unchecked(MEMBER_KEY) {
-            key = Some(member.target().to_string())
-        } else if member.name() == &Identifier::new_unchecked(MEMBER_VALUE) {
-            value = Some(member.target().to_string())
+        let member_name = member.name().to_string();
+        if member_name == MEMBER_KEY && key.is_none() {
+            key = Some(member)
+        } else if member_name == MEMBER_VALUE && value.is_none() {
+            value = Some(member)
         } else {
             return ParserError::new("parse_map_statement")
                 .unreachable_rule()
@@ -443,7 +459,13 @@ fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
         }
     }
     match (key, value) {
-        (Some(k), Some(v)) => Ok(MapBuilder::new(&id, &k, &v)),
+        (Some(key), Some(value)) => {
+            let mut shape =
+                MapBuilder::new(&id, &key.target().to_string(), &value.target().to_string());
+            shape.key(key);
+            shape.value(value);
+            Ok(shape)
+        }
         _ => ParserError::unreachable("parse_map_statement").into(),
     }
 }
-- 
2.43.0


From b3ce90332758d078d1055e37794932cde7d6342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 11/46] fix: applying a trait to a member named by a relative
 ID panicked

---
 atelier-core/src/builder/mod.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 39adc6f..fc4d46b 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -50,7 +50,7 @@ pub struct ModelBuilder {
     metadata: Vec<(String, Value)>,
     shapes: HashMap<ShapeName, TopLevelShapeBuilder>,
     duplicates: Vec<TopLevelShapeBuilder>,
-    applied: Vec<(ShapeName, TraitBuilder)>,
+    applied: Vec<(ShapeName, Option<Identifier>, TraitBuilder)>,
 }
 
 #[allow(clippy::large_enum_variant)]
@@ -93,8 +93,14 @@ impl TryFrom<&mut ModelBuilder> for Model {
         for shape in builder.shapes.values().chain(builder.duplicates.iter()) {
             model.add_shape(builder.make_shape(shape, &mut unresolved)?)?;
         }
-        for (shape_name, a_trait) in &builder.applied {
-            builder.apply_to(&mut model, shape_name, a_trait, &mut unresolved)?;
+        for (shape_name, member_name, a_trait) in &builder.applied {
+            builder.apply_to(
+                &mut model,
+                shape_name,
+                member_name,
+                a_trait,
+                &mut unresolved,
+            )?;
         }
         for shape_id in unresolved {
             model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
@@ -193,8 +199,15 @@ impl ModelBuilder {
     /// `apply` statement works in the Smithy IDL; the shape is looked up when the model is
     /// constructed and so may be defined before or after the trait is applied.
     pub fn apply(&mut self, shape: &str, a_trait: TraitBuilder) -> &mut Self {
-        let shape_name = ShapeName::from_str(shape).unwrap();
-        self.applied.push((shape_name, a_trait));
+        // A relative ID may also name a member, `Shape$member`.
+        let (shape_name, member_name) = match shape.find('$') {
+            Some(index) if !shape.contains('#') => (
+                Identifier::from_str(&shape[..index]).unwrap().into(),
+                Some(Identifier::from_str(&shape[index + 1..]).unwrap()),
+            ),
+            _ => (ShapeName::from_str(shape).unwrap(), None),
+        };
+        self.applied.push((shape_name, member_name, a_trait));
         self
     }
 
@@ -364,6 +377,7 @@ impl ModelBuilder {
         &self,
         model: &mut Model,
         shape_name: &ShapeName,
+        member_name: &Option<Identifier>,
         a_trait: &TraitBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<(), Error> {
@@ -373,6 +387,10 @@ impl ModelBuilder {
             // qualified names.
             ShapeName::Local(_) => self.resolve_shape_name(shape_name, false)?.0,
         };
+        let shape_id = match member_name {
+            Some(member_name) => shape_id.make_member(member_name.clone()),
+            None => shape_id,
+        };
         let traits = self.make_traits(std::slice::from_ref(a_trait), references)?;
         if let Some(member_name) = shape_id.member_name() {
             if let Some(shape) = model
-- 
2.43.0


From 91eac3ea0e295b240f492a2e7057787742a51a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 12/46] fix: IDL statements with a missing version or invalid
 names panicked, and service renames were rejected

---
 atelier-smithy/src/parser/smithy.rs | 110 +++++++++++++++++++++-------
 1 file changed, 84 insertions(+), 26 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index bb16f15..e7f16aa 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -2,6 +2,7 @@
 
 use crate::parser::error::ParserError;
 use crate::REPRESENTATION_NAME;
+use atelier_core::builder::id::ShapeName;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
     ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ResourceBuilder,
@@ -10,11 +11,12 @@ use atelier_core::builder::{
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
 use atelier_core::model::values::{Number, Value as NodeValue, ValueMap};
-use atelier_core::model::Model;
+use atelier_core::model::{Identifier, Model, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE,
+    MEMBER_VERSION,
 };
 use atelier_core::Version;
 use pest::error::Error as PestError;
@@ -303,7 +305,7 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
             Rule::shape_id => {
-                id = Some(inner.as_str().to_string());
+                id = Some(valid_shape_name(inner.as_str())?);
             }
             Rule::node_value => {
                 node_value = Some(parse_node_value(inner)?);
@@ -541,7 +543,7 @@ fn parse_shape_member_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<MemberBuild
                 id = Some(inner.as_str().to_string());
             }
             Rule::shape_id => {
-                shape_id = Some(inner.as_str().to_string());
+                shape_id = Some(valid_shape_name(inner.as_str())?);
             }
             _ => unexpected!("parse_shape_member_kvp", inner),
         }
@@ -560,17 +562,14 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
     entry!("parse_service_statement", input_pair);
     let (id, object) = parse_id_and_object(input_pair)?;
     if let NodeValue::Object(object) = object {
-        let mut service = ServiceBuilder::new(
-            &id,
-            object.get(MEMBER_VERSION).unwrap().as_string().unwrap(),
-        );
+        let mut service = ServiceBuilder::new(&id, service_version(&object)?);
         for (key, value) in object {
-            match key.as_str() {
+            match unquote(&key) {
                 MEMBER_VERSION => {}
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.operation(&value.as_string().unwrap());
+                            let _ = service.operation(&value_as_shape_name(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -581,7 +580,26 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.resource(&value.as_string().unwrap());
+                            let _ = service.resource(&value_as_shape_name(&value)?);
+                        }
+                    } else {
+                        return ParserError::unreachable("parse_service_statement")
+                            .context(&value)
+                            .into();
+                    }
+                }
+                MEMBER_RENAME => {
+                    if let NodeValue::Object(renames) = value {
+                        for (shape_id, local_name) in renames {
+                            let shape_id = ShapeID::from_str(unquote(&shape_id))?;
+                            if let NodeValue::String(local_name) = &local_name {
+                                let local_name = valid_identifier(local_name)?;
+                                let _ = service.rename(&shape_id.to_string(), &local_name);
+                            } else {
+                                return ParserError::unreachable("parse_service_statement")
+                                    .context(&local_name)
+                                    .into();
+                            }
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -610,17 +628,17 @@ fn parse_operation_statement(input_pair: Pair<'_, Rule>) -> ModelResult<Operatio
     if let NodeValue::Object(object) = object {
         let mut operation = OperationBuilder::new(&id);
         for (key, value) in object {
-            match key.as_str() {
+            match unquote(&key) {
                 MEMBER_INPUT => {
-                    let _ = operation.input(&value.as_string().unwrap());
+                    let _ = operation.input(&value_as_shape_name(&value)?);
                 }
                 MEMBER_OUTPUT => {
-                    let _ = operation.output(&value.as_string().unwrap());
+                    let _ = operation.output(&value_as_shape_name(&value)?);
                 }
                 MEMBER_ERRORS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = operation.error(&value.as_string().unwrap());
+                            let _ = operation.error(&value_as_shape_name(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_operation_statement")
@@ -649,11 +667,12 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
     if let NodeValue::Object(object) = object {
         let mut resource = ResourceBuilder::new(&id);
         for (key, value) in object {
-            match key.as_str() {
+            match unquote(&key) {
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
-                            let _ = resource.identifier(&id, &target.as_string().unwrap());
+                            let id = valid_identifier(unquote(&id))?;
+                            let _ = resource.identifier(&id, &value_as_shape_name(&target)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -662,27 +681,27 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                     }
                 }
                 MEMBER_CREATE => {
-                    let _ = resource.create(&value.as_string().unwrap());
+                    let _ = resource.create(&value_as_shape_name(&value)?);
                 }
                 MEMBER_PUT => {
-                    let _ = resource.put(&value.as_string().unwrap());
+                    let _ = resource.put(&value_as_shape_name(&value)?);
                 }
                 MEMBER_READ => {
-                    let _ = resource.read(&value.as_string().unwrap());
+                    let _ = resource.read(&value_as_shape_name(&value)?);
                 }
                 MEMBER_UPDATE => {
-                    let _ = resource.update(&value.as_string().unwrap());
+                    let _ = resource.update(&value_as_shape_name(&value)?);
                 }
                 MEMBER_DELETE => {
-                    let _ = resource.delete(&value.as_string().unwrap());
+                    let _ = resource.delete(&value_as_shape_name(&value)?);
                 }
                 MEMBER_LIST => {
-                    let _ = resource.list(&value.as_string().unwrap());
+                    let _ = resource.list(&value_as_shape_name(&value)?);
                 }
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.operation(&value.as_string().unwrap());
+                            let _ = resource.operation(&value_as_shape_name(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -693,7 +712,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_COLLECTION_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.collection_operation(&value.as_string().unwrap());
+                            let _ = resource.collection_operation(&value_as_shape_name(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -704,7 +723,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.resource(&value.as_string().unwrap());
+                            let _ = resource.resource(&value_as_shape_name(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -727,6 +746,45 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
     }
 }
 
+fn service_version(object: &ValueMap) -> ModelResult<&String> {
+    let version = object
+        .iter()
+        .find(|(key, _)| unquote(key) == MEMBER_VERSION)
+        .and_then(|(_, value)| value.as_string());
+    match version {
+        Some(version) if !version.is_empty() => Ok(version),
+        _ => ParserError::new("parse_service_statement")
+            .expecting("a version")
+            .debug_context(&version)
+            .into(),
+    }
+}
+
+fn value_as_shape_name(value: &NodeValue) -> ModelResult<String> {
+    match value {
+        NodeValue::String(shape_name) => valid_shape_name(shape_name),
+        _ => ParserError::new("value_as_shape_name")
+            .expecting("a shape ID")
+            .context(&value)
+            .into(),
+    }
+}
+
+fn valid_shape_name(shape_name: &str) -> ModelResult<String> {
+    Ok(ShapeName::from_str(shape_name)?.to_string())
+}
+
+fn valid_identifier(identifier: &str) -> ModelResult<String> {
+    Ok(Identifier::from_str(identifier)?.to_string())
+}
+
+/// Object keys that were quoted retain their quotation marks.
+fn unquote(key: &str) -> &str {
+    key.strip_prefix('"')
+        .and_then(|key| key.strip_suffix('"'))
+        .unwrap_or(key)
+}
+
 fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeValue)> {
     entry!("parse_id_and_object", input_pair);
     let mut id: Option<String> = None;
-- 
2.43.0


From bb65e478a9d608f43721250963588e3cb79a0850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 13/46] fix: lexical errors in the IDL grammar: identifiers
 with several leading underscores, comments at the end of the text, characters
 above U+10FFF, exponents, keywords as prefixes and text blocks starting with
 a comment

---
 atelier-smithy/src/parser/smithy.rs | 16 +++++++++++-----
 atelier-smithy/src/smithy.pest      | 26 ++++++++++++++------------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index e7f16aa..cfbd1f3 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -275,7 +275,8 @@ fn parse_shape_statement(
 fn parse_documentation_text(input_pair: Pair<'_, Rule>) -> ModelResult<String> {
     entry!("parse_documentation_text", input_pair);
     if input_pair.as_rule() == Rule::documentation_text {
-        Ok(input_pair.as_str().trim_start().to_string())
+        let text = input_pair.as_str();
+        Ok(text.strip_prefix(' ').unwrap_or(text).to_string())
     } else {
         ParserError::new("parse_documentation_text")
             .context(&input_pair)
@@ -830,10 +831,15 @@ fn parse_node_value(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         Rule::node_array => parse_node_array(inner)?,
         Rule::node_object => parse_node_object(inner)?,
         Rule::number => {
-            if inner.as_str().contains('.') {
-                NodeValue::Number(Number::Float(
-                    inner.as_str().parse().chain_err(|| "number format error")?,
-                ))
+            if inner.as_str().contains(|c| matches!(c, '.' | 'e' | 'E')) {
+                let value: f64 = inner.as_str().parse().chain_err(|| "number format error")?;
+                if !value.is_finite() {
+                    return ParserError::new("parse_node_value")
+                        .expecting("a number in range")
+                        .context(&inner.as_str())
+                        .into();
+                }
+                NodeValue::Number(Number::Float(value))
             } else {
                 NodeValue::Number(Number::Integer(
                     inner.as_str().parse().chain_err(|| "number format error")?,
diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 2c844c6..4b162c6 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -8,16 +8,16 @@ sp =
     _{ " " | "\t" }
 
 br =
-    _{ ws ~ EOI? }
+    _{ (sp | NEWLINE)* }
 
 line_comment =
-    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFF}')* ~ NEWLINE }
+    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ (NEWLINE | !ANY) }
 
 documentation_comment =
     _{ ws ~ "///" ~ documentation_text ~ NEWLINE }
 
 documentation_text =
-    { ("\t" | '\u{20}'..'\u{10FFF}')* }
+    { ("\t" | '\u{20}'..'\u{10FFFF}')* }
 
 control_section =
     { control_statement* }
@@ -41,8 +41,7 @@ namespace =
     @{ identifier ~ ("." ~ identifier)* }
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 
 shape_id_member =
     { "$" ~ identifier }
@@ -112,17 +111,20 @@ zero =
 node_keywords =
     _{ kw_true | kw_false | kw_null }
 
-kw_true = { "true" }
+kw_true = @{ "true" ~ !id_char }
 
-kw_false = { "false" }
+kw_false = @{ "false" ~ !id_char }
 
-kw_null = { "null" }
+kw_null = @{ "null" ~ !id_char }
+
+id_char =
+    _{ ASCII_ALPHA | ASCII_DIGIT | "_" | "." | "#" | "$" }
 
 quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
 
 quoted_chars =
-    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 escaped_char =
     {escape ~ (escape | "'" | DQUOTE | "b" | "f" | "n" | "r" | "t" | "/" | unicode_escape) }
@@ -131,7 +133,7 @@ unicode_escape =
     { "u" ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT }
 
 preserved_double =
-    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}') }
+    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}') }
 
 escape =
     { "\\" }
@@ -143,7 +145,7 @@ text_block =
 //     _{ DQUOTE ~ DQUOTE ~ DQUOTE }
 
 block_quoted_chars =
-    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 DQUOTE =
     _{ "\"" }
@@ -256,7 +258,7 @@ trait_body =
 //     _{ "(" ~ ws ~  ")" }
 //
 // populated_trait_body =
-    _{ "(" ~ ws ~ (trait_body_value ~ ws)* ~ ")" }
+    _{ "(" ~ ws ~ (trait_body_value ~ ws)? ~ ")" }
 
 trait_body_value =
     _{ trait_structure | node_value }
-- 
2.43.0


From f5d01b79d444c62b82bff2bf9d6a5ca0c2348245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 14/46] fix: the IDL parser dropped repeated metadata and
 object keys, metadata without a namespace and unsupported version numbers

---
 atelier-smithy/src/parser/smithy.rs | 55 ++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index cfbd1f3..5c59850 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -75,10 +75,16 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 Rule::control_section,
                 parse_control_section
             );
-            let version = if let Some(NodeValue::String(version)) = control_data.get("version") {
-                Version::from_str(version)?
-            } else {
-                Version::default()
+            let version = match control_data.get("version") {
+                None => Version::default(),
+                Some(NodeValue::String(version)) => Version::from_str(version)?,
+                Some(NodeValue::Number(version)) => Version::from_str(&version.to_string())?,
+                Some(version) => {
+                    return ParserError::new("parse_idl")
+                        .expecting("a version")
+                        .context(version)
+                        .into()
+                }
             };
             let meta_data = next_pair_into!(
                 "parse_idl",
@@ -90,8 +96,19 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 parse_shape_section(item, version)
             });
             match builder {
-                None => Ok(Model::default()),
-                Some(mut builder) => builder.meta_data_from(meta_data).try_into(),
+                None => {
+                    let mut model = Model::new(version);
+                    for (key, value) in meta_data {
+                        let _ = model.add_metadata(key, value)?;
+                    }
+                    Ok(model)
+                }
+                Some(mut builder) => {
+                    for (key, value) in meta_data {
+                        let _ = builder.meta_data(key, value);
+                    }
+                    builder.try_into()
+                }
             }
         }
         _ => unexpected!("parse_idl", input_pair),
@@ -108,14 +125,14 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::control_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        insert_unique(&mut map, unquote(&key).to_string(), value)?;
     }
     Ok(map)
 }
 
-fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
+fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<Vec<(String, NodeValue)>> {
     entry!("parse_metadata_section", input_pair);
-    let mut map: ValueMap = Default::default();
+    let mut metadata: Vec<(String, NodeValue)> = Default::default();
     for inner in input_pair.into_inner() {
         let (key, value) = pair_into!(
             "parse_control_section",
@@ -123,9 +140,9 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::metadata_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        metadata.push((unquote(&key).to_string(), value));
     }
-    Ok(map)
+    Ok(metadata)
 }
 
 fn parse_shape_section(
@@ -313,7 +330,7 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
             }
             Rule::trait_structure_kvp => {
                 let (id, value) = parse_trait_structure_kvp(inner)?;
-                let _ = members.insert(id, value);
+                insert_unique(&mut members, id, value)?;
             }
             _ => unexpected!("parse_a_trait", inner),
         }
@@ -903,7 +920,7 @@ fn parse_node_object(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         match inner.as_rule() {
             Rule::node_object_kvp => {
                 let (key, value) = parse_node_object_kvp(inner)?;
-                let _ = object.insert(key, value);
+                insert_unique(&mut object, key, value)?;
             }
             _ => unexpected!("parse_node_object", inner),
         }
@@ -933,6 +950,18 @@ fn parse_node_object_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<(String, Nod
     }
 }
 
+fn insert_unique(object: &mut ValueMap, key: String, value: NodeValue) -> ModelResult<()> {
+    if object.contains_key(&key) {
+        ParserError::new("insert_unique")
+            .expecting("a unique key")
+            .context(&key)
+            .into()
+    } else {
+        let _ = object.insert(key, value);
+        Ok(())
+    }
+}
+
 fn from_pest_error(e: PestError<Rule>) -> Error {
     Error::with_chain(
         e,
-- 
2.43.0


From 023b4c7b16a3dbc1d51ef6b6070525cd58180a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 15/46] fix: deeply nested IDL models and selectors overflowed
 the stack

---
 atelier-smithy/src/parser/mod.rs      |  2 +
 atelier-smithy/src/parser/nesting.rs  | 88 +++++++++++++++++++++++++++
 atelier-smithy/src/parser/selector.rs |  2 +
 atelier-smithy/src/parser/smithy.rs   |  2 +
 4 files changed, 94 insertions(+)
 create mode 100644 atelier-smithy/src/parser/nesting.rs

diff --git a/atelier-smithy/src/parser/mod.rs b/atelier-smithy/src/parser/mod.rs
index a2ecc59..391f81b 100644
--- a/atelier-smithy/src/parser/mod.rs
+++ b/atelier-smithy/src/parser/mod.rs
@@ -83,3 +83,5 @@ pub use smithy::parse_and_debug_model;
 
 mod selector;
 pub use selector::parse_selector;
+
+mod nesting;
diff --git a/atelier-smithy/src/parser/nesting.rs b/atelier-smithy/src/parser/nesting.rs
new file mode 100644
index 0000000..167fcfb
--- /dev/null
+++ b/atelier-smithy/src/parser/nesting.rs
@@ -0,0 +1,88 @@
+use crate::parser::error::ParserError;
+use atelier_core::error::Result as ModelResult;
+
+// ------------------------------------------------------------------------------------------------
+// Public Functions
+// ------------------------------------------------------------------------------------------------
+
+/// The parsers are recursive, this limit ensures that the nesting of brackets in their input can
+/// not exhaust the stack; it is the same as the limit used by the JSON parser.
+const MAX_NESTING: usize = 128;
+
+///
+/// Check the nesting of brackets in a Smithy IDL model, ignoring those in comments and strings.
+///
+pub(super) fn check_model_nesting(input: &str) -> ModelResult<()> {
+    let mut nesting = Nesting::default();
+    let mut rest = input;
+    while let Some(c) = rest.chars().next() {
+        rest = if rest.starts_with("//") {
+            rest.find(|c| c == '\n' || c == '\r')
+                .map(|end| &rest[end..])
+        } else if let Some(text) = rest.strip_prefix("\"\"\"") {
+            skip_text(text, "\"\"\"")
+        } else if let Some(text) = rest.strip_prefix('"') {
+            skip_text(text, "\"")
+        } else {
+            nesting.next(c)?;
+            Some(&rest[c.len_utf8()..])
+        }
+        .unwrap_or_default();
+    }
+    Ok(())
+}
+
+///
+/// Check the nesting of brackets in a selector expression, ignoring those in strings.
+///
+pub(super) fn check_selector_nesting(input: &str) -> ModelResult<()> {
+    let mut nesting = Nesting::default();
+    let mut quote: Option<char> = None;
+    for c in input.chars() {
+        match quote {
+            None if c == '"' || c == '\'' => quote = Some(c),
+            None => nesting.next(c)?,
+            Some(q) if q == c => quote = None,
+            Some(_) => {}
+        }
+    }
+    Ok(())
+}
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+#[derive(Default)]
+struct Nesting(usize);
+
+impl Nesting {
+    fn next(&mut self, c: char) -> ModelResult<()> {
+        match c {
+            '[' | '{' | '(' => self.0 += 1,
+            ']' | '}' | ')' => self.0 = self.0.saturating_sub(1),
+            _ => {}
+        }
+        if self.0 > MAX_NESTING {
+            ParserError::new("check_nesting")
+                .expecting("fewer nested values")
+                .into()
+        } else {
+            Ok(())
+        }
+    }
+}
+
+/// Return the text following the end of a string, if it ends.
+fn skip_text<'a>(mut text: &'a str, end: &str) -> Option<&'a str> {
+    loop {
+        if let Some(rest) = text.strip_prefix(end) {
+            return Some(rest);
+        }
+        let mut chars = text.chars();
+        if chars.next()? == '\\' {
+            let _ = chars.next()?;
+        }
+        text = chars.as_str();
+    }
+}
diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index 45efa16..274e30b 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::upper_case_acronyms)]
 
 use crate::parser::error::ParserError;
+use crate::parser::nesting::check_selector_nesting;
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult};
 use atelier_core::model::selector::{
     AttributeComparison, AttributeSelector, Comparator, Function, Key, KeyPathSegment,
@@ -32,6 +33,7 @@ struct SelectorParser;
 ///
 pub fn parse_selector(input: &str) -> ModelResult<Selector> {
     info!("parse_selector({})", input);
+    check_selector_nesting(input)?;
     let mut parsed = SelectorParser::parse(Rule::input, input).map_err(from_pest_error)?;
     let top_pair = parsed.next().unwrap();
     match top_pair.as_rule() {
diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 5c59850..95c4c17 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::upper_case_acronyms)]
 
 use crate::parser::error::ParserError;
+use crate::parser::nesting::check_model_nesting;
 use crate::REPRESENTATION_NAME;
 use atelier_core::builder::id::ShapeName;
 use atelier_core::builder::shapes::ShapeTraits;
@@ -43,6 +44,7 @@ struct SmithyParser;
 /// Parse a Smithy model from the Smithy IDL representation.
 ///
 pub fn parse_model(input: &str) -> ModelResult<Model> {
+    check_model_nesting(input)?;
     let mut parsed = SmithyParser::parse(Rule::idl, input).map_err(from_pest_error)?;
     let top_node = parsed.next().unwrap();
     parse_idl(top_node)
-- 
2.43.0


From 6e06e4da1e95d7bfe186a151ca5f00a0ffcc8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 16/46] fix: parsing selectors printed the parse tree, panicked
 on some numbers and rejected the <= and >= comparators, carriage returns and
 identifiers with several leading underscores

---
 atelier-smithy/src/parser/selector.rs | 15 +++++++++------
 atelier-smithy/src/selector.pest      | 13 ++++++-------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index 274e30b..e2b0202 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -39,7 +39,6 @@ pub fn parse_selector(input: &str) -> ModelResult<Selector> {
     match top_pair.as_rule() {
         Rule::input => {
             let inner = top_pair.into_inner().next().unwrap();
-            println!("{:#?}", inner);
             trace!("{:#?}", inner);
             if inner.as_rule() == Rule::selector {
                 parse_a_selector(inner)
@@ -225,12 +224,16 @@ fn parse_selector_value(input_pair: Pair<'_, Rule>) -> ModelResult<Value> {
         }
         Rule::number => {
             let number = inner.as_str();
-            if number.contains('.') {
-                Ok(Value::Number(Number::Float(f64::from_str(number).unwrap())))
+            if number.contains(|c| matches!(c, '.' | 'e' | 'E')) {
+                match f64::from_str(number) {
+                    Ok(number) if number.is_finite() => Ok(Value::Number(Number::Float(number))),
+                    _ => unexpected!("parse_selector_value", inner),
+                }
             } else {
-                Ok(Value::Number(Number::Integer(
-                    i64::from_str(number).unwrap(),
-                )))
+                match i64::from_str(number) {
+                    Ok(number) => Ok(Value::Number(Number::Integer(number))),
+                    _ => unexpected!("parse_selector_value", inner),
+                }
             }
         }
         Rule::root_shape_id => {
diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index de20b25..4c19dd6 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -93,10 +93,10 @@ comparator_string_in = { "*=" }
 comparator_string_exist = { "?=" }
 
 selector_numeric_comparator =
-    { comparator_number_gt
-    | comparator_number_gte
-    | comparator_number_lt
-    | comparator_number_lte }
+    { comparator_number_gte
+    | comparator_number_gt
+    | comparator_number_lte
+    | comparator_number_lt }
 
 comparator_number_gt = { ">" }
 
@@ -173,8 +173,7 @@ selector_variable_get =
 // ------------------------------------------------------------------------------------------------
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 
 namespace =
     @{ identifier ~ ("." ~ identifier)* }
@@ -216,4 +215,4 @@ zero =
 // Allows default whitespace handling
 // ------------------------------------------------------------------------------------------------
 
-WHITESPACE = _{ " " | "\t" | "\n" }
\ No newline at end of file
+WHITESPACE = _{ " " | "\t" | "\r" | "\n" }
\ No newline at end of file
-- 
2.43.0


From 7bda8cc52e8261ced4cbb6e67d1445bf0d223738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 17/46] fix: selector comparisons quoted their values twice or
 as text, and text with quotation marks was printed unparseable

---
 atelier-core/src/model/selector/mod.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index d40634e..94c0eeb 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -596,6 +596,7 @@ impl Display for Value {
             f,
             "{}",
             match self {
+                Value::Text(v) if v.contains('"') => format!("'{}'", v),
                 Value::Text(v) => format!("\"{}\"", v),
                 Value::Number(v) => v.to_string(),
                 Value::RootShapeIdentifier(v) => v.to_string(),
@@ -849,10 +850,7 @@ impl AttributeComparison {
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `^=` operator.
     pub fn string_starts_with(rhs: Value) -> Self {
-        Self::new(
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string())],
-        )
+        Self::new(Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `$=` operator.
@@ -1256,11 +1254,7 @@ impl ScopedAttributeAssertion {
 
     /// Create a new assertion between `lhs` and `rhs` with the `^=` operator.
     pub fn string_starts_with(lhs: ScopedValue, rhs: ScopedValue) -> Self {
-        Self::new(
-            lhs,
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `$=` operator.
@@ -1287,7 +1281,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1296,7 +1290,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1305,7 +1299,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1314,7 +1308,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
-- 
2.43.0


From 8bd842a604473be7bd187fbdc4384a09f365a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 18/46] fix: whole floating point numbers were displayed as
 integers

---
 atelier-core/src/model/values.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/model/values.rs b/atelier-core/src/model/values.rs
index 5ed87df..28f2336 100644
--- a/atelier-core/src/model/values.rs
+++ b/atelier-core/src/model/values.rs
@@ -100,7 +100,7 @@ impl Display for Number {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Integer(n) => write!(f, "{}", n),
-            Self::Float(n) => write!(f, "{}", n),
+            Self::Float(n) => write!(f, "{:?}", n),
         }
     }
 }
-- 
2.43.0


From ff6200ba4f036bd2759627464bb8c78f08b653d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 19/46] fix: the key and value of maps read from JSON were both
 named 'member'

---
 atelier-json/src/reader.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 1e4ed30..fedfa8e 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -141,16 +141,16 @@ impl JsonReader {
                 Ok(ShapeKind::Unresolved)
             } else if s == SHAPE_LIST {
                 Ok(ShapeKind::List(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_SET {
                 Ok(ShapeKind::Set(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_MAP {
                 Ok(ShapeKind::Map(MapShape::from(
-                    self.member(outer.get(MEMBER_KEY))?,
-                    self.member(outer.get(MEMBER_VALUE))?,
+                    self.member(MEMBER_KEY, outer.get(MEMBER_KEY))?,
+                    self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
                 let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
@@ -369,11 +369,11 @@ impl JsonReader {
         .into())
     }
 
-    fn member(&self, member: Option<&Value>) -> ModelResult<MemberShape> {
+    fn member(&self, name: &str, member: Option<&Value>) -> ModelResult<MemberShape> {
         if let Some(Value::Object(ms)) = member {
             if let Some(Value::String(target_id)) = ms.get(ADD_SHAPE_KEY_TARGET) {
                 let mut member_shape = MemberShape::new(
-                    Identifier::new_unchecked(MEMBER_MEMBER),
+                    Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
                 if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
-- 
2.43.0


From bb4ff99cac5300532fc58aab653cdc79b1b77acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 20/46] fix: reading resource identifiers from JSON printed
 them to standard output

---
 atelier-json/src/reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index fedfa8e..0b54ece 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -307,7 +307,6 @@ impl JsonReader {
             let mut hash: HashMap<Identifier, ShapeID> = Default::default();
             if let Value::Object(ms) = member {
                 for (obj_key, obj) in ms {
-                    println!("{:?}: {:?}", obj_key, obj);
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
                     let _ = hash.insert(key, value);
-- 
2.43.0


From 74ed8ac672c12dd0a617789efdb8661cd46359dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 21/46] fix: JSON numbers above the integer range wrapped
 around, and writing numbers that are not finite panicked

---
 atelier-json/src/reader.rs |  3 ++-
 atelier-json/src/writer.rs | 40 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 0b54ece..8c7fe3c 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -412,7 +412,8 @@ impl JsonReader {
                 } else if v.is_i64() {
                     Ok(NodeValue::from(v.as_i64().unwrap()))
                 } else if v.is_u64() {
-                    Ok(NodeValue::from(v.as_u64().unwrap() as i64))
+                    // too large for an integer value
+                    Ok(NodeValue::from(v.as_u64().unwrap() as f64))
                 } else {
                     Err(ErrorKind::Deserialization(
                         REPRESENTATION_NAME.to_string(),
diff --git a/atelier-json/src/writer.rs b/atelier-json/src/writer.rs
index e92f01b..23e062d 100644
--- a/atelier-json/src/writer.rs
+++ b/atelier-json/src/writer.rs
@@ -50,7 +50,8 @@ pub struct JsonWriter {
 /// of a model. The return value is a [Serde JSON/(https://docs.serde.rs/serde_json/) `Value` that
 /// represents the top-level model.
 ///
-/// This function is used in the `JsonWriter` implementation.
+/// This function is used in the `JsonWriter` implementation. Note that JSON cannot represent numbers
+/// that are not finite, these become `null` here and are reported as an error by `JsonWriter`.
 ///
 pub fn model_to_json(model: &Model) -> Value {
     let mut top: Map<String, Value> = Default::default();
@@ -86,6 +87,10 @@ impl Default for JsonWriter {
 
 impl ModelWriter for JsonWriter {
     fn write(&mut self, w: &mut impl Write, model: &Model) -> ModelResult<()> {
+        if !all_numbers_finite(model) {
+            // JSON has no representation for these numbers
+            return Err(ErrorKind::Serialization(FILE_EXTENSION.to_string()).into());
+        }
         let json = model_to_json(model);
 
         if self.pretty_print {
@@ -108,6 +113,35 @@ impl<'a> JsonWriter {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+fn all_numbers_finite(model: &Model) -> bool {
+    fn value_finite(value: &NodeValue) -> bool {
+        match value {
+            NodeValue::Array(v) => v.iter().all(value_finite),
+            NodeValue::Object(v) => v.values().all(value_finite),
+            NodeValue::Number(Number::Float(v)) => v.is_finite(),
+            _ => true,
+        }
+    }
+    fn traits_finite(traits: &AppliedTraits) -> bool {
+        traits.values().flatten().all(value_finite)
+    }
+    fn members_finite<'a>(mut members: impl Iterator<Item = &'a MemberShape>) -> bool {
+        members.all(|m| traits_finite(m.traits()))
+    }
+    model.metadata().all(|(_, v)| value_finite(v))
+        && model.shapes().all(|shape| {
+            traits_finite(shape.traits())
+                && match shape.body() {
+                    ShapeKind::List(v) | ShapeKind::Set(v) => traits_finite(v.member().traits()),
+                    ShapeKind::Map(v) => {
+                        traits_finite(v.key().traits()) && traits_finite(v.value().traits())
+                    }
+                    ShapeKind::Structure(v) | ShapeKind::Union(v) => members_finite(v.members()),
+                    _ => true,
+                }
+        })
+}
+
 fn from_shapes(model: &Model) -> Value {
     let mut shape_map: Map<String, Value> = Default::default();
     for shape in model.shapes() {
@@ -330,7 +364,9 @@ fn from_value(value: &NodeValue) -> Value {
         }
         NodeValue::Number(v) => match v {
             Number::Integer(v) => Value::Number((*v).into()),
-            Number::Float(v) => Value::Number(JsonNumber::from_f64(*v).unwrap()),
+            Number::Float(v) => JsonNumber::from_f64(*v)
+                .map(Value::Number)
+                .unwrap_or(Value::Null),
         },
         NodeValue::Boolean(v) => Value::Bool(*v),
         NodeValue::String(v) => Value::String(v.clone()),
-- 
2.43.0


From 858e753d398d660c1aa641c7c46ffcd2df40ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 22/46] fix: JSON sections of the wrong type and repeated
 members were silently dropped, and an empty service version panicked

---
 atelier-json/src/reader.rs | 70 ++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 8c7fe3c..89e6cdf 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -18,7 +18,7 @@ use atelier_core::syntax::{
 };
 use atelier_core::Version;
 use serde_json::{from_reader, Map, Value};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
 use std::str::FromStr;
 
@@ -106,7 +106,7 @@ impl JsonReader {
 
     fn metadata(&self, json: Option<&Value>) -> ModelResult<ValueMap> {
         let mut metadata: ValueMap = Default::default();
-        if let Some(Value::Object(vs)) = json {
+        if let Some(vs) = self.optional_object(json)? {
             for (k, v) in vs {
                 let _ = metadata.insert(k.clone(), self.value(v)?);
             }
@@ -116,13 +116,13 @@ impl JsonReader {
 
     fn shapes(&self, json: Option<&Value>) -> ModelResult<Vec<(NamespaceID, TopLevelShape)>> {
         let mut shapes: Vec<(NamespaceID, TopLevelShape)> = Default::default();
-        if let Some(Value::Object(vs)) = json {
+        if let Some(vs) = self.optional_object(json)? {
             for (k, v) in vs {
                 let id = ShapeID::from_str(k)?;
                 let inner = self.shape(v)?;
                 let mut shape = TopLevelShape::new(id.clone(), inner);
 
-                if let Some(Value::Object(vs)) = v.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(vs) = self.optional_object(v.get(ADD_SHAPE_KEY_TRAITS))? {
                     shape.append_traits(&self.traits(vs)?)?;
                 };
 
@@ -153,28 +153,19 @@ impl JsonReader {
                     self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
-                    self.members(vs)?
-                } else {
-                    Default::default()
-                };
+                let members = self.members(outer.get(ADD_SHAPE_KEY_MEMBERS))?;
                 Ok(ShapeKind::Structure(StructureOrUnion::with_members(
                     members.as_slice(),
                 )))
             } else if s == SHAPE_UNION {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
-                    self.members(vs)?
-                } else {
-                    Default::default()
-                };
+                let members = self.members(outer.get(ADD_SHAPE_KEY_MEMBERS))?;
                 Ok(ShapeKind::Union(StructureOrUnion::with_members(
                     members.as_slice(),
                 )))
             } else if s == SHAPE_SERVICE {
-                let version = if let Some(Value::String(value)) = outer.get(MEMBER_VERSION) {
-                    value.clone()
-                } else {
-                    return Err(ErrorKind::InvalidVersionNumber(None).into());
+                let version = match outer.get(MEMBER_VERSION) {
+                    Some(Value::String(value)) if !value.is_empty() => value.clone(),
+                    _ => return Err(ErrorKind::InvalidVersionNumber(None).into()),
                 };
                 let mut service = Service::new(&version);
                 service.append_operations(&self.target_list(outer.get(MEMBER_OPERATIONS))?);
@@ -240,14 +231,17 @@ impl JsonReader {
         for (k, v) in json {
             let id = ShapeID::from_str(k)?;
             let inner = self.value(v)?;
-            let _ = traits.insert(id, Some(inner));
+            if traits.insert(id, Some(inner)).is_some() {
+                return Err(ErrorKind::DuplicateMember(k.clone()).into());
+            }
         }
         Ok(traits)
     }
 
-    fn members(&self, json: &Map<String, Value>) -> ModelResult<Vec<MemberShape>> {
+    fn members(&self, json: Option<&Value>) -> ModelResult<Vec<MemberShape>> {
         let mut members: Vec<MemberShape> = Default::default();
-        for (k, v) in json {
+        let mut names: HashSet<Identifier> = Default::default();
+        for (k, v) in self.optional_object(json)?.into_iter().flatten() {
             if let Value::Object(obj) = v {
                 let target = if let Some(Value::String(target)) = obj.get(ADD_SHAPE_KEY_TARGET) {
                     ShapeID::from_str(target)?
@@ -259,8 +253,12 @@ impl JsonReader {
                     )
                     .into());
                 };
-                let mut member = MemberShape::new(Identifier::from_str(k)?, target);
-                if let Some(Value::Object(traits)) = obj.get(ADD_SHAPE_KEY_TRAITS) {
+                let name = Identifier::from_str(k)?;
+                if !names.insert(name.clone()) {
+                    return Err(ErrorKind::DuplicateMember(k.clone()).into());
+                }
+                let mut member = MemberShape::new(name, target);
+                if let Some(traits) = self.optional_object(obj.get(ADD_SHAPE_KEY_TRAITS))? {
                     member.append_traits(&self.traits(traits)?)?;
                 }
                 members.push(member);
@@ -283,7 +281,9 @@ impl JsonReader {
                 for (obj_key, obj) in ms {
                     let key = ShapeID::from_str(obj_key)?;
                     let value = Identifier::from_str(&self.string_value(obj)?)?;
-                    let _ = hash.insert(key, value);
+                    if hash.insert(key, value).is_some() {
+                        return Err(ErrorKind::DuplicateMember(obj_key.clone()).into());
+                    }
                 }
                 Ok(hash)
             } else {
@@ -309,7 +309,9 @@ impl JsonReader {
                 for (obj_key, obj) in ms {
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
-                    let _ = hash.insert(key, value);
+                    if hash.insert(key, value).is_some() {
+                        return Err(ErrorKind::DuplicateMember(obj_key.clone()).into());
+                    }
                 }
                 Ok(hash)
             } else {
@@ -375,7 +377,7 @@ impl JsonReader {
                     Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
-                if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(vs) = self.optional_object(ms.get(ADD_SHAPE_KEY_TRAITS))? {
                     member_shape.append_traits(&self.traits(vs)?)?;
                 };
                 return Ok(member_shape);
@@ -389,6 +391,22 @@ impl JsonReader {
         .into())
     }
 
+    fn optional_object<'a>(
+        &self,
+        json: Option<&'a Value>,
+    ) -> ModelResult<Option<&'a Map<String, Value>>> {
+        match json {
+            None => Ok(None),
+            Some(Value::Object(vs)) => Ok(Some(vs)),
+            Some(_) => Err(ErrorKind::Deserialization(
+                REPRESENTATION_NAME.to_string(),
+                "JsonReader::optional_object".to_string(),
+                Some(format!("{:#?}", json)),
+            )
+            .into()),
+        }
+    }
+
     fn string_value(&self, value: &Value) -> ModelResult<String> {
         if let Value::String(value) = value {
             Ok(value.clone())
-- 
2.43.0


From 05fea3d137a129651fd50a9144cf375a56d9888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 23/46] fix: the Smithy writer did not escape text and keys as
 the IDL does, dropped null values and wrote metadata objects without braces

---
 atelier-smithy/src/writer.rs | 52 +++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index ba59844..9389746 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -1,10 +1,10 @@
 use std::io::Write;
 
-use atelier_core::error::Result;
+use atelier_core::error::{ErrorKind, Result};
 use atelier_core::io::ModelWriter;
 use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind};
-use atelier_core::model::values::Value;
-use atelier_core::model::{HasIdentity, Model, NamespaceID, ShapeID};
+use atelier_core::model::values::{Number, Value};
+use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
@@ -16,6 +16,7 @@ use atelier_core::syntax::{
 use crate::syntax::{
     CONTROL_DATA_PREFIX, STATEMENT_METADATA, STATEMENT_NAMESPACE, STATEMENT_USE, TRAIT_PREFIX,
 };
+use crate::REPRESENTATION_NAME;
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -76,8 +77,8 @@ impl SmithyWriter {
     fn write_metadata_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         if model.has_metadata() {
             for (key, value) in model.metadata() {
-                write!(w, "{} \"{}\" = ", STATEMENT_METADATA, key)?;
-                self.write_value(w, value, true)?;
+                write!(w, "{} {} = ", STATEMENT_METADATA, quoted(key))?;
+                self.write_value(w, value, false)?;
                 writeln!(w)?;
             }
             writeln!(w)?;
@@ -155,7 +156,7 @@ impl SmithyWriter {
                 }
                 ShapeKind::Service(service) => {
                     writeln!(w, "{} {} {{", SHAPE_SERVICE, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {:?}", MEMBER_VERSION, service.version())?;
+                    writeln!(w, "    {}: {}", MEMBER_VERSION, quoted(service.version()))?;
                     if service.has_operations() {
                         writeln!(
                             w,
@@ -300,6 +301,7 @@ impl SmithyWriter {
         write!(w, "{}{}{}", prefix, TRAIT_PREFIX, id)?;
         match value {
             None => writeln!(w)?,
+            Some(Value::Object(vs)) if vs.is_empty() => writeln!(w)?,
             Some(v) => {
                 write!(w, "(")?;
                 self.write_value(w, v, true)?;
@@ -328,7 +330,11 @@ impl SmithyWriter {
                 }
                 let last = if vs.is_empty() { 0 } else { vs.len() - 1 };
                 for (i, (k, v)) in vs.iter().enumerate() {
-                    write!(w, "{}: ", k)?;
+                    if k.parse::<Identifier>().is_ok() {
+                        write!(w, "{}: ", k)?;
+                    } else {
+                        write!(w, "{}: ", quoted(k))?;
+                    }
                     self.write_value(w, v, false)?;
                     if i < last {
                         write!(w, ", ")?;
@@ -338,10 +344,14 @@ impl SmithyWriter {
                     write!(w, "}}")?;
                 }
             }
+            Value::Number(Number::Float(v)) if !v.is_finite() => {
+                // the IDL has no representation for these numbers
+                return Err(ErrorKind::Serialization(REPRESENTATION_NAME.to_string()).into());
+            }
             Value::Number(v) => write!(w, "{}", v)?,
             Value::Boolean(v) => write!(w, "{}", v)?,
-            Value::String(v) => write!(w, "{:?}", v)?,
-            Value::None => {}
+            Value::String(v) => write!(w, "{}", quoted(v))?,
+            Value::None => write!(w, "null")?,
         }
         Ok(())
     }
@@ -377,3 +387,27 @@ impl SmithyWriter {
         Ok(())
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn quoted(text: &str) -> String {
+    let mut result = String::with_capacity(text.len() + 2);
+    result.push('"');
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => {
+                result.push('\\');
+                result.push(c);
+            }
+            '\n' => result.push_str("\\n"),
+            '\r' => result.push_str("\\r"),
+            '\t' => result.push_str("\\t"),
+            '\u{0}'..='\u{1f}' => result.push_str(&format!("\\u{:04x}", c as u32)),
+            c => result.push(c),
+        }
+    }
+    result.push('"');
+    result
+}
-- 
2.43.0


From 6e4eb783027b09e5128daae70159579440fc1109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 24/46] fix: the Smithy writer dropped the namespaces of
 references and wrote ambiguous names

---
 atelier-smithy/src/writer.rs | 166 +++++++++++++++++++++++------------
 1 file changed, 108 insertions(+), 58 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 9389746..fc8262f 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -1,3 +1,4 @@
+use std::collections::{HashMap, HashSet};
 use std::io::Write;
 
 use atelier_core::error::{ErrorKind, Result};
@@ -5,6 +6,7 @@ use atelier_core::io::ModelWriter;
 use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind};
 use atelier_core::model::values::{Number, Value};
 use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
+use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
@@ -40,6 +42,8 @@ use crate::REPRESENTATION_NAME;
 pub struct SmithyWriter {
     namespace: NamespaceID,
     prelude_namespace: NamespaceID,
+    definitions: HashSet<Identifier>,
+    imports: HashMap<Identifier, ShapeID>,
 }
 
 // ------------------------------------------------------------------------------------------------
@@ -48,6 +52,7 @@ pub struct SmithyWriter {
 
 impl ModelWriter for SmithyWriter {
     fn write(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
+        self.find_names(model);
         self.write_control_section(w, model)?;
         self.write_metadata_section(w, model)?;
         self.write_shape_section(w, model)
@@ -59,9 +64,68 @@ impl SmithyWriter {
         Self {
             namespace,
             prelude_namespace: NamespaceID::new_unchecked(atelier_core::prelude::PRELUDE_NAMESPACE),
+            definitions: Default::default(),
+            imports: Default::default(),
         }
     }
 
+    /// Determine which names are defined, or can be imported, in the namespace being written.
+    fn find_names(&mut self, model: &Model) {
+        self.definitions = model
+            .shapes()
+            .filter(|shape| {
+                shape.id().namespace() == &self.namespace && !shape.body().is_unresolved()
+            })
+            .map(|shape| shape.id().shape_name().clone())
+            .collect();
+        let mut imports: Vec<&ShapeID> = model
+            .shapes()
+            .filter(|shape| shape.is_unresolved() && !shape.has_traits())
+            .map(|shape| shape.id())
+            .filter(|id| !id.is_member() && !self.definitions.contains(id.shape_name()))
+            .collect();
+        // where names conflict only one can be imported, prefer those in this namespace
+        imports.sort_by_key(|id| (id.namespace() != &self.namespace, id.to_string()));
+        self.imports.clear();
+        for id in imports {
+            let _ = self
+                .imports
+                .entry(id.shape_name().clone())
+                .or_insert_with(|| id.clone());
+        }
+    }
+
+    /// Return a relative name if it will be resolved to this ID, otherwise the absolute ID.
+    fn name_of(&self, id: &ShapeID, is_trait: bool) -> String {
+        let name = id.shape_name();
+        let resolved_here = if is_keyword(name) {
+            false
+        } else if let Some(imported) = self.imports.get(name) {
+            imported.to_string() == id.to_string()
+        } else if self.definitions.contains(name) {
+            *id.namespace() == self.namespace
+        } else {
+            let prelude_names = if is_trait {
+                defined_prelude_traits()
+            } else {
+                defined_prelude_shapes()
+            };
+            *id.namespace() == self.prelude_namespace
+                && prelude_names.contains(name.to_string().as_str())
+        };
+        if resolved_here && !id.is_member() {
+            name.to_string()
+        } else {
+            id.to_string()
+        }
+    }
+
+    fn names_of<'a>(&self, ids: impl Iterator<Item = &'a ShapeID>) -> String {
+        ids.map(|id| self.name_of(id, false))
+            .collect::<Vec<String>>()
+            .join(", ")
+    }
+
     fn write_control_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         writeln!(
             w,
@@ -97,12 +161,9 @@ impl SmithyWriter {
         Ok(())
     }
 
-    fn write_use_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
-        for use_shape in model
-            .shapes()
-            .filter(|shape| shape.is_unresolved() && !shape.has_traits())
-        {
-            writeln!(w, "{} {}", STATEMENT_USE, use_shape.id())?;
+    fn write_use_section(&mut self, w: &mut impl Write, _: &Model) -> Result<()> {
+        for id in self.imports.values() {
+            writeln!(w, "{} {}", STATEMENT_USE, id)?;
         }
         writeln!(w)?;
         Ok(())
@@ -125,22 +186,37 @@ impl SmithyWriter {
                 }
                 ShapeKind::List(list) => {
                     writeln!(w, "{} {} {{", SHAPE_LIST, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_MEMBER, list.member().target())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_MEMBER,
+                        self.name_of(list.member().target(), false)
+                    )?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_MEMBER, set.member().target())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_MEMBER,
+                        self.name_of(set.member().target(), false)
+                    )?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_KEY, map.key().target().shape_name())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_KEY,
+                        self.name_of(map.key().target(), false)
+                    )?;
                     writeln!(
                         w,
                         "    {}: {}",
                         MEMBER_VALUE,
-                        map.value().target().shape_name()
+                        self.name_of(map.value().target(), false)
                     )?;
                     writeln!(w, "}}")?;
                 }
@@ -162,11 +238,7 @@ impl SmithyWriter {
                             w,
                             "    {}: [{}]",
                             MEMBER_OPERATIONS,
-                            service
-                                .operations()
-                                .map(|s| s.shape_name().to_string())
-                                .collect::<Vec<String>>()
-                                .join(", ")
+                            self.names_of(service.operations())
                         )?;
                     }
                     if service.has_resources() {
@@ -174,11 +246,7 @@ impl SmithyWriter {
                             w,
                             "    {}: [{}]",
                             MEMBER_RESOURCES,
-                            service
-                                .resources()
-                                .map(|s| s.shape_name().to_string())
-                                .collect::<Vec<String>>()
-                                .join(", ")
+                            self.names_of(service.resources())
                         )?;
                     }
                     writeln!(w, "}}")?;
@@ -186,21 +254,17 @@ impl SmithyWriter {
                 ShapeKind::Operation(operation) => {
                     writeln!(w, "{} {} {{", SHAPE_OPERATION, shape.id().shape_name())?;
                     if let Some(id) = operation.input() {
-                        writeln!(w, "    {}: {}", MEMBER_INPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_INPUT, self.name_of(id, false))?;
                     }
                     if let Some(id) = operation.output() {
-                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, self.name_of(id, false))?;
                     }
                     if operation.has_errors() {
                         writeln!(
                             w,
                             "    {}: [{}]",
                             MEMBER_ERRORS,
-                            operation
-                                .errors()
-                                .map(|s| s.shape_name().to_string())
-                                .collect::<Vec<String>>()
-                                .join(", ")
+                            self.names_of(operation.errors())
                         )?;
                     }
                     writeln!(w, "}}")?;
@@ -210,38 +274,34 @@ impl SmithyWriter {
                     if resource.has_identifiers() {
                         writeln!(w, "    {}: {{", MEMBER_IDENTIFIERS)?;
                         for (id, target) in resource.identifiers() {
-                            writeln!(w, "        {}: {}", id, target.shape_name())?;
+                            writeln!(w, "        {}: {}", id, self.name_of(target, false))?;
                         }
                         writeln!(w, "    }}")?;
                     }
                     if let Some(id) = resource.create() {
-                        writeln!(w, "    {}: {}", MEMBER_CREATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_CREATE, self.name_of(id, false))?;
                     }
                     if let Some(id) = resource.put() {
-                        writeln!(w, "    {}: {}", MEMBER_PUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_PUT, self.name_of(id, false))?;
                     }
                     if let Some(id) = resource.read() {
-                        writeln!(w, "    {}: {}", MEMBER_READ, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_READ, self.name_of(id, false))?;
                     }
                     if let Some(id) = resource.update() {
-                        writeln!(w, "    {}: {}", MEMBER_UPDATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_UPDATE, self.name_of(id, false))?;
                     }
                     if let Some(id) = resource.delete() {
-                        writeln!(w, "    {}: {}", MEMBER_DELETE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_DELETE, self.name_of(id, false))?;
                     }
                     if let Some(id) = resource.list() {
-                        writeln!(w, "    {}: {}", MEMBER_LIST, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_LIST, self.name_of(id, false))?;
                     }
                     if resource.has_operations() {
                         writeln!(
                             w,
                             "    {}: [{}]",
                             MEMBER_OPERATIONS,
-                            resource
-                                .operations()
-                                .map(|s| s.shape_name().to_string())
-                                .collect::<Vec<String>>()
-                                .join(", ")
+                            self.names_of(resource.operations())
                         )?;
                     }
                     if resource.has_collection_operations() {
@@ -249,11 +309,7 @@ impl SmithyWriter {
                             w,
                             "    {}: [{}]",
                             MEMBER_COLLECTION_OPERATIONS,
-                            resource
-                                .collection_operations()
-                                .map(|s| s.shape_name().to_string())
-                                .collect::<Vec<String>>()
-                                .join(", ")
+                            self.names_of(resource.collection_operations())
                         )?;
                     }
                     if resource.has_resources() {
@@ -261,11 +317,7 @@ impl SmithyWriter {
                             w,
                             "    {}: [{}]",
                             MEMBER_RESOURCES,
-                            resource
-                                .resources()
-                                .map(|s| s.shape_name().to_string())
-                                .collect::<Vec<String>>()
-                                .join(", ")
+                            self.names_of(resource.resources())
                         )?;
                     }
                     writeln!(w, "}}")?;
@@ -291,14 +343,7 @@ impl SmithyWriter {
         value: &Option<Value>,
         prefix: &str,
     ) -> Result<()> {
-        let trait_namespace = id.namespace();
-        let id = if *trait_namespace == self.namespace || *trait_namespace == self.prelude_namespace
-        {
-            id.shape_name().to_string()
-        } else {
-            id.to_string()
-        };
-        write!(w, "{}{}{}", prefix, TRAIT_PREFIX, id)?;
+        write!(w, "{}{}{}", prefix, TRAIT_PREFIX, self.name_of(id, true))?;
         match value {
             None => writeln!(w)?,
             Some(Value::Object(vs)) if vs.is_empty() => writeln!(w)?,
@@ -382,7 +427,7 @@ impl SmithyWriter {
             "{}{}: {}",
             prefix,
             member.id(),
-            member.target().shape_name()
+            self.name_of(member.target(), false)
         )?;
         Ok(())
     }
@@ -392,6 +437,11 @@ impl SmithyWriter {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+/// In a value these are not parsed as shape names.
+fn is_keyword(name: &Identifier) -> bool {
+    matches!(name.to_string().as_str(), "true" | "false" | "null")
+}
+
 fn quoted(text: &str) -> String {
     let mut result = String::with_capacity(text.len() + 2);
     result.push('"');
-- 
2.43.0


From 301600a0c961bdb47793031448173c83cba4c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 25/46] fix: the Smithy writer dropped service renames, the
 traits of list, set and map members and traits applied to shapes of other
 namespaces

---
 atelier-smithy/src/writer.rs | 61 +++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index fc8262f..09ea029 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -10,9 +10,9 @@ use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
-    SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
-    SHAPE_STRUCTURE, SHAPE_UNION,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE,
+    MEMBER_VERSION, SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE,
+    SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE, SHAPE_UNION,
 };
 
 use crate::syntax::{
@@ -171,10 +171,14 @@ impl SmithyWriter {
 
     fn write_shape_statements(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         let from_namespace = self.namespace.clone();
-        for shape in model
+        // Traits may be applied to the shapes of other namespaces, if that namespace is not written
+        // on its own they are only found here.
+        let apply_to_others = model
             .shapes()
-            .filter(|shape| shape.id().namespace() == &from_namespace)
-        {
+            .all(|shape| shape.is_unresolved() || shape.id().namespace() == &from_namespace);
+        for shape in model.shapes().filter(|shape| {
+            shape.id().namespace() == &from_namespace || (shape.is_unresolved() && apply_to_others)
+        }) {
             if !shape.body().is_unresolved() {
                 for (id, value) in shape.traits() {
                     self.write_trait(w, id, value, "")?;
@@ -186,38 +190,18 @@ impl SmithyWriter {
                 }
                 ShapeKind::List(list) => {
                     writeln!(w, "{} {} {{", SHAPE_LIST, shape.id().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_MEMBER,
-                        self.name_of(list.member().target(), false)
-                    )?;
+                    self.write_member(w, MEMBER_MEMBER, list.member(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_MEMBER,
-                        self.name_of(set.member().target(), false)
-                    )?;
+                    self.write_member(w, MEMBER_MEMBER, set.member(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_KEY,
-                        self.name_of(map.key().target(), false)
-                    )?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_VALUE,
-                        self.name_of(map.value().target(), false)
-                    )?;
+                    self.write_member(w, MEMBER_KEY, map.key(), "    ")?;
+                    self.write_member(w, MEMBER_VALUE, map.value(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Structure(structured) => {
@@ -249,6 +233,18 @@ impl SmithyWriter {
                             self.names_of(service.resources())
                         )?;
                     }
+                    if service.has_renames() {
+                        writeln!(w, "    {}: {{", MEMBER_RENAME)?;
+                        for (id, name) in service.renames() {
+                            writeln!(
+                                w,
+                                "        {}: {}",
+                                quoted(&id.to_string()),
+                                quoted(&name.to_string())
+                            )?;
+                        }
+                        writeln!(w, "    }}")?;
+                    }
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Operation(operation) => {
@@ -408,7 +404,7 @@ impl SmithyWriter {
         prefix: &str,
     ) -> Result<()> {
         for member in members {
-            self.write_member(w, member, prefix)?;
+            self.write_member(w, &member.id().to_string(), member, prefix)?;
         }
         Ok(())
     }
@@ -416,6 +412,7 @@ impl SmithyWriter {
     fn write_member(
         &mut self,
         w: &mut impl Write,
+        name: &str,
         member: &MemberShape,
         prefix: &str,
     ) -> Result<()> {
@@ -426,7 +423,7 @@ impl SmithyWriter {
             w,
             "{}{}: {}",
             prefix,
-            member.id(),
+            name,
             self.name_of(member.target(), false)
         )?;
         Ok(())
-- 
2.43.0


From c2af95fef16b7d77415bb6b7fcaab2b8d98c3587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 26/46] fix: fail_fast never stopped a run of validators or
 linters

---
 atelier-core/src/action/lint/mod.rs     | 9 ++++-----
 atelier-core/src/action/validate/mod.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index d36518d..aa8a109 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -98,12 +98,11 @@ pub fn run_linter_actions(
     for linter in linters.iter_mut() {
         linter.check(model)?;
         let new_issues = linter.issues_mut();
+        let failed = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && failed {
             break;
         }
     }
diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index 57e1737..b1ba73d 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -45,12 +45,11 @@ pub fn run_validation_actions(
     for validator in validators.iter_mut() {
         validator.validate(model)?;
         let new_issues = validator.issues_mut();
+        let failed = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && failed {
             break;
         }
     }
-- 
2.43.0


From 5b9a1c2b6631510bfa926a4141355c87a79b6104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 27/46] fix: unresolved references to operations and resources
 were reported as having the wrong type

---
 atelier-core/src/action/validate/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index b1ba73d..526afaf 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -249,7 +249,7 @@ impl CorrectTypeReferences {
     ) {
         if let Some(target) = model.shape(target) {
             let target = target.body();
-            if !target.is_operation() {
+            if !target.is_operation() && !target.is_unresolved() {
                 self.issues.push(ActionIssue::error_at(
                     self.label(),
                     &format!("{} must be an operation.", member),
@@ -277,7 +277,7 @@ impl CorrectTypeReferences {
     ) {
         if let Some(target) = model.shape(target) {
             let target = target.body();
-            if !target.is_resource() {
+            if !target.is_resource() && !target.is_unresolved() {
                 self.issues.push(ActionIssue::error_at(
                     self.label(),
                     &format!("{} must be a resource.", member),
-- 
2.43.0


From af4d73c583ca108d19032208be3cb72d8b652e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 28/46] fix: the unwelcome terms linter did not report names it
 had seen in another model or with different case

---
 atelier-core/src/action/lint/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index aa8a109..e34b48d 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -72,7 +72,7 @@ conventions described in the Smithy [style guide](https://awslabs.github.io/smit
 linter_or_validator_defn! {
     UnwelcomeTerms
     {
-        checked: RefCell<HashSet<Identifier>>
+        checked: RefCell<HashSet<String>>
     },
     "This will report any use of any unwelcome, or problematic terms in names."
 }
@@ -204,6 +204,8 @@ linter_or_validator_action_impl! { UnwelcomeTerms, "UnwelcomeTerms" }
 
 impl Linter for UnwelcomeTerms {
     fn check(&mut self, model: &Model) -> ModelResult<()> {
+        // names are only reported once in each model
+        self.checked.borrow_mut().clear();
         for shape in model.shapes() {
             let shape_id = shape.id();
             self.check_shape_id(shape_id);
@@ -242,9 +244,10 @@ impl UnwelcomeTerms {
 
     #[inline]
     fn check_identifier(&mut self, id: &Identifier, in_shape: Option<&ShapeID>) {
-        if !self.checked.borrow().contains(id) {
-            let _ = self.checked.borrow_mut().insert(id.clone());
-            for word in terms::split_words(&id.to_string()) {
+        let name = id.to_string();
+        if !self.checked.borrow().contains(&name) {
+            let _ = self.checked.borrow_mut().insert(name.clone());
+            for word in terms::split_words(&name) {
                 if terms::is_unwelcome_term(&word) {
                     self.issues.push(match in_shape {
                         None => ActionIssue::warning(
-- 
2.43.0


From 7b3bfd22a619e3454908bc131a7a2b4399514066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 29/46] fix: writing a model to a file opened the file for
 reading

---
 atelier-core/src/io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/io/mod.rs b/atelier-core/src/io/mod.rs
index b071ccf..a5d9825 100644
--- a/atelier-core/src/io/mod.rs
+++ b/atelier-core/src/io/mod.rs
@@ -111,7 +111,7 @@ pub fn write_model_to_file(
     model: &Model,
     path: PathBuf,
 ) -> ModelResult<()> {
-    let mut file = File::open(path)?;
+    let mut file = File::create(path)?;
     w.write(&mut file, model)?;
     Ok(())
 }
-- 
2.43.0


From 9e8268157cd8c29d55c34db97241ada659d2ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 30/46] fix: the assembled model depended on the order in which
 files were found, and files found twice were merged twice

---
 atelier-assembler/src/lib.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 674a4bc..c044264 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -402,12 +402,17 @@ impl ModelAssembler {
     /// This processes all the paths added to the assembler and filters them for those with
     /// supported file extensions as well as finding files recursively in directory paths.
     ///
+    /// The result is sorted, and a file that can be reached by more than one path is included once.
     pub fn expand_file_paths(&self) -> Vec<PathBuf> {
         info!("ModelAssembler::expand_file_paths()");
         let mut results = Vec::default();
-        for path in &self.paths {
-            self.expand_path(path, &mut results);
+        let mut visited = HashSet::default();
+        let mut paths: Vec<&PathBuf> = self.paths.iter().collect();
+        paths.sort();
+        for path in paths {
+            self.expand_path(path, &mut visited, &mut results);
         }
+        results.sort();
         results
     }
 
@@ -421,8 +426,18 @@ impl ModelAssembler {
     }
 
     #[allow(clippy::ptr_arg)]
-    fn expand_path(&self, path: &PathBuf, results: &mut Vec<PathBuf>) {
+    fn expand_path(
+        &self,
+        path: &PathBuf,
+        visited: &mut HashSet<PathBuf>,
+        results: &mut Vec<PathBuf>,
+    ) {
         info!("ModelAssembler::expand_path({:?})", path);
+        if let Ok(real_path) = path.canonicalize() {
+            if !visited.insert(real_path) {
+                return;
+            }
+        }
         if path.is_file() {
             if let Some(extension) = path.extension() {
                 let extension = extension.to_string_lossy();
@@ -433,9 +448,13 @@ impl ModelAssembler {
             }
         } else if path.is_dir() {
             debug!("ModelAssembler::expand_path - reading dir path {:?}", path);
-            for entry in read_dir(path).unwrap() {
-                let entry = entry.unwrap();
-                self.expand_path(&entry.path(), results);
+            let mut entries: Vec<PathBuf> = read_dir(path)
+                .unwrap()
+                .map(|entry| entry.unwrap().path())
+                .collect();
+            entries.sort();
+            for entry in entries {
+                self.expand_path(&entry, visited, results);
             }
         }
     }
-- 
2.43.0


From dee83df9ad4eaa924c905f71c46421dcc4dc9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 31/46] fix: assembling missing files gave an empty model, and
 unreadable files and directories panicked

---
 atelier-assembler/src/lib.rs | 104 +++++++++++++++++++++++------------
 1 file changed, 70 insertions(+), 34 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index c044264..ae347ba 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -110,6 +110,7 @@ pub struct FileTypeRegistry {
 pub struct ModelAssembler {
     file_types: FileTypeRegistry,
     paths: HashSet<PathBuf>,
+    search_paths: HashSet<PathBuf>,
 }
 
 // ------------------------------------------------------------------------------------------------
@@ -311,7 +312,10 @@ impl TryFrom<&mut ModelAssembler> for Model {
             Ok(Model::default())
         } else {
             let models: std::result::Result<Vec<Model>, Self::Error> = value
-                .expand_file_paths()
+                .expand_paths(|path, err| {
+                    error!("Model::try_from::<ModelAssembler>: {:?}, {}", path, err);
+                    Err(err)
+                })?
                 .iter()
                 .map(|file_name| value.read_model(&file_name))
                 .collect();
@@ -350,6 +354,7 @@ impl ModelAssembler {
         let new_self = Self {
             file_types,
             paths: Default::default(),
+            search_paths: Default::default(),
         };
         match search_path {
             None => new_self,
@@ -363,6 +368,7 @@ impl ModelAssembler {
     ///
     pub fn push(&mut self, path: &Path) -> &mut Self {
         info!("ModelAssembler::push({:?})", path);
+        let _ = self.search_paths.remove(path);
         let _ = self.paths.insert(PathBuf::from(path));
         self
     }
@@ -373,6 +379,7 @@ impl ModelAssembler {
     ///
     pub fn push_str(&mut self, path: &str) -> &mut Self {
         info!("ModelAssembler::push_str({})", path);
+        let _ = self.search_paths.remove(Path::new(path));
         let _ = self.paths.insert(PathBuf::from(path));
         self
     }
@@ -405,15 +412,14 @@ impl ModelAssembler {
     /// The result is sorted, and a file that can be reached by more than one path is included once.
     pub fn expand_file_paths(&self) -> Vec<PathBuf> {
         info!("ModelAssembler::expand_file_paths()");
-        let mut results = Vec::default();
-        let mut visited = HashSet::default();
-        let mut paths: Vec<&PathBuf> = self.paths.iter().collect();
-        paths.sort();
-        for path in paths {
-            self.expand_path(path, &mut visited, &mut results);
-        }
-        results.sort();
-        results
+        self.expand_paths(|path, err| {
+            warn!(
+                "ModelAssembler::expand_file_paths: ignoring {:?}, {}",
+                path, err
+            );
+            Ok(())
+        })
+        .unwrap_or_default()
     }
 
     // --------------------------------------------------------------------------------------------
@@ -421,42 +427,72 @@ impl ModelAssembler {
     fn include_search_path(self, search_path: SearchPath) -> Self {
         debug!("ModelAssembler::include_search_path",);
         let mut mut_self = self;
-        mut_self.paths.extend(search_path.into_iter());
+        for path in search_path {
+            let _ = mut_self.search_paths.insert(path.clone());
+            let _ = mut_self.paths.insert(path);
+        }
         mut_self
     }
 
-    #[allow(clippy::ptr_arg)]
+    fn expand_paths(
+        &self,
+        on_error: impl Fn(&Path, std::io::Error) -> std::io::Result<()>,
+    ) -> std::io::Result<Vec<PathBuf>> {
+        let mut results = Vec::default();
+        let mut visited = HashSet::default();
+        let mut paths: Vec<&PathBuf> = self.paths.iter().collect();
+        paths.sort();
+        for path in paths {
+            // the elements of a search path do not have to exist
+            if path.exists() || !self.search_paths.contains(path) {
+                self.expand_path(path, &mut visited, &mut results, &on_error)?;
+            }
+        }
+        results.sort();
+        Ok(results)
+    }
+
     fn expand_path(
         &self,
-        path: &PathBuf,
+        path: &Path,
         visited: &mut HashSet<PathBuf>,
         results: &mut Vec<PathBuf>,
-    ) {
+        on_error: &impl Fn(&Path, std::io::Error) -> std::io::Result<()>,
+    ) -> std::io::Result<()> {
         info!("ModelAssembler::expand_path({:?})", path);
-        if let Ok(real_path) = path.canonicalize() {
-            if !visited.insert(real_path) {
-                return;
-            }
-        }
+        let real_path = match path.canonicalize() {
+            Ok(real_path) => real_path,
+            Err(err) => return on_error(path, err),
+        };
         if path.is_file() {
-            if let Some(extension) = path.extension() {
-                let extension = extension.to_string_lossy();
-                if self.file_types.contains(extension.as_ref()) {
-                    debug!("ModelAssembler::expand_path - adding file path {:?}", path);
-                    let _ = results.push(path.clone());
-                }
+            if self.is_model_file(path) && visited.insert(real_path) {
+                debug!("ModelAssembler::expand_path - adding file path {:?}", path);
+                results.push(PathBuf::from(path));
             }
-        } else if path.is_dir() {
+        } else if path.is_dir() && visited.insert(real_path) {
             debug!("ModelAssembler::expand_path - reading dir path {:?}", path);
-            let mut entries: Vec<PathBuf> = read_dir(path)
-                .unwrap()
-                .map(|entry| entry.unwrap().path())
-                .collect();
-            entries.sort();
-            for entry in entries {
-                self.expand_path(&entry, visited, results);
+            let entries: std::io::Result<Vec<PathBuf>> =
+                read_dir(path).and_then(|entries| entries.map(|entry| Ok(entry?.path())).collect());
+            match entries {
+                Ok(mut entries) => {
+                    entries.sort();
+                    for entry in entries {
+                        // a link to nowhere is only of interest if it should be a model
+                        if entry.exists() || self.is_model_file(&entry) {
+                            self.expand_path(&entry, visited, results, on_error)?;
+                        }
+                    }
+                }
+                Err(err) => return on_error(path, err),
             }
         }
+        Ok(())
+    }
+
+    fn is_model_file(&self, path: &Path) -> bool {
+        path.extension()
+            .map(|extension| self.file_types.contains(&extension.to_string_lossy()))
+            .unwrap_or_default()
     }
 
     fn read_model(&self, path: &Path) -> Result<Model> {
@@ -464,7 +500,7 @@ impl ModelAssembler {
         if let Some(extension) = path.extension() {
             let extension = extension.to_string_lossy().to_lowercase();
             if let Some(file_type) = self.file_types.get(extension.as_ref()) {
-                let mut file = File::open(path).unwrap();
+                let mut file = File::open(path)?;
                 Ok(file_type.reader()(&mut file)?)
             } else {
                 error!("ModelAssembler::read_model - not a known extension");
-- 
2.43.0


From a92b2c2e062017862d9b108dd48888499b2c9f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 32/46] fix: registering several extensions ignored the MIME
 type of the file type

---
 atelier-assembler/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index ae347ba..2f92528 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -244,9 +244,7 @@ impl FileTypeRegistry {
     ///
     pub fn register_all(&mut self, file_type: Rc<FileType>, extensions: &[&str]) {
         for extension in extensions {
-            let _ = self
-                .by_extension
-                .insert(extension.to_lowercase(), file_type.clone());
+            self.register(file_type.clone(), extension);
         }
     }
 
-- 
2.43.0


From 8d1b05ab9d2375b18b781b8f80b3c3870c519d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 33/46] fix: the SMITHY_PATH environment variable was never
 used as a search path

---
 atelier-assembler/src/lib.rs      | 14 +++++++++++++-
 cargo-atelier/src/command_line.rs |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 2f92528..29559a5 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -66,6 +66,15 @@ use std::fs::{read_dir, File};
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
+// ------------------------------------------------------------------------------------------------
+// Public Values
+// ------------------------------------------------------------------------------------------------
+
+///
+/// The name of the environment variable holding the standard search path.
+///
+pub const SEARCH_PATH_ENV: &str = "SMITHY_PATH";
+
 // ------------------------------------------------------------------------------------------------
 // Public Types
 // ------------------------------------------------------------------------------------------------
@@ -288,7 +297,10 @@ impl FileTypeRegistry {
 
 impl Default for ModelAssembler {
     fn default() -> Self {
-        Self::new(FileTypeRegistry::default(), Some(SearchPath::default()))
+        Self::new(
+            FileTypeRegistry::default(),
+            Some(SearchPath::new_or_default(SEARCH_PATH_ENV)),
+        )
     }
 }
 
diff --git a/cargo-atelier/src/command_line.rs b/cargo-atelier/src/command_line.rs
index 563fbc5..5219eb6 100644
--- a/cargo-atelier/src/command_line.rs
+++ b/cargo-atelier/src/command_line.rs
@@ -1,4 +1,5 @@
 use crate::{Command, DocumentCommand, FileFormat, Options, TransformCommand};
+use atelier_lib::assembler::SEARCH_PATH_ENV;
 use search_path::SearchPath;
 use somedoc::write::OutputFormat;
 use std::error::Error;
@@ -180,7 +181,7 @@ fn check_command_line() -> Vec<String> {
 
 fn make_search_path(default_search_env: bool, search_env: Option<String>) -> Option<SearchPath> {
     if default_search_env {
-        Some(SearchPath::default())
+        Some(SearchPath::new_or_default(SEARCH_PATH_ENV))
     } else {
         search_env.map(|search_env| SearchPath::new_or_default(&search_env))
     }
-- 
2.43.0


From 52873e7879f0f2c959db0f3622d60038e7d9e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 34/46] fix: the command-line tool opened its output files for
 reading

---
 cargo-atelier/src/actions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 9116673..2a76715 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -83,7 +83,7 @@ fn write_model(
 ) -> Result<(), Box<dyn Error>> {
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
 
     match output_format {
@@ -136,7 +136,7 @@ fn document_a_file(
 
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
     write_document(&document, output_format, &mut file)?;
     Ok(())
-- 
2.43.0


From 65ecae36bc9638cef2f882d69ce7b0341e8656b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 35/46] fix: the command-line tool panicked on bad namespaces
 and unwritable output, and succeeded when it failed

---
 cargo-atelier/src/actions.rs  |  9 +++++---
 cargo-atelier/src/bin/main.rs | 22 ++++++++++++-------
 cargo-atelier/src/report.rs   | 40 ++++++++++++++++++++---------------
 3 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 2a76715..64d3278 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -90,7 +90,7 @@ fn write_model(
         FileFormat::Json => write_json(&mut file, model),
         FileFormat::Smithy => {
             if let Some(namespace) = namespace {
-                write_smithy(&mut file, model, NamespaceID::from_str(&namespace).unwrap())
+                write_smithy(&mut file, model, NamespaceID::from_str(&namespace)?)
             } else {
                 let namespaces = &model.namespaces();
                 if namespaces.len() == 1 {
@@ -100,12 +100,14 @@ fn write_model(
                         (*namespaces.iter().next().unwrap()).clone(),
                     )
                 } else {
-                    panic!("A namespace value is required for writing Smithy IDL");
+                    Err("A namespace value is required for writing Smithy IDL".into())
                 }
             }
         }
         FileFormat::Uml => write_uml(&mut file, model),
-    }
+    }?;
+    file.flush()?;
+    Ok(())
 }
 
 fn transform_file(
@@ -139,6 +141,7 @@ fn document_a_file(
         Some(file_name) => Box::new(File::create(file_name)?),
     };
     write_document(&document, output_format, &mut file)?;
+    file.flush()?;
     Ok(())
 }
 
diff --git a/cargo-atelier/src/bin/main.rs b/cargo-atelier/src/bin/main.rs
index 2fe7a53..4d5e8da 100644
--- a/cargo-atelier/src/bin/main.rs
+++ b/cargo-atelier/src/bin/main.rs
@@ -1,8 +1,20 @@
 use cargo_atelier::{actions, command_line, report, Command};
 use std::error::Error;
 
-fn main() -> Result<(), Box<dyn Error>> {
-    let result = match command_line::parse()? {
+fn main() {
+    if let Err(err) = run() {
+        eprintln!("{}", err);
+        let mut source = err.source();
+        while let Some(err) = source {
+            eprintln!("  caused by: {}", err);
+            source = err.source();
+        }
+        std::process::exit(1);
+    }
+}
+
+fn run() -> Result<(), Box<dyn Error>> {
+    match command_line::parse()? {
         Command::Lint(cmd, search_path, options) => {
             report::report_action_issues(actions::lint_file(cmd, search_path)?, options.use_color)
         }
@@ -12,11 +24,5 @@ fn main() -> Result<(), Box<dyn Error>> {
         ),
         Command::Convert(cmd, search_path, _) => actions::convert_file_format(cmd, search_path),
         Command::Document(cmd, search_path, _) => actions::document_file(cmd, search_path),
-    };
-
-    if result.is_err() {
-        eprintln!("{}", (&result).as_ref().err().unwrap().source().unwrap())
     }
-
-    Ok(())
 }
diff --git a/cargo-atelier/src/report.rs b/cargo-atelier/src/report.rs
index a2e79b0..cff26f4 100644
--- a/cargo-atelier/src/report.rs
+++ b/cargo-atelier/src/report.rs
@@ -1,5 +1,6 @@
 use atelier_lib::core::action::{ActionIssue, IssueLevel};
 use std::error::Error;
+use std::io::Write;
 
 #[cfg(feature = "color")]
 use colored::Colorize;
@@ -9,42 +10,46 @@ use colored::Colorize;
 // ------------------------------------------------------------------------------------------------
 
 pub fn report_action_issues(issues: Vec<ActionIssue>, color: bool) -> Result<(), Box<dyn Error>> {
-    println!();
+    let mut out = std::io::stdout();
+    writeln!(out)?;
     if !issues.is_empty() {
         for issue in issues {
             if color {
-                report_issue(issue)
+                report_issue(&mut out, issue)?
             } else {
-                report_issue_no_color(issue)
+                report_issue_no_color(&mut out, issue)?
             }
         }
     } else {
-        println!("No issues reported.");
+        writeln!(out, "No issues reported.")?;
     }
+    out.flush()?;
     Ok(())
 }
 
-fn report_issue_no_color(issue: ActionIssue) {
-    println!("[{}] {}", issue.level(), issue.message(),);
-    println!(
+fn report_issue_no_color(out: &mut impl Write, issue: ActionIssue) -> std::io::Result<()> {
+    writeln!(out, "[{}] {}", issue.level(), issue.message(),)?;
+    writeln!(
+        out,
         "\tReported by {} for element {}.",
         issue.reporter(),
         match issue.locus() {
             Some(id) => id.to_string(),
             None => String::new(),
         }
-    );
-    println!()
+    )?;
+    writeln!(out)
 }
 
 #[cfg(not(feature = "color"))]
-fn report_issue(issue: ActionIssue) {
-    report_issue_no_color(issue)
+fn report_issue(out: &mut impl Write, issue: ActionIssue) -> std::io::Result<()> {
+    report_issue_no_color(out, issue)
 }
 
 #[cfg(feature = "color")]
-fn report_issue(issue: ActionIssue) {
-    println!(
+fn report_issue(out: &mut impl Write, issue: ActionIssue) -> std::io::Result<()> {
+    writeln!(
+        out,
         "{} {}",
         match issue.level() {
             IssueLevel::Info => "[info]".normal(),
@@ -52,9 +57,10 @@ fn report_issue(issue: ActionIssue) {
             IssueLevel::Error => "[error]".bright_red(),
         },
         issue.message().bold()
-    );
+    )?;
 
-    println!(
+    writeln!(
+        out,
         "{}",
         format!(
             "\tReported by {}{}.",
@@ -65,6 +71,6 @@ fn report_issue(issue: ActionIssue) {
             }
         )
         .dimmed()
-    );
-    println!()
+    )?;
+    writeln!(out)
 }
-- 
2.43.0


From 4e2dc8a9c2e26d64f94622dbb01544452b8eee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 36/46] fix: querying for numbers missed bytes and longs,
 collections included maps, and queries were printed

---
 atelier-query/src/evaluate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index ed92c58..8e69a90 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -52,7 +52,6 @@ fn query_one(
     previously_selected: Projection,
     over_model: &Model,
 ) -> Projection {
-    println!("query_one({:?} |-> {})", previously_selected, query);
     match query {
         SelectorExpression::ShapeType(v) => query_by_shape_type(v, previously_selected, over_model),
         SelectorExpression::AttributeSelector(v) => {
@@ -143,9 +142,11 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
                     shape_body,
                     Simple::BigDecimal
                         | Simple::BigInteger
+                        | Simple::Byte
                         | Simple::Double
                         | Simple::Float
                         | Simple::Integer
+                        | Simple::Long
                         | Simple::Short
                 )
             } else {
@@ -153,7 +154,7 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
             }
         }
         ShapeType::SimpleType => shape_body.is_simple(),
-        ShapeType::Collection => shape_body.is_list() || shape_body.is_set() || shape_body.is_map(),
+        ShapeType::Collection => shape_body.is_list() || shape_body.is_set(),
         ShapeType::Blob => {
             shape_body.is_simple() && matches!(shape.body().as_simple().unwrap(), Simple::Blob)
         }
-- 
2.43.0


From 2198e99d8cdeea5f64ebc781f7531f013351e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 37/46] fix: the RDF graph left out metadata, renames and apply
 statements, and lost the order of values

---
 atelier-rdf/src/writer.rs | 249 +++++++++++++++++++++++---------------
 1 file changed, 150 insertions(+), 99 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 37af978..6129635 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -70,7 +70,7 @@ use rdftk_io::turtle::NAME;
 use rdftk_io::GraphWriter;
 use rdftk_iri::{IRIRef, IRI};
 use rdftk_names::rdf;
-use std::cell::RefMut;
+use std::cell::{RefCell, RefMut};
 use std::io::Write;
 use std::str::FromStr;
 
@@ -108,6 +108,7 @@ pub struct RdfWriter {
 struct RdfModelVisitor {
     model_subject: SubjectNodeRef,
     graph: GraphRef,
+    metadata: RefCell<Vec<(String, Value)>>,
 }
 
 // ------------------------------------------------------------------------------------------------
@@ -171,8 +172,10 @@ pub fn model_to_rdf(
     let visitor = RdfModelVisitor {
         model_subject,
         graph,
+        metadata: Default::default(),
     };
     walk_model(model, &visitor)?;
+    visitor.write_metadata()?;
 
     Ok(visitor.graph)
 }
@@ -216,10 +219,30 @@ impl RdfWriter {
 
 // ------------------------------------------------------------------------------------------------
 
+impl RdfModelVisitor {
+    fn write_metadata(&self) -> Result<(), ModelError> {
+        let metadata = self.metadata.borrow();
+        if metadata.is_empty() {
+            Ok(())
+        } else {
+            let mut graph: RefMut<'_, dyn Graph> = self.graph.borrow_mut();
+            from_key_values(
+                &mut graph,
+                self.model_subject.clone(),
+                vocabulary::metadata().clone(),
+                metadata.iter().map(|(k, v)| (k, v)),
+            )
+        }
+    }
+}
+
 impl ModelVisitor for RdfModelVisitor {
     type Error = ModelError;
 
-    fn metadata(&self, _key: &str, _value: &Value) -> Result<(), Self::Error> {
+    fn metadata(&self, key: &str, value: &Value) -> Result<(), Self::Error> {
+        self.metadata
+            .borrow_mut()
+            .push((key.to_string(), value.clone()));
         Ok(())
     }
 
@@ -428,6 +451,36 @@ impl ModelVisitor for RdfModelVisitor {
                     .unwrap(),
             );
         }
+        if shape.has_renames() {
+            let rename_bag = add_container(
+                &mut graph,
+                statement_factory.named_subject(subject.clone()),
+                vocabulary::rename().clone(),
+                rdf::bag(),
+            );
+            for (idx, (shape_id, name)) in shape.renames().enumerate() {
+                let rename_pair = add_container_pair(&mut graph, &rename_bag, idx);
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename_pair.clone(),
+                            vocabulary::shape().clone(),
+                            statement_factory.named_object(shape_to_iri(shape_id)),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename_pair.clone(),
+                            vocabulary::name().clone(),
+                            statement_factory
+                                .literal_object(literal_factory.literal(&name.to_string())),
+                        )
+                        .unwrap(),
+                );
+            }
+        }
         from_traits(&mut graph, statement_factory.named_subject(subject), traits)
     }
 
@@ -507,39 +560,14 @@ impl ModelVisitor for RdfModelVisitor {
                 .unwrap(),
         );
         if shape.has_identifiers() {
-            let identifier_bag = graph.statement_factory().blank_subject();
-            graph.insert(
-                statement_factory
-                    .statement(
-                        statement_factory.named_subject(subject.clone()),
-                        vocabulary::identifiers().clone(),
-                        statement_factory.subject_as_object(identifier_bag.clone()),
-                    )
-                    .unwrap(),
-            );
-            graph.insert(
-                statement_factory
-                    .statement(
-                        identifier_bag.clone(),
-                        rdf::a_type().clone(),
-                        statement_factory.named_object(rdf::bag().clone()),
-                    )
-                    .unwrap(),
+            let identifier_bag = add_container(
+                &mut graph,
+                statement_factory.named_subject(subject.clone()),
+                vocabulary::identifiers().clone(),
+                rdf::bag(),
             );
             for (idx, (name, target)) in shape.identifiers().enumerate() {
-                let member = IRIRef::new(
-                    IRI::from_str(&format!("{}_{}", rdf::namespace_iri(), idx + 1)).unwrap(),
-                );
-                let name_target_pair = graph.statement_factory().blank_subject();
-                graph.insert(
-                    statement_factory
-                        .statement(
-                            identifier_bag.clone(),
-                            member,
-                            statement_factory.subject_as_object(name_target_pair.clone()),
-                        )
-                        .unwrap(),
-                );
+                let name_target_pair = add_container_pair(&mut graph, &identifier_bag, idx);
                 graph.insert(
                     statement_factory
                         .statement(
@@ -554,7 +582,7 @@ impl ModelVisitor for RdfModelVisitor {
                     statement_factory
                         .statement(
                             name_target_pair.clone(),
-                            vocabulary::value().clone(),
+                            vocabulary::target().clone(),
                             statement_factory.named_object(shape_to_iri(target).clone()),
                         )
                         .unwrap(),
@@ -663,8 +691,14 @@ impl ModelVisitor for RdfModelVisitor {
         from_traits(&mut graph, statement_factory.named_subject(subject), traits)
     }
 
-    fn unresolved_id(&self, _id: &ShapeID, _traits: &AppliedTraits) -> Result<(), Self::Error> {
-        Ok(())
+    fn unresolved_id(&self, id: &ShapeID, traits: &AppliedTraits) -> Result<(), Self::Error> {
+        let mut graph: RefMut<'_, dyn Graph> = self.graph.borrow_mut();
+        let statement_factory = graph.statement_factory();
+        from_traits(
+            &mut graph,
+            statement_factory.named_subject(shape_to_iri(id)),
+            traits,
+        )
     }
 }
 
@@ -817,71 +851,13 @@ fn from_value(
             );
         }
         Value::Array(v) => {
-            let the_value = graph.statement_factory().blank_subject();
-            graph.insert(
-                statement_factory
-                    .statement(
-                        subject,
-                        predicate,
-                        statement_factory.subject_as_object(the_value.clone()),
-                    )
-                    .unwrap(),
-            );
-            graph.insert(
-                statement_factory
-                    .statement(
-                        the_value.clone(),
-                        rdf::a_type().clone(),
-                        statement_factory.named_object(rdf::list().clone()),
-                    )
-                    .unwrap(),
-            );
-            for value in v {
-                from_value(graph, the_value.clone(), rdf::li().clone(), value)?;
+            let the_value = add_container(graph, subject, predicate, rdf::seq());
+            for (idx, value) in v.iter().enumerate() {
+                from_value(graph, the_value.clone(), rdf::member(idx + 1), value)?;
             }
         }
         Value::Object(v) => {
-            let the_value = graph.statement_factory().blank_subject();
-            graph.insert(
-                statement_factory
-                    .statement(
-                        subject,
-                        predicate,
-                        statement_factory.subject_as_object(the_value.clone()),
-                    )
-                    .unwrap(),
-            );
-            graph.insert(
-                statement_factory
-                    .statement(
-                        the_value.clone(),
-                        rdf::a_type().clone(),
-                        statement_factory.named_object(rdf::bag().clone()),
-                    )
-                    .unwrap(),
-            );
-            for (k, v) in v {
-                let kv_pair = graph.statement_factory().blank_subject();
-                graph.insert(
-                    statement_factory
-                        .statement(
-                            the_value.clone(),
-                            rdf::li().clone(),
-                            statement_factory.subject_as_object(kv_pair.clone()),
-                        )
-                        .unwrap(),
-                );
-                graph.insert(
-                    statement_factory
-                        .statement(
-                            kv_pair.clone(),
-                            vocabulary::key().clone(),
-                            statement_factory.literal_object(literal_factory.literal(k)),
-                        )
-                        .unwrap(),
-                );
-                from_value(graph, kv_pair, vocabulary::value().clone(), v)?;
-            }
+            from_key_values(graph, subject, predicate, v.iter())?;
         }
         Value::None => {
             graph.insert(
@@ -889,7 +865,7 @@ fn from_value(
                     .statement(
                         subject,
                         predicate,
-                        statement_factory.named_object(rdf::nil().clone()),
+                        statement_factory.named_object(vocabulary::null().clone()),
                     )
                     .unwrap(),
             );
@@ -897,3 +873,78 @@ fn from_value(
     }
     Ok(())
 }
+
+fn from_key_values<'a>(
+    graph: &mut RefMut<'_, dyn Graph>,
+    subject: SubjectNodeRef,
+    predicate: IRIRef,
+    key_values: impl Iterator<Item = (&'a String, &'a Value)>,
+) -> Result<(), ModelError> {
+    let literal_factory = graph.literal_factory();
+    let the_value = add_container(graph, subject, predicate, rdf::bag());
+    for (idx, (k, v)) in key_values.enumerate() {
+        let kv_pair = add_container_pair(graph, &the_value, idx);
+        let statement_factory = graph.statement_factory();
+        graph.insert(
+            statement_factory
+                .statement(
+                    kv_pair.clone(),
+                    vocabulary::key().clone(),
+                    statement_factory.literal_object(literal_factory.literal(k)),
+                )
+                .unwrap(),
+        );
+        from_value(graph, kv_pair, vocabulary::value().clone(), v)?;
+    }
+    Ok(())
+}
+
+/// Add a new blank node, an RDF container of the given type, as the value of a property.
+fn add_container(
+    graph: &mut RefMut<'_, dyn Graph>,
+    subject: SubjectNodeRef,
+    predicate: IRIRef,
+    container_type: &IRIRef,
+) -> SubjectNodeRef {
+    let statement_factory = graph.statement_factory();
+    let container = statement_factory.blank_subject();
+    graph.insert(
+        statement_factory
+            .statement(
+                subject,
+                predicate,
+                statement_factory.subject_as_object(container.clone()),
+            )
+            .unwrap(),
+    );
+    graph.insert(
+        statement_factory
+            .statement(
+                container.clone(),
+                rdf::a_type().clone(),
+                statement_factory.named_object(container_type.clone()),
+            )
+            .unwrap(),
+    );
+    container
+}
+
+/// Add a new blank node as the item of a container at the (zero-based) index.
+fn add_container_pair(
+    graph: &mut RefMut<'_, dyn Graph>,
+    container: &SubjectNodeRef,
+    index: usize,
+) -> SubjectNodeRef {
+    let statement_factory = graph.statement_factory();
+    let pair = statement_factory.blank_subject();
+    graph.insert(
+        statement_factory
+            .statement(
+                container.clone(),
+                rdf::member(index + 1),
+                statement_factory.subject_as_object(pair.clone()),
+            )
+            .unwrap(),
+    );
+    pair
+}
-- 
2.43.0


From d50df6c1524e95e165116ccc3c90f8f964384b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 38/46] fix: GraphML was malformed for some service versions
 and left out resource identifiers

---
 atelier-describe/src/graphml/writer.rs | 36 +++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index 7e80a28..367d0a6 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -43,7 +43,7 @@ For the _message of the day_ model, this writer will generate the following XML.
         <default>member</default>
     </key>
     <graph id="model" edgedefault="directed">
-        <data key="smithy.version">1.0</data>
+        <data key="smithy-version">1.0</data>
         <node id="example.motd#GetMessageOutput">
             <data key="type">structure</data>
         </node>
@@ -116,9 +116,9 @@ use atelier_core::model::shapes::{
 use atelier_core::model::visitor::{walk_model, ModelVisitor};
 use atelier_core::model::{HasIdentity, Model, ShapeID};
 use atelier_core::syntax::{
-    MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_INPUT,
-    MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT, MEMBER_PUT,
-    MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, SHAPE_LIST, SHAPE_MAP,
+    MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
+    MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, SHAPE_LIST, SHAPE_MAP,
     SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE, SHAPE_UNION,
 };
 use std::cell::{RefCell, RefMut};
@@ -140,7 +140,7 @@ pub struct GraphMLWriter {}
 // ------------------------------------------------------------------------------------------------
 
 struct VisitorState<'a, W: Write> {
-    edge_count: u16,
+    edge_count: usize,
     writer: &'a mut W,
 }
 #[allow(clippy::upper_case_acronyms)]
@@ -187,7 +187,7 @@ impl ModelWriter for GraphMLWriter {
         writeln!(w, r#"    <graph id="model" edgedefault="directed">"#)?;
         writeln!(
             w,
-            r#"        <data key="smithy.version">{}</data>"#,
+            r#"        <data key="smithy-version">{}</data>"#,
             model.smithy_version()
         )?;
 
@@ -355,7 +355,7 @@ impl<'a, W: Write> ModelVisitor for GraphMLVisitor<'a, W> {
             writeln!(
                 state.writer,
                 r#"            <data key="version">{}</data>"#,
-                value.version()
+                escape_text(value.version())
             )?;
             writeln!(state.writer, r#"        </node>"#)?;
         }
@@ -377,6 +377,9 @@ impl<'a, W: Write> ModelVisitor for GraphMLVisitor<'a, W> {
     ) -> Result<(), Self::Error> {
         self.node(id, SHAPE_RESOURCE)?;
         self.traits(id, traits)?;
+        for target in value.identifiers().map(|(_, target)| target) {
+            self.member(id, target, MEMBER_IDENTIFIERS)?;
+        }
         if let Some(target) = value.create() {
             self.member(id, target, MEMBER_CREATE)?;
         }
@@ -464,6 +467,25 @@ impl<'a, W: Write> GraphMLVisitor<'a, W> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+/// Escape markup in character data, and replace any character which is not allowed in XML.
+fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '\r' => escaped.push_str("&#13;"),
+            '\t' | '\n' => escaped.push(c),
+            '\u{0}'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}' => {
+                escaped.push(std::char::REPLACEMENT_CHARACTER)
+            }
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From dc3012ec451f413daa4015010e8ac3ddd2151c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 39/46] fix: PlantUML repeated shapes per namespace, left out
 collections, mislabelled lifecycle operations and panicked on missing ones

---
 atelier-describe/src/plant_uml/writer.rs | 99 ++++++++++++++++--------
 1 file changed, 65 insertions(+), 34 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 9a5a662..92db50b 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -114,12 +114,13 @@ use atelier_core::model::HasIdentity;
 use atelier_core::model::{Model, NamespaceID, ShapeID};
 use atelier_core::prelude::PRELUDE_NAMESPACE;
 use atelier_core::syntax::{
-    MEMBER_COLLECTION_OPERATIONS, MEMBER_OPERATIONS, MEMBER_VERSION, SHAPE_BIG_DECIMAL,
-    SHAPE_BIG_INTEGER, SHAPE_BLOB, SHAPE_BOOLEAN, SHAPE_BYTE, SHAPE_DOCUMENT, SHAPE_DOUBLE,
-    SHAPE_FLOAT, SHAPE_INTEGER, SHAPE_LONG, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SHORT,
-    SHAPE_STRING, SHAPE_TIMESTAMP, SHAPE_UNION,
+    MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_LIST, MEMBER_OPERATIONS,
+    MEMBER_PUT, MEMBER_READ, MEMBER_UPDATE, MEMBER_VERSION, SHAPE_BIG_DECIMAL, SHAPE_BIG_INTEGER,
+    SHAPE_BLOB, SHAPE_BOOLEAN, SHAPE_BYTE, SHAPE_DOCUMENT, SHAPE_DOUBLE, SHAPE_FLOAT,
+    SHAPE_INTEGER, SHAPE_LIST, SHAPE_LONG, SHAPE_MAP, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
+    SHAPE_SHORT, SHAPE_STRING, SHAPE_TIMESTAMP, SHAPE_UNION,
 };
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 use std::io::Write;
 use std::str::FromStr;
 
@@ -162,14 +163,17 @@ impl ModelWriter for PlantUmlWriter {
         if self.expand_smithy_api {
             self.write_smithy_model(w)?;
         }
-        let namespaces: HashSet<&NamespaceID> =
+        let namespaces: BTreeSet<&NamespaceID> =
             model.shape_names().map(ShapeID::namespace).collect();
         for namespace in namespaces {
             writeln!(w, "package {} {{", namespace)?;
             writeln!(w)?;
-            for element in model.shapes() {
+            for element in model.shapes().filter(|s| s.id().namespace() == namespace) {
                 match element.body() {
-                    ShapeKind::Simple(_) => self.write_data_type(w, element, model)?,
+                    ShapeKind::Simple(_)
+                    | ShapeKind::List(_)
+                    | ShapeKind::Set(_)
+                    | ShapeKind::Map(_) => self.write_data_type(w, element, model)?,
                     ShapeKind::Service(_) => self.write_service(w, element, model)?,
                     ShapeKind::Resource(_) => self.write_resource(w, element, model)?,
                     ShapeKind::Structure(_) | ShapeKind::Union(_) => {
@@ -214,6 +218,9 @@ impl PlantUmlWriter {
             SHAPE_BIG_INTEGER,
             SHAPE_BIG_DECIMAL,
             SHAPE_TIMESTAMP,
+            SHAPE_LIST,
+            SHAPE_SET,
+            SHAPE_MAP,
         ] {
             writeln!(w, "    class {} <<primitive>> {{ }}", name)?;
         }
@@ -236,7 +243,7 @@ impl PlantUmlWriter {
             "        {}: {} = \"{}\"",
             MEMBER_VERSION,
             SHAPE_STRING,
-            body.version()
+            on_one_line(body.version())
         )?;
         for operation in body.operations() {
             self.write_operation(w, operation, model, None)?;
@@ -263,22 +270,22 @@ impl PlantUmlWriter {
             writeln!(w, "        {}: {}", id, shape_id)?;
         }
         if let Some(id) = body.create() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_CREATE))?;
         }
         if let Some(id) = body.put() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_PUT))?;
         }
         if let Some(id) = body.read() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_READ))?;
         }
         if let Some(id) = body.update() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_UPDATE))?;
         }
         if let Some(id) = body.delete() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_DELETE))?;
         }
         if let Some(id) = body.list() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_LIST))?;
         }
         if body.has_operations() {
             writeln!(w, "        ..{}..", MEMBER_OPERATIONS)?;
@@ -340,14 +347,33 @@ impl PlantUmlWriter {
         writeln!(w, "    class {} <<dataType>> {{", data_type.id())?;
         let notes = self.write_class_traits(w, data_type, model)?;
         writeln!(w, "    }}")?;
-        writeln!(w, "    {}", notes.join("\n"))?;
+        self.write_class_notes(w, data_type.id(), notes)?;
+        let members = match data_type.body() {
+            ShapeKind::List(body) | ShapeKind::Set(body) => vec![body.member()],
+            ShapeKind::Map(body) => vec![body.key(), body.value()],
+            _ => vec![],
+        };
+        for member in members {
+            writeln!(
+                w,
+                "    {} --> {} : {}",
+                data_type.id(),
+                member.target(),
+                member.id()
+            )?;
+        }
         if self.expand_smithy_api {
-            let simple = data_type.body().as_simple().unwrap();
+            let base_type = match data_type.body() {
+                ShapeKind::List(_) => SHAPE_LIST.to_string(),
+                ShapeKind::Set(_) => SHAPE_SET.to_string(),
+                ShapeKind::Map(_) => SHAPE_MAP.to_string(),
+                other => other.as_simple().unwrap().to_string(),
+            };
             writeln!(
                 w,
                 "    {}.{} <|-- {}",
                 PRELUDE_NAMESPACE,
-                simple,
+                base_type,
                 data_type.id()
             )?;
         }
@@ -362,28 +388,24 @@ impl PlantUmlWriter {
         model: &Model,
         other_name: Option<&str>,
     ) -> atelier_core::error::Result<()> {
-        let operation = model.shape(oper_id).unwrap();
-        let name = operation.id();
-        let operation = operation.body().as_operation().unwrap();
+        // the operation may be unresolved, or not part of this model.
+        let operation = model
+            .shape(oper_id)
+            .and_then(|shape| shape.body().as_operation());
         writeln!(
             w,
             "        {}(in: {}){}",
             match other_name {
-                None => name.to_string(),
+                None => oper_id.to_string(),
                 Some(name) => name.to_string(),
             },
-            if operation.has_input() {
-                self.type_string(&operation.input().as_ref().unwrap(), model)
-            } else {
-                String::new()
+            match operation.and_then(|operation| operation.input().as_ref()) {
+                Some(input) => self.type_string(input, model),
+                None => String::new(),
             },
-            if operation.has_output() {
-                format!(
-                    ": {}",
-                    self.type_string(&operation.output().as_ref().unwrap(), model)
-                )
-            } else {
-                String::new()
+            match operation.and_then(|operation| operation.output().as_ref()) {
+                Some(output) => format!(": {}", self.type_string(output, model)),
+                None => String::new(),
             },
         )?;
         Ok(())
@@ -407,7 +429,7 @@ impl PlantUmlWriter {
             } else {
                 traits.push(match value {
                     None | Some(Value::None) => format!("    @{}", id),
-                    Some(Value::String(v)) => format!("    @{} = \"{}\"", id, v),
+                    Some(Value::String(v)) => format!("    @{} = \"{}\"", id, on_one_line(v)),
                     Some(Value::Number(v)) => format!("    @{} = {}", id, v),
                     Some(Value::Boolean(v)) => format!("    @{} = {}", id, v),
                     Some(Value::Array(_)) => format!("    @{} = [ .. ]", id),
@@ -459,3 +481,12 @@ impl PlantUmlWriter {
         }
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+/// Any line break in a value would otherwise start a new statement in the diagram.
+fn on_one_line(value: &str) -> String {
+    value.replace('\r', "\\r").replace('\n', "\\n")
+}
-- 
2.43.0


From 9adb769b9e87245d308125a7ad115e712d84bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 40/46] fix: documentation panicked on non-string text and
 mangled nested trait paths and links

---
 atelier-describe/src/document/writer.rs | 26 ++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 4831a20..d507b1a 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -203,26 +203,30 @@ fn trait_value(
         Value::String(v) => result.push((id, prefix, Some(v.to_string()))),
         Value::Array(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 for (i, v) in vs.iter().enumerate() {
-                    result.extend(trait_value(id.clone(), Some(format!("[{}]", i)), v));
+                    let path = format!("{}[{}]", prefix, i);
+                    result.extend(trait_value(id.clone(), Some(path), v));
                 }
             }
         }
         Value::Object(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 let mut obj_keys: Vec<&String> = vs.keys().collect();
                 obj_keys.sort();
                 for k in obj_keys {
                     let v = vs.get(k).unwrap();
-                    result.extend(trait_value(id.clone(), Some(format!(".{}", k)), v));
+                    let path = format!("{}.{}", prefix, k);
+                    result.extend(trait_value(id.clone(), Some(path), v));
                 }
             }
         }
-        _ => result.push((id, None, None)),
+        _ => result.push((id, prefix, None)),
     }
     result
 }
@@ -276,10 +280,18 @@ fn describe_traits(shape: &impl HasTraits, doc: &mut Document) {
     }
 }
 
+/// The text of a string without quotation marks, any other value in its display form.
+fn text_of(value: &Value) -> String {
+    match value {
+        Value::String(v) => v.clone(),
+        _ => value.to_string(),
+    }
+}
+
 fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_DOCUMENTATION, None);
     if let Some(Some(doc_value)) = shape.trait_named(&trait_id) {
-        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value.as_string().unwrap()));
+        let _ = doc.add_paragraph(Paragraph::plain_str(&text_of(doc_value)));
     }
 
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_EXTERNALDOCUMENTATION, None);
@@ -288,7 +300,7 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
             .iter()
             .map(|(k, v)| {
                 InlineContent::HyperLink(HyperLink::external_with_caption(
-                    &v.to_string(),
+                    &text_of(v),
                     Caption::from(k.to_string()),
                 ))
             })
-- 
2.43.0


From 55831c04f2a4631a54981cd09841001d5ed431de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 41/46] fix: numeric assertions of ScopedAttributeBuilder
 compare with numbers, not texts

---
 atelier-core/src/builder/selector.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/builder/selector.rs b/atelier-core/src/builder/selector.rs
index a26ae51..17e135f 100644
--- a/atelier-core/src/builder/selector.rs
+++ b/atelier-core/src/builder/selector.rs
@@ -1074,7 +1074,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1083,7 +1083,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1092,7 +1092,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1101,7 +1101,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
-- 
2.43.0


From 63812813f14a0003de9f51b9827e43253eef664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 42/46] fix: an IRI with a query or fragment is not the URN of
 a shape

---
 atelier-rdf/src/urn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atelier-rdf/src/urn.rs b/atelier-rdf/src/urn.rs
index 83cf20d..4fa4f89 100644
--- a/atelier-rdf/src/urn.rs
+++ b/atelier-rdf/src/urn.rs
@@ -65,7 +65,9 @@ pub fn is_shape_iri(iri: IRIRef) -> bool {
 /// conform to the format described in the module documentation.
 ///
 pub fn iri_to_shape(iri: IRIRef) -> Result<ShapeID, String> {
-    if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
+    if iri.has_query() || iri.has_fragment() {
+        Err(String::from("A Smithy URN has no query or fragment"))
+    } else if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
         let path = iri.path().to_string();
         if let Some(path) = path.strip_prefix(URN_NID) {
             if path
-- 
2.43.0


From 243dc1b1f436c0a65b3ffeba2e06e1c70da93903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 43/46] fix: documentation panicked on shape names starting
 with an underscore

---
 atelier-describe/src/document/writer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index d507b1a..17992b1 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -314,14 +314,13 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
     describe_traits(shape, doc);
 }
 
+/// The prefix is part of the text as a label has to start with a letter, but a shape name may start
+/// with an underscore.
 fn shape_id_to_label(source: &ShapeID) -> Label {
     if let Some(member) = source.member_name() {
-        Label::safe_from(
-            &format!("{}_{}", source.shape_name(), member),
-            Some("member"),
-        )
+        Label::safe_from(&format!("member:{}_{}", source.shape_name(), member), None)
     } else {
-        Label::safe_from(&format!("{}", source.shape_name()), Some("shape"))
+        Label::safe_from(&format!("shape:{}", source.shape_name()), None)
     }
 }
 
-- 
2.43.0


From ad9e0bd0c41d1a5f76217ca7ab0097cf72cdabd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 44/46] fix: documentation writer ignored transient failures of
 the output stream

---
 atelier-describe/src/document/writer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 17992b1..c744018 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -71,7 +71,7 @@ use somedoc::model::inline::HyperLink;
 use somedoc::model::inline::{HasInlineContent, InlineContent, Span};
 use somedoc::model::Document;
 use somedoc::write::markdown::MarkdownFlavor;
-use somedoc::write::{write_document, OutputFormat};
+use somedoc::write::{write_document_to_string, OutputFormat};
 use std::io::Write;
 
 // ------------------------------------------------------------------------------------------------
@@ -113,12 +113,15 @@ impl Default for DocumentationWriter {
 impl ModelWriter for DocumentationWriter {
     fn write(&mut self, w: &mut impl Write, model: &Model) -> ModelResult<()> {
         let document = describe_model(model)?;
-        match write_document(
+        // somedoc ignores some of the errors returned by a stream, so render in memory first.
+        match write_document_to_string(
             &document,
             OutputFormat::Markdown(MarkdownFlavor::CommonMark),
-            w,
         ) {
-            Ok(_) => Ok(()),
+            Ok(text) => {
+                w.write_all(text.as_bytes())?;
+                Ok(())
+            }
             Err(err) => Err(err.to_string().into()),
         }
     }
-- 
2.43.0


From 2a99e8df4d6ff96143beb188e50f0386d1cf6f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 45/46] fix: the command-line tool panicked on file names that
 are not UTF-8

---
 cargo-atelier/src/command_line.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cargo-atelier/src/command_line.rs b/cargo-atelier/src/command_line.rs
index 5219eb6..beef1a5 100644
--- a/cargo-atelier/src/command_line.rs
+++ b/cargo-atelier/src/command_line.rs
@@ -3,6 +3,7 @@ use atelier_lib::assembler::SEARCH_PATH_ENV;
 use search_path::SearchPath;
 use somedoc::write::OutputFormat;
 use std::error::Error;
+use std::ffi::OsString;
 use std::path::PathBuf;
 use structopt::StructOpt;
 
@@ -29,7 +30,7 @@ struct CommandLine {
 #[derive(Debug, StructOpt)]
 struct FileInput {
     /// A file, or directory containing files, to read.
-    #[structopt(long, short)]
+    #[structopt(long, short, parse(from_os_str))]
     in_file: Vec<PathBuf>,
 
     /// If set, the standard SMITHY_PATH environment variable is used as a search path.
@@ -59,7 +60,7 @@ enum SubCommand {
         file_input: FileInput,
 
         /// The file to write to [default: <stdout>]
-        #[structopt(long, short)]
+        #[structopt(long, short, parse(from_os_str))]
         out_file: Option<PathBuf>,
 
         /// The representation of the output file
@@ -76,7 +77,7 @@ enum SubCommand {
         file_input: FileInput,
 
         /// The file to write to [default: <stdout>]
-        #[structopt(long, short)]
+        #[structopt(long, short, parse(from_os_str))]
         out_file: Option<PathBuf>,
 
         /// The documentation format supported by the `somedoc` crate
@@ -166,9 +167,10 @@ pub fn parse() -> Result<Command, Box<dyn Error>> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
-fn check_command_line() -> Vec<String> {
+fn check_command_line() -> Vec<OsString> {
     use std::env;
-    let mut args = env::args().collect::<Vec<String>>();
+    // file names do not have to be valid Unicode.
+    let mut args = env::args_os().collect::<Vec<OsString>>();
 
     if let Some(command) = args.get(1) {
         // The following is true if this is run as a cargo sub-command.
-- 
2.43.0


From 087825052ba3760de6ae46490caa512dc620d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:18 +0000
Subject: [PATCH 46/46] fix: showing the parse tree of deeply nested IDL no
 longer overflows the stack

---
 atelier-smithy/src/parser/smithy.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 95c4c17..975ff3a 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -57,6 +57,7 @@ pub fn parse_model(input: &str) -> ModelResult<Model> {
 #[cfg(feature = "debug")]
 #[allow(dead_code)]
 pub fn parse_and_debug_model(w: &mut impl Write, input: &str) -> ModelResult<()> {
+    check_model_nesting(input)?;
     let parsed = SmithyParser::parse(Rule::idl, input).map_err(from_pest_error)?;
     writeln!(w, "{}", pest_ascii_tree::into_ascii_tree(parsed).unwrap())?;
     Ok(())
-- 
2.43.0

