From 66870785ef79415a3bcafb3c7ce60a6583e2edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 1/8] fix: ignore unknown bits when deserializing the array
 serde representation

The documentation states that unknown bits are silently removed unless
`serialize_deny_unknown` is given, but the generated deserializer for
`serialize_repr = "array"` (and for every enum with a variant above 127) used
the panicking `from_array` conversion on untrusted input.
---
 enumset_derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 51c0e5a..90caa20 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -581,7 +581,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 )
             } else {
                 (quote! {}, quote! {
-                    #core::prelude::v1::Ok(#enumset::EnumSet::<#name>::from_array(accum))
+                    #core::prelude::v1::Ok(
+                        #enumset::EnumSet::<#name>::from_array_truncated(accum)
+                    )
                 })
             };
             quote! {
-- 
2.43.0


From ec6ec4eed140fe9f0c4ed554b8528a4513e353a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 2/8] fix: make serialize_deny_unknown compile with the array
 serde representation

The generated visitor referred to the deserializer type of the enclosing
function, did not import `serde::de::Error`, and its match arms had different
types, so the documented combination failed to compile.
---
 enumset_derive/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 90caa20..3d7e0a7 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -566,15 +566,19 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             )
                         }
                     },
                     quote! {
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
-                            Some(x) => x,
-                            None => #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                            #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
+                            #core::prelude::v1::None => #core::prelude::v1::Err(
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             ),
                         }
                     },
-- 
2.43.0


From c40ab9d7eec9a799775027b4949667dc81696525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 3/8] fix: make serialize_deny_unknown compile for array-backed
 enums

The unknown bit check of the integer serde representations applied integer
operators to the internal representation of the set, which is an `ArrayRepr`
for enums with a variant above 63 and for `repr = "array"`.
---
 enumset_derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 3d7e0a7..c81484c 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -442,7 +442,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             };
             let check_unknown = if info.serialize_deny_unknown {
                 quote! {
-                    if value & !#all_variants != 0 {
+                    let valid_bits =
+                        <#repr as #enumset::__internal::EnumSetTypeRepr>::#to_fn(&#all_variants);
+                    if value & !valid_bits != 0 {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
                             D::Error::custom("enumset contains unknown bits")
-- 
2.43.0


From 15443c81af3a8ef379f3cb5095c771f8426b028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 4/8] fix: report a bit width of zero for enums without
 variants

`EnumSet::bit_width` is documented to be the same as `EnumSet::variant_count`
for enums that are not sparse, but returned 1 for empty enums.
---
 enumset_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index c81484c..ec25bd9 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -925,7 +925,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         });
     }
 
-    let bit_width = info.max_discrim + 1;
+    let bit_width = if info.variants.is_empty() { 0 } else { info.max_discrim + 1 };
     let variant_count = info.variants.len() as u32;
     let vis = &info.vis;
     quote! {
-- 
2.43.0


From 212f767873a1d841d8a47b5dc5e9e4b23cab6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 5/8] fix: do not require `EnumSet` to be in scope for an empty
 `enum_set!()`

---
 enumset/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset/src/macros.rs b/enumset/src/macros.rs
index a2bfabb..32e5489 100644
--- a/enumset/src/macros.rs
+++ b/enumset/src/macros.rs
@@ -42,7 +42,7 @@ pub mod __internal {
 #[macro_export]
 macro_rules! enum_set {
     ($(|)*) => {
-        EnumSet::empty()
+        $crate::EnumSet::empty()
     };
     ($value:path $(|)*) => {
         {
-- 
2.43.0


From 222adb44ba64d9e7339f6c83cf85d00a585a2a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 6/8] fix: allow enums named like the generic parameters of the
 generated code

Enums called `O`, `S`, `D`, `A`, `Visitor` or `Into` did not compile, as the
generic parameters and helper types of the generated code shadowed them.
---
 enumset_derive/src/lib.rs | 112 +++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index ec25bd9..7e8f016 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -383,30 +383,30 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     } else {
         quote! {
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::Sub<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<__O> for #name {
                 type Output = #typed_enumset;
-                fn sub(self, other: O) -> Self::Output {
+                fn sub(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitand(self, other: O) -> Self::Output {
+                fn bitand(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitor(self, other: O) -> Self::Output {
+                fn bitor(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitxor(self, other: O) -> Self::Output {
+                fn bitxor(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) ^ other.into()
                 }
             }
@@ -447,7 +447,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     if value & !valid_bits != 0 {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
-                            D::Error::custom("enumset contains unknown bits")
+                            __D::Error::custom("enumset contains unknown bits")
                         )
                     }
                 }
@@ -455,16 +455,16 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 quote! {}
             };
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     let value =
                         <#repr as #enumset::__internal::EnumSetTypeRepr>::#to_fn(&set.__priv_repr);
                     #serde::Serialize::serialize(&value, ser)
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
                     let value = <#serialize_repr as #serde::Deserialize>::deserialize(de)?;
                     #check_unknown
                     let value = <#repr as #enumset::__internal::EnumSetTypeRepr>::#from_fn(value);
@@ -477,9 +477,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         SerdeRepr::List => {
             let expecting_str = format!("a list of {}", name);
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     use #serde::ser::SerializeSeq;
                     let mut seq = ser.serialize_seq(#core::prelude::v1::Some(set.len()))?;
                     for bit in set {
@@ -487,21 +487,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     }
                     seq.end()
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __EnumSetVisitor;
+                    impl <'de> #serde::de::Visitor<'de> for __EnumSetVisitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, #expecting_str)
                         }
-                        fn visit_seq<A>(
-                            mut self, mut seq: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::SeqAccess<'de>
+                        fn visit_seq<__A>(
+                            mut self, mut seq: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
@@ -510,16 +510,16 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    de.deserialize_seq(__EnumSetVisitor)
                 }
             }
         }
         SerdeRepr::Map => {
             let expecting_str = format!("a map from {} to bool", name);
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     use #serde::ser::SerializeMap;
                     let mut map = ser.serialize_map(#core::prelude::v1::Some(set.len()))?;
                     for bit in set {
@@ -527,21 +527,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     }
                     map.end()
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __EnumSetVisitor;
+                    impl <'de> #serde::de::Visitor<'de> for __EnumSetVisitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, #expecting_str)
                         }
-                        fn visit_map<A>(
-                            mut self, mut map: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::MapAccess<'de>
+                        fn visit_map<__A>(
+                            mut self, mut map: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::MapAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some((val, is_present)) =
@@ -554,7 +554,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_map(Visitor)
+                    de.deserialize_map(__EnumSetVisitor)
                 }
             }
         }
@@ -568,7 +568,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                <A::Error as #serde::de::Error>::custom(
+                                <__A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits"
                                 )
                             )
@@ -578,7 +578,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
                             #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
                             #core::prelude::v1::None => #core::prelude::v1::Err(
-                                <A::Error as #serde::de::Error>::custom(
+                                <__A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits"
                                 )
                             ),
@@ -593,9 +593,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 })
             };
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     // read the enum as an array
                     let array = set.as_array::<{ #preferred_size }>();
 
@@ -611,21 +611,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     // serialize the array
                     #serde::Serialize::serialize(&array[..end], ser)
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __EnumSetVisitor;
+                    impl <'de> #serde::de::Visitor<'de> for __EnumSetVisitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, "a list of u64")
                         }
-                        fn visit_seq<A>(
-                            mut self, mut seq: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::SeqAccess<'de>
+                        fn visit_seq<__A>(
+                            mut self, mut seq: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = [0; #preferred_size];
 
@@ -645,7 +645,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #convert_array
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    de.deserialize_seq(__EnumSetVisitor)
                 }
             }
         }
-- 
2.43.0


From c9e066eff3db9456d10c669e6c1a38cacd490883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 7/8] fix: allow enum variants named like associated types of
 the generated impls

---
 enumset_derive/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 7e8f016..725ea73 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -385,35 +385,35 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<__O> for #name {
                 type Output = #typed_enumset;
-                fn sub(self, other: __O) -> Self::Output {
+                fn sub(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitand(self, other: __O) -> Self::Output {
+                fn bitand(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitor(self, other: __O) -> Self::Output {
+                fn bitor(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitxor(self, other: __O) -> Self::Output {
+                fn bitxor(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) ^ other.into()
                 }
             }
             #[automatically_derived]
             impl #core::ops::Not for #name {
                 type Output = #typed_enumset;
-                fn not(self) -> Self::Output {
+                fn not(self) -> #typed_enumset {
                     !#enumset::EnumSet::only(self)
                 }
             }
@@ -955,7 +955,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 const CONST_HELPER_INSTANCE: __EnumSetConstHelper = __EnumSetConstHelper;
 
                 type Repr = #repr;
-                const ALL_BITS: Self::Repr = #all_variants;
+                const ALL_BITS: #repr = #all_variants;
                 const BIT_WIDTH: u32 = #bit_width;
                 const VARIANT_COUNT: u32 = #variant_count;
 
-- 
2.43.0


From 77213162c639dafd02dbb92102728999afe9b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 8/8] fix: do not use macros of the user's scope in generated
 code

---
 enumset_derive/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 725ea73..20062b9 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -496,7 +496,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, #expecting_str)
+                            #core::write!(formatter, #expecting_str)
                         }
                         fn visit_seq<__A>(
                             mut self, mut seq: __A,
@@ -536,7 +536,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, #expecting_str)
+                            #core::write!(formatter, #expecting_str)
                         }
                         fn visit_map<__A>(
                             mut self, mut map: __A,
@@ -620,7 +620,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, "a list of u64")
+                            #core::write!(formatter, "a list of u64")
                         }
                         fn visit_seq<__A>(
                             mut self, mut seq: __A,
@@ -659,10 +659,10 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     let into_impl = if is_uninhabited {
         quote! {
             fn enum_into_u32(self) -> u32 {
-                panic!(concat!(stringify!(#name), " is uninhabited."))
+                #core::panic!(#core::concat!(#core::stringify!(#name), " is uninhabited."))
             }
             unsafe fn enum_from_u32(val: u32) -> Self {
-                panic!(concat!(stringify!(#name), " is uninhabited."))
+                #core::panic!(#core::concat!(#core::stringify!(#name), " is uninhabited."))
             }
         }
     } else if is_zst {
@@ -717,7 +717,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     };
 
     let eq_impl = if is_uninhabited {
-        quote!(panic!(concat!(stringify!(#name), " is uninhabited.")))
+        quote!(#core::panic!(#core::concat!(#core::stringify!(#name), " is uninhabited.")))
     } else {
         quote!((*self as u32) == (*other as u32))
     };
-- 
2.43.0

