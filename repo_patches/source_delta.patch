From 4ec32e2e7330b0d6644a9cd3b61db041625fc21b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 01/16] fix: return whether the value was newly inserted from
 boolean sets

The return value of Set::insert was inverted for keys stored as bool.
---
 src/set/storage/boolean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index 3737358..b83fe87 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -138,7 +138,7 @@ impl SetStorage<bool> for BooleanSetStorage {
     #[inline]
     fn insert(&mut self, value: bool) -> bool {
         let update = self.bits | to_bits(value);
-        test(mem::replace(&mut self.bits, update), value)
+        !test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From 9832c85da174d7b1f4b41b0c1490432bee9d4837 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 02/16] fix: only report removal of present values from boolean
 sets

Removing an absent bool reported true if the other bool was present.
---
 src/set/storage/boolean.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index b83fe87..af747c9 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -148,9 +148,8 @@ impl SetStorage<bool> for BooleanSetStorage {
 
     #[inline]
     fn remove(&mut self, value: bool) -> bool {
-        let value = to_bits(value);
-        let update = self.bits & !value;
-        mem::replace(&mut self.bits, update) != 0
+        let update = self.bits & !to_bits(value);
+        test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From 72e699090ff7363d0d181b1e0399e3aa382ae28c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 03/16] fix: is_empty of sets keyed by an option

The test for the None element was inverted.
---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index 5fe0fbb..db81fbe 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -118,7 +118,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        self.some.is_empty() && self.none
+        self.some.is_empty() && !self.none
     }
 
     #[inline]
-- 
2.43.0


From 5d7a7816c4dc7a58213beb4cbe9e91ce5017f097 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 04/16] fix: return whether None was newly inserted from sets
 keyed by an option

The return value of Set::insert was inverted for None.
---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index db81fbe..fef1e51 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -125,7 +125,7 @@ where
     fn insert(&mut self, value: Option<T>) -> bool {
         match value {
             Some(value) => self.some.insert(value),
-            None => mem::replace(&mut self.none, true),
+            None => !mem::replace(&mut self.none, true),
         }
     }
 
-- 
2.43.0


From a59354dddd6efd4a1f07018c16e037b878e97f35 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 05/16] fix: do not yield the key of an empty singleton map

Map::keys yielded the only key of a map keyed by () even if it was vacant.
---
 src/map/storage/singleton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map/storage/singleton.rs b/src/map/storage/singleton.rs
index e01c930..22721e4 100644
--- a/src/map/storage/singleton.rs
+++ b/src/map/storage/singleton.rs
@@ -120,7 +120,7 @@ where
 
     #[inline]
     fn keys(&self) -> Self::Keys<'_> {
-        Some(K::default()).into_iter()
+        self.inner.is_some().then(K::default).into_iter()
     }
 
     #[inline]
-- 
2.43.0


From 80bda18b2f2eb051ff36d1bca90330e1a4865dfe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 06/16] fix: do not visit absent elements when retaining
 singleton sets

Set::retain called the predicate for, and could insert, an element which was
not in the set.
---
 src/set/storage/singleton.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/set/storage/singleton.rs b/src/set/storage/singleton.rs
index f52cb4e..6e92c05 100644
--- a/src/set/storage/singleton.rs
+++ b/src/set/storage/singleton.rs
@@ -51,7 +51,9 @@ where
     where
         F: FnMut(T) -> bool,
     {
-        self.is_set = func(T::default());
+        if self.is_set {
+            self.is_set = func(T::default());
+        }
     }
 
     #[inline]
-- 
2.43.0


From bd617d91ba2d099b2c735ef601e91f5c78e3ef85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 07/16] fix: order bitset sets by their elements

Bitset storage compared the raw integers, which is not the documented
ordering of sets: { First, Third } compared greater than { Third }, contrary
to sets without the bitset attribute and to BTreeSet.
---
 fixed-map-derive/src/unit_variants.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 20c3558..bc3dec4 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -391,6 +391,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
     let copy_t = cx.toks.copy_t();
     let eq_t = cx.toks.eq_t();
     let hash_t = cx.toks.hash_t();
+    let iterator_cmp_bool = cx.toks.iterator_cmp_bool();
     let iterator_flatten = cx.toks.iterator_flatten();
     let mem = cx.toks.mem();
     let option = cx.toks.option();
@@ -428,7 +429,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #partial_ord_t for #set_storage {
             #[inline]
             fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
-                #partial_ord_t::partial_cmp(&self.data, &other.data)
+                #option::Some(#ord_t::cmp(self, other))
             }
         }
 
@@ -436,7 +437,10 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #ord_t for #set_storage {
             #[inline]
             fn cmp(&self, other: &Self) -> #ordering {
-                #ord_t::cmp(&self.data, &other.data)
+                #iterator_cmp_bool(
+                    &[#(self.data & #numbers != 0),*],
+                    &[#(other.data & #numbers != 0),*],
+                )
             }
         }
 
-- 
2.43.0


From 4b2f65cefd945346ea628f540230933b0dd18afb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 08/16] fix: ignore bits which are not variants in from_raw

Stray bits made len, is_empty and equality disagree with the elements of the
set.
---
 fixed-map-derive/src/unit_variants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index bc3dec4..41aa8cb 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -528,7 +528,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
 
             #[inline]
             fn from_raw(data: #ty) -> #set_storage {
-                #set_storage { data }
+                #set_storage { data: data & (0 #(| #numbers)*) }
             }
         }
     })
-- 
2.43.0


From 590347387e2d14bc5b8ce58a9449c025b039ca51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 09/16] fix: report errors collected by the derive

Errors which did not abort code generation, such as an unsupported #[key(..)]
attribute, were silently dropped.
---
 fixed-map-derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 365df0a..3d14a06 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -38,11 +38,12 @@ pub fn storage_derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream
 
     let result = impl_storage(&cx);
 
-    if let Ok(g) = result {
+    let errors = cx.into_errors();
+
+    if let (Ok(g), true) = (result, errors.is_empty()) {
         return g.into();
     }
 
-    let errors = cx.into_errors();
     let compile_errors = errors.iter().map(syn::Error::to_compile_error);
     quote!(#(#compile_errors)*).into()
 }
-- 
2.43.0


From 5b46dfde53def0a57db73474cc3ff36722a07ed9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 10/16] fix: do not panic in the derive on tuple variants
 without a field

---
 fixed-map-derive/src/any_variants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 3ff6378..30e5764 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -30,7 +30,7 @@ pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream
                 Kind::Simple
             }
             syn::Fields::Unnamed(unnamed) => {
-                if unnamed.unnamed.len() > 1 {
+                if unnamed.unnamed.len() != 1 {
                     cx.span_error(
                         variant.fields.span(),
                         "unnamed variants must have a single field",
-- 
2.43.0


From 68699d7ecd197aabbda6f9ed9fdc24bd7e5c41e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 11/16] fix: permit attributes on variant fields in the derive

Doc comments and attributes on the field of a tuple variant were included in
the generated type.
---
 fixed-map-derive/src/any_variants.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 30e5764..8de5eea 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -38,7 +38,11 @@ pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream
                     continue;
                 }
 
-                let element = unnamed.unnamed.first().expect("Expected one element");
+                let element = &unnamed
+                    .unnamed
+                    .first()
+                    .expect("Expected one element")
+                    .ty;
                 let map_storage = quote!(<#element as #key_t>::MapStorage::<V>);
                 let as_map_storage = quote!(<#map_storage as #map_storage_t<#element, V>>);
                 let set_storage = quote!(<#element as #key_t>::SetStorage);
@@ -2116,7 +2120,7 @@ pub(crate) enum Kind<'a> {
 /// A complex field kind.
 pub(crate) struct Complex<'a> {
     /// Type of variant field
-    pub(crate) element: &'a syn::Field,
+    pub(crate) element: &'a syn::Type,
     /// `<E as Key>::MapStorage::<V>` (`E` = type of variant field)
     pub(crate) map_storage: TokenStream,
     /// `<<E as Key>::MapStorage::<V> as MapStorage<E, V>>` (`E` = type of variant field)
-- 
2.43.0


From e3d2f7bbd6a74390c3ce3c356347a4b53b0cfba4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 12/16] fix: do not rely on names in scope in the derive

---
 fixed-map-derive/src/any_variants.rs  | 12 +++++++-----
 fixed-map-derive/src/context.rs       |  1 +
 fixed-map-derive/src/unit_variants.rs | 27 +++++++++++++++------------
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 8de5eea..0b8e9b2 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -147,6 +147,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
     let vis = &cx.ast.vis;
     let ident = &cx.ast.ident;
 
+    let fn_mut_t = cx.toks.fn_mut_t();
     let option = cx.toks.option();
     let map_storage_t = cx.toks.map_storage_t();
 
@@ -370,7 +371,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
                 Kind::Simple => quote! {
                     if let #option::Some(val) = #option::as_mut(&mut self.#name) {
                         if !func(#ident::#var, val) {
-                            self.#name = None;
+                            self.#name = #option::None;
                         }
                     }
                 },
@@ -381,7 +382,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
             #[inline]
             fn retain<F>(&mut self, mut func: F)
             where
-                F: FnMut(#ident, &mut V) -> bool
+                F: #fn_mut_t(#ident, &mut V) -> bool
             {
                 #(#retain;)*
             }
@@ -434,6 +435,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
     let vis = &cx.ast.vis;
     let ident = &cx.ast.ident;
 
+    let fn_mut_t = cx.toks.fn_mut_t();
     let mem = cx.toks.mem();
     let set_storage_t = cx.toks.set_storage_t();
 
@@ -622,7 +624,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
             #[inline]
             fn retain<F>(&mut self, mut func: F)
             where
-                F: FnMut(#ident) -> bool
+                F: #fn_mut_t(#ident) -> bool
             {
                 #(#retain;)*
             }
@@ -1448,7 +1450,7 @@ fn map_storage_into_iter(
         }
 
         #[automatically_derived]
-        impl<V> #clone_t for #type_name<V> where V: Clone, #(#clone_bounds,)* {
+        impl<V> #clone_t for #type_name<V> where V: #clone_t, #(#clone_bounds,)* {
             #[inline]
             fn clone(&self) -> Self {
                 Self {
@@ -1464,7 +1466,7 @@ fn map_storage_into_iter(
             type Item = (#ident, V);
 
             #[inline]
-            fn next(&mut self) -> Option<Self::Item> {
+            fn next(&mut self) -> #option<Self::Item> {
                 #step_forward
                 #option::None
             }
diff --git a/fixed-map-derive/src/context.rs b/fixed-map-derive/src/context.rs
index fb4ee63..3e8cee9 100644
--- a/fixed-map-derive/src/context.rs
+++ b/fixed-map-derive/src/context.rs
@@ -57,6 +57,7 @@ toks! {
         double_ended_iterator_t = [core::iter::DoubleEndedIterator],
         entry_enum = [crate::map::Entry],
         eq_t = [core::cmp::Eq],
+        fn_mut_t = [core::ops::FnMut],
         hash_t = [core::hash::Hash],
         hasher_t = [core::hash::Hasher],
         into_iterator_t = [core::iter::IntoIterator],
diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 41aa8cb..3c08a54 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -134,6 +134,7 @@ fn impl_map(
     let lt = &cx.lt;
     let vis = &cx.ast.vis;
 
+    let fn_mut_t = cx.toks.fn_mut_t();
     let iterator_t = cx.toks.iterator_t();
     let into_iterator_t = cx.toks.into_iterator_t();
     let array_into_iter = cx.toks.array_into_iter();
@@ -210,7 +211,7 @@ fn impl_map(
         #[automatically_derived]
         impl<V> #partial_ord_t for #map_storage<V> where V: #partial_ord_t {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #iterator_partial_cmp(&self.data, &other.data)
             }
         }
@@ -313,13 +314,13 @@ fn impl_map(
             #[inline]
             fn retain<F>(&mut self, mut func: F)
             where
-                F: FnMut(#ident, &mut V) -> bool
+                F: #fn_mut_t(#ident, &mut V) -> bool
             {
                 let [#(#names),*] = &mut self.data;
 
                 #(if let #option::Some(val) = #option::as_mut(#names) {
                     if !func(#ident::#variants, val) {
-                        *#names = None;
+                        *#names = #option::None;
                     }
                 })*
             }
@@ -338,7 +339,7 @@ fn impl_map(
             #[inline]
             fn keys(&self) -> Self::Keys<'_> {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if #names.is_some() { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if #names.is_some() { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
@@ -383,6 +384,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
     let ident = &cx.ast.ident;
     let lt = cx.lt;
 
+    let fn_mut_t = cx.toks.fn_mut_t();
     let iterator_t = cx.toks.iterator_t();
     let count = en.variants.len();
     let into_iterator_t = cx.toks.into_iterator_t();
@@ -428,7 +430,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         #[automatically_derived]
         impl #partial_ord_t for #set_storage {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #option::Some(#ord_t::cmp(self, other))
             }
         }
@@ -488,7 +490,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
             #[inline]
             fn retain<F>(&mut self, mut f: F)
             where
-                F: FnMut(#ident) -> bool
+                F: #fn_mut_t(#ident) -> bool
             {
                 let mut update = 0;
 
@@ -508,12 +510,12 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
 
             #[inline]
             fn iter(&self) -> Self::Iter<'_> {
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
             fn into_iter(self) -> Self::IntoIter {
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
         }
 
@@ -562,6 +564,7 @@ fn impl_set(
     let ident = &cx.ast.ident;
     let lt = cx.lt;
 
+    let fn_mut_t = cx.toks.fn_mut_t();
     let iterator_t = cx.toks.iterator_t();
     let count = en.variants.len();
     let into_iterator_t = cx.toks.into_iterator_t();
@@ -598,7 +601,7 @@ fn impl_set(
         #[automatically_derived]
         impl #partial_ord_t for #set_storage {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #iterator_partial_cmp_bool(&self.data, &other.data)
             }
         }
@@ -665,7 +668,7 @@ fn impl_set(
             #[inline]
             fn retain<F>(&mut self, mut f: F)
             where
-                F: FnMut(#ident) -> bool
+                F: #fn_mut_t(#ident) -> bool
             {
                 let [#(#names),*] = &mut self.data;
 
@@ -682,13 +685,13 @@ fn impl_set(
             #[inline]
             fn iter(&self) -> Self::Iter<'_> {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
             fn into_iter(self) -> Self::IntoIter {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
         }
     })
-- 
2.43.0


From e8a7ed8c97ecd63c3d686a9b70ee3c00269b97dc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 13/16] fix: do not silently ignore key(bitset) on composite
 keys in the derive

---
 fixed-map-derive/src/any_variants.rs | 12 ++++++++++--
 fixed-map-derive/src/lib.rs          |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 0b8e9b2..ff4c969 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -6,10 +6,18 @@ use syn::spanned::Spanned;
 const MAP_STORAGE: &str = "__MapStorage";
 const SET_STORAGE: &str = "__SetStorage";
 
-use crate::context::Ctxt;
+use crate::context::{Ctxt, Opts};
 
 /// Implement the `Key` trait for an enum.
-pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream, ()> {
+pub(crate) fn implement(
+    cx: &Ctxt<'_>,
+    opts: &Opts,
+    en: &syn::DataEnum,
+) -> Result<TokenStream, ()> {
+    if let Some(span) = opts.bitset {
+        cx.span_error(span, "bitset is only supported if all variants are unit variants");
+    }
+
     let ident = &cx.ast.ident;
 
     let key_t = cx.toks.key_t();
diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 3d14a06..b1cf0e3 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -55,7 +55,7 @@ fn impl_storage(cx: &context::Ctxt<'_>) -> Result<TokenStream, ()> {
         if is_all_unit_variants(en) {
             unit_variants::implement(cx, &opts, en)
         } else {
-            any_variants::implement(cx, en)
+            any_variants::implement(cx, &opts, en)
         }
     } else {
         cx.span_error(cx.ast.span(), "named fields are not supported");
-- 
2.43.0


From 9bb7c5aae4c74f8fda12602c5919c7d8b3f746db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 14/16] fix: do not silently ignore key attributes on variants
 and fields

---
 fixed-map-derive/src/attrs.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fixed-map-derive/src/attrs.rs b/fixed-map-derive/src/attrs.rs
index 92c35c9..0696191 100644
--- a/fixed-map-derive/src/attrs.rs
+++ b/fixed-map-derive/src/attrs.rs
@@ -1,3 +1,5 @@
+use syn::spanned::Spanned;
+
 use crate::context::{Ctxt, Opts};
 use crate::symbol;
 
@@ -25,5 +27,17 @@ pub(crate) fn parse(cx: &Ctxt<'_>) -> Result<Opts, ()> {
         }
     }
 
+    if let syn::Data::Enum(en) = &cx.ast.data {
+        for variant in &en.variants {
+            let fields = variant.fields.iter().flat_map(|field| &field.attrs);
+
+            for attr in variant.attrs.iter().chain(fields) {
+                if attr.path() == symbol::KEY {
+                    cx.span_error(attr.span(), "Unsupported attribute");
+                }
+            }
+        }
+    }
+
     Ok(opts)
 }
-- 
2.43.0


From 05b361b0571343df4a0e7a0ecfaa2a373c8c5861 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 15/16] fix: do not rely on the prelude in the derive

---
 fixed-map-derive/src/any_variants.rs  | 8 ++++----
 fixed-map-derive/src/unit_variants.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index ff4c969..1c9c3e6 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -261,7 +261,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
             Kind::Complex(Complex { as_map_storage, .. }) => {
                 quote!(#as_map_storage::len(&self.#name))
             }
-            Kind::Simple => quote!(usize::from(#option::is_some(&self.#name))),
+            Kind::Simple => quote!(#option::is_some(&self.#name) as usize),
         });
 
         output.items.extend(quote! {
@@ -545,7 +545,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
             Kind::Complex(Complex { as_set_storage, .. }) => {
                 quote!(#as_set_storage::len(&self.#name))
             }
-            Kind::Simple => quote!(usize::from(self.#name)),
+            Kind::Simple => quote!(self.#name as usize),
         });
 
         output.items.extend(quote! {
@@ -1822,7 +1822,7 @@ impl ToTokens for IteratorNext {
                     _ => break,
                 }
 
-                self.start = usize::min(self.start.wrapping_add(1), self.end);
+                self.start = ::core::cmp::min(self.start.wrapping_add(1), self.end);
             }
         });
     }
@@ -1857,7 +1857,7 @@ impl ToTokens for IteratorNextBack {
                     _ => break,
                 }
 
-                self.end = usize::max(next, self.start);
+                self.end = ::core::cmp::max(next, self.start);
             }
         });
     }
diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 3c08a54..ee9954c 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -257,7 +257,7 @@ fn impl_map(
             #[inline]
             fn len(&self) -> usize {
                 let [#(#names),*] = &self.data;
-                0 #(+ usize::from(#option::is_some(#names)))*
+                0 #(+ #option::is_some(#names) as usize)*
             }
 
             #[inline]
@@ -629,7 +629,7 @@ fn impl_set(
             #[inline]
             fn len(&self) -> usize {
                 let [#(#names),*] = &self.data;
-                0 #(+ usize::from(*#names))*
+                0 #(+ *#names as usize)*
             }
 
             #[inline]
-- 
2.43.0


From fb99641dee2c4876b1bc13aba83a213854682e18 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 16/16] fix: bind payloads with the hygiene of their use in the
 derive

---
 fixed-map-derive/src/any_variants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 1c9c3e6..287b9d8 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -57,7 +57,7 @@ pub(crate) fn implement(
                 let as_set_storage = quote!(<#set_storage as #set_storage_t<#element>>);
 
                 let pat =
-                    build_tuple_struct_pat(ident, var, Some(syn::Ident::new("v", unnamed.span())));
+                    build_tuple_struct_pat(ident, var, Some(syn::Ident::new("v", Span::call_site())));
 
                 fields.patterns.push(pat);
 
-- 
2.43.0

