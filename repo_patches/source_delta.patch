From 71e4572d5ea5a4f615cb7cffa2b91b391841298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 01/26] fix: Bytes::shrink_to bounds-checks against the actual
 length of inlined slices

The out-of-line len field holds data bytes when the slice is inlined.
---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 4226029..6682157 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -232,7 +232,7 @@ impl<'a> Bytes<'a> {
             core::ops::Bound::Unbounded => self.len(),
         };
         assert!(start <= end);
-        assert!(end <= self.len);
+        assert!(end <= self.len());
         let len = end - start;
         if len <= Self::MAX_INLINE_SIZE {
             // SAFETY: `&self[start..end]` length has been checked, which is `inline_unchecked`'s only safety requirement.
-- 
2.43.0


From 8e071ed28acff37c6efceb854976bca633795b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 02/26] fix: Bytes::noalloc_upgrade must refuse borrowed slices
 and accept owned ones

The condition was inverted, so that a long borrowed slice was given the
'static lifetime.
---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 6682157..0ee515f 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -346,7 +346,7 @@ impl<'a> Bytes<'a> {
     /// # Errors
     /// Returns the original instance if it couldn't be proven to be `'static`.
     pub fn noalloc_upgrade(self: Bytes<'a>) -> Result<Bytes<'static>, Self> {
-        if !self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
+        if self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
             Ok(unsafe { mem::transmute(self) })
         } else {
             Self::inline_slice(&self).ok_or(self)
-- 
2.43.0


From dd841e55f926577fb8ad8b3b0ee22b539d0bd8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 03/26] fix: Bytes allocation predictions agree with the inline
 capacity

Slices of MAX_INLINE_SIZE < len < size_of::<Bytes>() bytes were predicted
not to allocate.
---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 0ee515f..bd09de6 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -374,7 +374,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Self::upgrade`] would cause an allocation.
     pub fn upgrade_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.is_borrowed() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.is_borrowed() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
@@ -382,7 +382,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Clone::clone`] would cause an allocation.
     pub fn clone_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.retain.is_none() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.retain.is_none() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
-- 
2.43.0


From 012b093312b45895d4403202e0ed722ea462fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 04/26] fix: Bytes::shrink_to refuses range bounds that
 overflow without overflow checks too

---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index bd09de6..aaed584 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -223,11 +223,11 @@ impl<'a> Bytes<'a> {
     pub fn shrink_to<R: RangeBounds<usize>>(&mut self, range: R) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.checked_add(1).expect("range start overflow"),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.checked_add(1).expect("range end overflow"),
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 0b3e990f0a78f2460d3f6377953a8f0443fdb75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 05/26] fix: c_int is ReprC, as documented

---
 src/layout/impls.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index ea518a3..7d3fd98 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -960,6 +960,7 @@ unsafe
 
         type OPAQUE_KIND = OpaqueKind::Concrete;
     }
+from_CType_impl_ReprC! { c_int }
 
 impl_ReprC_for! { unsafe {
     bool
-- 
2.43.0


From cbc695da84d45d9f5b070763b98bdc49e8812be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 06/26] fix: C# marshals c_int as the 32-bit integer it is

---
 src/layout/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 7d3fd98..5246c11 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -953,7 +953,7 @@ unsafe
                 fn legacy_csharp_marshaler ()
                   -> Option<rust::String>
                 {
-                    Some("UnmanagedType.SysInt".into())
+                    Some("UnmanagedType.I4".into())
                 }
             }
         }
-- 
2.43.0


From 7e56bf38690d2e9e6428a7d17cbe27cf7c03f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 07/26] fix: repr(C) tuple structs can derive ReprC

---
 src/proc_macro/derives/repr_c/struct_.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 4ca2143..6813e2a 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -74,9 +74,10 @@ fn derive (
     };
 
     let EachFieldTy @ _ = || fields.iter().map(|Field { ty, .. }| ty);
-    let each_field_name = || (0..).zip(fields).map(|(i, f)| match f.ident {
-        | Some(ref ident) => ident.to_token_stream(),
-        | None => Index { index: i, span: f.ty.span() }.into_token_stream(),
+    // The names of the fields of the `CLayout`.
+    let each_field_name = || (0_u8..).zip(fields).map(|(i, f)| match f.ident {
+        | Some(ref ident) => ident.clone(),
+        | None => format_ident!("_{}", i),
     });
 
     let ref StructName_Layout @ _ = format_ident!("{}_Layout", StructName);
@@ -110,12 +111,7 @@ fn derive (
             generics: ctype_generics.clone(),
             fields: Fields::Named({
                 let EachFieldTy = EachFieldTy();
-                let each_field_name = (0_u8..).zip(fields).map(|(i, f)| {
-                    match f.ident {
-                        | Some(ref ident) => ident.clone(),
-                        | None => format_ident!("_{}", i),
-                    }
-                });
+                let each_field_name = each_field_name();
                 let each_field_docs = fields.iter().map(|f| {
                     docs_of(&f.attrs).vec()
                 });
-- 
2.43.0


From 691aa017be3587228a3c54356a34fb6a5dedc317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:16 +0000
Subject: [PATCH 08/26] fix: header generation supports every enum discriminant

---
 src/proc_macro/derives/repr_c/enum_.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index 6b7893e..9ea1f9e 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -138,9 +138,10 @@ fn derive (
         let ref each_enum_variant =
             variants.try_vmap(|v| Result::Ok({
                 let ref VariantName_str = v.ident.to_string();
-                let discriminant = if let Some((_eq, disc)) = &v.discriminant {
+                let discriminant = if v.discriminant.is_some() {
+                    let VariantName = &v.ident;
                     quote!(
-                        #ඞ::Some(&(#disc, ).0 as _)
+                        #ඞ::Some(&(#EnumName::#VariantName as #Int) as _)
                     )
                 } else {
                     quote!(
-- 
2.43.0


From f816b24ab7448f2cbbacb156c00e0287cd8c9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 09/26] fix: transparent function pointer wrappers with a named
 field can derive ReprC

---
 src/proc_macro/derives/handle_fptr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/derives/handle_fptr.rs b/src/proc_macro/derives/handle_fptr.rs
index 78eef86..7affd56 100644
--- a/src/proc_macro/derives/handle_fptr.rs
+++ b/src/proc_macro/derives/handle_fptr.rs
@@ -122,6 +122,10 @@ fn try_handle_fptr (
             },
         };
 
+        let FieldName: Member = match fields.iter().next().unwrap().ident {
+            | Some(ref ident) => ident.clone().into(),
+            | None => 0.into(),
+        };
         let (intro, fwd, where_) = input.generics.split_for_impl();
         let mut ret = quote!(
             #[allow(nonstandard_style)]
@@ -141,7 +145,7 @@ fn try_handle_fptr (
                 fn deref (self: &'_ #StructName #fwd)
                   -> &'_ Self::Target
                 {
-                    &self.0
+                    &self.#FieldName
                 }
             }
         );
@@ -265,6 +269,10 @@ fn try_handle_fptr (
                 | Fields::Unnamed(FieldsUnnamed {
                     unnamed: ref mut it,
                     ..
+                })
+                | Fields::Named(FieldsNamed {
+                    named: ref mut it,
+                    ..
                 }) => it,
                 | _ => unreachable!(),
             };
-- 
2.43.0


From 0256b9f14e029c4c595165d4749308f8e35e8b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:01 +0000
Subject: [PATCH 10/26] fix: a null out-reference is not valid

---
 src/layout/impls.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 5246c11..4b0845a 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -1017,6 +1017,7 @@ impl_ReprC_for! { unsafe {
     @for['out, T : 'out + Sized + ReprC]
     Out<'out, T>
         => |ref it: *mut T::CLayout| {
+            it.is_null().not() &&
             (*it as usize) % ::core::mem::align_of::<T>() == 0
         },
 }}
-- 
2.43.0


From 3e6c5ea5b0c3cdcc13e7552590111a869ec585a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 11/26] fix: C declarators of function pointers nest

---
 src/headers/languages/c.rs |  4 ++--
 src/layout/impls.rs        | 45 +++++++++++++++++++++++---------------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 4082680..4854b64 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -48,9 +48,9 @@ impl HeaderLanguage for C {
                 mk_out!(indent, ctx.out());
                 self.emit_docs(ctx, docs, indent)?;
                 let ref aliaser = self_ty.name(self);
-                let ref aliasee = inner_ty.name(self);
+                let ref typedef = inner_ty.name_wrapping_var(self, aliaser);
                 out!((
-                    "typedef {aliasee} {aliaser};"
+                    "typedef {typedef};"
                 ));
 
                 out!("\n");
diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 4b0845a..3503e7a 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -299,16 +299,21 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt, "{} ", Ret::name(&crate::headers::languages::C))?;
-                write!(fmt, "(*{})(", var_name)?;
+                use fmt::Write;
+                let declarator = &mut rust::String::new();
+                write!(declarator, "(*{})(", var_name)?;
                 let _empty = true; $(
                 let _empty = false;
-                write!(fmt, "{}", $An::name(&crate::headers::languages::C))?; $(
-                write!(fmt, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
+                write!(declarator, "{}", $An::name(&crate::headers::languages::C))?; $(
+                write!(declarator, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
                 if _empty {
-                    fmt.write_str("void")?;
+                    declarator.write_str("void")?;
                 }
-                fmt.write_str(")")
+                declarator.write_str(")")?;
+                fmt.write_str(&Ret::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    declarator,
+                ))
             }
 
             __cfg_csharp__! {
@@ -608,12 +613,14 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} const *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!(
+                        "const *{sep}{}",
+                        var_name,
+                        sep = if var_name.is_empty() { "" } else { " " },
+                    ),
+                ))
             }
 
             __cfg_csharp__! {
@@ -675,12 +682,14 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!(
+                        "*{sep}{}",
+                        var_name,
+                        sep = if var_name.is_empty() { "" } else { " " },
+                    ),
+                ))
             }
 
             __cfg_csharp__! {
-- 
2.43.0


From abd6fb43e3735d344eb3f208f6e8872319d10d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:35 +0000
Subject: [PATCH 12/26] fix: the C header of an isize includes what declares
 ssize_t

---
 src/layout/impls.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 3503e7a..f7f11bb 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -503,7 +503,17 @@ const _: () = { macro_rules! impl_CTypes {
                             "\n",
                         ),
                     ),
-                )
+                )?;
+                // `ssize_t` is POSIX, none of the above headers offers it.
+                if $CInt == "ssize" {
+                    definer.define_once(
+                        "__ssize_headers__",
+                        &mut |definer| write!(definer.out(),
+                            "\n#include <sys/types.h>\n\n",
+                        ),
+                    )?;
+                }
+                Ok(())
             }
 
             fn c_var_fmt (
-- 
2.43.0


From 0002a9e4ef1c956b1ba519195b5dcab03509fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 13/26] fix: extreme integers in the C header have a type they
 fit in

---
 src/headers/languages/c.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 4854b64..494cf57 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -100,8 +100,8 @@ impl HeaderLanguage for C {
                     enum_name,
                     v.name,
                 ) */;
-                if let Some(value) = v.discriminant {
-                    out!(("{variant_name} = {value:?},"));
+                if let Some(value) = v.discriminant.map(c_value) {
+                    out!(("{variant_name} = {value},"));
                 } else {
                     out!(("{variant_name},"));
                 }
@@ -253,14 +253,15 @@ impl HeaderLanguage for C {
         mk_out!(indent, ctx.out());
 
         self.emit_docs(ctx, docs, indent)?;
+        let ref value = c_value(value);
         if skip_type {
             out!((
-                "#define {name} {value:?}"
+                "#define {name} {value}"
             ));
         } else {
             let ty = ty.name(self);
             out!((
-                "#define {name} (({ty}) {value:?})"
+                "#define {name} (({ty}) {value})"
             ));
         }
 
@@ -268,3 +269,16 @@ impl HeaderLanguage for C {
         Ok(())
     }
 }
+
+/// The C expression of the given value: contrary to Rust's, a C integer literal
+/// needs to have, on its own, a type it fits in.
+fn c_value (value: &'_ dyn ::core::fmt::Debug)
+  -> String
+{
+    let value = format!("{value:?}");
+    match value.parse::<i128>() {
+        | Ok(v) if v == i64::MIN.into() => format!("(-{} - 1)", i64::MAX),
+        | Ok(v) if v > i64::MAX.into() => format!("{value}u"),
+        | _ => value,
+    }
+}
-- 
2.43.0


From 05a32ac5e55790ebd92ba3ea075ef84b4cb7caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:48 +0000
Subject: [PATCH 14/26] fix: header generation to a file reported success
 before its buffer was flushed

---
 src/headers/_mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index 8bcd974..5a547ed 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -304,7 +304,9 @@ match_! {(
             }.generate_with_definer(&mut HashSetDefiner {
                 out: &mut target,
                 defines_set: Default::default(),
-            })
+            })?;
+            // A buffered writer may be hiding an error until flushed.
+            target.flush()
         }
 
         // pub
-- 
2.43.0


From 63828e13fd350a5465f5f9c1bacb6cc297f9c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:48 +0000
Subject: [PATCH 15/26] fix: same-named exports were silently dropped from the
 headers instead of being an error

---
 src/headers/_mod.rs                 | 35 ++++++++++++-----------------
 src/proc_macro/ffi_export/const_.rs | 12 ++++++++++
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index 5a547ed..33a4545 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -399,28 +399,21 @@ impl Builder<'_, WhereTo> {
                 .as_ref()
                 .unwrap_or(&NamingConvention::Default)
         ;
-        let (mut storage0, mut storage1) = (None, None);
-        let gen_defs: &mut dyn Iterator<Item = _> = if stable_header {
-            storage0.get_or_insert(
-                crate::inventory::iter
-                    .into_iter()
-                    .map(|crate::FfiExport { name, gen_def }| (name, gen_def))
-                    // Sort the definitions for a reliable header generation.
-                    .collect::<::std::collections::BTreeMap<_, _>>()
-                    .into_iter()
-                    .map(|(_, gen_def)| gen_def)
-            )
+        let mut exports: rust::Vec<&'static crate::FfiExport> =
+            crate::inventory::iter.into_iter().collect()
+        ;
+        if stable_header {
+            // Sort the definitions for a reliable header generation.
+            exports.sort_by_key(|crate::FfiExport { name, .. }| *name);
         } else {
-            storage1.get_or_insert(
-                crate::inventory::iter
-                    .into_iter()
-                    // Iterate in reverse fashion to more closely match
-                    // the Rust definition order.
-                    .collect::<rust::Vec<_>>().into_iter().rev()
-                    .map(|crate::FfiExport { gen_def, .. }| gen_def)
-            )
-        };
-        (&mut { gen_defs }).try_for_each(|gen_def| gen_def(definer, lang))?;
+            // Iterate in reverse fashion to more closely match
+            // the Rust definition order.
+            exports.reverse();
+        }
+        exports
+            .into_iter()
+            .try_for_each(|crate::FfiExport { gen_def, .. }| gen_def(definer, lang))
+        ?;
         Ok(())
     }
 
diff --git a/src/proc_macro/ffi_export/const_.rs b/src/proc_macro/ffi_export/const_.rs
index 93ab257..2181bd8 100644
--- a/src/proc_macro/ffi_export/const_.rs
+++ b/src/proc_macro/ffi_export/const_.rs
@@ -79,6 +79,18 @@ fn handle (
                         definer: &'_ mut dyn #ඞ::Definer,
                         lang: #ඞ::Language,
                     | {
+                        if ! definer.insert(#VAR_str) {
+                            return #ඞ::result::Result::Err(
+                                #ඞ::io::Error::new(
+                                    #ඞ::io::ErrorKind::AlreadyExists,
+                                    #ඞ::concat!(
+                                        "Error, attempted to declare `",
+                                        #VAR_str,
+                                        "` while another declaration already exists",
+                                    ),
+                                )
+                            );
+                        }
                         #krate::__with_cfg_python__!(|$if_cfg_python| {
                             use #krate::headers::{
                                 Language,
-- 
2.43.0


From 1df8af37a82cc409c234199498b512858cdac15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:48 +0000
Subject: [PATCH 16/26] fix: documentation could end its comment in the C
 header or leave it in the C# one

---
 src/headers/languages/c.rs      |  4 +++-
 src/headers/languages/csharp.rs |  2 +-
 src/headers/languages/mod.rs    | 12 ++++++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 494cf57..3e495cf 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -21,7 +21,9 @@ impl HeaderLanguage for C {
         }
 
         out!(("/** \\brief"));
-        for line in docs.iter().copied().map(str::trim) {
+        for line in doc_lines(docs) {
+            // Make sure not to close the comment.
+            let line = line.replace("*/", "*\\/");
             let sep = if line.is_empty() { "" } else { "  " };
             out!((" *{sep}{line}"));
         }
diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index 77246d2..85e1e3d 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -21,7 +21,7 @@ impl HeaderLanguage for CSharp {
         }
 
         out!(("/// <summary>"));
-        for mut line in docs.iter().copied().map(str::trim) {
+        for mut line in doc_lines(docs) {
             let mut storage = None;
             if line.contains('`') {
                 let s = storage.get_or_insert_with(rust::String::new);
diff --git a/src/headers/languages/mod.rs b/src/headers/languages/mod.rs
index 27d0673..8add908 100644
--- a/src/headers/languages/mod.rs
+++ b/src/headers/languages/mod.rs
@@ -62,6 +62,18 @@ impl ::core::fmt::Display for Indentation {
 
 type Docs<'lt> = &'lt [&'lt str];
 
+/// The trimmed lines of the given docs, since a single doc attribute may span
+/// multiple lines (_e.g._, `/** … */`, `#[doc = include_str!(…)]`).
+fn doc_lines<'lt> (docs: Docs<'lt>)
+  -> impl 'lt + Iterator<Item = &'lt str>
+{
+    docs.iter()
+        .flat_map(|doc| doc.trim().split('\n'))
+        // Other line terminators (for, at least, C#).
+        .flat_map(|line| line.trim().split(['\r', '\u{85}', '\u{2028}', '\u{2029}']))
+        .map(str::trim)
+}
+
 pub
 trait HeaderLanguage : UpcastAny {
     fn language_name(self: &'_ Self) -> &'static str {
-- 
2.43.0


From 7bafc8e5e4a39c7585c09944bf9dbf529d2a1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:48 +0000
Subject: [PATCH 17/26] fix: constants that are non-finite, strings, characters
 or C# native integers had wrong or invalid values in the headers

---
 src/c_char.rs                   |  9 ++++++-
 src/headers/languages/c.rs      | 45 ++++++++++++++++++++++++++++++---
 src/headers/languages/csharp.rs | 12 ++++++++-
 3 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/c_char.rs b/src/c_char.rs
index 1f93317..c18ab1b 100644
--- a/src/c_char.rs
+++ b/src/c_char.rs
@@ -12,7 +12,6 @@ use_prelude!();
 #[cfg_attr(feature = "stabby", stabby::stabby)]
 #[repr(transparent)]
 #[derive(
-    Debug,
     Clone, Copy,
     Default,
     PartialOrd, Ord,
@@ -25,6 +24,14 @@ struct c_char /* = */ (
     u8,
 );
 
+impl ::core::fmt::Debug for c_char {
+    fn fmt (self: &'_ c_char, fmt: &'_ mut ::core::fmt::Formatter<'_>)
+      -> ::core::fmt::Result
+    {
+        ::core::fmt::Debug::fmt(&self.0, fmt)
+    }
+}
+
 /// Assert that `crate::libc::c_char` is either `uint8_t` or `int8_t`.
 const _: () = {
     trait IsU8OrI8
diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 3e495cf..100b58a 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -273,14 +273,51 @@ impl HeaderLanguage for C {
 }
 
 /// The C expression of the given value: contrary to Rust's, a C integer literal
-/// needs to have, on its own, a type it fits in.
+/// needs to have, on its own, a type it fits in; there are no literals for
+/// non-finite floats; and strings have other escapes.
 fn c_value (value: &'_ dyn ::core::fmt::Debug)
   -> String
 {
     let value = format!("{value:?}");
-    match value.parse::<i128>() {
-        | Ok(v) if v == i64::MIN.into() => format!("(-{} - 1)", i64::MAX),
-        | Ok(v) if v > i64::MAX.into() => format!("{value}u"),
+    match (&*value, value.parse::<i128>()) {
+        | (_, Ok(v)) if v == i64::MIN.into() => format!("(-{} - 1)", i64::MAX),
+        | (_, Ok(v)) if v > i64::MAX.into() => format!("{value}u"),
+        | ("inf", _) => "(1e308 * 10)".into(),
+        | ("-inf", _) => "(-1e308 * 10)".into(),
+        | ("NaN", _) => "((1e308 * 10) * 0.0)".into(),
+        | (s, _) if s.starts_with('"') => c_string_literal(s),
         | _ => value,
     }
 }
+
+/// From a Rust string literal, as yielded by `Debug`, to a C one.
+fn c_string_literal (rust_literal: &'_ str)
+  -> String
+{
+    let mut ret = String::new();
+    let mut chars = rust_literal.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            | '\\' => match chars.next().unwrap() {
+                | '0' => ret.push_str("\\000"),
+                | 'u' => {
+                    let code_point: String =
+                        chars.by_ref().skip(1).take_while(|&c| c != '}').collect()
+                    ;
+                    let c =
+                        u32::from_str_radix(&code_point, 16).ok().and_then(char::from_u32)
+                            .expect("`Debug` to use valid escapes")
+                    ;
+                    for byte in c.encode_utf8(&mut [0; 4]).bytes() {
+                        ret.push_str(&format!("\\{byte:03o}"));
+                    }
+                },
+                | escaped => ret.extend(['\\', escaped]),
+            },
+            // No trigraphs.
+            | '?' if ret.ends_with('?') => ret.push_str("\\?"),
+            | _ => ret.push(c),
+        }
+    }
+    ret
+}
diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index 85e1e3d..7664d96 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -260,8 +260,18 @@ impl HeaderLanguage for CSharp {
         if let _ = indent.scope() {
             self.emit_docs(ctx, docs, indent)?;
             let ty = ty.name(self);
+            let value = format!("{value:?}");
+            let (kind, value) = match (&*ty, &*value) {
+                // There are no constants of these types.
+                | ("IntPtr" | "UIntPtr", _) => ("static readonly", format!("new {ty}({value})")),
+                | (_, "inf") => ("const", format!("{ty}.PositiveInfinity")),
+                | (_, "-inf") => ("const", format!("{ty}.NegativeInfinity")),
+                | (_, "NaN") => ("const", format!("{ty}.NaN")),
+                | ("float", _) => ("const", format!("{value}f")),
+                | _ => ("const", value),
+            };
             out!((
-                "public const {ty} {name} = {value:?};"
+                "public {kind} {ty} {name} = {value};"
             ));
         }
         out!(("}}"));
-- 
2.43.0


From 2972e46fa89f990c3c85b856742e8d2436854055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:48 +0000
Subject: [PATCH 18/26] fix: C# arrays of native integers were declared as
 `fixed` buffers, and renamed transparent wrappers lost their field's
 marshalling

---
 src/layout/impls.rs                      | 4 ++--
 src/proc_macro/derives/c_type/struct_.rs | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index f7f11bb..553132c 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -160,8 +160,8 @@ const _: () = { macro_rules! impl_CTypes {
                             // Poor man's specialization to use `fixed` arrays.
                             if  [
                                     "bool",
-                                    "u8", "u16", "u32", "u64", "usize",
-                                    "i8", "i16", "i32", "i64", "isize",
+                                    "u8", "u16", "u32", "u64",
+                                    "i8", "i16", "i32", "i64",
                                     "float", "double",
                                 ].contains(&::core::any::type_name::<Item>())
                             {
diff --git a/src/proc_macro/derives/c_type/struct_.rs b/src/proc_macro/derives/c_type/struct_.rs
index 5982831..7f2d50d 100644
--- a/src/proc_macro/derives/c_type/struct_.rs
+++ b/src/proc_macro/derives/c_type/struct_.rs
@@ -282,6 +282,12 @@ fn derive_transparent (
                         <#CFieldTy as #ඞ::CType>::name(language)
                     }
                 }
+
+                fn csharp_marshaler ()
+                  -> #ඞ::Option<#ඞ::String>
+                {
+                    <#CFieldTy as #ඞ::CType>::csharp_marshaler()
+                }
             }
         }
     ));
-- 
2.43.0


From 8ba1ea70ea1ffd21d07240c54c1058499a5d4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:50 +0000
Subject: [PATCH 19/26] fix: arrays of opaque types were considered to be of a
 known layout, and could thus cross the FFI boundary by value

---
 src/layout/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 553132c..9f1489a 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -205,7 +205,7 @@ const _: () = { macro_rules! impl_CTypes {
                     })
                 }
             }
-        } type OPAQUE_KIND = OpaqueKind::Concrete; }
+        } type OPAQUE_KIND = Item::OPAQUE_KIND; }
 
         // ReprC
         /// Simplified for lighter documentation, but the actual impls
-- 
2.43.0


From f6acb214a461154088cec6350584f1e87500980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:42 +0000
Subject: [PATCH 20/26] =?UTF-8?q?fix:=20derive=5FReprC=20ignored=20the=20r?=
 =?UTF-8?q?epresentation=20hints=20other=20than=20the=20first=20#[repr(?=
 =?UTF-8?q?=E2=80=A6)]=20attribute?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/proc_macro/derives/repr_c/_mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/proc_macro/derives/repr_c/_mod.rs b/src/proc_macro/derives/repr_c/_mod.rs
index c248539..c12f418 100644
--- a/src/proc_macro/derives/repr_c/_mod.rs
+++ b/src/proc_macro/derives/repr_c/_mod.rs
@@ -24,6 +24,11 @@ fn derive (
     let args: Args = parse2(attrs)?;
 
     let mut input: DeriveInput = parse2(input)?;
+    if let Some(extra) = input.attrs.iter().filter(|it| is_repr(it)).nth(1) {
+        bail! {
+            "only one `#[repr(…)]` annotation is supported" => extra
+        }
+    }
     if let Some(ret) = super::handle_fptr::try_handle_fptr(&input) {
         return ret;
     }
@@ -61,3 +66,16 @@ fn derive (
         #ret
     ))
 }
+
+/// Whether this is a `#[repr(…)]`, be it a conditional one.
+fn is_repr (attr: &'_ Attribute)
+  -> bool
+{
+    attr.path.is_ident("repr") || attr.path.is_ident("cfg_attr") && matches!(
+        attr.parse_meta(),
+        Ok(Meta::List(MetaList { nested, .. }))
+        if nested.iter().skip(1).any(|it| matches!(
+            it, NestedMeta::Meta(meta) if meta.path().is_ident("repr")
+        ))
+    )
+}
-- 
2.43.0


From a955fc5314d6ceea65bce875a752e5def395d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:42 +0000
Subject: [PATCH 21/26] fix: derive_ReprC gave fields that are #[cfg]-ed out a
 place in the C layout

---
 src/proc_macro/derives/c_type/struct_.rs | 6 ++++++
 src/proc_macro/derives/repr_c/struct_.rs | 6 ++++++
 src/proc_macro/utils/_mod.rs             | 9 +++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/proc_macro/derives/c_type/struct_.rs b/src/proc_macro/derives/c_type/struct_.rs
index 7f2d50d..5cb7877 100644
--- a/src/proc_macro/derives/c_type/struct_.rs
+++ b/src/proc_macro/derives/c_type/struct_.rs
@@ -81,6 +81,9 @@ fn derive (
         let ref EachFieldTy =
             fields.iter().vmap(|Field { ty, .. }| ty)
         ;
+        let each_field_cfgs =
+            fields.iter().map(|f| utils::cfgs_of(&f.attrs).vec())
+        ;
         let ref StructName_str =
             args.rename.map_or_else(
                 || StructName.to_string().into_token_stream(),
@@ -117,8 +120,10 @@ fn derive (
                     || format!("_{i}"),
                     Ident::to_string,
                 );
+                let field_cfgs = utils::cfgs_of(&f.attrs);
                 let FieldTy = &f.ty;
                 quote!(
+                    #(#field_cfgs)*
                     #ඞ::StructField {
                         docs: &[#(#field_docs),*],
                         name: #field_name_str,
@@ -136,6 +141,7 @@ fn derive (
             ) -> #ඞ::io::Result<()>
             {
             #(
+                #(#each_field_cfgs)*
                 < #EachFieldTy as #CType >::define_self(language, definer)?;
             )*
                 language.emit_struct(
diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 6813e2a..7fc23a5 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -115,9 +115,13 @@ fn derive (
                 let each_field_docs = fields.iter().map(|f| {
                     docs_of(&f.attrs).vec()
                 });
+                let each_field_cfgs = fields.iter().map(|f| {
+                    utils::cfgs_of(&f.attrs).vec()
+                });
                 parse_quote!({
                     #(
                         #(#each_field_docs)*
+                        #(#each_field_cfgs)*
                         pub
                         #each_field_name: #CLayoutOf<#EachFieldTy>
                     ),*
@@ -147,6 +151,7 @@ fn derive (
     ret.extend({
         let EachFieldTy @ _ = EachFieldTy();
         let each_field_name = each_field_name();
+        let each_field_cfgs = fields.iter().map(|f| utils::cfgs_of(&f.attrs).vec());
         let (intro_generics, fwd_generics, where_clauses) =
             ctype_generics.split_for_impl()
         ;
@@ -167,6 +172,7 @@ fn derive (
                 {
                     let mut _ret = true;
                     #(
+                        #(#each_field_cfgs)*
                         if #ඞ::mem::size_of::<#EachFieldTy>() != 0
                         && <#EachFieldTy as #ReprC>::is_valid(
                             &_it.#each_field_name
diff --git a/src/proc_macro/utils/_mod.rs b/src/proc_macro/utils/_mod.rs
index 30cfbb1..9e4ecd4 100644
--- a/src/proc_macro/utils/_mod.rs
+++ b/src/proc_macro/utils/_mod.rs
@@ -262,3 +262,12 @@ fn parenthesized<T> (
     let contents;
     scope(parenthesized!(contents in input), &contents)
 }
+
+pub(in crate)
+fn cfgs_of (attrs: &'_ [Attribute])
+  -> impl '_ + Iterator<Item = &'_ Attribute>
+{
+    attrs
+        .iter()
+        .filter(|a| a.path.is_ident("cfg"))
+}
-- 
2.43.0


From 9559be4b5dc01427aa9869cfe354dfd841080982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:23 +0000
Subject: [PATCH 22/26] fix: derive_ReprC gave transparent structs starting
 with a marker the layout of that marker

---
 src/proc_macro/derives/repr_c/struct_.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 7fc23a5..5d7461a 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -237,7 +237,18 @@ fn derive_transparent (
 
     let mut ret = quote!();
 
-    let FieldTy = match fields.iter().next() {
+    // The markers, which have no layout, may precede the field that has one.
+    let is_marker = |ty: &Type| match ty {
+        | Type::Tuple(it) => it.elems.is_empty(),
+        | Type::Path(it) => it.path.segments.last().map_or(false, |it| it.ident == "PhantomData"),
+        | _ => false,
+    };
+    let FieldTy = match
+        fields
+            .iter()
+            .find(|f| is_marker(&f.ty).not())
+            .or_else(|| fields.iter().next())
+    {
         | Some(f) => &f.ty,
         | None => bail! {
             "`#[repr(transparent)]` requires at least one field" => fields,
-- 
2.43.0


From ae804b28aecd847bf4033d4aefc5da7e8d8ea5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:32 +0000
Subject: [PATCH 23/26] fix: virtual objects of traits with Send or Sync as a
 supertrait could be made of Rcs, and thus be sent with them

---
 src/proc_macro/derives/dyn_trait/_mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/proc_macro/derives/dyn_trait/_mod.rs b/src/proc_macro/derives/dyn_trait/_mod.rs
index afbf06b..4e26d76 100644
--- a/src/proc_macro/derives/dyn_trait/_mod.rs
+++ b/src/proc_macro/derives/dyn_trait/_mod.rs
@@ -87,7 +87,7 @@ fn try_handle_trait (
         ident: ref TraitName @ _,
         ref generics,
         colon_token: _,
-        supertraits: _,
+        ref supertraits,
         brace_token: _,
         ref mut items,
     } = *trait_;
@@ -95,6 +95,11 @@ fn try_handle_trait (
     let (_, fwd_trait_generics, trait_where_clause) =
         &generics.split_for_impl()
     ;
+    // `dyn Trait` is itself `Send` or `Sync` when these are supertraits.
+    let has_supertrait = |name: &str| supertraits.iter().any(|Bound @ _| matches!(
+        Bound, TypeParamBound::Trait(TraitBound { path, .. })
+        if path.segments.last().map_or(false, |it| it.ident == name)
+    ));
 
     let ref each_vtable_entry = vtable_entries(items, &mut ret)?;
     let each_method_def = each_vtable_entry.vmap(VTableEntry::virtual_forwarding);
@@ -321,8 +326,8 @@ fn try_handle_trait (
             where_clause, trait_where_clause, where_clause_with_mb_clone,
 
             Clone: args.clone.as_ref(),
-            is_send,
-            is_sync,
+            is_send: is_send || has_supertrait("Send"),
+            is_sync: is_sync || has_supertrait("Sync"),
             has_mut,
             has_pin,
         };
-- 
2.43.0


From c120e1cf08bce005de829b6b204d02ab7eaeb97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:40 +0000
Subject: [PATCH 24/26] fix: exported async functions ignored rename

---
 src/proc_macro/ffi_export/fn_/async_fn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/ffi_export/fn_/async_fn.rs b/src/proc_macro/ffi_export/fn_/async_fn.rs
index 00a98c4..30d8deb 100644
--- a/src/proc_macro/ffi_export/fn_/async_fn.rs
+++ b/src/proc_macro/ffi_export/fn_/async_fn.rs
@@ -318,8 +318,11 @@ fn export (
         let pub_ = &fun.vis;
         let each_attr = &fun.attrs;
         fun_signature.asyncness = None;
+        let rename = rename.map(|Rename { new_name, .. }| quote!(
+            rename = #new_name
+        ));
         quote!(
-            #[::safer_ffi::ffi_export]
+            #[::safer_ffi::ffi_export(#rename)]
             #(#each_attr)*
             #pub_ #fun_signature
             {
-- 
2.43.0


From 94f99e5cc982521dbee948e56d71375aa2a3273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:11 +0000
Subject: [PATCH 25/26] fix: const generic structs of distinct parameters
 shared one name, and one definition, in the headers

---
 src/_lib.rs                              | 16 ++++++++++++++++
 src/proc_macro/derives/c_type/struct_.rs |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/src/_lib.rs b/src/_lib.rs
index 61779b1..e076d60 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -668,6 +668,22 @@ mod __ {
         }
     }
 
+    /// Appends the value of a `const` generic parameter to the name of a type.
+    #[cfg(feature = "headers")]
+    pub
+    fn append_const_generic (
+        out: &'_ mut String,
+        value: &'_ dyn fmt::Debug,
+    )
+    {
+        out.push('_');
+        format!("{:?}", value).trim_matches('\'').chars().for_each(|c| match c {
+            | '-' => out.push_str("minus_"),
+            | _ if c.is_ascii_alphanumeric() => out.push(c),
+            | _ => out.push_str(&format!("u{:x}", c as u32)),
+        });
+    }
+
     #[doc(hidden)] /** Not part of the public API! */
     #[macro_export]
     macro_rules! ඞassert_expr {( $e:expr $(,)? ) => ( $e )}
diff --git a/src/proc_macro/derives/c_type/struct_.rs b/src/proc_macro/derives/c_type/struct_.rs
index 5cb7877..45e14c2 100644
--- a/src/proc_macro/derives/c_type/struct_.rs
+++ b/src/proc_macro/derives/c_type/struct_.rs
@@ -78,6 +78,9 @@ fn derive (
         let EachGenericTy =
             generics.type_params().map(|it| &it.ident)
         ;
+        let EachConstGeneric =
+            generics.const_params().map(|it| &it.ident)
+        ;
         let ref EachFieldTy =
             fields.iter().vmap(|Field { ty, .. }| ty)
         ;
@@ -107,6 +110,9 @@ fn derive (
                         ),
                     ).unwrap();
                 )*
+                #(
+                    #ඞ::append_const_generic(&mut _ret, &#EachConstGeneric);
+                )*
                 _ret
             }
         ));
-- 
2.43.0


From 75c14578af92b0a560fa29e78776a39f90746e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:04 +0000
Subject: [PATCH 26/26] fix: naming an opaque type panicked on nested generic
 parameters

---
 src/_lib.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/_lib.rs b/src/_lib.rs
index e076d60..eb4c344 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -616,12 +616,28 @@ mod __ {
             splitter(orig).map_or((orig, None), |(l, r)| (l, Some(r)))
         }
 
+        /// Splits at the commas which are not nested within a type.
+        fn split_params (params: &'_ str)
+          -> impl '_ + Iterator<Item = &'_ str>
+        {
+            let (mut depth, mut prev) = (0, ' ');
+            params.split(move |c| {
+                match c {
+                    | '<' | '(' | '[' => depth += 1,
+                    | ')' | ']' => depth -= 1,
+                    // (unless it is the arrow of a function)
+                    | '>' if prev != '-' => depth -= 1,
+                    | _ => {},
+                }
+                prev = c;
+                c == ',' && depth == 0
+            })
+        }
+
         let ty_name = ty_name.trim();
         if let Some(tuple_innards) = ty_name.strip_prefix('(') {
             // Tuple
-            tuple_innards
-                .strip_suffix(')').unwrap()
-                .split(',')
+            split_params(tuple_innards.strip_suffix(')').unwrap())
                 .for_each(|generic| {
                     append_unqualified_name(out, generic);
                 })
@@ -641,7 +657,7 @@ mod __ {
             out.push('_');
             let (mut path, mb_generics) = mb_split_with(
                 ty_name,
-                |s| s.split_once('<'),
+                |s| s.strip_suffix('>')?.split_once('<'),
             );
             let is_valid_for_ident = |c: char| {
                 c.is_alphanumeric() || matches!(c, '_')
@@ -660,8 +676,7 @@ mod __ {
                 });
             }
             if let Some(generics) = mb_generics {
-                let generics = generics.strip_suffix('>').unwrap();
-                generics.split(',').for_each(|generic| {
+                split_params(generics).for_each(|generic| {
                     append_unqualified_name(out, generic);
                 });
             }
-- 
2.43.0

