From 62d38fc1d8a268465f76a0bcb305f8653911d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 01/27] fix: keep the access shared by all merged fields

---
 src/patch/register.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 170aa86..1ef9ff5 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -504,11 +504,15 @@ impl RegisterExt for Register {
             let mut pos = usize::MAX;
             let mut first = true;
             let mut desc = None;
+            let mut access = None;
             for (i, f) in fields.iter_mut().enumerate() {
                 if names.contains(&f.name) {
                     if first {
                         desc.clone_from(&f.description);
+                        access = f.access;
                         first = false;
+                    } else if access != f.access {
+                        access = None;
                     }
                     bitwidth += f.bit_range.width;
                     bitoffset = bitoffset.min(f.bit_range.offset);
@@ -521,6 +525,7 @@ impl RegisterExt for Register {
                 FieldInfo::builder()
                     .name(name)
                     .description(desc)
+                    .access(access)
                     .bit_range(BitRange::from_offset_width(bitoffset, bitwidth))
                     .build(VAL_LVL)?
                     .single(),
-- 
2.43.0


From b572d834e0e0a23fc1c9e2717a278ddcadd4e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 02/27] fix: apply optional rules to clusters when no register
 matches

---
 src/patch/peripheral.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index cd690b3..5af659a 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -403,9 +403,9 @@ pub(crate) trait RegisterBlockExt: Name {
     fn modify_child(&mut self, rcspec: &str, rcmod: &Hash, bpath: &BlockPath) -> PatchResult {
         let (rcspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rcspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rcspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rcspec}. Present registers: {present}.`"
@@ -453,9 +453,9 @@ pub(crate) trait RegisterBlockExt: Name {
     ) -> PatchResult {
         let (rspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rspec}. Present registers: {present}.`"
-- 
2.43.0


From 9594c4fce6246acdaae2a193f192549091146ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 03/27] fix: re-point derived registers to the full path of the
 new source

---
 src/patch/peripheral.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 5af659a..cea91b7 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -352,7 +352,7 @@ pub(crate) trait RegisterBlockExt: Name {
                 .regs_mut()
                 .filter(|r| r.derived_from.as_deref() == Some(&rname))
             {
-                r.derived_from = Some(rderive.into());
+                r.derived_from = Some(make_path(rderive, bpath));
             }
         }
         Ok(())
-- 
2.43.0


From ec7aa0baa807b78dd1f8824325a311f8018c3cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 04/27] fix: check the spacing of all registers collected into
 a cluster

---
 src/patch/peripheral.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index cea91b7..e2abeb2 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1742,7 +1742,6 @@ fn collect_in_cluster(
     let mut dim = 0;
     let mut dim_index = Vec::new();
     let mut dim_increment = cmod.get_u32("dimIncrement")?.unwrap_or(0);
-    let mut offsets = Vec::new();
     let mut place = usize::MAX;
     let mut rspecs = Vec::new();
     let single = !cname.contains("%s");
@@ -1818,6 +1817,10 @@ fn collect_in_cluster(
                 })
                 .collect::<Result<Vec<_>, _>>();
             let new_dim_index = new_dim_index?;
+            let offsets = registers
+                .iter()
+                .map(|r| r.address_offset)
+                .collect::<Vec<_>>();
             if let Some(rspec1) = first.as_ref() {
                 let len = registers.len();
                 if dim != len {
@@ -1833,10 +1836,6 @@ fn collect_in_cluster(
             } else {
                 dim = registers.len();
                 dim_index = new_dim_index;
-                offsets = registers
-                    .iter()
-                    .map(|r| r.address_offset)
-                    .collect::<Vec<_>>();
                 if dim > 1 {
                     dim_increment = offsets[1] - offsets[0];
                 }
-- 
2.43.0


From 810c4f8963dc13547aa4b117bd86fb0fb2b25be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 05/27] fix: substitute the index in names of expanded clusters
 without dimIndex

---
 src/patch/peripheral.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index e2abeb2..3590478 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -783,7 +783,7 @@ pub(crate) trait RegisterBlockExt: Name {
         let post_index_delim = post_index_delim.unwrap_or("_").to_string();
 
         let has_bracket_delim = ctag.name.find(r#"[%s]"#);
-        let has_nobracket_delim = ctag.name.find(r#"[%s]"#);
+        let has_nobracket_delim = ctag.name.find(r#"%s"#);
         let prefix = if dim.dim > 1 || matches!(zeroindex, Some(true)) {
             if let Some(true) = noprefix {
                 return Err(anyhow!(
@@ -846,7 +846,16 @@ pub(crate) trait RegisterBlockExt: Name {
                         post_index_delim
                     )
                 }
-                (None, None, _) => {
+                (None, None, Some(_)) => {
+                    format!(
+                        "{}{}",
+                        &ctag
+                            .name
+                            .replace(r#"%s"#, &format!("{}{}", pre_index_delim, n_dim)),
+                        post_index_delim
+                    )
+                }
+                (None, None, None) => {
                     format!(
                         "{}{}{}{}",
                         ctag.name, pre_index_delim, n_dim, post_index_delim
-- 
2.43.0


From 26c5a56e0a73d54e65ca2023afe2afb22d794b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 06/27] fix: delete only the expanded clusters after cluster
 expansion

---
 src/patch/peripheral.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 3590478..18452f5 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -651,7 +651,6 @@ pub(crate) trait RegisterBlockExt: Name {
         &self,
         cspec: &str,
     ) -> Vec<(&ClusterInfo, DimElement, Vec<RegisterCluster>)> {
-        let (cspec, _) = cspec.spec();
         self.clstrs()
             .filter(|ctag| matchname(&ctag.name, cspec))
             .filter_map(|ctag| match ctag.clone() {
@@ -684,9 +683,8 @@ pub(crate) trait RegisterBlockExt: Name {
         noprefix: Option<bool>,
     ) -> PatchResult {
         let mut clusters_to_expand_with_info = Vec::new();
-        let mut clusters_to_delete = Vec::new();
 
-        let (_, ignore) = cspec.spec();
+        let (cspec, ignore) = cspec.spec();
 
         // some fancy footwork to satisfy the borrow checker gods
         let cluster_data = self.get_cluster_registers(cspec);
@@ -706,6 +704,10 @@ pub(crate) trait RegisterBlockExt: Name {
         }
 
         if let Some(regs) = self.children_mut() {
+            // delete only what is expanded: neither single clusters nor expanded sub-clusters
+            regs.retain(|rc| {
+                !matches!(rc, RegisterCluster::Cluster(Cluster::Array(c, _)) if matchname(&c.name, cspec))
+            });
             for (ctag, dim, cluster_registers) in clusters_to_expand_with_info.clone() {
                 let mut found = false;
                 let cluster_offset = ctag.address_offset;
@@ -753,17 +755,12 @@ pub(crate) trait RegisterBlockExt: Name {
                 }
                 if !found {
                     return Err(anyhow!("No registers found in cluster {:?}", cspec));
-                } else {
-                    clusters_to_delete.push(ctag.name);
                 }
             }
         } else {
             return Err(anyhow!("No registers or clusters"));
         };
 
-        self.delete_cluster(cspec)
-            .with_context(|| format!("Deleting clusters matched to `{cspec}`"))?;
-
         Ok(())
     }
 
-- 
2.43.0


From 805c27ba609229a772a1df99d9ab3e3dd41d2a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 07/27] fix: strip the text matched by a pattern, not the
 pattern's length

---
 src/patch/mod.rs        | 21 +++++++++++
 src/patch/peripheral.rs | 78 +++++++++--------------------------------
 src/patch/register.rs   | 17 +++------
 3 files changed, 42 insertions(+), 74 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index f7e5fe4..1733d19 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -283,6 +283,27 @@ fn newglob(spec: &str) -> globset::GlobMatcher {
         .compile_matcher()
 }
 
+/// Delete the shortest beginning of a name that matches a pattern
+fn strip_start(name: &mut String, glob: &globset::GlobMatcher) {
+    let end = (0..=name.len())
+        .filter(|&i| name.is_char_boundary(i))
+        .find(|&i| glob.is_match(&name[..i]));
+    if let Some(end) = end {
+        name.drain(..end);
+    }
+}
+
+/// Delete the shortest ending of a name that matches a pattern
+fn strip_end(name: &mut String, glob: &globset::GlobMatcher) {
+    let start = (0..=name.len())
+        .rev()
+        .filter(|&i| name.is_char_boundary(i))
+        .find(|&i| glob.is_match(&name[i..]));
+    if let Some(start) = start {
+        name.truncate(start);
+    }
+}
+
 /// If a name matches a specification, return the first sub-specification that it matches
 fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
     if spec.contains('{') {
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 18452f5..d0c0b6b 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -13,7 +13,7 @@ use super::register::{RegisterExt, RegisterInfoExt};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     adding_pos, check_offsets, common_description, make_dim_element, matchname, matchsubspec,
-    modify_dim_element, spec_ind, Config, PatchResult, Spec, VAL_LVL,
+    modify_dim_element, spec_ind, strip_end, strip_start, Config, PatchResult, Spec, VAL_LVL,
 };
 use super::{make_cluster, make_interrupt, make_register};
 
@@ -524,84 +524,38 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the beginning of register names inside ptag
     fn strip_start(&mut self, prefix: &str) -> PatchResult {
-        let len = prefix.len();
-        let glob = globset::Glob::new(&(prefix.to_string() + "*"))?.compile_matcher();
-        for rtag in self.regs_mut() {
-            if glob.is_match(&rtag.name) {
-                rtag.name.drain(..len);
-            }
-            if let Some(dname) = rtag.display_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    dname.drain(..len);
-                }
-            }
-            if let Some(name) = rtag.alternate_register.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    name.drain(..len);
-                }
-            }
-        }
-        for ctag in self.clstrs_mut() {
-            if glob.is_match(&ctag.name) {
-                ctag.name.drain(..len);
-            }
-            if let Some(dname) = ctag.header_struct_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    dname.drain(..len);
-                }
-            }
-            if let Some(name) = ctag.alternate_cluster.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    name.drain(..len);
-                }
-            }
-        }
+        let glob = globset::Glob::new(prefix)?.compile_matcher();
+        self.strip_names(|name| strip_start(name, &glob));
         Ok(())
     }
 
     /// Delete substring from the ending of register names inside ptag
     fn strip_end(&mut self, suffix: &str) -> PatchResult {
-        let len = suffix.len();
-        let glob = globset::Glob::new(&("*".to_string() + suffix))
-            .unwrap()
-            .compile_matcher();
+        let glob = globset::Glob::new(suffix)?.compile_matcher();
+        self.strip_names(|name| strip_end(name, &glob));
+        Ok(())
+    }
+
+    /// Apply `strip` to names of all registers and clusters inside ptag
+    fn strip_names(&mut self, strip: impl Fn(&mut String)) {
         for rtag in self.regs_mut() {
-            if glob.is_match(&rtag.name) {
-                let nlen = rtag.name.len();
-                rtag.name.truncate(nlen - len);
-            }
+            strip(&mut rtag.name);
             if let Some(dname) = rtag.display_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    let nlen = dname.len();
-                    dname.truncate(nlen - len);
-                }
+                strip(dname);
             }
             if let Some(name) = rtag.alternate_register.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    let nlen = name.len();
-                    name.truncate(nlen - len);
-                }
+                strip(name);
             }
         }
         for ctag in self.clstrs_mut() {
-            if glob.is_match(&ctag.name) {
-                let nlen = ctag.name.len();
-                ctag.name.truncate(nlen - len);
-            }
+            strip(&mut ctag.name);
             if let Some(dname) = ctag.header_struct_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    let nlen = dname.len();
-                    dname.truncate(nlen - len);
-                }
+                strip(dname);
             }
             if let Some(name) = ctag.alternate_cluster.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    let nlen = name.len();
-                    name.truncate(nlen - len);
-                }
+                strip(name);
             }
         }
-        Ok(())
     }
 
     /// Add prefix at the beginning of register names inside ptag
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 1ef9ff5..4b32712 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -15,7 +15,7 @@ use super::iterators::{MatchIter, Matched};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     check_offsets, common_description, make_dim_element, matchname, modify_dim_element, spec_ind,
-    Config, PatchResult, Spec, VAL_LVL,
+    strip_end, strip_start, Config, PatchResult, Spec, VAL_LVL,
 };
 use super::{make_derived_enumerated_values, make_ev_array, make_ev_name, make_field};
 
@@ -283,24 +283,17 @@ impl RegisterExt for Register {
     }
 
     fn strip_start(&mut self, substr: &str) -> PatchResult {
-        let len = substr.len();
-        let glob = globset::Glob::new(&(substr.to_string() + "*"))?.compile_matcher();
+        let glob = globset::Glob::new(substr)?.compile_matcher();
         for ftag in self.fields_mut() {
-            if glob.is_match(&ftag.name) {
-                ftag.name.drain(..len);
-            }
+            strip_start(&mut ftag.name, &glob);
         }
         Ok(())
     }
 
     fn strip_end(&mut self, substr: &str) -> PatchResult {
-        let len = substr.len();
-        let glob = globset::Glob::new(&("*".to_string() + substr))?.compile_matcher();
+        let glob = globset::Glob::new(substr)?.compile_matcher();
         for ftag in self.fields_mut() {
-            if glob.is_match(&ftag.name) {
-                let nlen = ftag.name.len();
-                ftag.name.truncate(nlen - len);
-            }
+            strip_end(&mut ftag.name, &glob);
         }
         Ok(())
     }
-- 
2.43.0


From dcd7e49fb0c4dc7ece21e3635c93ada6c5328d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 08/27] fix: reject read/write action rules that match no field

---
 src/patch/register.rs | 62 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 4b32712..9d64c60 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -60,6 +60,13 @@ pub trait RegisterExt {
     /// Iterates over all fields that match fspec and live inside rtag
     fn iter_fields<'a, 'b>(&'a mut self, spec: &'b str) -> FieldMatchIterMut<'a, 'b>;
 
+    /// Same as `iter_fields`, but at least one field must match unless `spec` is optional
+    fn iter_required_fields<'a, 'b>(
+        &'a mut self,
+        spec: &'b str,
+        rpath: &RegisterPath,
+    ) -> anyhow::Result<FieldMatchIterMut<'a, 'b>>;
+
     /// Returns string of present fields
     fn present_fields(&self) -> String;
 
@@ -98,10 +105,20 @@ pub trait RegisterExt {
     ) -> PatchResult;
 
     /// Set readAction for field
-    fn set_field_read_action(&mut self, fspec: &str, action: ReadAction);
+    fn set_field_read_action(
+        &mut self,
+        fspec: &str,
+        action: ReadAction,
+        rpath: &RegisterPath,
+    ) -> PatchResult;
 
     /// Set modifiedWriteValues for field
-    fn set_field_modified_write_values(&mut self, fspec: &str, mwv: ModifiedWriteValues);
+    fn set_field_modified_write_values(
+        &mut self,
+        fspec: &str,
+        mwv: ModifiedWriteValues,
+        rpath: &RegisterPath,
+    ) -> PatchResult;
 
     /// Add a writeConstraint range given by field to all fspec in rtag
     fn process_field_range(
@@ -153,6 +170,21 @@ impl RegisterExt for Register {
         self.fields_mut().matched(spec)
     }
 
+    fn iter_required_fields<'a, 'b>(
+        &'a mut self,
+        spec: &'b str,
+        rpath: &RegisterPath,
+    ) -> anyhow::Result<FieldMatchIterMut<'a, 'b>> {
+        let (spec, ignore) = spec.spec();
+        if !ignore && self.iter_fields(spec).next().is_none() {
+            let present = self.present_fields();
+            return Err(anyhow!(
+                "Could not find field {rpath}:{spec}. Present fields: {present}."
+            ));
+        }
+        Ok(self.iter_fields(spec))
+    }
+
     fn present_fields(&self) -> String {
         self.fields().map(|f| f.name.as_str()).join(", ")
     }
@@ -716,7 +748,7 @@ impl RegisterExt for Register {
                                     .context("Adding read-only enumeratedValues")?;
                                 }
                                 if let Some(action) = action {
-                                    self.set_field_read_action(fspec, *action);
+                                    self.set_field_read_action(fspec, *action, rpath)?;
                                 }
                                 break;
                             }
@@ -736,7 +768,7 @@ impl RegisterExt for Register {
                                     .context("Adding write-only enumeratedValues")?;
                                 }
                                 if let Some(mwv) = mwv {
-                                    self.set_field_modified_write_values(fspec, *mwv);
+                                    self.set_field_modified_write_values(fspec, *mwv, rpath)?;
                                 }
                             }
                         }
@@ -752,22 +784,32 @@ impl RegisterExt for Register {
         Ok(())
     }
 
-    fn set_field_read_action(&mut self, fspec: &str, action: ReadAction) {
-        let (fspec, _) = fspec.spec();
-        for ftag in self.iter_fields(fspec) {
+    fn set_field_read_action(
+        &mut self,
+        fspec: &str,
+        action: ReadAction,
+        rpath: &RegisterPath,
+    ) -> PatchResult {
+        for ftag in self.iter_required_fields(fspec, rpath)? {
             ftag.read_action = Some(action);
         }
+        Ok(())
     }
 
-    fn set_field_modified_write_values(&mut self, fspec: &str, mwv: ModifiedWriteValues) {
-        let (fspec, _) = fspec.spec();
-        for ftag in self.iter_fields(fspec) {
+    fn set_field_modified_write_values(
+        &mut self,
+        fspec: &str,
+        mwv: ModifiedWriteValues,
+        rpath: &RegisterPath,
+    ) -> PatchResult {
+        for ftag in self.iter_required_fields(fspec, rpath)? {
             ftag.modified_write_values = if mwv == ModifiedWriteValues::Modify {
                 None
             } else {
                 Some(mwv)
             };
         }
+        Ok(())
     }
 
     fn process_field_enum(
-- 
2.43.0


From aeabbd2879074e644d1f27b38b3d3096d66c172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 09/27] fix: take the usage of derived enumeratedValues from
 the access of their source

---
 src/patch/register.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 9d64c60..df22362 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -899,12 +899,18 @@ impl RegisterExt for Register {
             // original definition to extract its <usage>
             let mut derived_enums = self
                 .fields()
-                .flat_map(|f| f.enumerated_values.iter())
-                .filter(|e| e.name.as_deref() == Some(d));
+                .flat_map(|f| f.enumerated_values.iter().map(move |e| (f, e)))
+                .filter(|(_, e)| e.name.as_deref() == Some(d));
             let orig_usage = match (derived_enums.next(), derived_enums.next()) {
-                (Some(e), None) => e.usage().ok_or_else(|| {
-                    anyhow!("{rpath}: multilevel derive for {d} is not supported")
-                })?,
+                (Some((_, e)), None) if e.derived_from.is_some() => {
+                    return Err(anyhow!(
+                        "{rpath}: multilevel derive for {d} is not supported"
+                    ));
+                }
+                (Some((f, e)), None) => match e.usage {
+                    Some(usage) => usage,
+                    None => check_usage(f.access.or(reg_access).unwrap_or_default(), None)?,
+                },
                 (None, _) => return Err(anyhow!("{rpath}: enumeratedValues {d} can't be found")),
                 (Some(_), Some(_)) => {
                     return Err(anyhow!(
-- 
2.43.0


From 75634294d0fd46216c61cab8cf30ab89751f6210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 10/27] fix: handle missing and optional fields of derived
 enumeratedValues

---
 src/patch/register.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index df22362..888cee5 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -895,6 +895,9 @@ impl RegisterExt for Register {
 
         let reg_access = self.properties.access;
         if let Some(d) = fmod.get_str("_derivedFrom")? {
+            if self.iter_required_fields(fspec, rpath)?.next().is_none() {
+                return Ok(());
+            }
             // This is a derived enumeratedValues => Try to find the
             // original definition to extract its <usage>
             let mut derived_enums = self
@@ -919,7 +922,7 @@ impl RegisterExt for Register {
                 }
             };
             let evs = make_derived_enumerated_values(d)?;
-            for ftag in self.iter_fields(fspec) {
+            for ftag in self.iter_required_fields(fspec, rpath)? {
                 let access = ftag.access.or(reg_access).unwrap_or_default();
                 let checked_usage = check_usage(access, usage)
                     .with_context(|| format!("In field {}", ftag.name))?;
-- 
2.43.0


From beb2b8a19a2f61eb3b67b5f77dec36af0032e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 11/27] fix: keep all rules of an included list when the
 including file repeats one

---
 src/patch/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 1733d19..1cc57d0 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -245,13 +245,12 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                         }
                         s if matches!(s, Yaml::String(_)) => match val {
                             Yaml::Array(a) => {
-                                if !a.contains(s) {
-                                    let mut a = a.clone();
-                                    a.insert(0, s.clone());
-                                    e.insert(Yaml::Array(a));
-                                } else {
+                                if a.contains(s) {
                                     println!("In {key:?}: dublicate rule {s:?}, ignored");
                                 }
+                                let mut rules = vec![s.clone()];
+                                rules.extend(a.iter().filter(|r| **r != *s).cloned());
+                                e.insert(Yaml::Array(rules));
                             }
                             s2 if matches!(s2, Yaml::String(_)) => {
                                 println!("In {key:?}: conflicting rules {s:?} and {s2:?}, ignored");
-- 
2.43.0


From 6dcf40b41229473fd8759a6054c583f156242690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:34 +0000
Subject: [PATCH 12/27] fix: follow chains of derived peripherals in mmap

A peripheral derived from a derived peripheral was listed without registers,
and the own registers of a derived peripheral were ignored.
---
 src/mmap/mmap_cli.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/mmap/mmap_cli.rs b/src/mmap/mmap_cli.rs
index 0a0eddd..42e970f 100644
--- a/src/mmap/mmap_cli.rs
+++ b/src/mmap/mmap_cli.rs
@@ -56,19 +56,22 @@ fn get_periph_registers<'a>(
     peripheral: &'a PeripheralInfo,
     peripheral_list: &'a [Peripheral],
 ) -> &'a Option<Vec<RegisterCluster>> {
-    match &peripheral.derived_from {
-        None => &peripheral.registers,
-        Some(father) => {
-            let mut registers = &None;
-            for p in peripheral_list {
-                if &p.name == father {
-                    registers = &p.registers;
-                    break;
-                }
-            }
-            registers
+    let mut peripheral = peripheral;
+    // A chain of derivations can't be longer than the list unless it is a cycle
+    for _ in 0..=peripheral_list.len() {
+        if peripheral.registers.is_some() {
+            break;
+        }
+        let father = peripheral
+            .derived_from
+            .as_ref()
+            .and_then(|father| peripheral_list.iter().find(|p| &p.name == father));
+        match father {
+            Some(father) => peripheral = father,
+            None => break,
         }
     }
+    &peripheral.registers
 }
 
 fn get_peripheral(peripheral: &PeripheralInfo, mmap: &mut Vec<String>) {
-- 
2.43.0


From 5417e8a1e356afb00ceaca3eac1f07abdb66f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:53 +0000
Subject: [PATCH 13/27] fix: list the registers of nested clusters in html

---
 src/html/html_cli.rs | 53 +++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 970bd79..ab60051 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -138,15 +138,18 @@ impl GetI64 for Object {
     }
 }
 
-/// Given a cluster, returns a list of all registers inside the cluster,
-/// with their names updated to include the cluster index and their address
-/// offsets updated to include the cluster address offset.
+/// Given a cluster, returns a list of all registers inside the cluster
+/// and the clusters nested in it, with their names updated to include
+/// the cluster indexes and their address offsets updated to include
+/// the cluster address offset.
 /// The returned register nodes are as though they were never in a cluster.
 fn parse_cluster(
     ctag: &Cluster,
     registers: &mut Vec<Object>,
     cpath: &BlockPath,
     index: &Index,
+    parent_addr: u32,
+    parent_suffix: &str,
 ) -> anyhow::Result<()> {
     let mut cpath = cpath.clone();
     let ctag = if let Some(dfname) = ctag.derived_from.as_ref() {
@@ -158,28 +161,28 @@ fn parse_cluster(
     } else {
         Cow::Borrowed(ctag)
     };
-    match ctag.as_ref() {
-        Cluster::Single(c) => {
-            let mut regs: Vec<Register> = c.registers().cloned().collect();
-            let cluster_addr = c.address_offset;
-            for r in &mut regs {
-                let rpath = cpath.new_register(&r.name);
-                r.name = format!("{} [0]", r.name);
-                r.address_offset += cluster_addr;
-                parse_register_array(r, registers, &rpath, index)?;
-            }
+    let instances = match ctag.as_ref() {
+        Cluster::Single(c) => vec![("0".to_string(), c.address_offset)],
+        Cluster::Array(c, d) => d
+            .indexes()
+            .enumerate()
+            .map(|(i, idx)| (idx.into(), c.address_offset + (i as u32) * d.dim_increment))
+            .collect(),
+    };
+    for (cluster_idx, cluster_offset) in instances {
+        let cluster_addr = parent_addr + cluster_offset;
+        let suffix = format!("{parent_suffix} [{cluster_idx}]");
+        for r in ctag.registers() {
+            let mut r = r.clone();
+            let rpath = cpath.new_register(&r.name);
+            r.name = format!("{}{suffix}", r.name);
+            r.address_offset += cluster_addr;
+            parse_register_array(&r, registers, &rpath, index)?;
         }
-        Cluster::Array(c, d) => {
-            for (i, cluster_idx) in d.indexes().enumerate() {
-                let mut regs: Vec<Register> = c.registers().cloned().collect();
-                let cluster_addr = c.address_offset + (i as u32) * d.dim_increment;
-                for r in &mut regs {
-                    let rpath = cpath.new_register(&r.name);
-                    r.name = format!("{} [{cluster_idx}]", r.name);
-                    r.address_offset += cluster_addr;
-                    parse_register_array(r, registers, &rpath, index)?;
-                }
-            }
+        for c in ctag.clusters() {
+            let nested_path = cpath.new_cluster(&c.name);
+            parse_cluster(c, registers, &nested_path, index, cluster_addr, &suffix)
+                .with_context(|| format!("In cluster {}", c.name))?;
         }
     }
     Ok(())
@@ -460,7 +463,7 @@ fn parse_device(svdfile: impl AsRef<Path>) -> anyhow::Result<Object> {
         };
         for ctag in ptag.clusters() {
             let cpath = ppath.new_cluster(&ctag.name);
-            parse_cluster(ctag, &mut registers, &cpath, &index)
+            parse_cluster(ctag, &mut registers, &cpath, &index, 0, "")
                 .with_context(|| format!("In cluster {}", ctag.name))
                 .with_context(|| format!("In peripheral {}", ptag.name))?;
         }
-- 
2.43.0


From c0a98288d8f660e48cc2fa88417e05d50a35d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 14/27] fix: do not fail in html when a default value covers no
 free value

---
 src/html/html_cli.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index ab60051..bc9d3e7 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -309,12 +309,13 @@ fn parse_register(
                     let val = if let Some(value) = value.value {
                         value.to_string()
                     } else {
-                        let val = value
-                            .is_default()
-                            .then(|| enums_to_map(&enums))
-                            .and_then(|map| minimal_hole(&map, fwidth))
-                            .ok_or_else(|| anyhow!("Value is missing from {value:?}"))?;
-                        format!("{val} (+)")
+                        if !value.is_default() {
+                            return Err(anyhow!("Value is missing from {value:?}"));
+                        }
+                        match minimal_hole(&enums_to_map(&enums), fwidth) {
+                            Some(val) => format!("{val} (+)"),
+                            None => "(+)".to_string(),
+                        }
                     };
 
                     doc += &format!(
@@ -593,5 +594,5 @@ fn enums_to_map(evs: &EnumeratedValues) -> BTreeMap<u64, &EnumeratedValue> {
 }
 
 fn minimal_hole(map: &BTreeMap<u64, &EnumeratedValue>, width: u32) -> Option<u64> {
-    (0..(1u64 << width)).find(|&v| !map.contains_key(&v))
+    (0..=(u64::MAX >> (u64::BITS - width))).find(|&v| !map.contains_key(&v))
 }
-- 
2.43.0


From 698f01ed6b41f28fd4257217707f5b2a9ef6da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 15/27] fix: tell apart compared files that share the stem of
 their names

---
 src/html/htmlcompare_cli.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/html/htmlcompare_cli.rs b/src/html/htmlcompare_cli.rs
index 1979d7f..1ee3e51 100644
--- a/src/html/htmlcompare_cli.rs
+++ b/src/html/htmlcompare_cli.rs
@@ -19,15 +19,8 @@ fn parse(in_path: &Path) -> Result<Part> {
 
     let device =
         svd_parser::parse_with_config(&input, &Config::default().expand(true).ignore_enums(true))?;
-    let name = in_path
-        .file_stem()
-        .unwrap()
-        .to_str()
-        .unwrap()
-        .split('.')
-        .next()
-        .unwrap()
-        .to_string();
+    // Files in different directories or with several extensions can share the stem
+    let name = in_path.display().to_string();
     //dbg!(&name);
     Ok(Part { name, device })
 }
-- 
2.43.0


From 218bdf43d432c8b23ea1d621e78ca386dd4f0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:37 +0000
Subject: [PATCH 16/27] fix: add .patched to the name of the source file for
 the default output

The extension was replaced, so chip.xml was patched into chip.svd.patched.
---
 src/patch/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 1cc57d0..f45201b 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -107,9 +107,9 @@ pub fn process_file(
     let svdpath_out = if let Some(out_path) = out_path {
         out_path.to_owned()
     } else {
-        let mut pth = svdpath.clone();
-        pth.set_extension("svd.patched");
-        pth
+        let mut pth = svdpath.clone().into_os_string();
+        pth.push(".patched");
+        pth.into()
     };
 
     let encoder_config = get_encoder_config(format_config)?;
-- 
2.43.0


From 78d144f152d0c85378d45edf46321ac8bc53fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:28 +0000
Subject: [PATCH 17/27] fix: list included files without rules as dependencies

---
 src/patch/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index f45201b..80341a1 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -199,13 +199,13 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
         let mut docs = YamlLoader::load_from_str(&contents)?;
+        included.push(path.clone());
         if docs.is_empty() {
             continue;
         }
         let child = docs[0].hash_mut()?;
         let ypath = path.to_str().unwrap().to_yaml();
         child.insert(y_path.clone(), ypath.clone());
-        included.push(path.clone());
 
         // Process any top-level includes in child
         included.extend(yaml_includes(child)?);
-- 
2.43.0


From 2c3798bac64c8c34f71d6d8b71ce92498ae1a880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 18/27] fix: apply a read action along with plain read values

With both _read (values) and e.g. _RC in a field rule only the one that
came first in the order of the hash table was applied, the other one was
dropped silently. The write side applies all of them.
---
 src/patch/register.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 888cee5..07ff8da 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -750,7 +750,6 @@ impl RegisterExt for Register {
                                 if let Some(action) = action {
                                     self.set_field_read_action(fspec, *action, rpath)?;
                                 }
-                                break;
                             }
                         }
                     }
-- 
2.43.0


From 413ba4df66b16daf0ee63bf784345ca854220613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 19/27] fix: give the width of fields described by lsb and msb
 (Python)

---
 svdtools/mmap.py  | 2 +-
 svdtools/patch.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/svdtools/mmap.py b/svdtools/mmap.py
index 1754165..72d1bc6 100644
--- a/svdtools/mmap.py
+++ b/svdtools/mmap.py
@@ -26,7 +26,7 @@ def get_field_offset_width(ftag):
         lsb = int(ftag.findtext("lsb"), 0)
         msb = int(ftag.findtext("msb"), 0)
         offset = lsb
-        fwidth = msb - lsb + 1
+        width = msb - lsb + 1
     return offset, width
 
 
diff --git a/svdtools/patch.py b/svdtools/patch.py
index d961c85..5625cfa 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -253,7 +253,7 @@ def get_field_offset_width(ftag):
         lsb = int(ftag.findtext("lsb"), 0)
         msb = int(ftag.findtext("msb"), 0)
         offset = lsb
-        fwidth = msb - lsb + 1
+        width = msb - lsb + 1
     return offset, width
 
 
-- 
2.43.0


From 4d68d182621d3c3a46e58097b571fbdd907cbbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 20/27] fix: put the addressBlocks of an added peripheral into
 it (Python)

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 5625cfa..683c521 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -531,7 +531,7 @@ class Device:
                     ET.SubElement(ab, ab_key).text = str(ab_value)
             elif key == "addressBlocks":
                 for ab in value:
-                    ab_el = ET.SubElement(ptag, "addressBlock")
+                    ab_el = ET.SubElement(pnew, "addressBlock")
                     for ab_key, ab_value in ab.items():
                         ET.SubElement(ab_el, ab_key).text = str(ab_value)
             elif key != "derivedFrom":
-- 
2.43.0


From 94efc0979450f2a40df30da5aebd80b9182e3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 21/27] fix: give collected registers of a cluster the
 description of the rule (Python)

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 683c521..bbe4bb6 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1190,7 +1190,7 @@ class Peripheral:
                 name = rspec[:li] + rspec[len(rspec) - ri :]
             new_rtag.find("name").text = name
             if "description" in rmod:
-                rtag.find("description").text = rmod["description"]
+                new_rtag.find("description").text = rmod["description"]
             offset = new_rtag.find("addressOffset")
             offset.text = hex(int(offset.text, 0) - addressOffset)
             ctag.append(new_rtag)
-- 
2.43.0


From 36484b8b22fc711ad5d5e3b0e24162e531a24878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 22/27] fix: add registers to a peripheral that has none
 (Python)

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index bbe4bb6..2279947 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -880,7 +880,7 @@ class Peripheral:
         """Add rname given by radd to ptag."""
         parent = self.ptag.find("registers")
         if parent is None:
-            parent = ET.SubElement(self.rtag, "registers")
+            parent = ET.SubElement(self.ptag, "registers")
         for rtag in self.iter_registers("*"):
             if rtag.find("name").text == rname:
                 raise SvdPatchError(
-- 
2.43.0


From 602451990addd39655d57dfcb9884bec0b9c73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 23/27] fix: remove modifiedWriteValues from all matched
 fields, not only the first (Python)

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 2279947..35c95d3 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1700,7 +1700,7 @@ class Register:
                 tag = ET.SubElement(ftag, "modifiedWriteValues")
             elif mwv == "modify":
                 ftag.remove(tag)
-                return
+                continue
             tag.text = mwv
 
     def process_field_enum(self, pname, fspec, field, usage="read-write"):
-- 
2.43.0


From 0efeb8498ce227326a6a65ef110e7aa95f3a844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 24/27] fix: reject a field array rule in a register without
 fields

---
 src/patch/register.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 07ff8da..cd31133 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -644,6 +644,8 @@ impl RegisterExt for Register {
             );
             //field.process(fmod, &self.name, true);
             fs.insert(place, field);
+        } else if let (fspec, false) = fspec.spec() {
+            return Err(anyhow!("{rpath}: fields {fspec} not found. No fields"));
         }
         Ok(())
     }
-- 
2.43.0


From 36ba374a28d4d57e58f94268e9e3dc42c70f8ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 25/27] fix: add the new peripheral of a derive rule as a
 peripheral (Python)

---
 svdtools/patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 35c95d3..5a8cd21 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -564,9 +564,9 @@ class Device:
         if (not ("." in pderive)) and (derived is None):
             raise SvdPatchError(f"peripheral {pderive} not found")
         if ptag is None:
-            ptag = ET.SubElement(parent, "register")
+            ptag = ET.SubElement(parent, "peripheral")
             ET.SubElement(ptag, "name").text = pname
-            ET.SubElement(ptag, "addressOffset").text = hex(base_address)
+            ET.SubElement(ptag, "baseAddress").text = hex(base_address)
         else:
             for value in list(ptag):
                 if value.tag in ("name", "baseAddress", "interrupt", "description"):
-- 
2.43.0


From 4621051a713e7506defc2f9599b87eb0c79be4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 26/27] fix: count arrays from zero only if the rule says so

---
 src/patch/peripheral.rs | 2 +-
 src/patch/register.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index d0c0b6b..5278644 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1610,7 +1610,7 @@ fn collect_in_array(
         ));
     };
     let dim = registers.len();
-    let dim_index = if rmod.contains_key(&"_start_from_zero".to_yaml()) {
+    let dim_index = if rmod.get_bool("_start_from_zero")?.unwrap_or(false) {
         (0..dim).map(|v| v.to_string()).collect::<Vec<_>>()
     } else {
         registers
diff --git a/src/patch/register.rs b/src/patch/register.rs
index cd31133..467f71e 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -597,7 +597,7 @@ impl RegisterExt for Register {
                 ));
             };
             let dim = fields.len();
-            let dim_index = if fmod.contains_key(&"_start_from_zero".to_yaml()) {
+            let dim_index = if fmod.get_bool("_start_from_zero")?.unwrap_or(false) {
                 (0..dim).map(|v| v.to_string()).collect::<Vec<_>>()
             } else {
                 fields
-- 
2.43.0


From 4ca0ecc28d9c555fec9398521f448146945384ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 27/27] fix: name the values of a dimArrayIndex

---
 src/patch/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 80341a1..a770608 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -478,6 +478,7 @@ fn make_dim_array_index(h: &Hash) -> Result<DimArrayIndex> {
             let description = description.str()?;
             values.push(
                 EnumeratedValue::builder()
+                    .name(vname.into())
                     .value(Some(value as u64))
                     .description(Some(description.into()))
                     .build(VAL_LVL)?,
-- 
2.43.0

