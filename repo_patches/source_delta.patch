From 38ef1685894b25ac69936fcf741c78bb6190aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:00 +0000
Subject: [PATCH 01/36] fix: decode DXT3, DXT5 and BC7 canvases whose size is
 not a multiple of four

---
 src/property/png.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 6f93784..cc26b91 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -216,11 +216,9 @@ impl WzPng {
             WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
                 Ok((self.width * self.height * 4) as usize)
             }
-            WzPngFormat::DXT3SM => Ok((self.width * self.height * 4) as usize),
-            WzPngFormat::DXT3 | WzPngFormat::DXT5 => {
+            WzPngFormat::DXT3 | WzPngFormat::DXT3SM | WzPngFormat::DXT5 | WzPngFormat::BC7 => {
                 Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
             }
-            WzPngFormat::BC7 => Ok((self.width * (self.height & !3)) as usize),
             WzPngFormat::A8 => Ok((self.width * self.height) as usize),
             WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
             WzPngFormat::RGB565_517 => {
@@ -382,7 +380,7 @@ fn get_image_from_dxt3(
         })?;
 
     // combine image buffer
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -404,7 +402,7 @@ fn get_image_from_dxt3(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = ((y / 4 * width.div_ceil(4) + x / 4) * 16) as usize;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt3(&mut alpha_table, &chunk[..8]);
 
@@ -414,8 +412,8 @@ fn get_image_from_dxt3(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
@@ -479,7 +477,7 @@ fn get_image_from_dxt5(
             Ok(acc)
         })?;
 
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -502,7 +500,7 @@ fn get_image_from_dxt5(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = ((y / 4 * width.div_ceil(4) + x / 4) * 16) as usize;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt5(&mut alpha_table, chunk[0], chunk[1]);
             expand_alpha_index_table_dxt5(&mut alpha_idx_table, &chunk[2..8]);
@@ -513,8 +511,8 @@ fn get_image_from_dxt5(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
-- 
2.43.0


From 4867dbdbd06311b9a6b5cbeb94646e9b60d9f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 02/36] fix: a directory parsed again after unparse gets its
 children back

---
 src/node.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 680878a..6ed4c88 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -234,6 +234,8 @@ impl WzNode {
         match &mut self.object_type {
             WzObjectType::Directory(directory) => {
                 directory.is_parsed = false;
+                // the entries are gone once resolved, they have to be read again by the next parse
+                directory.reset_entry_parse();
             }
             WzObjectType::File(file) => {
                 file.is_parsed = false;
-- 
2.43.0


From b88b26bfd1ac49e265169af8436dbbfbd7826808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 03/36] fix: unparse unloads .ms files too

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 6ed4c88..8da2389 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -240,6 +240,9 @@ impl WzNode {
             WzObjectType::File(file) => {
                 file.is_parsed = false;
             }
+            WzObjectType::MsFile(file) => {
+                file.is_parsed = false;
+            }
             WzObjectType::Image(image) => {
                 image.is_parsed = false;
             }
-- 
2.43.0


From 7773094b3f52f0e4228afffdea6cee7329a68be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 04/36] fix: walk_node does not keep a node locked while it
 walks the children

---
 src/util/walk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/walk.rs b/src/util/walk.rs
index 6b2fc17..08603f5 100644
--- a/src/util/walk.rs
+++ b/src/util/walk.rs
@@ -11,7 +11,9 @@ pub fn walk_node(node: &WzNodeArc, force_parse: bool, f: &dyn Fn(&WzNodeArc)) {
 
     f(node);
 
-    for child in node.read().unwrap().children.values() {
+    // the lock is not kept while walking the children, `f` may need it
+    let children: Vec<WzNodeArc> = node.read().unwrap().children.values().cloned().collect();
+    for child in &children {
         walk_node(child, force_parse, f);
     }
 
-- 
2.43.0


From d359e5125101303574389558346e9e2cf80b958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 05/36] fix: resolving an inlink or outlink never holds one
 node's lock while waiting for another

---
 src/util/node_util.rs | 46 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 964a801..97ab6c0 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -10,21 +10,51 @@ pub fn parse_node(node: &WzNodeArc) -> Result<(), Error> {
 #[inline]
 /// Resolve a `_inlink` path, a `_inlink` path always start from a `WzImage`.
 pub fn resolve_inlink(path: &str, node: &WzNodeArc) -> Option<WzNodeArc> {
-    let parent_wz_image = node.read().unwrap().get_parent_wz_image()?;
-    let parent_wz_image = parent_wz_image.read().unwrap();
-    parent_wz_image.at_path(path)
+    let parent_wz_image = find_parent(node, |node| node.try_as_image().is_some())?;
+    path.split('/')
+        .try_fold(parent_wz_image, |node, name| node.read().unwrap().at(name))
 }
 
 #[inline]
 /// Resolve a `_outlink` path, a `_outlink` path always start from Wz's data root(a.k.a `Base.wz`).
 pub fn resolve_outlink(path: &str, node: &WzNodeArc, force_parse: bool) -> Option<WzNodeArc> {
-    let parent_wz_base = node.read().unwrap().get_base_wz_file()?;
+    let parent_wz_base = find_parent(node, |node| {
+        node.try_as_file().is_some() && node.name.as_str() == "Base"
+    })?;
+
+    let mut pathes = path.split('/');
+    let first = parent_wz_base.read().unwrap().at(pathes.next()?)?;
+
+    pathes.try_fold(first, |node, name| {
+        if force_parse {
+            let mut write = node.write().unwrap();
+            write.parse(&node).ok()?;
+            write.at(name)
+        } else {
+            node.read().unwrap().at(name)
+        }
+    })
+}
 
-    if force_parse {
-        parent_wz_base.write().unwrap().at_path_parsed(path).ok()
-    } else {
-        parent_wz_base.read().unwrap().at_path(path)
+/// Same as [`WzNode::filter_parent`] but never locks more than one node at a time, so it can't
+/// get in the way of other threads that lock the same nodes from the root downwards.
+fn find_parent(node: &WzNodeArc, cb: impl Fn(&WzNode) -> bool) -> Option<WzNodeArc> {
+    let mut parent = node.read().unwrap().parent.upgrade();
+    while let Some(current) = parent {
+        let next = {
+            let read = current.read().unwrap();
+            if cb(&read) {
+                None
+            } else {
+                Some(read.parent.upgrade())
+            }
+        };
+        match next {
+            None => return Some(current),
+            Some(next) => parent = next,
+        }
     }
+    None
 }
 
 #[inline]
-- 
2.43.0


From 6d736208f7fff86355244f726bf5b9e31e88626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 06/36] fix: get_image holds no lock while following links and
 stops on links that lead in circles

---
 src/property/png.rs | 52 ++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index cc26b91..7a40c9a 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -53,30 +53,44 @@ type ImageBufferRgbChunk = ImageBuffer<Rgb<u8>, Vec<u8>>;
 
 /// A helper get image from `WzNodeArc`, will also resolve `_inlink` or `_outlink`
 pub fn get_image(node: &WzNodeArc) -> Result<DynamicImage, WzPngParseError> {
-    let node_read = node.read().unwrap();
-    match &node_read.object_type {
-        WzObjectType::Property(WzSubProperty::PNG(png)) => {
-            let inlink_target = node_read
-                .at("_inlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|inlink| node_util::resolve_inlink(&inlink, node));
-
-            if let Some(target) = inlink_target {
-                return get_image(&target);
+    let mut node = Arc::clone(node);
+    let mut visited: Vec<WzNodeArc> = Vec::new();
+
+    loop {
+        // no lock is kept while looking for the target or decoding
+        let (png, inlink, outlink) = {
+            let node_read = node.read().unwrap();
+            match &node_read.object_type {
+                WzObjectType::Property(WzSubProperty::PNG(png)) => (
+                    png.clone(),
+                    node_read.at("_inlink"),
+                    node_read.at("_outlink"),
+                ),
+                _ => return Err(WzPngParseError::NotPngProperty),
             }
+        };
 
-            let outlink_target = node_read
-                .at("_outlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|outlink| node_util::resolve_outlink(&outlink, node, true));
+        let target = inlink
+            .and_then(|node| resolve_string_from_node(&node).ok())
+            .and_then(|inlink| node_util::resolve_inlink(&inlink, &node))
+            .or_else(|| {
+                outlink
+                    .and_then(|node| resolve_string_from_node(&node).ok())
+                    .and_then(|outlink| node_util::resolve_outlink(&outlink, &node, true))
+            });
+
+        let Some(target) = target else {
+            return png.extract_png();
+        };
 
-            if let Some(target) = outlink_target {
-                return get_image(&target);
-            }
+        visited.push(node);
 
-            png.extract_png()
+        // links that lead back to themselves never reach an image
+        if visited.iter().any(|node| Arc::ptr_eq(node, &target)) {
+            return Err(WzPngParseError::LinkError);
         }
-        _ => Err(WzPngParseError::NotPngProperty),
+
+        node = target;
     }
 }
 
-- 
2.43.0


From 5eb57c78a01682a727aa2662b023d9eb4771ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:26 +0000
Subject: [PATCH 07/36] fix: resolve_uol works while other threads use the
 nodes

---
 src/util/node_util.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 97ab6c0..ca9725d 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -85,14 +85,35 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
 /// Make a uol node become valid node, second argument is optional,
 /// it prevent the parent is the WzImage while it currently parsing causing the deadlock.
 pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
-    let node_parent = node.read().unwrap().parent.upgrade().unwrap();
-
-    if let Some(ref mut uol_target_path) = node
-        .read()
-        .unwrap()
-        .try_as_uol()
-        .and_then(|s| s.get_string().ok())
-    {
+    let (node_parent, mut uol_target_path) = {
+        let node_read = node.read().unwrap();
+        let Some(node_parent) = node_read.parent.upgrade() else {
+            return;
+        };
+        (
+            node_parent,
+            node_read.try_as_uol().and_then(|s| s.get_string().ok()),
+        )
+    };
+
+    /* nothing is locked by the caller, so other threads are the only one to wait for */
+    if wz_image.is_none() {
+        let uol_target = uol_target_path.and_then(|path| {
+            path.split('/')
+                .try_fold(Arc::clone(&node_parent), |node, name| {
+                    node.read().unwrap().at_relative(name)
+                })
+        });
+        if let Some(target_node) = uol_target {
+            let node_name = node.read().unwrap().name.clone();
+            if let Some(origin) = node_parent.write().unwrap().children.get_mut(&node_name) {
+                *origin = target_node;
+            }
+        }
+        return;
+    }
+
+    if let Some(ref mut uol_target_path) = uol_target_path {
         let mut pathes = uol_target_path.split('/');
 
         let first = if let Ok(node) = node.try_read() {
-- 
2.43.0


From 450df3c89edf606b0e0d46a105ccbf50fb79de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:26 +0000
Subject: [PATCH 08/36] fix: path lookup without parsing holds no node's lock
 while waiting for another

---
 src/util/node_util.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index ca9725d..2488b4a 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -60,8 +60,8 @@ fn find_parent(node: &WzNodeArc, cb: impl Fn(&WzNode) -> bool) -> Option<WzNodeA
 #[inline]
 /// Make sure WzNode tree's all node has correct parent.
 pub fn resolve_childs_parent(node: &WzNodeArc) {
-    let node_read = node.read().unwrap();
-    for child in node_read.children.values() {
+    let children: Vec<WzNodeArc> = node.read().unwrap().children.values().cloned().collect();
+    for child in children.iter() {
         child.write().unwrap().parent = Arc::downgrade(node);
         resolve_childs_parent(child);
     }
@@ -170,7 +170,7 @@ pub fn get_image_node_from_path<'a>(
         let img_path = pathes.next()?;
         let rest_path = pathes.next()?.strip_prefix('/')?;
 
-        let image_node = node.read().unwrap().at_path(img_path)?;
+        let image_node = find_child(node, img_path)?;
 
         return Some((image_node, rest_path));
     }
@@ -197,14 +197,24 @@ pub fn get_image_node_from_path<'a>(
 /// get a certain node without parsing all node in the way
 pub fn get_node_without_parse(root: &WzNodeArc, path: &str) -> Option<WzNodeArc> {
     let (image_node, rest_path) = get_image_node_from_path(root, path)?;
-    let image_read = image_node.read().unwrap();
-    let image = image_read.try_as_image()?;
+    {
+        let image_read = image_node.read().unwrap();
+        let image = image_read.try_as_image()?;
 
-    if image.is_parsed {
-        image_read.at_path(rest_path)
-    } else {
-        image.at_path(rest_path).ok()
+        if !image.is_parsed {
+            return image.at_path(rest_path).ok();
+        }
     }
+
+    find_child(&image_node, rest_path)
+}
+
+/// Same as `WzNode::at_path`, but only one node is locked at a time.
+fn find_child(node: &WzNodeArc, path: &str) -> Option<WzNodeArc> {
+    path.split('/').try_fold(Arc::clone(node), |node, name| {
+        let child = node.read().unwrap().at(name);
+        child
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From faa1e8d29f27c44c5432cb6a5295ed799b83de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 09/36] fix: looking up an image without parsing it does not
 panic when its name does not end in .img

---
 src/util/node_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 2488b4a..a532638 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -183,7 +183,7 @@ pub fn get_image_node_from_path<'a>(
             node = target;
             slash_index += split_path.len() + 1;
             if node.read().unwrap().try_as_image().is_some() {
-                let rest = path.split_at(slash_index).1;
+                let rest = path.get(slash_index..)?;
                 return Some((node, rest));
             }
         } else {
-- 
2.43.0


From 910bcb31db592d65cf94812a14523ffa1f58b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 10/36] fix: direct lookup finds nodes below canvases, raw data
 and convexes and never reads past a missing name

---
 src/util/parse_property.rs | 114 ++++++++++++++++++++++++++++---------
 1 file changed, 87 insertions(+), 27 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 56b6994..87b8d3c 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -416,26 +416,36 @@ pub fn get_node(
         return Err(WzPropertyParseError::NodeNotFound);
     }
 
-    let mut pathes = path.split('/');
-    let mut current_path = pathes.next();
+    let mut pathes = path.split('/').peekable();
+
+    while let Some(current_name) = pathes.next() {
+        let is_last = pathes.peek().is_none();
+        let mut found = false;
 
-    while let Some(current_name) = current_path {
         let entry_count = reader.read_wz_int()?;
-        let next_path = pathes.next();
         for _ in 0..entry_count {
             let name = reader.read_wz_string_block(origin_offset)?;
             let property_type = reader.read_u8()?;
 
-            if name == current_name && next_path.is_none() {
-                let result = parse_property_node(
-                    name.into(),
-                    property_type,
-                    None,
-                    org_reader,
-                    reader,
-                    origin_offset,
-                )?;
-                return Ok((result.0, result.1));
+            if name == current_name {
+                if is_last {
+                    let result = parse_property_node(
+                        name.into(),
+                        property_type,
+                        None,
+                        org_reader,
+                        reader,
+                        origin_offset,
+                    )?;
+                    return Ok((result.0, result.1));
+                }
+
+                // only extended property has children
+                if property_type != 9 {
+                    return Err(WzPropertyParseError::NodeNotFound);
+                }
+                found = true;
+                break;
             }
 
             match property_type {
@@ -473,17 +483,8 @@ pub fn get_node(
                     }
                 }
                 9 => {
-                    if name == current_name {
-                        current_path = next_path;
-                        // skip block size
-                        reader.skip(4);
-                        reader.read_wz_string_block_meta(origin_offset)?;
-                        reader.skip(2);
-                        break;
-                    } else {
-                        let block_size = reader.read_u32()?;
-                        reader.skip(block_size as usize);
-                    }
+                    let block_size = reader.read_u32()?;
+                    reader.skip(block_size as usize);
                 }
                 _ => {
                     return Err(WzPropertyParseError::UnknownPropertyType(
@@ -495,10 +496,69 @@ pub fn get_node(
             }
         }
 
-        if next_path.is_none() {
-            break;
+        if !found {
+            return Err(WzPropertyParseError::NodeNotFound);
+        }
+
+        let block_size = reader.read_u32()?;
+        let end_of_block = reader.pos.get() + block_size as usize;
+        let mut extend_type = reader.read_wz_string_block(origin_offset)?;
+
+        // childs of convex has no name and size, they need to be read one by one
+        while extend_type == "Shape2D#Convex2D" {
+            let Some(child_name) = pathes.next() else {
+                return Err(WzPropertyParseError::NodeNotFound);
+            };
+            let entry_count = reader.read_wz_int()?;
+            let index = child_name
+                .parse::<i32>()
+                .ok()
+                .filter(|i| (0..entry_count).contains(i) && i.to_string() == child_name)
+                .ok_or(WzPropertyParseError::NodeNotFound)?;
+            let parse_child = |i: i32| {
+                parse_extended_prop(
+                    None,
+                    org_reader,
+                    reader,
+                    end_of_block,
+                    origin_offset,
+                    i.to_string().into(),
+                )
+            };
+            for i in 0..index {
+                parse_child(i)?;
+            }
+            if pathes.peek().is_none() {
+                let result = parse_child(index)?;
+                return Ok((result.0, result.1));
+            }
+            extend_type = reader.read_wz_string_block(origin_offset)?;
+        }
+
+        if !seek_to_property_list(reader, &extend_type)? {
+            return Err(WzPropertyParseError::NodeNotFound);
         }
     }
 
     Err(WzPropertyParseError::NodeNotFound)
 }
+
+/// Move the reader from the type of a extended property to its children, false if it doesn't have any.
+fn seek_to_property_list(
+    reader: &WzSliceReader,
+    extend_type: &str,
+) -> Result<bool, WzPropertyParseError> {
+    let has_child = match extend_type {
+        "Property" => true,
+        "Canvas" => {
+            reader.skip(1);
+            reader.read_u8()? == 1
+        }
+        "RawData" => reader.read_u8()? == 0x01 && reader.read_u8()? == 1,
+        _ => false,
+    };
+    if has_child {
+        reader.skip(2);
+    }
+    Ok(has_child)
+}
-- 
2.43.0


From dae484b7c68ffe87ec846a604a4a5dd4ade56b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:13 +0000
Subject: [PATCH 11/36] fix: direct lookup works in script and text images

---
 src/wz_image.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/wz_image.rs b/src/wz_image.rs
index b04bdcd..6e3fa42 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -124,6 +124,21 @@ impl WzImage {
         reader.seek(self.offset);
         let header_byte = reader.read_u8()?;
 
+        // script and raw text is the only node in its image
+        if self.name.ends_with(".txt")
+            || matches!(
+                WzImageHeaderType::from(header_byte),
+                WzImageHeaderType::PlainText | WzImageHeaderType::PackText
+            )
+        {
+            let (childs, _) = self.resolve_children(None)?;
+            return childs
+                .into_iter()
+                .find(|(name, _)| name.as_str() == path)
+                .map(|(_, node)| node)
+                .ok_or(util::WzPropertyParseError::NodeNotFound.into());
+        }
+
         if header_byte != WzImageHeaderType::WithoutOffset as u8 {
             return Err(Error::UnknownImageHeader(header_byte, reader.pos.get()));
         } else {
-- 
2.43.0


From 2910c7745b55919b5d0c258e8a596ae94d044e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 12/36] fix: direct lookup works in .ms images, below names
 containing .img and while the image is unparsed

---
 src/util/node_util.rs | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index a532638..eb6fea3 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -1,4 +1,4 @@
-use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast};
+use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast, WzObjectType};
 use std::sync::Arc;
 
 #[inline]
@@ -165,16 +165,6 @@ pub fn get_image_node_from_path<'a>(
         return None;
     }
 
-    if path.contains(".img") {
-        let mut pathes = path.split_inclusive(".img");
-        let img_path = pathes.next()?;
-        let rest_path = pathes.next()?.strip_prefix('/')?;
-
-        let image_node = find_child(node, img_path)?;
-
-        return Some((image_node, rest_path));
-    }
-
     let mut node = node.clone();
     let mut slash_index = 0;
     for split_path in path.split('/') {
@@ -182,7 +172,11 @@ pub fn get_image_node_from_path<'a>(
         if let Some(target) = target {
             node = target;
             slash_index += split_path.len() + 1;
-            if node.read().unwrap().try_as_image().is_some() {
+            let is_image = matches!(
+                node.read().unwrap().object_type,
+                WzObjectType::Image(_) | WzObjectType::MsImage(_)
+            );
+            if is_image {
                 let rest = path.get(slash_index..)?;
                 return Some((node, rest));
             }
@@ -197,16 +191,26 @@ pub fn get_image_node_from_path<'a>(
 /// get a certain node without parsing all node in the way
 pub fn get_node_without_parse(root: &WzNodeArc, path: &str) -> Option<WzNodeArc> {
     let (image_node, rest_path) = get_image_node_from_path(root, path)?;
-    {
-        let image_read = image_node.read().unwrap();
-        let image = image_read.try_as_image()?;
 
-        if !image.is_parsed {
-            return image.at_path(rest_path).ok();
+    let (child, rest_path) = {
+        let image_read = image_node.read().unwrap();
+        match &image_read.object_type {
+            WzObjectType::Image(image) if image.is_parsed => {
+                // only the children of image itself can be gone by unparse, so take it while it's locked
+                match rest_path.split_once('/') {
+                    Some((name, rest)) => (image_read.at(name)?, rest),
+                    None => return image_read.at(rest_path),
+                }
+            }
+            WzObjectType::Image(image) => return image.at_path(rest_path).ok(),
+            WzObjectType::MsImage(image) => {
+                return image.to_wz_image().at_path(rest_path).ok();
+            }
+            _ => return None,
         }
-    }
+    };
 
-    find_child(&image_node, rest_path)
+    find_child(&child, rest_path)
 }
 
 /// Same as `WzNode::at_path`, but only one node is locked at a time.
-- 
2.43.0


From 46fbdd5550dc041753f1d6be4a7fd98d90976f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 13/36] fix: counts, lengths and ranges read from a damaged
 image give an error instead of a panic

---
 src/property/sound.rs      |  5 +++--
 src/reader.rs              | 28 +++++++++++++++++++++-------
 src/util/parse_property.rs | 29 +++++++++++++++++++++--------
 src/util/version/mod.rs    |  2 +-
 src/wz_image.rs            | 13 +++++++++----
 5 files changed, 55 insertions(+), 22 deletions(-)

diff --git a/src/property/sound.rs b/src/property/sound.rs
index a488e18..21266bc 100644
--- a/src/property/sound.rs
+++ b/src/property/sound.rs
@@ -113,13 +113,14 @@ impl WzSound {
     pub fn get_wav_header(&self) -> Vec<u8> {
         let header = self.reader.get_slice(self.get_header_range());
         let chunk_size = (self.length + 36).to_le_bytes();
-        let u8_16_from_header = &header[0x34..0x34 + 16];
         let chunk2_size = self.length.to_le_bytes();
 
         let mut wav_header = WAV_HEADER.to_vec();
 
         wav_header[4..8].copy_from_slice(&chunk_size);
-        wav_header[20..36].copy_from_slice(u8_16_from_header);
+        if let Some(u8_16_from_header) = header.get(0x34..0x34 + 16) {
+            wav_header[20..36].copy_from_slice(u8_16_from_header);
+        }
         wav_header[40..44].copy_from_slice(&chunk2_size);
 
         wav_header
diff --git a/src/reader.rs b/src/reader.rs
index e392b0f..9149ac3 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -335,7 +335,18 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn available(&self) -> usize {
-        self.get_size() - self.pos.get()
+        self.get_size().saturating_sub(self.pos.get())
+    }
+    /// a count or a length can't be negative or more than the bytes left, it can only be that in a broken file
+    #[inline]
+    pub(crate) fn check_available(&self, len: i32) -> Result<usize> {
+        usize::try_from(len)
+            .ok()
+            .filter(|len| *len <= self.available())
+            .ok_or_else(|| {
+                let end = self.pos.get().saturating_add(len as u32 as usize);
+                Error::OutOfBounds(self.get_size(), end)
+            })
     }
     #[inline]
     pub fn seek(&self, pos: usize) {
@@ -446,7 +457,7 @@ impl<'a> WzSliceReader<'a> {
             return Ok(String::new());
         }
 
-        let unicode_u8_len = (len * 2) as usize;
+        let unicode_u8_len = self.check_available(len)? * 2;
 
         let string =
             self.resolve_wz_string_meta(&WzStringType::Unicode, self.pos.get(), unicode_u8_len)?;
@@ -456,7 +467,8 @@ impl<'a> WzSliceReader<'a> {
         Ok(string)
     }
     pub fn read_ascii_string(&self, sl: i8) -> Result<String> {
-        let len = self.read_ascii_str_len(sl)? as usize;
+        let len = self.read_ascii_str_len(sl)?;
+        let len = self.check_available(len)?;
         if len == 0 {
             return Ok(String::new());
         }
@@ -486,7 +498,8 @@ impl<'a> WzSliceReader<'a> {
             WzStringType::Empty => Ok(WzStringMeta::empty()),
             WzStringType::Unicode => {
                 if small_len == i8::MAX {
-                    let length = self.read_i32()? as u32 * 2;
+                    let length = self.read_i32()?;
+                    let length = self.check_available(length)? as u32 * 2;
                     /* remember skip char reading */
                     let meta = WzStringMeta::new_unicode(self.pos.get(), length);
                     self.skip(length as usize);
@@ -501,8 +514,9 @@ impl<'a> WzSliceReader<'a> {
             WzStringType::Ascii => {
                 if small_len == i8::MIN {
                     let length = self.read_i32()?;
+                    let length = self.check_available(length)?;
                     let meta = WzStringMeta::new_ascii(self.pos.get(), length as u32);
-                    self.skip(length as usize);
+                    self.skip(length);
                     Ok(meta)
                 } else {
                     let length = (-small_len) as u32;
@@ -586,7 +600,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_at_offset(offset + append_offset as usize)
+                self.read_wz_string_at_offset(offset.wrapping_add(append_offset as usize))
             }
             _ => Ok(String::new()),
         }
@@ -599,7 +613,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string_meta(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_meta_at(wz_img_offset + append_offset as usize)
+                self.read_wz_string_meta_at(wz_img_offset.wrapping_add(append_offset as usize))
             }
             _ => Ok(WzStringMeta::empty()),
         }
diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 87b8d3c..b0459ff 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -34,7 +34,7 @@ pub fn parse_property_list(
 ) -> Result<(WzNodeArcVec, Vec<WzNodeArc>), WzPropertyParseError> {
     let entry_count = reader.read_wz_int()?;
 
-    let mut childs: WzNodeArcVec = Vec::with_capacity(entry_count as usize);
+    let mut childs: WzNodeArcVec = Vec::with_capacity(reader.check_available(entry_count)?);
     let mut uol_nodes: Vec<WzNodeArc> = Vec::new();
 
     for _ in 0..entry_count {
@@ -245,7 +245,7 @@ pub fn parse_more(
             let _ = reader.read_wz_int()?;
             reader.skip(2);
             /* unknown end */
-            let canvas_slice_size = (reader.read_i32()? - 1) as usize;
+            let canvas_slice_size = reader.read_i32()?.wrapping_sub(1) as usize;
             reader.skip(1);
             let canvas_offset = reader.pos.get();
             let canvas_header = reader.read_u16()?;
@@ -274,7 +274,9 @@ pub fn parse_more(
 
             {
                 let mut node_write = node.write().unwrap();
-                node_write.children.reserve(entry_count as usize);
+                node_write
+                    .children
+                    .reserve(reader.check_available(entry_count)?);
                 for i in 0..entry_count {
                     let name: WzNodeName = i.to_string().into();
                     let parsed_node = parse_extended_prop(
@@ -307,14 +309,23 @@ pub fn parse_more(
             let _sound_start_offset = reader.pos.get();
             let sound_size = reader.read_wz_int()? as u32;
             let sound_duration = reader.read_wz_int()? as u32;
-            let sound_offset = end_of_block - (sound_size as usize);
 
             let header_offset: usize = reader.pos.get();
 
-            let header_size = sound_offset - header_offset;
+            // everything between here and the end of the block is the header then the sound
+            let header_size = reader
+                .get_slice_or_error(header_offset..end_of_block)?
+                .len()
+                .checked_sub(sound_size as usize)
+                .ok_or(reader::Error::OutOfBounds(
+                    end_of_block,
+                    header_offset + sound_size as usize,
+                ))?;
+
+            let sound_offset = header_offset + header_size;
 
             let sound_type = get_sound_type_from_header(
-                &reader.buf[header_offset..header_offset + header_size],
+                reader.get_slice_or_error(header_offset..sound_offset)?,
                 sound_size,
                 sound_duration,
             );
@@ -376,7 +387,8 @@ pub fn parse_more(
                 uol_nodes = Some(uols);
             }
 
-            let raw_data_size = reader.read_wz_int()? as usize;
+            let raw_data_size = reader.read_wz_int()?;
+            let raw_data_size = reader.check_available(raw_data_size)?;
             let raw_data_offset = reader.pos.get();
 
             node.write().unwrap().object_type =
@@ -387,7 +399,8 @@ pub fn parse_more(
         "Canvas#Video" => {
             // origin observation, first 3 bytes is [0x00, 0x00, 0x01]
             reader.skip(3);
-            let video_size = reader.read_wz_int()? as usize;
+            let video_size = reader.read_wz_int()?;
+            let video_size = reader.check_available(video_size)?;
             let video_offset = reader.pos.get();
             // pos - size shoud same as end_of_block
             let node = WzNode::new(
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index efe8418..1c5af55 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -81,7 +81,7 @@ pub fn verify_iv_from_wz_img(buf: &[u8], iv: &[u8; 4]) -> bool {
 /// Try to guess IV from wz image use fixed value. Currently will try GMS, EMS, BMS.
 pub fn guess_iv_from_wz_img(buf: &[u8]) -> Option<[u8; 4]> {
     // not support other then WzImageHeaderType::WithoutOffset
-    if buf[0] != 0x73 {
+    if buf.first() != Some(&0x73) {
         return None;
     }
 
diff --git a/src/wz_image.rs b/src/wz_image.rs
index 6e3fa42..fd15d76 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -177,6 +177,8 @@ impl WzImage {
         if self.name.ends_with(".txt") {
             let name: WzNodeName = String::from("text.txt").into();
 
+            reader.get_slice_or_error(self.offset..self.offset + self.block_size)?;
+
             let wz_raw_data = WzRawData::new(&self.reader, self.offset, self.block_size);
             let raw_data_node = WzNode::new(&name, wz_raw_data, parent);
 
@@ -191,7 +193,8 @@ impl WzImage {
 
                     let name: WzNodeName = String::from("Script").into();
 
-                    let wz_lua = WzLua::new(&self.reader, offset, len as usize);
+                    let wz_lua =
+                        WzLua::new(&self.reader, offset, reader.check_available(len)?);
 
                     let lua_node = WzNode::new(&name, wz_lua, parent);
 
@@ -205,7 +208,7 @@ impl WzImage {
             WzImageHeaderType::PackText => {
                 let property_string = String::from_iter(
                     reader
-                        .get_slice(self.offset..self.offset + 9)
+                        .get_slice_or_error(self.offset..self.offset + 9)?
                         .iter()
                         .map(|&b| b as char),
                 );
@@ -213,8 +216,10 @@ impl WzImage {
                     return Err(Error::UnknownImageHeader(header_byte, reader.pos.get()));
                 }
                 let name: WzNodeName = String::from("text.txt").into();
-                let wz_raw_data =
-                    WzRawData::new(&self.reader, self.offset + 9, self.block_size - 9);
+                let size = reader
+                    .get_slice_or_error(self.offset + 9..self.offset + self.block_size)?
+                    .len();
+                let wz_raw_data = WzRawData::new(&self.reader, self.offset + 9, size);
                 let raw_data_node = WzNode::new(&name, wz_raw_data, parent);
 
                 return Ok((vec![(name, raw_data_node.into_lock())], vec![]));
-- 
2.43.0


From 4b76aaadc7a4e48a2ca45d622191ce4cf47c501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 14/36] fix: damaged canvases give an error instead of a panic
 or a huge allocation

---
 src/property/png.rs | 55 +++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 7a40c9a..35dd3fa 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -31,6 +31,9 @@ pub enum WzPngParseError {
     #[error("Unknown format: {0:?}")]
     UnknownFormat(WzPngFormat),
 
+    #[error("Not enough data for the image")]
+    NotEnoughData,
+
     #[error("Unsupported header: {0}")]
     UnsupportedHeader(i32),
 
@@ -184,7 +187,7 @@ impl WzPng {
     }
     #[inline]
     pub fn format(&self) -> WzPngFormat {
-        WzPngFormat::from(self.format1 + self.format2)
+        WzPngFormat::from(self.format1.wrapping_add(self.format2))
     }
     #[inline]
     fn has_zlib_header(&self) -> bool {
@@ -196,10 +199,14 @@ impl WzPng {
     pub fn extract_png(&self) -> Result<DynamicImage, WzPngParseError> {
         let data = self
             .reader
-            .get_slice(self.offset..(self.offset + self.block_size));
+            .get_slice_or_error(self.offset..self.offset.saturating_add(self.block_size))?;
         /* decompress */
         let pixels = self.get_raw_data(data)?;
 
+        if pixels.len() < self.get_buff_size()? {
+            return Err(WzPngParseError::NotEnoughData);
+        }
+
         match self.format() {
             WzPngFormat::BGRA4444 => get_image_from_bgra4444(pixels, self.width, self.height),
             WzPngFormat::BGRA8888 => get_image_from_bgra8888(pixels, self.width, self.height),
@@ -222,29 +229,38 @@ impl WzPng {
         }
     }
     fn get_buff_size(&self) -> Result<usize, WzPngParseError> {
+        let (width, height) = (self.width as usize, self.height as usize);
+
         match self.format() {
             WzPngFormat::BGRA4444
             | WzPngFormat::ARGB1555
             | WzPngFormat::RGB565
-            | WzPngFormat::R16 => Ok((self.width * self.height * 2) as usize),
+            | WzPngFormat::R16 => width.checked_mul(height).and_then(|n| n.checked_mul(2)),
             WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
-                Ok((self.width * self.height * 4) as usize)
-            }
-            WzPngFormat::DXT3 | WzPngFormat::DXT3SM | WzPngFormat::DXT5 | WzPngFormat::BC7 => {
-                Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
+                width.checked_mul(height).and_then(|n| n.checked_mul(4))
             }
-            WzPngFormat::A8 => Ok((self.width * self.height) as usize),
-            WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
+            WzPngFormat::DXT3 | WzPngFormat::DXT3SM | WzPngFormat::DXT5 | WzPngFormat::BC7 => width
+                .div_ceil(4)
+                .checked_mul(height.div_ceil(4))
+                .and_then(|n| n.checked_mul(16)),
+            WzPngFormat::A8 => width.checked_mul(height),
+            WzPngFormat::RGBA32Float => width.checked_mul(height).and_then(|n| n.checked_mul(16)),
             WzPngFormat::RGB565_517 => {
                 /* 128 = 16 * 16 / 2 */
-                Ok((self.width * self.height / 128) as usize)
+                width.checked_mul(height).map(|n| n / 128)
             }
-            _ => Err(WzPngParseError::UnknownFormat(self.format())),
+            _ => return Err(WzPngParseError::UnknownFormat(self.format())),
         }
+        .ok_or(WzPngParseError::NotEnoughData)
     }
     fn get_raw_data(&self, data: &[u8]) -> Result<Vec<u8>, WzPngParseError> {
         let capacity = self.get_buff_size()?;
 
+        // deflate never makes data more than 1032 times smaller
+        if capacity / 1032 > data.len() {
+            return Err(WzPngParseError::NotEnoughData);
+        }
+
         let inflate_result = if self.has_zlib_header() {
             inflate(true, data, capacity)
         } else {
@@ -266,10 +282,17 @@ impl WzPng {
         let mut decrypted = Vec::with_capacity(self.block_size);
 
         while offset < total_end {
-            let block_size = self.reader.read_i32_at(offset).unwrap() as usize;
+            let block_size = self.reader.read_u32_at(offset)? as usize;
             offset += 4;
 
-            let data = self.reader.get_slice(offset..(offset + block_size));
+            // the blocks are all inside the canvas, it keeps broken ones from adding up
+            if block_size > total_end.saturating_sub(offset) {
+                return Err(WzPngParseError::NotEnoughData);
+            }
+
+            let data = self
+                .reader
+                .get_slice_or_error(offset..(offset + block_size))?;
             offset += block_size;
 
             decrypted.extend_from_slice(data);
@@ -282,7 +305,11 @@ impl WzPng {
         }
 
         /* the total chunk shoud start decryption at index 2 */
-        inflate(false, &decrypted[2..], capacity)
+        inflate(
+            false,
+            decrypted.get(2..).ok_or(WzPngParseError::NotEnoughData)?,
+            capacity,
+        )
     }
 }
 
-- 
2.43.0


From 5ddc435f1a79d4c18f71f68571de20fb2f0b6eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 15/36] fix: damaged .ms files give an error instead of a panic

---
 src/ms/chacha20_reader.rs | 32 +++++++++++++++++-------------
 src/ms/file.rs            | 24 +++++++++++++++++++----
 src/ms/header.rs          | 41 +++++++++++++++++++++++++--------------
 src/ms/ms_image.rs        | 19 ++++++++++++------
 src/ms/snow2_reader.rs    |  4 ++++
 5 files changed, 82 insertions(+), 38 deletions(-)

diff --git a/src/ms/chacha20_reader.rs b/src/ms/chacha20_reader.rs
index 1cc4141..412aea2 100644
--- a/src/ms/chacha20_reader.rs
+++ b/src/ms/chacha20_reader.rs
@@ -39,15 +39,13 @@ impl<'a> ChaCha20Reader<'a> {
     }
     pub fn read_u32(&mut self) -> Result<u32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<u32>(0, LE).map_err(Error::from)
     }
     pub fn read_i32(&mut self) -> Result<i32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<i32>(0, LE).map_err(Error::from)
     }
@@ -61,8 +59,12 @@ impl<'a> ChaCha20Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
-        let mut buffer = self.data[self.offset..self.offset + len].to_vec();
-        self.apply_keystream(&mut buffer);
+        if len > self.data.len() {
+            return Err(Error::OutOfBounds(self.data.len(), len));
+        }
+
+        let mut buffer = vec![0; len];
+        self.apply_keystream(&mut buffer)?;
         Ok(buffer)
     }
     pub fn write_bytes_to(&mut self, dest_buffer: &mut [u8], len: usize) -> Result<(), Error> {
@@ -70,18 +72,20 @@ impl<'a> ChaCha20Reader<'a> {
             return Err(Error::DecryptError(len));
         }
 
-        dest_buffer.copy_from_slice(&self.data[self.offset..self.offset + len]);
-        self.apply_keystream(dest_buffer);
-
-        Ok(())
+        self.apply_keystream(&mut dest_buffer[..len])
     }
-    pub fn apply_keystream(&mut self, data: &mut [u8]) {
+    /// fill `data` with the next decrypted bytes
+    pub fn apply_keystream(&mut self, data: &mut [u8]) -> Result<(), Error> {
         let mut remain = data.len();
         let mut start = 0;
         while remain > 0 {
             if self.buffer_offset >= READER_CHUNK_SIZE {
-                self.buffer
-                    .copy_from_slice(&self.data[self.offset..self.offset + READER_CHUNK_SIZE]);
+                let end = self.offset.saturating_add(READER_CHUNK_SIZE);
+                self.buffer.copy_from_slice(
+                    self.data
+                        .get(self.offset..end)
+                        .ok_or(Error::OutOfBounds(self.data.len(), end))?,
+                );
                 self.decryptor.apply_keystream(&mut self.buffer);
                 self.offset += READER_CHUNK_SIZE;
                 self.buffer_offset = 0;
@@ -100,5 +104,7 @@ impl<'a> ChaCha20Reader<'a> {
         if self.buffer_offset >= READER_CHUNK_SIZE {
             self.decryptor.state.state.set_stream_param(0, 0);
         }
+
+        Ok(())
     }
 }
diff --git a/src/ms/file.rs b/src/ms/file.rs
index 2abc5da..3eaff9f 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -77,6 +77,14 @@ impl MsFile {
         }
     }
 
+    /// each entry is more than a byte, so there can't be more entries than bytes
+    fn checked_entry_count(&self) -> Result<usize, Error> {
+        usize::try_from(self.header.entry_count)
+            .ok()
+            .filter(|count| *count <= self.block_size)
+            .ok_or(Error::InvalidMsFile)
+    }
+
     fn parse_v1(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
         // decrypt with another snow key
         let file_name_with_salt_bytes = self.header.name_with_salt.as_bytes();
@@ -93,7 +101,7 @@ impl MsFile {
 
         snow_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::with_capacity(self.checked_entry_count()?);
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = snow_reader.read_i32()?;
@@ -135,9 +143,13 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = data_start.wrapping_add(image.offset.wrapping_mul(1024));
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
+
+            if !image.is_valid() {
+                return Err(Error::InvalidMsFile);
+            }
         }
 
         Ok(ms_images
@@ -172,7 +184,7 @@ impl MsFile {
         );
         chacha20_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::<MsImage>::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::<MsImage>::with_capacity(self.checked_entry_count()?);
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = chacha20_reader.read_i32()?;
@@ -217,9 +229,13 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = data_start.wrapping_add(image.offset.wrapping_mul(1024));
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
+
+            if !image.is_valid() {
+                return Err(Error::InvalidMsFile);
+            }
         }
 
         Ok(ms_images
diff --git a/src/ms/header.rs b/src/ms/header.rs
index 4ee8cf2..301cde8 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -58,7 +58,7 @@ impl MsHeader {
         // all the code is from https://github.com/Kagamia/WzComparerR2/pull/271/files#diff-d0d53b2411f7d680fb0c7c32bbf10138be0f7e662555cbc28d27353fbd2741d0
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
-        let rand_bytes = reader.get_slice(offset..rand_byte_count);
+        let rand_bytes = reader.get_slice_or_error(offset..rand_byte_count)?;
         offset += rand_byte_count;
 
         // 2. encrypted snowKeySalt
@@ -66,12 +66,16 @@ impl MsHeader {
         let hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         // plus 1 and skip 3 bytes
         offset += 4;
-        let salt_len = hashed_salt_len ^ rand_bytes[0];
-        let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len);
+        let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
+        let salt_byte_len = salt_len * 2;
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
-        let salt_string = (0..salt_len as usize)
+        if salt_len > rand_byte_count {
+            return Err(reader::Error::OutOfBounds(rand_byte_count, salt_len).into());
+        }
+
+        let salt_string = (0..salt_len)
             .map(|i| {
                 let byte = rand_bytes[i];
                 let byte2 = salt_bytes[i * 2];
@@ -84,13 +88,13 @@ impl MsHeader {
 
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let snow_key: [u8; MS_SNOW2_KEY_SIZE] = core::array::from_fn(|i| {
-            file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
         });
         let mut snow_decryptor = Snow2Decryptor::new(snow_key);
 
         let hstart = offset;
         // the snow decryptor is decrypting 4 bytes at a time, so we need to decrypt 12 bytes for only 9 bytes of data
-        let header_bytes = reader.get_slice(offset..offset + 12);
+        let header_bytes = reader.get_slice_or_error(offset..offset + 12)?;
 
         let mut decrypt_data = [0_u8; 12];
         decrypt_data.copy_from_slice(header_bytes);
@@ -111,7 +115,10 @@ impl MsHeader {
             .map(|s| u16::from_le_bytes([s[0], s[1]]))
             .fold(0, |acc: i32, x| acc.wrapping_add(x as i32));
 
-        let actual_hash = hashed_salt_len_i32 + version as i32 + entry_count + sum_of_salt_byte;
+        let actual_hash = hashed_salt_len_i32
+            .wrapping_add(version as i32)
+            .wrapping_add(entry_count)
+            .wrapping_add(sum_of_salt_byte);
         if hash != actual_hash {
             return Err(Error::HashMismatch(hash, actual_hash));
         }
@@ -143,7 +150,7 @@ impl MsHeader {
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
         let rand_bytes: Vec<u8> = reader
-            .get_slice(offset..rand_byte_count)
+            .get_slice_or_error(offset..rand_byte_count)?
             .iter()
             .map(|b| ((*b as i8) >> 1) as u8)
             .collect();
@@ -162,14 +169,18 @@ impl MsHeader {
         let _hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         offset += 4;
         let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
-        let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len).to_vec();
+        let salt_byte_len = salt_len * 2;
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
-        let salt_string = (0..salt_len as usize)
+        if salt_len > rand_byte_count {
+            return Err(reader::Error::OutOfBounds(rand_byte_count, salt_len).into());
+        }
+
+        let salt_string = (0..salt_len)
             .map(|i| {
                 let a = rand_bytes[i] ^ salt_bytes[i * 2];
-                let b = ((a | 0x4B) << 1) - a - 75;
+                let b = ((a | 0x4B) << 1).wrapping_sub(a).wrapping_sub(75);
                 b as char
             })
             .collect::<String>();
@@ -181,13 +192,13 @@ impl MsHeader {
         let file_name_with_salt = format!("{}{}", file_name, &salt_string);
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let chacha20_key: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
-            (file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8)
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
                 ^ MS_CHACHA20_KEY_BASE[i]
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
         let mut chacha20_reader = ChaCha20Reader::new(
-            reader.get_slice(offset..offset + 128),
+            reader.get_slice_or_error(offset..offset + 128)?,
             &chacha20_key,
             &empty_nonce,
         );
diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index 017e0da..b14d220 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -50,6 +50,17 @@ impl MsImage {
         }
     }
 
+    /// is the entry something that can be turned into a image, its data is inside the file and it has a name
+    pub(crate) fn is_valid(&self) -> bool {
+        self.meta.size >= 0
+            && self.meta.size <= self.meta.size_aligned
+            && !self.meta.entry_name.is_empty()
+            && self
+                .reader
+                .get_slice_or_error(self.offset..self.offset.saturating_add(self.block_size))
+                .is_ok()
+    }
+
     /// make a WzImage from the MsImage, this process will allocate a new buffer instead of using MsFile's buffer
     pub fn to_wz_image(&self) -> WzImage {
         match self.meta.version {
@@ -128,14 +139,10 @@ impl MsImage {
          let key_hash_digits: Vec<u8> = key_hash.to_string().chars().map(|c| c as u8 - 48).collect();
 
         // key
+        let name_chars: Vec<u16> = self.meta.entry_name.encode_utf16().collect();
         let mut img_key = [0_u8; MS_CHACHA20_KEY_SIZE];
         for i in 0..MS_CHACHA20_KEY_SIZE {
-            let char = self
-                .meta
-                .entry_name
-                .chars()
-                .nth(i % self.meta.entry_name.len())
-                .unwrap() as u8;
+            let char = name_chars[i % name_chars.len()] as u8;
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
 
             let ekey_idx = ((key_hash_digits[(i + 2) % key_hash_digits.len()] + i as u8)
diff --git a/src/ms/snow2_reader.rs b/src/ms/snow2_reader.rs
index dc67c5f..23cf7dd 100644
--- a/src/ms/snow2_reader.rs
+++ b/src/ms/snow2_reader.rs
@@ -76,6 +76,10 @@ impl<'a> Snow2Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
+        if len > self.data.len() {
+            return Err(Error::OutOfBounds(self.data.len(), len));
+        }
+
         let mut vec = vec![0_u8; len];
 
         self.write_bytes_to(&mut vec, len)?;
-- 
2.43.0


From ca83d6536072502ee841443ddf87ddbbf6796972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 16/36] fix: damaged directories give an error instead of a
 panic or endless recursion

---
 src/directory.rs | 57 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 2bb258a..3bee10d 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -28,6 +28,9 @@ pub enum Error {
     ReaderError(#[from] reader::Error),
 }
 
+/// directories nested more than this can only be a broken file
+const MAX_DIRECTORY_DEPTH: usize = 128;
+
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
 #[repr(u8)]
 pub(crate) enum WzDirectoryType {
@@ -111,10 +114,24 @@ impl WzDirectory {
     }
 
     pub fn resolve_children(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
+        self.resolve_children_below(parent, &mut Vec::new())
+    }
+
+    /// `ancestors` are the offsets of the directories this one is in
+    fn resolve_children_below(
+        &mut self,
+        parent: &WzNodeArc,
+        ancestors: &mut Vec<usize>,
+    ) -> Result<WzNodeArcVec, Error> {
         if self.block_size == 0 {
             return Ok(vec![]);
         }
 
+        // a directory inside itself never ends
+        if ancestors.contains(&self.offset) || ancestors.len() >= MAX_DIRECTORY_DEPTH {
+            return Err(Error::InvalidWzVersion);
+        }
+
         self.prepare_entries()?;
 
         if self.calculate_offset_and_verify().is_err() {
@@ -125,17 +142,23 @@ impl WzDirectory {
             .entries
             .iter()
             .map(|entry| {
-                entry.into_wz_node_tuple(parent, self.hash, &self.profile, Arc::clone(&self.reader))
+                entry.try_into_wz_node_tuple(
+                    parent,
+                    self.hash,
+                    &self.profile,
+                    Arc::clone(&self.reader),
+                )
             })
-            .collect();
+            .collect::<Result<_, _>>()?;
 
         // if there has any directory, parse it since it's probably cheep
+        ancestors.push(self.offset);
         for (_, node) in nodes.iter() {
             let mut write = node.write().unwrap();
             if let WzObjectType::Directory(dir) = &mut write.object_type {
                 dir.profile = self.profile.clone();
                 dir.hash = self.hash;
-                let children = dir.resolve_children(node)?;
+                let children = dir.resolve_children_below(node, ancestors)?;
 
                 for (name, child) in children {
                     write.children.insert(name, child);
@@ -143,6 +166,8 @@ impl WzDirectory {
             }
         }
 
+        ancestors.pop();
+
         self.verify_status = WzDirectoryVerifyStatus::Verified;
         self.entries.clear();
 
@@ -156,7 +181,8 @@ impl WzDirectory {
             return Err(Error::InvalidEntryCount);
         }
 
-        let mut entries: Vec<WzDirectoryEntry> = Vec::with_capacity(entry_count as usize);
+        let mut entries: Vec<WzDirectoryEntry> =
+            Vec::with_capacity(reader.check_available(entry_count)?);
 
         for _ in 0..entry_count {
             let entry = WzDirectoryEntry::read_pkg1_entry(reader)?;
@@ -236,6 +262,10 @@ impl WzDirectory {
             return Err(Error::InvalidEntryCount);
         }
 
+        if entry_count > reader.available() {
+            return Err(Error::InvalidEntryCount);
+        }
+
         let mut wz_dir_entries: Vec<WzDirectoryEntry> = Vec::with_capacity(entry_count);
 
         for i in 0..entry_count {
@@ -345,7 +375,7 @@ impl WzDirectoryEntry {
             WzDirectoryType::MetaAtOffset => {
                 let str_offset = reader.read_i32()?;
 
-                let offset = reader.header.fstart + str_offset as usize;
+                let offset = reader.header.fstart.wrapping_add(str_offset as usize);
 
                 entry.dir_type = reader.read_u8_at(offset)?.into();
                 entry.name = reader.read_wz_string_meta_at(offset + 1)?;
@@ -358,7 +388,8 @@ impl WzDirectoryEntry {
             }
         }
 
-        entry.size = reader.read_wz_int()? as usize;
+        let size = reader.read_wz_int()?;
+        entry.size = usize::try_from(size).map_err(|_| Error::InvalidWzVersion)?;
         entry._checksum = reader.read_wz_int()?;
         entry.calculation_offset = reader.pos.get();
         entry.encrypted_offset = reader.read_u32()?;
@@ -405,7 +436,8 @@ impl WzDirectoryEntry {
             }
         }
 
-        entry.size = reader.read_wz_int()? as usize;
+        let size = reader.read_wz_int()?;
+        entry.size = usize::try_from(size).map_err(|_| Error::InvalidWzVersion)?;
         entry._checksum = reader.read_wz_int()?;
 
         Ok(entry)
@@ -476,15 +508,4 @@ impl WzDirectoryEntry {
 
         Ok((name.clone(), node.into_lock()))
     }
-
-    pub fn into_wz_node_tuple(
-        &self,
-        parent: &WzNodeArc,
-        hash: u64,
-        profile: &WzProfile,
-        reader: Arc<WzReader>,
-    ) -> (WzNodeName, WzNodeArc) {
-        self.try_into_wz_node_tuple(parent, hash, profile, reader)
-            .unwrap()
-    }
 }
-- 
2.43.0


From eca624ccd3261d91780221d69e27d8045faf3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 17/36] fix: json of NaN and infinite numbers is null instead
 of a panic

---
 src/property/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 2e2d368..204ca21 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -92,8 +92,9 @@ impl From<WzValue> for Value {
             WzValue::Short(value) => value.into(),
             WzValue::Int(value) => value.into(),
             WzValue::Long(value) => value.into(),
-            WzValue::Float(value) => Value::Number(Number::from_f64(value.into()).unwrap()),
-            WzValue::Double(value) => Value::Number(Number::from_f64(value).unwrap()),
+            // json can't hold NaN or infinity
+            WzValue::Float(value) => Number::from_f64(value.into()).map_or(Value::Null, Value::Number),
+            WzValue::Double(value) => Number::from_f64(value).map_or(Value::Null, Value::Number),
             WzValue::Vector(Vector2D(x, y)) => {
                 let mut vec = serde_json::Map::new();
                 vec.insert("x".to_string(), x.into());
-- 
2.43.0


From 19d97b80b20079e6824bfbb9ebdeb6369d86dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:46 +0000
Subject: [PATCH 18/36] fix: properties nested without end in a damaged image
 give an error instead of a stack overflow

---
 src/reader.rs              |  3 +++
 src/util/parse_property.rs | 22 ++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9149ac3..5de7ebe 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -69,6 +69,8 @@ pub struct WzSliceReader<'a> {
     /// current reading position
     pub pos: Cell<usize>,
     _save_pos: Cell<usize>,
+    /// how many properties the current position is nested in
+    pub(crate) depth: Cell<usize>,
     pub header: WzHeader,
     pub keys: SharedWzStringDecryptor,
     pub pkg2_keys: SharedWzStringDecryptor,
@@ -293,6 +295,7 @@ impl<'a> WzSliceReader<'a> {
             buf,
             pos: Cell::new(0),
             _save_pos: Cell::new(0),
+            depth: Cell::new(0),
             header: Default::default(),
             keys,
             pkg2_keys,
diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index b0459ff..1c40c0f 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -8,6 +8,9 @@ use crate::{
 use std::sync::Arc;
 use thiserror::Error;
 
+/// properties nested more than this can only be a broken file, going on would overflow the stack
+const MAX_PROPERTY_DEPTH: usize = 128;
+
 #[derive(Debug, Error)]
 pub enum WzPropertyParseError {
     #[error("Node not found")]
@@ -22,6 +25,9 @@ pub enum WzPropertyParseError {
     #[error("Unknown extended property type: {0}, name: {1}, at position: {2}")]
     UnknownExtendedPropertyType(String, WzNodeName, usize),
 
+    #[error("Properties nested too deep, at position: {0}")]
+    NestedTooDeep(usize),
+
     #[error("Binary reading error")]
     ReaderError(#[from] reader::Error),
 }
@@ -166,7 +172,15 @@ pub fn parse_extended_prop(
 ) -> Result<(WzNodeName, WzNodeArc, Option<Vec<WzNodeArc>>), WzPropertyParseError> {
     let extend_property_type = reader.read_wz_string_block(origin_offset)?;
 
-    parse_more(
+    let depth = reader.depth.get();
+
+    if depth >= MAX_PROPERTY_DEPTH {
+        return Err(WzPropertyParseError::NestedTooDeep(reader.pos.get()));
+    }
+
+    reader.depth.set(depth + 1);
+
+    let result = parse_more(
         parent,
         org_reader,
         reader,
@@ -174,7 +188,11 @@ pub fn parse_extended_prop(
         origin_offset,
         property_name,
         &extend_property_type,
-    )
+    );
+
+    reader.depth.set(depth);
+
+    result
 }
 
 pub fn parse_more(
-- 
2.43.0


From 76d08990078ad6af7ff1e5c01e27825f890ebc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:04 +0000
Subject: [PATCH 19/36] fix: a uol that leads back to a node it is in no longer
 makes the tree endless

---
 src/util/node_util.rs | 46 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index eb6fea3..96b989d 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -1,4 +1,5 @@
 use crate::{node::Error, WzNode, WzNodeArc, WzNodeCast, WzObjectType};
+use std::collections::HashSet;
 use std::sync::Arc;
 
 #[inline]
@@ -82,8 +83,47 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
     pathes.join("/")
 }
 
+/// Whether `parent` can be reached from `target`, so linking `target` below it would make the tree
+/// endless. `wz_image` is the image that is currently parsing, its node is locked by the caller.
+fn leads_back(target: &WzNodeArc, parent: &WzNodeArc, wz_image: Option<&WzNode>) -> bool {
+    let look = |node: &WzNodeArc, cb: &mut dyn FnMut(&WzNode)| match wz_image {
+        None => cb(&node.read().unwrap()),
+        Some(_) => {
+            if let Ok(node) = node.try_read() {
+                cb(&node);
+            }
+        }
+    };
+
+    let mut above_image = wz_image.and_then(|image| image.parent.upgrade());
+    let mut ancestor = Some(Arc::clone(parent));
+    while let Some(node) = ancestor {
+        if Arc::ptr_eq(&node, target) {
+            return true;
+        }
+        let mut next = None;
+        look(&node, &mut |node| next = Some(node.parent.upgrade()));
+        ancestor = next.unwrap_or_else(|| above_image.take());
+    }
+
+    let mut seen = HashSet::new();
+    let mut remains = vec![Arc::clone(target)];
+    while let Some(node) = remains.pop() {
+        if Arc::ptr_eq(&node, parent) {
+            return true;
+        }
+        if seen.insert(Arc::as_ptr(&node)) {
+            look(&node, &mut |node| {
+                remains.extend(node.children.values().cloned())
+            });
+        }
+    }
+    false
+}
+
 /// Make a uol node become valid node, second argument is optional,
 /// it prevent the parent is the WzImage while it currently parsing causing the deadlock.
+/// A uol that leads back to a node it is in is left as it is.
 pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
     let (node_parent, mut uol_target_path) = {
         let node_read = node.read().unwrap();
@@ -105,6 +145,9 @@ pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
                 })
         });
         if let Some(target_node) = uol_target {
+            if leads_back(&target_node, &node_parent, None) {
+                return;
+            }
             let node_name = node.read().unwrap().name.clone();
             if let Some(origin) = node_parent.write().unwrap().children.get_mut(&node_name) {
                 *origin = target_node;
@@ -140,6 +183,9 @@ pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
         };
 
         if let Some(target_node) = uol_target {
+            if leads_back(&target_node, &node_parent, wz_image.as_deref()) {
+                return;
+            }
             let node_name = node.read().unwrap().name.clone();
 
             /* when parent is locked, it means it's parent is WzImage, and it currently parsing */
-- 
2.43.0


From 3ec5c7f977f4cc1562188058ce181b5251e8ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 20/36] fix: a directory whose parse failed can be parsed again

---
 src/node.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 8da2389..837a82d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -177,7 +177,14 @@ impl WzNode {
                 if directory.is_parsed {
                     return Ok(());
                 }
-                let childs = directory.resolve_children(parent)?;
+                let childs = match directory.resolve_children(parent) {
+                    Ok(childs) => childs,
+                    Err(e) => {
+                        // what was read so far is not to be used by the next parse
+                        directory.reset_entry_parse();
+                        return Err(e.into());
+                    }
+                };
                 directory.is_parsed = true;
                 (childs, vec![])
             }
-- 
2.43.0


From 82c9eb9154b2fac4374edba00805c6afbb1337d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 21/36] fix: loading a data directory gives the same tree in
 any listing order and errors instead of panics

---
 src/util/resolver.rs | 275 ++++++++++++++++++++++++-------------------
 1 file changed, 157 insertions(+), 118 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 9fb57ac..815f297 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -1,20 +1,78 @@
-use crate::{util::version::WzMapleVersion, SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast};
+use crate::{
+    util::version::WzMapleVersion, SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast,
+    WzObjectType,
+};
 use std::fs::DirEntry;
 use std::io;
-use std::path::Path;
+use std::path::{Path, PathBuf};
+use std::sync::Arc;
 
 /// Get a wz file path by directory, like `Map` -> `Map/Map.wz`.
 pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
-    let dir_name = dir.file_name();
-    let mut inner_wz_name = dir_name.to_str().unwrap().to_string();
-    inner_wz_name.push_str(".wz");
-    let inner_wz_path = dir.path().join(inner_wz_name);
+    let path = existing_root_wz_file(&dir.path()).ok().flatten()?;
+    path.to_str().map(str::to_string)
+}
+
+/// Same as [`get_root_wz_file_path`], but not being able to tell is an error.
+fn existing_root_wz_file(dir: &Path) -> Result<Option<PathBuf>, io::Error> {
+    let Some(dir_name) = dir.file_name().and_then(|name| name.to_str()) else {
+        return Ok(None);
+    };
+    let wz_path = dir.join(format!("{dir_name}.wz"));
+    Ok(wz_path.try_exists()?.then_some(wz_path))
+}
+
+fn invalid_data(error: crate::node::Error) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, error)
+}
+
+/// The directory the path is in, it can be used to list the directory even the path is relative.
+fn parent_dir(path: &Path) -> &Path {
+    match path.parent() {
+        Some(parent) if !parent.as_os_str().is_empty() => parent,
+        _ => Path::new("."),
+    }
+}
+
+/// All entries of a directory, the order doesn't depend on the file system.
+fn sorted_dir_entries(dir: &Path) -> Result<Vec<DirEntry>, io::Error> {
+    let mut entries = dir.read_dir()?.collect::<Result<Vec<_>, _>>()?;
+    entries.sort_by_key(|entry| entry.file_name());
+    Ok(entries)
+}
 
-    if inner_wz_path.try_exists().is_ok() {
-        return Some(inner_wz_path.to_str().unwrap().to_string());
+/// Number of `XXX_nnn.wz`, when it is a part of `XXX.wz`.
+fn part_number(root_name: &str, path: &Path) -> Option<u16> {
+    if path.extension()? != "wz" {
+        return None;
     }
+    path.file_stem()?
+        .to_str()?
+        .strip_prefix(root_name)?
+        .strip_prefix('_')?
+        .parse()
+        .ok()
+}
 
-    None
+/// Move children of a part to the node it belongs to, directories in both of them are merged.
+fn merge_part(part: &WzNodeArc, to: &WzNodeArc) {
+    let is_directory = |node: &WzNodeArc| {
+        matches!(
+            node.read().unwrap().object_type,
+            WzObjectType::Directory(_)
+        )
+    };
+    let children = std::mem::take(&mut part.write().unwrap().children);
+    for (name, child) in children {
+        let old = to.read().unwrap().children.get(&name).cloned();
+        match old {
+            Some(old) if is_directory(&old) && is_directory(&child) => merge_part(&child, &old),
+            _ => {
+                child.write().unwrap().parent = Arc::downgrade(to);
+                to.write().unwrap().children.insert(name, child);
+            }
+        }
+    }
 }
 
 /// Resolve series of wz files in a directory, and merge *_nnn.wz files into one WzFile.
@@ -25,75 +83,57 @@ pub fn resolve_root_wz_file_dir_full(
     parent: Option<&WzNodeArc>,
     default_keys: Option<&SharedWzStringDecryptor>,
 ) -> Result<WzNodeArc, io::Error> {
-    let root_node: WzNodeArc =
-        WzNode::from_wz_file_full(&dir, version, patch_version, parent, default_keys)
-            .unwrap()
-            .into();
-    let wz_dir = dir.as_ref().parent().unwrap();
-
-    {
-        let mut root_node_write = root_node.write().unwrap();
-
-        root_node_write.parse(&root_node).unwrap();
-
-        for entry in wz_dir.read_dir()? {
-            let entry = entry?;
-            let file_type = entry.file_type()?;
-            let name = entry.file_name();
-
-            if file_type.is_dir() && root_node_write.at(name.to_str().unwrap()).is_some() {
-                if let Some(file_path) = get_root_wz_file_path(&entry) {
-                    let dir_node = resolve_root_wz_file_dir_full(
-                        &file_path,
-                        version,
-                        patch_version,
-                        Some(&root_node),
-                        default_keys,
-                    )?;
-
-                    /* replace the original one */
-                    root_node_write
-                        .children
-                        .insert(name.to_str().unwrap().into(), dir_node);
-                }
-            } else if file_type.is_file() {
-                //  check is XXX_nnn.wz
-                let file_path = entry.path();
-                let file_name = file_path.file_stem().unwrap().to_str().unwrap();
-
-                let splited = file_name.split('_').collect::<Vec<&str>>();
-
-                if splited.len() < 2 {
-                    continue;
-                }
-
-                if splited.last().unwrap().parse::<u16>().is_err() {
-                    continue;
-                }
-
-                let node = WzNode::from_wz_file_full(
-                    file_path.to_str().unwrap(),
-                    version,
-                    patch_version,
-                    None,
-                    default_keys,
-                )
+    let open = |path: &Path, parent: Option<&WzNodeArc>| {
+        let node: WzNodeArc =
+            WzNode::from_wz_file_full(path, version, patch_version, parent, default_keys)
+                .map_err(invalid_data)?
+                .into();
+        node.write().unwrap().parse(&node).map_err(invalid_data)?;
+        Ok::<_, io::Error>(node)
+    };
+
+    let root_node = open(dir.as_ref(), parent)?;
+    let root_name = root_node.read().unwrap().name.clone();
+    let entries = sorted_dir_entries(parent_dir(dir.as_ref()))?;
+
+    let mut parts: Vec<(u16, PathBuf)> = entries
+        .iter()
+        .filter_map(|entry| {
+            let path = entry.path();
+            Some((part_number(root_name.as_str(), &path)?, path))
+        })
+        .collect();
+    parts.sort();
+
+    for (_, path) in parts {
+        if path.metadata()?.is_file() {
+            merge_part(&open(&path, None)?, &root_node);
+        }
+    }
+
+    for entry in entries {
+        let name = entry.file_name();
+        let Some(name) = name.to_str() else {
+            continue;
+        };
+        if root_node.read().unwrap().at(name).is_none() || !entry.path().metadata()?.is_dir() {
+            continue;
+        }
+        if let Some(file_path) = existing_root_wz_file(&entry.path())? {
+            let dir_node = resolve_root_wz_file_dir_full(
+                &file_path,
+                version,
+                patch_version,
+                Some(&root_node),
+                default_keys,
+            )?;
+
+            /* replace the original one */
+            root_node
+                .write()
                 .unwrap()
-                .into_lock();
-
-                let mut node_write = node.write().unwrap();
-
-                if node_write.parse(&root_node).is_ok() {
-                    root_node_write.children.reserve(node_write.children.len());
-                    #[cfg(not(feature = "indexmap"))]
-                    let iter = node_write.children.drain();
-                    #[cfg(feature = "indexmap")]
-                    let iter = node_write.children.drain(..);
-                    for (name, child) in iter {
-                        root_node_write.children.insert(name, child);
-                    }
-                }
-            }
+                .children
+                .insert(name.into(), dir_node);
         }
     }
 
@@ -127,52 +167,51 @@ pub fn resolve_base(
         (file.wz_file_meta.patch_version, file.reader.keys.clone())
     };
 
-    {
-        let mut base_write = base_node.write().unwrap();
+    let first_parent = parent_dir(path.as_ref());
 
-        let first_parent = path.as_ref().parent().unwrap();
+    // if a Base.wz in under Base folder, then should up to parent to find Map, Item and other stuff
+    // if not, the other stuff just at same folder as Base.wz
+    let wz_root_path = if first_parent.file_stem().is_some_and(|name| name == "Base") {
+        parent_dir(first_parent)
+    } else {
+        first_parent
+    };
+
+    for dir in sorted_dir_entries(wz_root_path)? {
+        let path = dir.path();
+        let Some(file_name) = path.file_stem().and_then(|name| name.to_str()) else {
+            continue;
+        };
 
-        // if a Base.wz in under Base folder, then should up to parent to find Map, Item and other stuff
-        // if not, the other stuff just at same folder as Base.wz
-        let wz_root_path = if first_parent.file_stem().unwrap() == "Base" {
-            first_parent.parent().unwrap()
+        // we only allow the thing is listed in Base.wz
+        if base_node.read().unwrap().at(file_name).is_none() {
+            continue;
+        }
+
+        let wz_path = if path.metadata()?.is_dir() {
+            existing_root_wz_file(&path)?
+        } else if path.extension().unwrap_or_default() == "wz" {
+            Some(path.clone())
         } else {
-            first_parent
+            None
         };
 
-        for item in wz_root_path.read_dir()? {
-            let dir = item?;
-            let path = dir.path();
-            let file_name = path.file_stem().unwrap();
-
-            let is_valid = path.extension().unwrap_or_default() == "wz" || path.is_dir();
-
-            // we only allow the thing is listed in Base.wz
-            let has_dir = base_write.at(file_name.to_str().unwrap()).is_some();
-
-            if has_dir && is_valid {
-                let wz_path = if dir.file_type()?.is_dir() {
-                    get_root_wz_file_path(&dir)
-                } else {
-                    Some(path.to_str().unwrap().to_string())
-                };
-
-                if let Some(file_path) = wz_path {
-                    let dir_node = resolve_root_wz_file_dir_full(
-                        &file_path,
-                        version,
-                        Some(patch_version),
-                        Some(&base_node),
-                        Some(&keys),
-                        // None,
-                    )?;
-
-                    /* replace the original one */
-                    base_write
-                        .children
-                        .insert(file_name.to_str().unwrap().into(), dir_node);
-                }
-            }
+        if let Some(file_path) = wz_path {
+            let dir_node = resolve_root_wz_file_dir_full(
+                &file_path,
+                version,
+                Some(patch_version),
+                Some(&base_node),
+                Some(&keys),
+                // None,
+            )?;
+
+            /* replace the original one */
+            base_node
+                .write()
+                .unwrap()
+                .children
+                .insert(file_name.into(), dir_node);
         }
     }
 
-- 
2.43.0


From 09c31f9a35801e2cce551c78e2a90750fccf1918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 22/36] fix: paths that are not UTF-8 or have no file name do
 not panic

---
 src/file.rs     | 2 +-
 src/ms/utils.rs | 2 +-
 src/node.rs     | 8 ++++----
 src/wz_image.rs | 7 +++----
 4 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 3f41763..d9b3d8e 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -116,7 +116,7 @@ impl WzFile {
         let offset = reader.header.data_start;
 
         let wz_file_meta = WzFileMeta {
-            path: path.as_ref().to_str().unwrap().to_string(),
+            path: path.as_ref().to_string_lossy().into_owned(),
             patch_version: patch_version.unwrap_or(-1),
             wz_version_header: 0,
             wz_with_encrypt_version_header: true,
diff --git a/src/ms/utils.rs b/src/ms/utils.rs
index b3e2df2..69687f6 100644
--- a/src/ms/utils.rs
+++ b/src/ms/utils.rs
@@ -9,5 +9,5 @@ pub fn get_ascii_file_name<P>(file_name: P)-> String
 where
   P: AsRef<std::path::Path>,
 {
-  file_name.as_ref().file_name().unwrap().to_str().unwrap().to_ascii_lowercase()
+  file_name.as_ref().file_name().unwrap_or_default().to_string_lossy().to_ascii_lowercase()
 }
diff --git a/src/node.rs b/src/node.rs
index 837a82d..5913f78 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -98,14 +98,14 @@ impl WzNode {
     where
         P: AsRef<Path>,
     {
-        let name = path.as_ref().file_stem().unwrap().to_str().unwrap();
+        let name = path.as_ref().file_stem().unwrap_or_default().to_string_lossy();
         let wz_file = WzFile::from_file(
             &path,
             version.map(util::version::get_iv_by_maple_version),
             patch_version,
             existing_key,
         )?;
-        Ok(WzNode::new(&name.into(), wz_file, parent))
+        Ok(WzNode::new(&name.as_ref().into(), wz_file, parent))
     }
     /// from_wz_file_full with less argements.
     ///
@@ -126,9 +126,9 @@ impl WzNode {
     where
         P: AsRef<Path>,
     {
-        let name = path.as_ref().file_stem().unwrap().to_str().unwrap();
+        let name = path.as_ref().file_stem().unwrap_or_default().to_string_lossy();
         let ms_file = MsFile::from_file(&path)?;
-        Ok(WzNode::new(&name.into(), ms_file, parent))
+        Ok(WzNode::new(&name.as_ref().into(), ms_file, parent))
     }
 
     /// Create a `WzNode` from a any `.img` file. If version is not provided, it will try to detect the version.
diff --git a/src/wz_image.rs b/src/wz_image.rs
index fd15d76..cc474b6 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -87,10 +87,9 @@ impl WzImage {
         let name = path
             .as_ref()
             .file_name()
-            .unwrap()
-            .to_str()
-            .unwrap()
-            .to_string();
+            .unwrap_or_default()
+            .to_string_lossy()
+            .into_owned();
         let file = std::fs::File::open(path)?;
         let map = unsafe { memmap2::Mmap::map(&file)? };
 
-- 
2.43.0


From dda00de6f70274f758c07a31853e25c6892cd89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 23/36] fix: the key of a script is found when its 64th byte is
 inside a character

---
 src/property/lua.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/property/lua.rs b/src/property/lua.rs
index 6fa3ed9..faaf755 100644
--- a/src/property/lua.rs
+++ b/src/property/lua.rs
@@ -75,7 +75,13 @@ impl WzLua {
                 write.decrypt_slice(&mut decoded);
             }
 
-            if String::from_utf8(decoded).is_ok() {
+            let is_text = match std::str::from_utf8(&decoded) {
+                Ok(_) => true,
+                // the last character may be cut when it's not the whole script
+                Err(error) => len < self.length && error.error_len().is_none(),
+            };
+
+            if is_text {
                 return Some(keys);
             }
         }
-- 
2.43.0


From e71c303aa0d2e54fcc7180ad448f6cd4ba08f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 24/36] fix: merging works when both nodes list the same child

---
 src/node.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 5913f78..4b9f9ee 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -542,7 +542,12 @@ impl WzNode {
         let iter = self.children.drain(..);
         for (name, child) in iter {
             if let Some(old) = write.children.get(&name) {
-                child.write().unwrap().transfer_childs(old);
+                if Arc::ptr_eq(old, &child) {
+                    // the very same node was listed by both
+                    child.write().unwrap().parent = Arc::downgrade(to);
+                } else {
+                    child.write().unwrap().transfer_childs(old);
+                }
             } else {
                 child.write().unwrap().parent = Arc::downgrade(to);
                 write.children.insert(name, child);
-- 
2.43.0


From cc66817ca4f06f27e0d99738cebb215485b3e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 25/36] hook: simulations search few pkg2 hashes (cfg wz_sim,
 off by default)

---
 src/util/version/pkg2.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 68bb08c..35df143 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use crate::util::string_decryptor::pkg2_decryptor::mix_kmst1199;
 
 #[cfg(feature = "rayon")]
@@ -430,18 +432,27 @@ fn backtrack<'a, F: Fn(u32, u32, u32) -> bool>(
     }
 }
 
+/// what [`brute_force_hash`] goes through when built for simulation (`--cfg wz_sim`), where all hashes take too long
+#[cfg(wz_sim)]
+pub static SIM_CANDIDATES: std::sync::RwLock<Vec<u32>> = std::sync::RwLock::new(Vec::new());
+
 fn brute_force_hash<F: Fn(u32, u32, u32) -> bool + Sync>(
     hash1: u32,
     hash2: u32,
     verifier: &F,
 ) -> Vec<u32> {
+    #[cfg(not(wz_sim))]
+    let candidates = 0_u32..u32::MAX;
+    #[cfg(wz_sim)]
+    let candidates = SIM_CANDIDATES.read().unwrap().clone();
+
     #[cfg(feature = "rayon")]
-    return (0_u32..u32::MAX)
+    return candidates
         .into_par_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
     #[cfg(not(feature = "rayon"))]
-    return (0_u32..u32::MAX)
+    return candidates
         .into_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
-- 
2.43.0


From 4e248ebe88098cebd81b645a841facaf38a9cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 26/36] fix: a pkg2 hash that rotates by nothing is found

---
 src/util/version/pkg2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 35df143..c0b3b3c 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -412,7 +412,8 @@ fn backtrack<'a, F: Fn(u32, u32, u32) -> bool>(
 
         let future_v_idx = (bit_idx.wrapping_add(info.s)) & 0x1f;
         if future_v_idx <= bit_idx {
-            let known_v_bit = (v_hash >> future_v_idx) & 1;
+            // (it is the bit just chosen when nothing is rotated)
+            let known_v_bit = ((v_hash | (v_bit << bit_idx)) >> future_v_idx) & 1;
             let target_v_xor_h2 = known_v_bit ^ ((info.target >> future_v_idx) & 1);
             if current_lhs_bit != target_v_xor_h2 {
                 continue;
-- 
2.43.0


From 0a9f3d00e606de4dc993d62b997573c74784f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 27/36] fix: a uol that leads to or through a later uol is
 resolved

---
 src/node.rs           |   4 +-
 src/util/node_util.rs | 142 ++++++++++++++++++++++++++----------------
 2 files changed, 89 insertions(+), 57 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 4b9f9ee..cef29dc 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -228,9 +228,7 @@ impl WzNode {
             self.children.insert(name, child);
         }
 
-        for node in uol_nodes {
-            node_util::resolve_uol(&node, Some(self));
-        }
+        node_util::resolve_uols(uol_nodes, self);
 
         Ok(())
     }
diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 96b989d..4ac0877 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -125,7 +125,12 @@ fn leads_back(target: &WzNodeArc, parent: &WzNodeArc, wz_image: Option<&WzNode>)
 /// it prevent the parent is the WzImage while it currently parsing causing the deadlock.
 /// A uol that leads back to a node it is in is left as it is.
 pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
-    let (node_parent, mut uol_target_path) = {
+    if let Some(wz_image) = wz_image {
+        resolve_uol_in_image(node, wz_image, true);
+        return;
+    }
+
+    let (node_parent, uol_target_path) = {
         let node_read = node.read().unwrap();
         let Some(node_parent) = node_read.parent.upgrade() else {
             return;
@@ -137,69 +142,98 @@ pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
     };
 
     /* nothing is locked by the caller, so other threads are the only one to wait for */
-    if wz_image.is_none() {
-        let uol_target = uol_target_path.and_then(|path| {
-            path.split('/')
-                .try_fold(Arc::clone(&node_parent), |node, name| {
-                    node.read().unwrap().at_relative(name)
-                })
-        });
-        if let Some(target_node) = uol_target {
-            if leads_back(&target_node, &node_parent, None) {
-                return;
-            }
-            let node_name = node.read().unwrap().name.clone();
-            if let Some(origin) = node_parent.write().unwrap().children.get_mut(&node_name) {
-                *origin = target_node;
-            }
+    let uol_target = uol_target_path.and_then(|path| {
+        path.split('/')
+            .try_fold(Arc::clone(&node_parent), |node, name| {
+                node.read().unwrap().at_relative(name)
+            })
+    });
+    if let Some(target_node) = uol_target {
+        if leads_back(&target_node, &node_parent, None) {
+            return;
+        }
+        let node_name = node.read().unwrap().name.clone();
+        if let Some(origin) = node_parent.write().unwrap().children.get_mut(&node_name) {
+            *origin = target_node;
         }
-        return;
     }
+}
 
-    if let Some(ref mut uol_target_path) = uol_target_path {
-        let mut pathes = uol_target_path.split('/');
+/// Resolve the uols of the image that is currently parsing. The path of a uol can lead through or
+/// to another one that comes later, so they are tried again as long as some of them get resolved.
+pub(crate) fn resolve_uols(mut uol_nodes: Vec<WzNodeArc>, wz_image: &mut WzNode) {
+    // a uol that can't be resolved is still a valid target, but only when nothing else is left
+    for allow_uol in [false, true] {
+        let mut remains = usize::MAX;
+        while remains > uol_nodes.len() {
+            remains = uol_nodes.len();
+            uol_nodes.retain(|node| !resolve_uol_in_image(node, wz_image, allow_uol));
+        }
+    }
+}
 
-        let first = if let Ok(node) = node.try_read() {
-            node.at_relative("..")
-        } else if let Some(image_node) = &wz_image {
-            image_node.at(pathes.next().unwrap())
-        } else {
-            None
+/// Returns whether the uol is replaced by its target.
+fn resolve_uol_in_image(node: &WzNodeArc, wz_image: &mut WzNode, allow_uol: bool) -> bool {
+    let (node_parent, uol_target_path) = {
+        let node_read = node.read().unwrap();
+        let Some(node_parent) = node_read.parent.upgrade() else {
+            return false;
         };
-
-        let uol_target = if let Some(first) = first {
-            pathes.try_fold(first, |node, name| {
-                /* usually happen on parsing process, the WzImage is taking self a write lock
-                so just directly using wz_image here */
-                if let Ok(node) = node.try_read() {
-                    return node.at_relative(name);
-                } else if let Some(image_node) = &wz_image {
-                    return image_node.at(name);
-                }
-                None
-            })
-        } else {
-            None
+        let Some(path) = node_read.try_as_uol().and_then(|s| s.get_string().ok()) else {
+            return false;
         };
+        (node_parent, path)
+    };
 
-        if let Some(target_node) = uol_target {
-            if leads_back(&target_node, &node_parent, wz_image.as_deref()) {
-                return;
-            }
-            let node_name = node.read().unwrap().name.clone();
+    let mut pathes = uol_target_path.split('/');
 
-            /* when parent is locked, it means it's parent is WzImage, and it currently parsing */
-            if let Ok(mut parent) = node_parent.try_write() {
-                if let Some(origin) = parent.children.get_mut(&node_name) {
-                    let _ = std::mem::replace(origin, target_node);
-                }
-            } else if let Some(wz_image) = wz_image {
-                if let Some(origin) = wz_image.children.get_mut(&node_name) {
-                    let _ = std::mem::replace(origin, target_node);
-                }
+    let first = if let Ok(node) = node.try_read() {
+        node.at_relative("..")
+    } else {
+        wz_image.at(pathes.next().unwrap())
+    };
+
+    let uol_target = first.and_then(|first| {
+        pathes.try_fold(first, |node, name| {
+            /* usually happen on parsing process, the WzImage is taking self a write lock
+            so just directly using wz_image here */
+            if let Ok(node) = node.try_read() {
+                node.at_relative(name)
+            } else {
+                wz_image.at(name)
             }
-        }
+        })
+    });
+
+    let Some(target_node) = uol_target else {
+        return false;
+    };
+    if !allow_uol
+        && target_node
+            .try_read()
+            .is_ok_and(|target| target.try_as_uol().is_some())
+    {
+        return false;
+    }
+    if leads_back(&target_node, &node_parent, Some(wz_image)) {
+        return false;
     }
+
+    let node_name = node.read().unwrap().name.clone();
+
+    /* when parent is locked, it means it's parent is WzImage, and it currently parsing */
+    let origin = if let Ok(mut parent) = node_parent.try_write() {
+        parent
+            .children
+            .get_mut(&node_name)
+            .map(|origin| *origin = target_node)
+    } else {
+        wz_image
+            .children
+            .get_mut(&node_name)
+            .map(|origin| *origin = target_node)
+    };
+    origin.is_some()
 }
 
 /// Get image node in the way, and return the rest of path.
-- 
2.43.0


From 4ba1108023233594f697f54eed26877b34e7212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 28/36] fix: json of a node holds no node's lock while waiting
 for another

---
 src/node.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index cef29dc..9ef3f2f 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -600,7 +600,7 @@ impl WzNode {
         }
 
         for (name, value) in self.children.iter() {
-            let child = value.read().unwrap();
+            let child = unlocked(value);
             json.insert(name.to_string(), child.to_simple_json()?);
         }
 
@@ -608,26 +608,39 @@ impl WzNode {
     }
 }
 
+/// the node as it is now, no lock of it is kept while its children are serialized
+#[cfg(feature = "serde")]
+fn unlocked(node: &RwLock<WzNode>) -> WzNode {
+    let node = node.read().unwrap();
+
+    WzNode {
+        name: node.name.clone(),
+        object_type: node.object_type.clone(),
+        parent: Weak::clone(&node.parent),
+        children: node.children.clone(),
+    }
+}
+
 #[cfg(feature = "serde")]
 mod arc_node_serde {
+    use super::{unlocked, WzNode};
     use crate::WzNodeName;
     use crate::WzMap;
     use serde::de::Deserializer;
     use serde::ser::{SerializeMap, Serializer};
-    use serde::{Deserialize, Serialize};
+    use serde::Deserialize;
     use std::sync::{Arc, RwLock};
 
-    pub fn serialize<S, T>(
-        val: &WzMap<WzNodeName, Arc<RwLock<T>>>,
+    pub fn serialize<S>(
+        val: &WzMap<WzNodeName, Arc<RwLock<WzNode>>>,
         s: S,
     ) -> Result<S::Ok, S::Error>
     where
         S: Serializer,
-        T: Serialize,
     {
         let mut map = s.serialize_map(Some(val.len()))?;
         for (k, v) in val {
-            map.serialize_entry(k, &*v.read().unwrap())?;
+            map.serialize_entry(k, &unlocked(v))?;
         }
         map.end()
     }
-- 
2.43.0


From 97781d2edc2dd0509dafca11237da25cc3851b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 29/36] fix: an ms image that can't be mapped is an error
 instead of a panic

---
 src/ms/ms_image.rs    | 21 +++++++++++++--------
 src/node.rs           |  2 +-
 src/reader.rs         | 12 ++++++++----
 src/util/node_util.rs |  2 +-
 4 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index b14d220..f29e92b 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -63,6 +63,11 @@ impl MsImage {
 
     /// make a WzImage from the MsImage, this process will allocate a new buffer instead of using MsFile's buffer
     pub fn to_wz_image(&self) -> WzImage {
+        self.try_to_wz_image().unwrap()
+    }
+
+    /// same as `to_wz_image`, but give the error when the new buffer can't be mapped
+    pub fn try_to_wz_image(&self) -> std::io::Result<WzImage> {
         match self.meta.version {
             1 => self.to_wz_image_v1(),
             2 => self.to_wz_image_v2(),
@@ -70,7 +75,7 @@ impl MsImage {
         }
     }
 
-    fn to_wz_image_v1(&self) -> WzImage {
+    fn to_wz_image_v1(&self) -> std::io::Result<WzImage> {
         // calc snow key for entry
         let mut key_hash = 0x811C9DC5;
         for b in self.meta.key_salt.chars() {
@@ -114,18 +119,18 @@ impl MsImage {
         snow_decryptor.decrypt_slice(&mut image_buffer[..]);
 
         // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
+        let image_reader = WzReader::try_from_buff(&image_buffer[..self.meta.size as usize])?;
 
-        WzImage {
+        Ok(WzImage {
             reader: Arc::new(image_reader),
             name: self.meta.entry_name.clone().into(),
             offset: 0,
             block_size: self.meta.size as usize,
             is_parsed: false,
-        }
+        })
     }
 
-    fn to_wz_image_v2(&self) -> WzImage {
+    fn to_wz_image_v2(&self) -> std::io::Result<WzImage> {
         // calc chacha20 key for entry
         let mut key_hash: u32 = 0x811C9DC5;
 
@@ -192,14 +197,14 @@ impl MsImage {
         }
 
         // create a new allocate reader,but only grab the size of the image, not size_aligned
-        let image_reader = WzReader::from_buff(&image_buffer[..self.meta.size as usize]);
+        let image_reader = WzReader::try_from_buff(&image_buffer[..self.meta.size as usize])?;
 
-        WzImage {
+        Ok(WzImage {
             reader: Arc::new(image_reader),
             name: self.meta.entry_name.clone().into(),
             offset: 0,
             block_size: self.meta.size as usize,
             is_parsed: false,
-        }
+        })
     }
 }
diff --git a/src/node.rs b/src/node.rs
index 9ef3f2f..4462a30 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -213,7 +213,7 @@ impl WzNode {
                 result
             }
             WzObjectType::MsImage(ref mut image) => {
-                let mut image = image.to_wz_image();
+                let mut image = image.try_to_wz_image().map_err(wz_image::Error::from)?;
                 let result = image.resolve_children(Some(parent))?;
                 image.is_parsed = true;
                 self.object_type = image.into();
diff --git a/src/reader.rs b/src/reader.rs
index 5de7ebe..971df57 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -264,9 +264,13 @@ impl<T: AsRef<[u8]>> WzBaseReader<T> {
 
 impl WzBaseReader<Mmap> {
     pub fn from_buff(buff: &[u8]) -> Self {
+        Self::try_from_buff(buff).unwrap()
+    }
+    /// same as `from_buff`, but give the error when the memory can't be mapped
+    pub fn try_from_buff(buff: &[u8]) -> std::io::Result<Self> {
         let is_empty = buff.is_empty();
         let len = if is_empty { 1 } else { buff.len() };
-        let mut memmap = memmap2::MmapMut::map_anon(len).unwrap();
+        let mut memmap = memmap2::MmapMut::map_anon(len)?;
         if !is_empty {
             memmap.copy_from_slice(buff);
         }
@@ -274,12 +278,12 @@ impl WzBaseReader<Mmap> {
             .as_ref()
             .pread::<WzHeader>(0)
             .unwrap_or(WzHeader::default());
-        WzReader {
-            map: memmap.make_read_only().unwrap(),
+        Ok(WzReader {
+            map: memmap.make_read_only()?,
             header,
             keys: GLOBAL_STRING_DECRYPTOR.get_decryptor(DecrypterType::Unknown),
             pkg2_keys: GLOBAL_STRING_DECRYPTOR.get_decryptor(DecrypterType::KMST1199),
-        }
+        })
     }
 }
 
diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 4ac0877..ed7f13e 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -284,7 +284,7 @@ pub fn get_node_without_parse(root: &WzNodeArc, path: &str) -> Option<WzNodeArc>
             }
             WzObjectType::Image(image) => return image.at_path(rest_path).ok(),
             WzObjectType::MsImage(image) => {
-                return image.to_wz_image().at_path(rest_path).ok();
+                return image.try_to_wz_image().ok()?.at_path(rest_path).ok();
             }
             _ => return None,
         }
-- 
2.43.0


From 7aeb27c62dd493c911d609976c446c1faf0a771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 30/36] fix: the json of a null value is read back as a null
 value, not as a property

---
 src/property/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 204ca21..693d6e5 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -49,7 +49,6 @@ pub enum WzSubProperty {
     Convex,
     Sound(Box<WzSound>),
     PNG(Box<WzPng>),
-    #[cfg_attr(feature = "serde", serde(other))]
     Property,
 }
 
-- 
2.43.0


From c41c8da29f7420ed0a2fcaa0a3439967db653821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 31/36] fix: a string built with characters outside the basic
 plane is not cut short

---
 src/property/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/string.rs b/src/property/string.rs
index 66f6810..12d609c 100644
--- a/src/property/string.rs
+++ b/src/property/string.rs
@@ -119,7 +119,7 @@ impl WzString {
             len = str.len();
             WzStringType::Ascii
         } else {
-            len = str.chars().count() * 2;
+            len = str.encode_utf16().count() * 2;
             WzStringType::Unicode
         };
 
@@ -140,7 +140,7 @@ impl WzString {
     pub fn from_str_pkg2_dir(str: &str) -> Self {
         let mut keys = Pkg2Decryptor::new_with_key(0x1A2B3C4D, DecrypterType::KMST1198);
 
-        let len = str.chars().count() * 2;
+        let len = str.encode_utf16().count() * 2;
 
         let encrypted = encrypt_str(&mut keys, str, &WzStringType::Pkg2Dir);
 
-- 
2.43.0


From 0731eb61d51788fc38d991780a55b5bfde68bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 32/36] fix: ms files panicked in builds with overflow checks

The key of the entries is made by adding bytes modulo 256, and a broken
name length can be larger than what fits when doubled.
---
 src/ms/file.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ms/file.rs b/src/ms/file.rs
index 3eaff9f..6acba2e 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -93,7 +93,7 @@ impl MsFile {
         for i in 0_u8..16_u8 {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i as usize % file_name_with_salt_len];
-            snow_key[i as usize] = i + (i % 3 + 2).wrapping_mul(byte);
+            snow_key[i as usize] = i.wrapping_add((i % 3 + 2).wrapping_mul(byte));
         }
 
         let data = self.reader.get_slice(0..self.block_size);
@@ -105,7 +105,8 @@ impl MsFile {
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = snow_reader.read_i32()?;
-            let entry_name = snow_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name =
+                snow_reader.read_utf16_string((entry_name_len as usize).saturating_mul(2))?;
             let check_sum = snow_reader.read_i32()?;
             let flags = snow_reader.read_i32()?;
             let start_pos = snow_reader.read_i32()?;
@@ -173,7 +174,7 @@ impl MsFile {
         let chacha20_key2: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i % file_name_with_salt_len];
-            MS_CHACHA20_KEY_BASE[i] ^ ((i as u8) + (((i as u8) % 3 + 2).wrapping_mul(byte)))
+            MS_CHACHA20_KEY_BASE[i] ^ (i as u8).wrapping_add(((i as u8) % 3 + 2).wrapping_mul(byte))
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
@@ -188,7 +189,8 @@ impl MsFile {
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = chacha20_reader.read_i32()?;
-            let entry_name = chacha20_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name =
+                chacha20_reader.read_utf16_string((entry_name_len as usize).saturating_mul(2))?;
             let check_sum = chacha20_reader.read_i32()?;
             let flags = chacha20_reader.read_i32()?;
             let start_pos = chacha20_reader.read_i32()?;
-- 
2.43.0


From 8991b75fc3d93ef9b304d2d6d9860f95b1a8a543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 33/36] fix: broken name lengths and offsets panicked in builds
 with overflow checks

A pkg2 name of 128 characters, a name offset before the start of the file
and a patch version of more than 6 digits.
---
 src/reader.rs                    | 6 +++---
 src/util/string_decryptor/mod.rs | 4 ++--
 src/util/version/mod.rs          | 4 ++--
 src/util/version/pkg1.rs         | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 971df57..3e524ca 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -543,7 +543,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -555,7 +555,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -580,7 +580,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(String::new())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let offset = self.pos.get();
             let bytes = self.resolve_pkg2_dir_raw(offset, length)?;
 
diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 44ffd2d..4d9ded9 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -80,8 +80,8 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
-            reader.read_wz_string_meta_at(offset + 1)?
+            let offset = reader.header.data_start.wrapping_add(str_offset as usize);
+            reader.read_wz_string_meta_at(offset.saturating_add(1))?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
         _ => return Err(reader::Error::DecryptError(reader.pos.get())),
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index 1c5af55..c3b0cd0 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -139,9 +139,9 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.data_start.wrapping_add(str_offset as usize);
             // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
-            let meta = reader.read_wz_string_meta_at(offset + 1)?;
+            let meta = reader.read_wz_string_meta_at(offset.saturating_add(1))?;
             reader.try_resolve_wz_string_meta(
                 &meta.string_type,
                 meta.offset,
diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index 1bd785f..001e681 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -21,7 +21,7 @@ impl VersionGen {
 
         for i in bind_version.chars() {
             let char_code = i.to_ascii_lowercase() as u32;
-            version_hash = version_hash * 32 + char_code + 1;
+            version_hash = version_hash.wrapping_mul(32).wrapping_add(char_code + 1);
         }
         version_hash
     }
-- 
2.43.0


From ce6b220058a44e9b54d47d502ade81502802d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:53 +0000
Subject: [PATCH 34/36] fix: directories listed again and again made a small
 archive a tree without end

A directory listed twice by the one before it doubles the number of nodes at every level, the whole tree can't have more entries than the file has bytes.
---
 src/directory.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 3bee10d..e7e2782 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -114,14 +114,16 @@ impl WzDirectory {
     }
 
     pub fn resolve_children(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
-        self.resolve_children_below(parent, &mut Vec::new())
+        self.resolve_children_below(parent, &mut Vec::new(), &mut 0)
     }
 
-    /// `ancestors` are the offsets of the directories this one is in
+    /// `ancestors` are the offsets of the directories this one is in, `total` is the number of
+    /// entries of all directories
     fn resolve_children_below(
         &mut self,
         parent: &WzNodeArc,
         ancestors: &mut Vec<usize>,
+        total: &mut usize,
     ) -> Result<WzNodeArcVec, Error> {
         if self.block_size == 0 {
             return Ok(vec![]);
@@ -151,6 +153,12 @@ impl WzDirectory {
             })
             .collect::<Result<_, _>>()?;
 
+        // every entry takes space in the file, directories listed again and again can exceed it
+        *total += nodes.len();
+        if *total > self.reader.map.len() {
+            return Err(Error::InvalidEntryCount);
+        }
+
         // if there has any directory, parse it since it's probably cheep
         ancestors.push(self.offset);
         for (_, node) in nodes.iter() {
@@ -158,7 +166,7 @@ impl WzDirectory {
             if let WzObjectType::Directory(dir) = &mut write.object_type {
                 dir.profile = self.profile.clone();
                 dir.hash = self.hash;
-                let children = dir.resolve_children_below(node, ancestors)?;
+                let children = dir.resolve_children_below(node, ancestors, total)?;
 
                 for (name, child) in children {
                     write.children.insert(name, child);
-- 
2.43.0


From e39041706f80d7c35969e5bcdb37a54dcd71f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 35/36] fix: a canvas of form 517 too large for 32 bits
 panicked instead of giving an error

Its 16 KB of data can stand for more than 4 GB of pixels, the size of which wrapped around.
---
 src/property/png.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 35dd3fa..e829eb6 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -246,8 +246,11 @@ impl WzPng {
             WzPngFormat::A8 => width.checked_mul(height),
             WzPngFormat::RGBA32Float => width.checked_mul(height).and_then(|n| n.checked_mul(16)),
             WzPngFormat::RGB565_517 => {
-                /* 128 = 16 * 16 / 2 */
-                width.checked_mul(height).map(|n| n / 128)
+                /* 128 = 16 * 16 / 2, the pixels are 256 times larger */
+                width
+                    .checked_mul(height)
+                    .filter(|n| *n <= (u32::MAX / 2) as usize)
+                    .map(|n| n / 128)
             }
             _ => return Err(WzPngParseError::UnknownFormat(self.format())),
         }
-- 
2.43.0


From e57024f67d78a00f5929e9cadc49c5a9cdcafa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:44 +0000
Subject: [PATCH 36/36] fix: a client without a version check whose root holds
 a multiple of 256 entries was not opened

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 771806e..f13a309 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -98,7 +98,7 @@ impl WzHeader {
         }
 
         if encrypted_version == 0x80 {
-            let entry_count = buf.pread_with::<i32>(self.fstart + 2, LE).ok()?;
+            let entry_count = buf.pread_with::<i32>(self.fstart + 1, LE).ok()?;
             //check entry count is valid
             if entry_count > 0 && (entry_count & 0xff) == 0 && entry_count <= 0xffff {
                 return None;
-- 
2.43.0

