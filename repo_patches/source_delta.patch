From 9255949ca3609cc4f1a9e56b9142130a031a5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 01/55] fix: source with an external connection kept itself
 alive through its connect function

---
 crates/vertigo/src/computed/value.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/computed/value.rs b/crates/vertigo/src/computed/value.rs
index 05b3b39..1c365c9 100644
--- a/crates/vertigo/src/computed/value.rs
+++ b/crates/vertigo/src/computed/value.rs
@@ -96,9 +96,17 @@ impl<T: Clone + 'static> Value<T> {
 
         let computed = value.to_computed();
 
-        deps.graph
-            .external_connections
-            .register_connect(id, Rc::new(move || create(&value)));
+        // Only a weak reference, so that the registered function
+        // does not keep alive the value which unregisters it on drop
+        let value = Rc::downgrade(&value.inner);
+
+        deps.graph.external_connections.register_connect(
+            id,
+            Rc::new(move || match value.upgrade() {
+                Some(inner) => create(&Value { inner }),
+                None => DropResource::new(|| {}),
+            }),
+        );
 
         computed
     }
-- 
2.43.0


From 8d0aeb5fd7d4dc6b3686b7e328cb9eb384469231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 02/55] fix: a computed could lose its sources when another
 node stopped using it during the same calculation

---
 crates/vertigo/src/computed/context.rs        | 23 ++++++++++++++++++-
 .../dependencies/graph_connections.rs         |  6 +++++
 crates/vertigo/src/computed/graph_value.rs    |  2 +-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/computed/context.rs b/crates/vertigo/src/computed/context.rs
index 213cad9..4b0de89 100644
--- a/crates/vertigo/src/computed/context.rs
+++ b/crates/vertigo/src/computed/context.rs
@@ -1,20 +1,41 @@
 use std::collections::BTreeSet;
 
-use crate::{struct_mut::VecMut, GraphId};
+use crate::{computed::graph_id::GraphIdKind, get_driver, struct_mut::VecMut, GraphId};
 
 pub struct Context {
     //In transaction
     parent_ids: VecMut<GraphId>,
+    //Node which is being calculated in this context
+    client_id: Option<GraphId>,
 }
 impl Context {
     pub(crate) fn new() -> Context {
         Context {
             parent_ids: VecMut::new(),
+            client_id: None,
+        }
+    }
+
+    pub(crate) fn for_client(client_id: GraphId) -> Context {
+        Context {
+            parent_ids: VecMut::new(),
+            client_id: Some(client_id),
         }
     }
 
     pub(crate) fn add_parent(&self, parent_id: GraphId) {
         self.parent_ids.push(parent_id);
+
+        // The edge has to exist before the calculation ends, because otherwise the parent may be
+        // deactivated in the meantime (when some other node stops using it during this calculation)
+        if let (Some(client_id), GraphIdKind::Computed) = (self.client_id, parent_id.get_type()) {
+            get_driver()
+                .inner
+                .dependencies
+                .graph
+                .connections
+                .add_edge(parent_id, client_id);
+        }
     }
 
     pub(crate) fn get_parents(self) -> BTreeSet<GraphId> {
diff --git a/crates/vertigo/src/computed/dependencies/graph_connections.rs b/crates/vertigo/src/computed/dependencies/graph_connections.rs
index 5322ceb..cfe2da6 100644
--- a/crates/vertigo/src/computed/dependencies/graph_connections.rs
+++ b/crates/vertigo/src/computed/dependencies/graph_connections.rs
@@ -199,6 +199,12 @@ impl GraphConnections {
             .change(move |state| state.set_parent_for_client(client_id, parents_list))
     }
 
+    pub(crate) fn add_edge(&self, parent: GraphId, client: GraphId) {
+        self.inner.change(|state| {
+            state.exec_command(UpdateConnection::Add { parent, client });
+        });
+    }
+
     pub(crate) fn get_all_deps(&self, id: GraphId) -> BTreeSet<GraphId> {
         self.inner.change(|state| state.get_all_deps(id))
     }
diff --git a/crates/vertigo/src/computed/graph_value.rs b/crates/vertigo/src/computed/graph_value.rs
index c366d22..16f6641 100644
--- a/crates/vertigo/src/computed/graph_value.rs
+++ b/crates/vertigo/src/computed/graph_value.rs
@@ -50,7 +50,7 @@ impl<T: Clone + 'static> GraphValue<T> {
     }
 
     fn calculate_new_value(&self) -> T {
-        let context = Context::new();
+        let context = Context::for_client(self.id);
         let new_value = (self.get_value)(&context);
         get_driver()
             .inner
-- 
2.43.0


From 8f6c4afca6ec2d43251f397bd585bbdf6bff8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 03/55] fix: nested reactive parts of fragments and lists kept
 the wrong order

The content of a marker comment lies before the comment, so using the next
sibling's node as the reference puts nodes between that content and its marker.
---
 crates/vertigo/src/dom/dom_comment.rs | 11 ++++-------
 crates/vertigo/src/render/dom_list.rs | 23 ++++++++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/crates/vertigo/src/dom/dom_comment.rs b/crates/vertigo/src/dom/dom_comment.rs
index 4a785c6..df91688 100644
--- a/crates/vertigo/src/dom/dom_comment.rs
+++ b/crates/vertigo/src/dom/dom_comment.rs
@@ -69,20 +69,17 @@ impl DomComment {
         self.subscriptions.push(client);
     }
 
-    pub fn dom_fragment(mut list: Vec<DomNode>) -> DomComment {
-        list.reverse();
-
+    pub fn dom_fragment(list: Vec<DomNode>) -> DomComment {
         Self::new_marker("list dom node", move |parent_id, comment_id| {
-            let mut prev_node = comment_id;
             let driver = get_driver();
 
+            // The content of a nested marker lies before its comment, so a sibling can't be
+            // used as a reference here. Everything goes, in order, before the own comment.
             for node in list.iter() {
-                let node_id = node.id_dom();
                 driver
                     .inner
                     .dom
-                    .insert_before(parent_id, node_id, Some(prev_node));
-                prev_node = node_id;
+                    .insert_before(parent_id, node.id_dom(), Some(comment_id));
             }
 
             None
diff --git a/crates/vertigo/src/render/dom_list.rs b/crates/vertigo/src/render/dom_list.rs
index 9cf5f05..b320b05 100644
--- a/crates/vertigo/src/render/dom_list.rs
+++ b/crates/vertigo/src/render/dom_list.rs
@@ -78,7 +78,7 @@ pub fn render_list<T: PartialEq + Clone + 'static, K: Eq + Hash>(
     .into()
 }
 
-fn reorder_nodes<T: PartialEq, K: Eq + Hash>(
+fn reorder_nodes<T: PartialEq + Clone, K: Eq + Hash>(
     parent_id: DomId,
     comment_id: DomId,
     mut real_child: VecDeque<(T, DomNode)>,
@@ -89,6 +89,17 @@ fn reorder_nodes<T: PartialEq, K: Eq + Hash>(
     let pairs_top = get_pairs_top(&mut real_child, &mut new_child);
     let mut pairs_bottom = get_pairs_bottom(&mut real_child, &mut new_child);
 
+    // The content of a marker lies before its comment, so nothing can be inserted in front of
+    // an unchanged marker. Such items have to take part in the reordering.
+    if !new_child.is_empty() {
+        while let Some((_, DomNode::Comment { .. })) = pairs_bottom.front() {
+            if let Some((item, node)) = pairs_bottom.pop_front() {
+                new_child.push_back(item.clone());
+                real_child.push_back((item, node));
+            }
+        }
+    }
+
     let last_before: DomId = find_first_dom(&pairs_bottom).unwrap_or(comment_id);
     let mut pairs_middle = get_pairs_middle(
         parent_id,
@@ -198,18 +209,16 @@ fn get_pairs_middle<T: PartialEq, K: Eq + Hash>(
     }
 
     let driver = get_driver();
-    let mut last_before = last_before;
 
-    for item in new_child.into_iter().rev() {
+    for item in new_child.into_iter() {
         let node = real_node.get_or_create(&item);
-        let node_id = node.id_dom();
-        pairs_middle.push_front((item, node));
 
         driver
             .inner
             .dom
-            .insert_before(parent_id, node_id, Some(last_before));
-        last_before = node_id;
+            .insert_before(parent_id, node.id_dom(), Some(last_before));
+
+        pairs_middle.push_back((item, node));
     }
 
     pairs_middle
-- 
2.43.0


From b01be50bd317f97b35e52268c80aad15a6a5bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 04/55] fix: decoding JsValue objects read the keys in a format
 nobody writes

Both the Rust and the JavaScript encoders write the key as a bare string.
---
 .../vertigo/src/driver_module/js_value/js_value_struct.rs   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
index a9af77e..6bb8f94 100644
--- a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
@@ -333,10 +333,8 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
             let object_size = buffer.get_u16();
 
             for _ in 0..object_size {
-                let prop_name = decode_js_value_inner(buffer)?;
-                let JsValue::String(prop_name) = prop_name else {
-                    return Err("string expected".into());
-                };
+                let str_len = buffer.get_u32();
+                let prop_name = buffer.get_string(str_len)?;
 
                 let prop_value = decode_js_value_inner(buffer)?;
 
-- 
2.43.0


From ed5eba34e5dca1ad706935201a4f2a11b76fe4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 05/55] fix: memory blocks were released with a different
 layout than allocated

convert_to_vec hands the memory over to a Vec<u8>, which releases it with the
alignment of u8. Empty blocks panicked.
---
 .../src/driver_module/js_value/memory_block.rs       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/memory_block.rs b/crates/vertigo/src/driver_module/js_value/memory_block.rs
index b933911..feed222 100644
--- a/crates/vertigo/src/driver_module/js_value/memory_block.rs
+++ b/crates/vertigo/src/driver_module/js_value/memory_block.rs
@@ -1,10 +1,12 @@
 use std::alloc::{alloc, Layout};
 use std::mem;
+use std::ptr::NonNull;
 
 use super::memory_block_write::MemoryBlockWrite;
 
 fn alloc_memory(size: usize) -> (*mut u8, Layout) {
-    let align = mem::align_of::<usize>();
+    // The same layout as Vec<u8> uses, see convert_to_vec
+    let align = mem::align_of::<u8>();
 
     if let Ok(layout) = Layout::from_size_align(size, align) {
         unsafe {
@@ -15,7 +17,7 @@ fn alloc_memory(size: usize) -> (*mut u8, Layout) {
                     return (ptr, layout);
                 }
             } else {
-                //return align
+                return (NonNull::dangling().as_ptr(), layout);
             }
         }
     }
@@ -86,8 +88,10 @@ impl Drop for MemoryBlock {
     fn drop(&mut self) {
         use std::alloc::dealloc;
 
-        unsafe {
-            dealloc(self.ptr, self.layout);
+        if self.layout.size() > 0 {
+            unsafe {
+                dealloc(self.ptr, self.layout);
+            }
         }
     }
 }
-- 
2.43.0


From b08537f3a52813e8af690163032b6854aba4370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 06/55] fix: truncated buffers crashed the decoder instead of
 giving an error

---
 .../driver_module/js_value/js_json_struct.rs  |  12 +-
 .../driver_module/js_value/js_value_struct.rs |  24 ++--
 .../js_value/memory_block_read.rs             | 115 ++++++------------
 3 files changed, 52 insertions(+), 99 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
index 745e643..10a659b 100644
--- a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
@@ -253,7 +253,7 @@ fn write_string_to(value: &str, buff: &mut MemoryBlockWrite) {
 }
 
 pub fn decode_js_json_inner(buffer: &mut MemoryBlockRead) -> Result<JsJson, String> {
-    let type_param = buffer.get_byte();
+    let type_param = buffer.get_byte()?;
 
     let Some(type_param) = JsJsonConst::from_byte(type_param) else {
         return Err(format!("JsJson: Unknown data type prefix {type_param}"));
@@ -264,18 +264,18 @@ pub fn decode_js_json_inner(buffer: &mut MemoryBlockRead) -> Result<JsJson, Stri
         JsJsonConst::False => JsJson::False,
         JsJsonConst::Null => JsJson::Null,
         JsJsonConst::String => {
-            let str_len = buffer.get_u32();
+            let str_len = buffer.get_u32()?;
             let param = buffer.get_string(str_len)?;
             JsJson::String(param)
         }
         JsJsonConst::Number => {
-            let value = buffer.get_f64();
+            let value = buffer.get_f64()?;
             JsJson::Number(value)
         }
         JsJsonConst::List => {
             let mut param_list = Vec::new();
 
-            let list_size = buffer.get_u32();
+            let list_size = buffer.get_u32()?;
 
             for _ in 0..list_size {
                 let param = decode_js_json_inner(buffer)?;
@@ -286,10 +286,10 @@ pub fn decode_js_json_inner(buffer: &mut MemoryBlockRead) -> Result<JsJson, Stri
         }
         JsJsonConst::Object => {
             let mut props = HashMap::new();
-            let object_size = buffer.get_u16();
+            let object_size = buffer.get_u16()?;
 
             for _ in 0..object_size {
-                let str_len = buffer.get_u32();
+                let str_len = buffer.get_u32()?;
                 let prop_name = buffer.get_string(str_len)?;
 
                 let prop_value = decode_js_json_inner(buffer)?;
diff --git a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
index 6bb8f94..8419868 100644
--- a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
@@ -275,7 +275,7 @@ fn write_string_to(value: &str, buff: &mut MemoryBlockWrite) {
 }
 
 fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String> {
-    let type_param = buffer.get_byte();
+    let type_param = buffer.get_byte()?;
 
     let Some(type_param) = JsValueConst::from_byte(type_param) else {
         return Err(format!("JsValue: Unknown data type prefix {type_param}"));
@@ -283,23 +283,23 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
 
     let result = match type_param {
         JsValueConst::U32 => {
-            let value = buffer.get_u32();
+            let value = buffer.get_u32()?;
             JsValue::U32(value)
         }
         JsValueConst::I32 => {
-            let value = buffer.get_i32();
+            let value = buffer.get_i32()?;
             JsValue::I32(value)
         }
         JsValueConst::U64 => {
-            let value = buffer.get_u64();
+            let value = buffer.get_u64()?;
             JsValue::U64(value)
         }
         JsValueConst::I64 => {
-            let value = buffer.get_i64();
+            let value = buffer.get_i64()?;
             JsValue::I64(value)
         }
         JsValueConst::F64 => {
-            let value = buffer.get_f64();
+            let value = buffer.get_f64()?;
             JsValue::F64(value)
         }
         JsValueConst::True => JsValue::True,
@@ -307,19 +307,19 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
         JsValueConst::Null => JsValue::Null,
         JsValueConst::Undefined => JsValue::Undefined,
         JsValueConst::Vec => {
-            let len = buffer.get_u32();
-            let param = buffer.get_vec(len);
+            let len = buffer.get_u32()?;
+            let param = buffer.get_vec(len)?;
             JsValue::Vec(param)
         }
         JsValueConst::String => {
-            let str_len = buffer.get_u32();
+            let str_len = buffer.get_u32()?;
             let param = buffer.get_string(str_len)?;
             JsValue::String(param)
         }
         JsValueConst::List => {
             let mut param_list = Vec::new();
 
-            let list_size = buffer.get_u32();
+            let list_size = buffer.get_u32()?;
 
             for _ in 0..list_size {
                 let param = decode_js_value_inner(buffer)?;
@@ -330,10 +330,10 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
         }
         JsValueConst::Object => {
             let mut props = HashMap::new();
-            let object_size = buffer.get_u16();
+            let object_size = buffer.get_u16()?;
 
             for _ in 0..object_size {
-                let str_len = buffer.get_u32();
+                let str_len = buffer.get_u32()?;
                 let prop_name = buffer.get_string(str_len)?;
 
                 let prop_value = decode_js_value_inner(buffer)?;
diff --git a/crates/vertigo/src/driver_module/js_value/memory_block_read.rs b/crates/vertigo/src/driver_module/js_value/memory_block_read.rs
index 98864d2..ac439f9 100644
--- a/crates/vertigo/src/driver_module/js_value/memory_block_read.rs
+++ b/crates/vertigo/src/driver_module/js_value/memory_block_read.rs
@@ -28,106 +28,59 @@ impl MemoryBlockRead {
         log::info!("MemoryBlockRead DEBUG REST = {:02X?}", rest);
     }
 
-    pub fn get_byte(&mut self) -> u8 {
-        let result = self.block[self.offset as usize];
-        self.offset += 1;
-        result
+    fn read(&mut self, len: u32) -> Result<&[u8], String> {
+        let from = self.offset;
+        let to = from.checked_add(len).ok_or("Unexpected end of buffer")?;
+        let slice = self
+            .block
+            .get(from as usize..to as usize)
+            .ok_or("Unexpected end of buffer")?;
+
+        self.offset = to;
+        Ok(slice)
     }
 
-    pub fn get_u16(&mut self) -> u16 {
-        let bytes: [u8; 2] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-        ];
-
-        self.offset += 2;
-        u16::from_be_bytes(bytes)
+    fn read_array<const N: usize>(&mut self) -> Result<[u8; N], String> {
+        let mut bytes = [0; N];
+        bytes.copy_from_slice(self.read(N as u32)?);
+        Ok(bytes)
     }
 
-    pub fn get_u32(&mut self) -> u32 {
-        let bytes: [u8; 4] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-            self.block[self.offset as usize + 2],
-            self.block[self.offset as usize + 3],
-        ];
+    pub fn get_byte(&mut self) -> Result<u8, String> {
+        let [result] = self.read_array()?;
+        Ok(result)
+    }
 
-        self.offset += 4;
-        u32::from_be_bytes(bytes)
+    pub fn get_u16(&mut self) -> Result<u16, String> {
+        Ok(u16::from_be_bytes(self.read_array()?))
     }
 
-    pub fn get_i32(&mut self) -> i32 {
-        let bytes: [u8; 4] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-            self.block[self.offset as usize + 2],
-            self.block[self.offset as usize + 3],
-        ];
+    pub fn get_u32(&mut self) -> Result<u32, String> {
+        Ok(u32::from_be_bytes(self.read_array()?))
+    }
 
-        self.offset += 4;
-        i32::from_be_bytes(bytes)
+    pub fn get_i32(&mut self) -> Result<i32, String> {
+        Ok(i32::from_be_bytes(self.read_array()?))
     }
 
-    pub fn get_u64(&mut self) -> u64 {
-        let bytes: [u8; 8] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-            self.block[self.offset as usize + 2],
-            self.block[self.offset as usize + 3],
-            self.block[self.offset as usize + 4],
-            self.block[self.offset as usize + 5],
-            self.block[self.offset as usize + 6],
-            self.block[self.offset as usize + 7],
-        ];
-
-        self.offset += 8;
-        u64::from_be_bytes(bytes)
+    pub fn get_u64(&mut self) -> Result<u64, String> {
+        Ok(u64::from_be_bytes(self.read_array()?))
     }
 
-    pub fn get_f64(&mut self) -> f64 {
-        let bytes: [u8; 8] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-            self.block[self.offset as usize + 2],
-            self.block[self.offset as usize + 3],
-            self.block[self.offset as usize + 4],
-            self.block[self.offset as usize + 5],
-            self.block[self.offset as usize + 6],
-            self.block[self.offset as usize + 7],
-        ];
-
-        self.offset += 8;
-        f64::from_be_bytes(bytes)
+    pub fn get_f64(&mut self) -> Result<f64, String> {
+        Ok(f64::from_be_bytes(self.read_array()?))
     }
 
-    pub fn get_i64(&mut self) -> i64 {
-        let bytes: [u8; 8] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-            self.block[self.offset as usize + 2],
-            self.block[self.offset as usize + 3],
-            self.block[self.offset as usize + 4],
-            self.block[self.offset as usize + 5],
-            self.block[self.offset as usize + 6],
-            self.block[self.offset as usize + 7],
-        ];
-
-        self.offset += 8;
-        i64::from_be_bytes(bytes)
+    pub fn get_i64(&mut self) -> Result<i64, String> {
+        Ok(i64::from_be_bytes(self.read_array()?))
     }
 
     pub fn get_string(&mut self, len: u32) -> Result<String, String> {
-        let vec = self.get_vec(len);
+        let vec = self.get_vec(len)?;
         String::from_utf8(vec).map_err(|_| String::from("String decoding error"))
     }
 
-    pub fn get_vec(&mut self, len: u32) -> Vec<u8> {
-        let from = self.offset as usize;
-        let to = (self.offset + len) as usize;
-        let slice = &self.block[from..to];
-
-        self.offset += len;
-
-        slice.to_vec()
+    pub fn get_vec(&mut self, len: u32) -> Result<Vec<u8>, String> {
+        Ok(self.read(len)?.to_vec())
     }
 }
-- 
2.43.0


From 4b6af007e2d06c3550a1c2f8500ce2f39be0064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 07/55] fix: integers out of range or with a fraction were
 silently altered when read from JSON

---
 .../src/driver_module/js_value/serialize.rs   | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/serialize.rs b/crates/vertigo/src/driver_module/js_value/serialize.rs
index 0f6f99b..a05c7a1 100644
--- a/crates/vertigo/src/driver_module/js_value/serialize.rs
+++ b/crates/vertigo/src/driver_module/js_value/serialize.rs
@@ -59,6 +59,20 @@ where
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext>;
 }
 
+fn check_integer(
+    context: &JsJsonContext,
+    value: f64,
+    min: f64,
+    max: f64,
+) -> Result<(), JsJsonContext> {
+    if value.fract() != 0.0 || !(min..=max).contains(&value) {
+        let message = format!("integer between {min} and {max} expected, received {value}");
+        return Err(context.add(message));
+    }
+
+    Ok(())
+}
+
 impl JsJsonSerialize for String {
     fn to_json(self) -> JsJson {
         JsJson::String(self)
@@ -86,7 +100,10 @@ impl JsJsonSerialize for u64 {
 impl JsJsonDeserialize for u64 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as u64),
+            JsJson::Number(value) => {
+                check_integer(&context, value, u64::MIN as f64, u64::MAX as f64)?;
+                Ok(value as u64)
+            }
             other => {
                 let message = ["number(u64) expected, received ", other.typename()].concat();
                 Err(context.add(message))
@@ -104,7 +121,10 @@ impl JsJsonSerialize for i64 {
 impl JsJsonDeserialize for i64 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as i64),
+            JsJson::Number(value) => {
+                check_integer(&context, value, i64::MIN as f64, i64::MAX as f64)?;
+                Ok(value as i64)
+            }
             other => {
                 let message = ["number(i64) expected, received ", other.typename()].concat();
                 Err(context.add(message))
@@ -122,7 +142,10 @@ impl JsJsonSerialize for u32 {
 impl JsJsonDeserialize for u32 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as u32),
+            JsJson::Number(value) => {
+                check_integer(&context, value, u32::MIN as f64, u32::MAX as f64)?;
+                Ok(value as u32)
+            }
             other => {
                 let message = ["number(u32) expected, received ", other.typename()].concat();
                 Err(context.add(message))
@@ -140,7 +163,10 @@ impl JsJsonSerialize for i32 {
 impl JsJsonDeserialize for i32 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as i32),
+            JsJson::Number(value) => {
+                check_integer(&context, value, i32::MIN as f64, i32::MAX as f64)?;
+                Ok(value as i32)
+            }
             other => {
                 let message = ["number(i32) expected, received ", other.typename()].concat();
                 Err(context.add(message))
-- 
2.43.0


From 082c27899f9d43a38fab4d5066e7750172a69d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 08/55] fix: suspense callbacks of an element were never
 released, replaced or cleared

---
 crates/vertigo/src/dom/dom_element_class.rs | 52 +++++++++++++--------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/crates/vertigo/src/dom/dom_element_class.rs b/crates/vertigo/src/dom/dom_element_class.rs
index 6284b7c..148f371 100644
--- a/crates/vertigo/src/dom/dom_element_class.rs
+++ b/crates/vertigo/src/dom/dom_element_class.rs
@@ -106,29 +106,43 @@ impl DomElementClassMerge {
     }
 
     pub fn set_suspense_attr(&self, callback: Option<fn(bool) -> Css>) {
-        self.inner.change(|state| {
-            let Some(callback) = callback else {
-                state._suspense_drop = None;
-                return;
-            };
+        // The previous callback has to be gone before the next one is set
+        let previous = self.inner.change(|state| state._suspense_drop.take());
+        drop(previous);
+
+        let Some(callback) = callback else {
+            self.inner.change(|state| {
+                state.suspense_css = None;
+                state.refresh_dom();
+            });
+            return;
+        };
 
-            let drop = get_driver()
-                .inner
-                .dom
-                .dom_suspense
-                .set_layer_callback(state.id_dom, {
-                    let self_clone = self.clone();
+        let id_dom = self.inner.map(|state| state.id_dom);
 
-                    move |is_loading: bool| {
-                        let css = callback(is_loading);
+        let drop = get_driver()
+            .inner
+            .dom
+            .dom_suspense
+            .set_layer_callback(id_dom, {
+                // The state owns the handle of this callback, so the callback can't own the state
+                let inner = Rc::downgrade(&self.inner);
 
-                        self_clone.inner.change(|state| {
-                            state.suspense_css = Some(css);
-                            state.refresh_dom();
-                        });
-                    }
-                });
+                move |is_loading: bool| {
+                    let Some(inner) = inner.upgrade() else {
+                        return;
+                    };
 
+                    let css = callback(is_loading);
+
+                    inner.change(|state| {
+                        state.suspense_css = Some(css);
+                        state.refresh_dom();
+                    });
+                }
+            });
+
+        self.inner.change(|state| {
             state._suspense_drop = Some(drop);
         });
     }
-- 
2.43.0


From 3305878e0f4cff314362088d04e58c91324dc08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 09/55] fix: style rules with quoted or url data, non-ASCII
 text or blocks without a colon were split wrongly or crashed

---
 .../vertigo/src/css/transform_css/splits.rs   | 58 ++++++++++++++-----
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 7e00253..9ac5fe6 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -5,6 +5,43 @@ enum RowSideState {
     BracketsOpened(u16),
 }
 
+// Characters (with their byte offsets) which can be a part of css structure,
+// so not those inside quotes, parentheses (i.e. data in `url(...)`) and comments
+fn structural_chars(css: &str) -> Vec<(usize, char)> {
+    let mut out = Vec::new();
+    let mut quote: Option<char> = None;
+    let mut parentheses: usize = 0;
+    let mut chars = css.char_indices().peekable();
+
+    while let Some((index, char)) = chars.next() {
+        if let Some(opened) = quote {
+            if char == '\\' {
+                chars.next();
+            } else if char == opened || char == '\n' {
+                quote = None;
+            }
+            continue;
+        }
+
+        match char {
+            '"' | '\'' => quote = Some(char),
+            '\\' => {
+                chars.next();
+            }
+            '/' if parentheses == 0 && matches!(chars.peek(), Some((_, '*'))) => {
+                let end = css[index + 2..].find("*/").map(|end| index + 2 + end + 1);
+                while chars.next_if(|(pos, _)| end.map_or(true, |end| *pos <= end)).is_some() {}
+            }
+            '(' => parentheses += 1,
+            ')' => parentheses = parentheses.saturating_sub(1),
+            _ if parentheses == 0 => out.push((index, char)),
+            _ => {}
+        }
+    }
+
+    out
+}
+
 // Splits rules into Vec
 //
 // "rule1; rule2;" -> ["rule1", "rule2"]
@@ -19,15 +56,12 @@ pub fn css_split_rows(css: &str) -> Vec<&str> {
     let mut row_side = RowSideState::Left;
     let mut start = 0;
 
-    for (index, char) in css.char_indices() {
+    for (index, char) in structural_chars(css) {
         if char == '{' {
-            if row_side == RowSideState::Right {
-                row_side = RowSideState::BracketsOpened(1);
-            } else if let RowSideState::BracketsOpened(counter) = &mut row_side {
+            if let RowSideState::BracketsOpened(counter) = &mut row_side {
                 *counter += 1;
             } else {
-                log::info!("css input: {css}");
-                panic!("unsupported use case at opening bracket");
+                row_side = RowSideState::BracketsOpened(1);
             }
         }
 
@@ -83,19 +117,13 @@ pub fn find_brackets(line: &str) -> Option<(&str, &str, &str)> {
     let mut start: Option<usize> = None;
     let mut end: Option<usize> = None;
 
-    let chars: Vec<char> = line.chars().collect();
-
-    for (index, char) in chars.iter().enumerate() {
-        if *char == '{' {
+    for (index, char) in structural_chars(line) {
+        if char == '{' && start.is_none() {
             start = Some(index);
-            break;
         }
-    }
 
-    for (index, char) in chars.iter().enumerate().rev() {
-        if *char == '}' {
+        if char == '}' && start.is_some() {
             end = Some(index);
-            break;
         }
     }
 
-- 
2.43.0


From 6dd7fbdf20e230fb5ee7da2ecc7186815618bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 10/55] fix: rules of a media group were applied regardless of
 its query

---
 crates/vertigo/src/css/css_manager.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo/src/css/css_manager.rs b/crates/vertigo/src/css/css_manager.rs
index d16084d..14a99b0 100644
--- a/crates/vertigo/src/css/css_manager.rs
+++ b/crates/vertigo/src/css/css_manager.rs
@@ -86,11 +86,12 @@ impl CssManager {
                     out.push(self.get_dynamic(value));
                 }
                 CssGroup::CssMedia { query, rules } => {
-                    out.push("@media".to_string());
-                    out.push(query.clone());
-                    for rule in rules {
-                        out.push(self.get_dynamic(rule));
-                    }
+                    let rules: Vec<&str> = rules
+                        .iter()
+                        .map(|rule| rule.trim().trim_end_matches(';'))
+                        .collect();
+
+                    out.push(self.get_dynamic(format!("@media {query} {{ {} }}", rules.join("; "))));
                 }
             }
         }
-- 
2.43.0


From 9ef059c8bd0f2721070c76acac16ad4cd05feefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 11/55] fix: keyframes inside nested selectors and media
 queries were emitted as invalid rules

---
 crates/vertigo/src/css/transform_css/mod.rs | 44 +++++++++++++++++----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/mod.rs b/crates/vertigo/src/css/transform_css/mod.rs
index 40db079..f422a97 100644
--- a/crates/vertigo/src/css/transform_css/mod.rs
+++ b/crates/vertigo/src/css/transform_css/mod.rs
@@ -27,7 +27,34 @@ pub fn transform_css_animation_value(
     (css.into(), None)
 }
 
-pub fn transform_css_selector_value(row: &str, parent_selector: &str) -> Option<(String, String)> {
+/// Moves keyframes defined inline out of the set of rules of a nested selector
+fn extract_animations(
+    rules: &str,
+    next_id: &NextId,
+    css_documents: &mut Vec<(String, String)>,
+) -> String {
+    let mut out = rules.to_string();
+
+    for row in css_split_rows(rules) {
+        if let Some(("animation", value)) = css_row_split_to_pair(row) {
+            if let (value_parsed, Some(extra_animation)) =
+                transform_css_animation_value(&value, next_id)
+            {
+                css_documents.push(extra_animation);
+                out = out.replacen(row, &["animation: ", &value_parsed].concat(), 1);
+            }
+        }
+    }
+
+    out
+}
+
+pub fn transform_css_selector_value(
+    row: &str,
+    parent_selector: &str,
+    next_id: &NextId,
+    css_documents: &mut Vec<(String, String)>,
+) -> Option<(String, String)> {
     let brackets = find_brackets(row);
 
     if let Some((pseudo_selector, rules, trash)) = brackets {
@@ -35,7 +62,8 @@ pub fn transform_css_selector_value(row: &str, parent_selector: &str) -> Option<
             log::error!("Unexpected input after pseudo-selector rule set, missing semi-colon?");
         }
         let new_selector = [parent_selector, pseudo_selector].concat();
-        return Some((new_selector, rules.into()));
+        let rules = extract_animations(rules, next_id, css_documents);
+        return Some((new_selector, rules));
     }
 
     None
@@ -44,6 +72,7 @@ pub fn transform_css_selector_value(row: &str, parent_selector: &str) -> Option<
 pub fn transform_css_media_query(
     row: &str,
     parent_selector: &str,
+    next_id: &NextId,
     css_documents: &mut Vec<(String, String)>,
 ) {
     let brackets = find_brackets(row);
@@ -61,15 +90,15 @@ pub fn transform_css_media_query(
         for row in css_split_rows(rules_input) {
             if row.starts_with(':') {
                 // Pseudo selectors inside media query, collect it into separate vector
-                let extra_rule = transform_css_selector_value(row, parent_selector);
+                let extra_rule =
+                    transform_css_selector_value(row, parent_selector, next_id, css_documents);
 
                 if let Some(extra_rule) = extra_rule {
                     rules_in_pseudo.push([&extra_rule.0, " { ", &extra_rule.1, " }"].concat());
                 }
             } else {
                 // Regular rule in media query
-                // TODO: Handle animation here
-                regular_rules.push(row);
+                regular_rules.push(extract_animations(row, next_id, css_documents));
             }
         }
 
@@ -105,14 +134,15 @@ pub fn transform_css(css: &str, next_id: &NextId) -> (u64, Vec<(String, String)>
     for row in css_split_rows(css) {
         if row.starts_with([':', '[']) {
             // It's a pseudo-selector or references Css
-            let extra_rule = transform_css_selector_value(row, &selector);
+            let extra_rule =
+                transform_css_selector_value(row, &selector, next_id, &mut css_documents);
 
             if let Some(extra_rule) = extra_rule {
                 css_documents.push(extra_rule);
             }
         } else if row.starts_with("@media") {
             // It's a set of rules inside media query
-            transform_css_media_query(row, &selector, &mut css_documents);
+            transform_css_media_query(row, &selector, next_id, &mut css_documents);
         } else {
             // Single rule
             match css_row_split_to_pair(row) {
-- 
2.43.0


From 872e18d434ac6163a3e88f5fca3e6de6120e5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 12/55] fix: only the first of comma separated nested selectors
 was scoped to the class

---
 crates/vertigo/src/css/transform_css/mod.rs    | 11 +++++++++--
 crates/vertigo/src/css/transform_css/splits.rs | 16 ++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/mod.rs b/crates/vertigo/src/css/transform_css/mod.rs
index f422a97..095d5a9 100644
--- a/crates/vertigo/src/css/transform_css/mod.rs
+++ b/crates/vertigo/src/css/transform_css/mod.rs
@@ -1,7 +1,7 @@
 use super::{get_selector::get_selector, next_id::NextId};
 
 mod splits;
-use splits::{css_row_split_to_pair, css_split_rows, find_brackets};
+use splits::{css_row_split_to_pair, css_split_rows, css_split_selectors, find_brackets};
 
 #[cfg(test)]
 mod tests;
@@ -61,7 +61,14 @@ pub fn transform_css_selector_value(
         if !trash.trim().is_empty() {
             log::error!("Unexpected input after pseudo-selector rule set, missing semi-colon?");
         }
-        let new_selector = [parent_selector, pseudo_selector].concat();
+        let new_selector = css_split_selectors(pseudo_selector)
+            .into_iter()
+            .map(|selector| match selector.starts_with([':', '[']) {
+                true => [parent_selector, selector].concat(),
+                false => [parent_selector, " ", selector].concat(),
+            })
+            .collect::<Vec<_>>()
+            .join(", ");
         let rules = extract_animations(rules, next_id, css_documents);
         return Some((new_selector, rules));
     }
diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 9ac5fe6..d9509c2 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -99,6 +99,22 @@ pub fn css_split_rows(css: &str) -> Vec<&str> {
     out.into_iter().filter(|item| item.trim() != "").collect()
 }
 
+// Split list of selectors "sel1, sel2" into separate ones
+pub fn css_split_selectors(selectors: &str) -> Vec<&str> {
+    let mut out = Vec::new();
+    let mut start = 0;
+
+    for (index, char) in structural_chars(selectors) {
+        if char == ',' {
+            out.push(selectors[start..index].trim());
+            start = index + 1;
+        }
+    }
+
+    out.push(selectors[start..].trim());
+    out
+}
+
 // Split rule into key and value
 pub fn css_row_split_to_pair(row: &str) -> Option<(&str, String)> {
     let chunks: Vec<&str> = row.split(':').collect();
-- 
2.43.0


From a100a47e53b9bf49e0f16229f16d8c5c9c0073d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 13/55] fix: the base rule of a class overrode its rules in
 media queries

---
 crates/vertigo/src/css/css_manager.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/css/css_manager.rs b/crates/vertigo/src/css/css_manager.rs
index 14a99b0..95d0621 100644
--- a/crates/vertigo/src/css/css_manager.rs
+++ b/crates/vertigo/src/css/css_manager.rs
@@ -29,7 +29,10 @@ impl CssManagerInner {
     }
 
     fn insert_css(&self, css: &str) -> u64 {
-        let (class_id, css_selectors) = transform_css(css, &self.next_id);
+        let (class_id, mut css_selectors) = transform_css(css, &self.next_id);
+
+        // The rule of the class itself goes first, otherwise it would override those in media queries
+        css_selectors.rotate_right(1);
 
         for (selector, selector_data) in css_selectors {
             (self.insert_css)(&selector, &selector_data);
-- 
2.43.0


From f1b1127cc28e94ce8e62f1e430d439f776b8dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 14/55] fix: a leading U+FEFF of a text is lost on its way to
 JavaScript

---
 crates/vertigo/src/driver_module/src_js/buffer_cursor.ts | 2 +-
 crates/vertigo/src/driver_module/wasm_run.js             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
index 0e03584..cecec55 100644
--- a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
+++ b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
@@ -1,6 +1,6 @@
 ///https://javascript.info/arraybuffer-binary-arrays#dataview
 
-const decoder = new TextDecoder("utf-8");
+const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
 const encoder = new TextEncoder();
 
 export class BufferCursor {
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 923f1a6..e25a67e 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 012a387cf139cedae68e454fe8ce309f9351f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 15/55] fix: byte arrays handed to JavaScript alias wasm memory
 and change later

---
 crates/vertigo/src/driver_module/src_js/buffer_cursor.ts | 9 +++++++--
 crates/vertigo/src/driver_module/wasm_run.js             | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
index cecec55..6bf4666 100644
--- a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
+++ b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
@@ -96,7 +96,8 @@ export class BufferCursor {
         this.pointer += 8;
     }
 
-    public getBuffer(): Uint8Array {
+    // A view of the wasm memory, valid only until the memory is written again
+    private getView(): Uint8Array {
         const size = this.getU32();
         const result = this
             .getUint8Memory()
@@ -109,6 +110,10 @@ export class BufferCursor {
         return result;
     }
 
+    public getBuffer(): Uint8Array {
+        return this.getView().slice();
+    }
+
     public setBuffer(buffer: Uint8Array) {
         const size = buffer.length;
         this.setU32(size);
@@ -126,7 +131,7 @@ export class BufferCursor {
     }
 
     public getString(): string {
-        return decoder.decode(this.getBuffer());
+        return decoder.decode(this.getView());
     }
 
     public setString(value: string) {
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index e25a67e..86b52d4 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From c675f960ba6f31b4e677b03941367cd4c4165563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 16/55] fix: a member named __proto__ is lost between Rust and
 JavaScript

---
 .../src/driver_module/src_js/jsjson.ts        |  7 ++--
 .../src/driver_module/src_js/jsvalue.ts       | 36 +++++++------------
 crates/vertigo/src/driver_module/wasm_run.js  |  2 +-
 3 files changed, 17 insertions(+), 28 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/jsjson.ts b/crates/vertigo/src/driver_module/src_js/jsjson.ts
index 457c1e4..27314b0 100644
--- a/crates/vertigo/src/driver_module/src_js/jsjson.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsjson.ts
@@ -98,17 +98,18 @@ export const jsJsonDecodeItem = (cursor: BufferCursor): JsJsonType => {
     }
 
     //object
-    const out: Record<string, JsJsonType> = {};
+    const out: Array<[string, JsJsonType]> = [];
 
     const listSize = cursor.getU16();
 
     for (let i=0; i<listSize; i++) {
         const key = cursor.getString();
         const value = jsJsonDecodeItem(cursor);
-        out[key] = value;
+        out.push([key, value]);
     }
 
-    return out;
+    //keeps every member, also '__proto__'
+    return Object.fromEntries(out);
 }
 
 export const saveJsJsonToBufferItem = (value: JsJsonType, cursor: BufferCursor) => {
diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 552f640..d88aec4 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -122,19 +122,19 @@ const jsValueDecodeItem = (cursor: BufferCursor): JsValueType => {
     }
 
     if (typeParam === JsValueConst.Object) {
-        const out: Record<string, JsValueType> = {};
+        const out: Array<[string, JsValueType]> = [];
 
         const listSize = cursor.getU16();
 
         for (let i=0; i<listSize; i++) {
             const key = cursor.getString();
             const value = jsValueDecodeItem(cursor);
-            out[key] = value;
+            out.push([key, value]);
         }
 
         return {
             type: JsValueConst.Object,
-            value: out
+            value: Object.fromEntries(out)
         };
     }
 
@@ -386,13 +386,9 @@ export const convertFromJsValue = (value: JsValueType): unknown => {
     }
 
     if (value.type === JsValueConst.Object) {
-        const result: Record<string, unknown> = {};
-
-        for (const [key, propertyValue] of Object.entries(value.value)) {
-            result[key] = convertFromJsValue(propertyValue);
-        }
-
-        return result;
+        return Object.fromEntries(
+            Object.entries(value.value).map(([key, propertyValue]) => [key, convertFromJsValue(propertyValue)])
+        );
     }
 
     if (value.type === JsValueConst.Json) {
@@ -456,15 +452,11 @@ export const convertToJsValue = (value: unknown): JsValueType => {
         } catch (_error) {
         }
 
-        const result: Record<string, JsValueType> = {};
-
-        for (const [propName, propValue] of Object.entries(value)) {
-            result[propName] = convertToJsValue(propValue);
-        }
-
         return {
             type: JsValueConst.Object,
-            value: result
+            value: Object.fromEntries(
+                Object.entries(value).map(([propName, propValue]) => [propName, convertToJsValue(propValue)])
+            )
         };
     }
 
@@ -495,13 +487,9 @@ export const convertToJsJson = (value: unknown): JsJsonType => {
     }
 
     if (typeof value === 'object') {
-        const result: Record<string, JsJsonType> = {};
-
-        for (const [propName, propValue] of Object.entries(value)) {
-            result[propName] = convertToJsJson(propValue);
-        }
-
-        return result;
+        return Object.fromEntries(
+            Object.entries(value).map(([propName, propValue]) => [propName, convertToJsJson(propValue)])
+        );
     }
 
     console.warn('convertToJsJson', value);
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 86b52d4..1738f1c 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e)return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From a02a3f2fe82a6c618ce0992fb553c07808c2feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 17/55] fix: lists and byte arrays from JavaScript arrive as
 objects

---
 .../src/driver_module/src_js/jsvalue.ts       | 27 ++++++++++---------
 crates/vertigo/src/driver_module/wasm_run.js  |  2 +-
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index d88aec4..24dc97d 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -442,6 +442,18 @@ export const convertToJsValue = (value: unknown): JsValueType => {
         return value;
     }
 
+    if (Array.isArray(value)) {
+        try {
+            const list = value.map(convertToJsJson);
+            return {
+                type: JsValueConst.Json,
+                value: list
+            };
+        } catch (_error) {
+            return value.map(convertToJsValue);
+        }
+    }
+
     if (typeof value === 'object') {
         try {
             const json = convertToJsJson(value);
@@ -460,18 +472,6 @@ export const convertToJsValue = (value: unknown): JsValueType => {
         };
     }
 
-    if (Array.isArray(value)) {
-        try {
-            const list = value.map(convertToJsJson);
-            return {
-                type: JsValueConst.Json,
-                value: list
-            };
-        } catch (_error) {
-            return value.map(convertToJsValue);
-        }
-    }
-
     console.warn('convertToJsValue', value);
     throw Error('It is not possible to convert this data to JsValue');
 };
@@ -486,7 +486,8 @@ export const convertToJsJson = (value: unknown): JsJsonType => {
         return value.map(convertToJsJson);
     }
 
-    if (typeof value === 'object') {
+    //bytes have no representation in JsJson
+    if (typeof value === 'object' && !(value instanceof Uint8Array)) {
         return Object.fromEntries(
             Object.entries(value).map(([propName, propValue]) => [propName, convertToJsJson(propValue)])
         );
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 1738f1c..7640491 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e)return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From db36c837c359cad938df2b1cb79bde5aaf0511fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 18/55] fix: integers from 2^63 on arrive from JavaScript as
 negative

---
 crates/vertigo/src/driver_module/src_js/jsvalue.ts | 2 +-
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 24dc97d..6310574 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -433,7 +433,7 @@ export const convertToJsValue = (value: unknown): JsValueType => {
 
     if (typeof value === 'bigint') {
         return {
-            type: JsValueConst.I64,
+            type: value < 2n ** 63n ? JsValueConst.I64 : JsValueConst.U64,
             value
         };
     }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 7640491..878b7ea 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 5a2b0e929444ff8295af2f028a7563a4a5466860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 19/55] fix: get_props returns the internal representation of
 values

---
 crates/vertigo/src/driver_module/src_js/js_node.ts | 6 +++---
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/js_node.ts b/crates/vertigo/src/driver_module/src_js/js_node.ts
index 2a6e12d..f80a7bc 100644
--- a/crates/vertigo/src/driver_module/src_js/js_node.ts
+++ b/crates/vertigo/src/driver_module/src_js/js_node.ts
@@ -172,7 +172,7 @@ export class JsNode {
     }
 
     nextGetProps(path: Array<JsValueType>, args: Array<JsValueType>): JsNode | null {
-        const result: Record<string, JsValueType> = {};
+        const result: Array<[string, unknown]> = [];
 
         for (const property of args) {
             if (GuardJsValue.isString(property)) {
@@ -181,13 +181,13 @@ export class JsNode {
                     return null;
                 }
 
-                result[property] = value.toValue();
+                result.push([property, value.wsk]);
             } else {
                 console.error('JsNode.nextGetProps - wrong parameters', { path, args, property });
                 return null;
             }
         }
 
-        return new JsNode(this.api, this.nodes, result);
+        return new JsNode(this.api, this.nodes, Object.fromEntries(result));
     }
 }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 878b7ea..47fbefe 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From f09de7008f8c2451397b1a6fcd9207bce793e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 20/55] fix: DomElementRef::dom_access never finds its element

---
 crates/vertigo/src/driver_module/src_js/js_node.ts | 4 ++--
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/js_node.ts b/crates/vertigo/src/driver_module/src_js/js_node.ts
index f80a7bc..2dede61 100644
--- a/crates/vertigo/src/driver_module/src_js/js_node.ts
+++ b/crates/vertigo/src/driver_module/src_js/js_node.ts
@@ -98,8 +98,8 @@ export class JsNode {
             return null;
         }
 
-        if (GuardJsValue.isNumber(firstName) && rest.length === 0) {
-            const domId = firstName.value;
+        if ((GuardJsValue.isNumber(firstName) || GuardJsValue.isBigInt(firstName)) && rest.length === 0) {
+            const domId = Number(firstName.value);
 
             const node = this.nodes.get_any_option(domId);
 
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 47fbefe..b7c0039 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 33c6b43f9109651dff49e09b8e1ea5d3811c9c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 21/55] fix: a request with an invalid header never resolves

---
 crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts | 4 ++--
 crates/vertigo/src/driver_module/wasm_run.js                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts b/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
index edac527..4605f1d 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
@@ -120,9 +120,9 @@ export class Fetch {
     ): Promise<void> => {
         const wasm = this.getWasm();
 
-        const [fetchHeaders, fetchBody] = getHeadersAndBody(headers, body);
-
         try {
+            const [fetchHeaders, fetchBody] = getHeadersAndBody(headers, body);
+
             const response = await fetch(url, {
                 method,
                 headers: fetchHeaders,
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index b7c0039..71d97ce 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),c=await fetch(r,{method:t,headers:i,body:a}),l=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(c.headers.get("content-type"));if("json"===l)return void S(n,e,c,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===l)return void S(n,e,c,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,c,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From b31bc33b16d62c4f3b20b4d5beded1fe568ac558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 22/55] fix: a websocket dropped while connecting stays open

---
 .../src_js/api_browser/websocket/connection.ts            | 8 ++++++--
 crates/vertigo/src/driver_module/wasm_run.js              | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts b/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
index cd9b19e..db318e4 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
@@ -30,6 +30,7 @@ export type UnsubscribeFnType = () => void;
 interface OpenSocketResult {
     socket: Promise<SocketConnection | null>,
     done: Promise<void>,
+    close: UnsubscribeFnType,
 }
 
 export interface SocketConnectionController {
@@ -130,7 +131,8 @@ export class SocketConnection {
 
         return {
             socket: result.promise,
-            done: done.promise
+            done: done.promise,
+            close: closeSocket,
         };
     }
 
@@ -142,12 +144,14 @@ export class SocketConnection {
     ): SocketConnectionController {
         let isConnect: boolean = true;
         let socketConnection: SocketConnection | null = null;
+        let closeCurrent: UnsubscribeFnType | null = null;
 
         const log = new LogContext(host);
 
         (async (): Promise<void> => {
             while (isConnect) {
                 const openSocketResult = SocketConnection.connect(log, host, timeout_connection);
+                closeCurrent = openSocketResult.close;
 
                 const socket = await openSocketResult.socket;
 
@@ -198,7 +202,7 @@ export class SocketConnection {
             },
             dispose: (): void => {
                 isConnect = false;
-                socketConnection?.close();
+                closeCurrent?.();
             }
         };
     }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 71d97ce..eb42082 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),c=await fetch(r,{method:t,headers:i,body:a}),l=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(c.headers.get("content-type"));if("json"===l)return void S(n,e,c,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===l)return void S(n,e,c,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,c,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),c=await fetch(r,{method:t,headers:i,body:a}),l=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(c.headers.get("content-type"));if("json"===l)return void S(n,e,c,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===l)return void S(n,e,c,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,c,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,u=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);u=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,u?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 878ddc7fe496215c51a1a7d9d89e2aa9ff63693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 23/55] fix: the hash route was not encoded in the address and
 malformed addresses crashed

---
 .../driver_module/src_js/api_browser/hashrouter.ts    | 11 +++++++++--
 crates/vertigo/src/driver_module/wasm_run.js          |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts b/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts
index dd178aa..12d7aa8 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts
@@ -33,11 +33,18 @@ export class HashRouter {
             return;
         }
 
-        location.hash = new_hash;
+        location.hash = '#' + encodeURI(new_hash);
         this.trigger();
     }
 
     public get(): string {
-        return decodeURIComponent(location.hash.substr(1));
+        const hash = location.hash.substr(1);
+
+        try {
+            return decodeURIComponent(hash);
+        } catch (_error) {
+            //entered by hand, not a properly encoded text
+            return hash;
+        }
     }
 }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index eb42082..2c1c3c7 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),c=await fetch(r,{method:t,headers:i,body:a}),l=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(c.headers.get("content-type"));if("json"===l)return void S(n,e,c,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===l)return void S(n,e,c,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,c,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,u=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);u=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,u?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),c=await fetch(r,{method:t,headers:i,body:a}),l=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(c.headers.get("content-type"));if("json"===l)return void S(n,e,c,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===l)return void S(n,e,c,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,c,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,u=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);u=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,u?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From ca544bd0aa10542453737844b42d32cba2b00cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 24/55] fix: cookies of others holding '=' or '%' could not be
 read

---
 .../src_js/api_browser/cookies.ts             | 24 ++++++++++---------
 crates/vertigo/src/driver_module/wasm_run.js  |  2 +-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts b/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
index 49ed2e6..08aa01e 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/cookies.ts
@@ -5,23 +5,25 @@ export class Cookies {
         for (const cookie of document.cookie.split(';')) {
             if (cookie === "") continue;
 
-            const cookieChunk = cookie.trim().split('=');
+            const cookiePair = cookie.trim();
+            //only the first '=' is a separator, the value may contain others
+            const separator = cookiePair.indexOf('=');
 
-            if (cookieChunk.length !== 2) {
-                console.warn(`Cookies.get: Incorrect number of cookieChunk => ${cookieChunk.length} in ${cookie}`);
-                continue;
-            }
-
-            const cookieName = cookieChunk[0];
-            const cookieValue = cookieChunk[1];
-
-            if (cookieName === undefined || cookieValue === undefined) {
+            if (separator === -1) {
                 console.warn(`Cookies.get: Broken cookie part => ${cookie}`);
                 continue;
             }
 
+            const cookieName = cookiePair.slice(0, separator);
+            const cookieValue = cookiePair.slice(separator + 1);
+
             if (cookieName === cname) {
-                return decodeURIComponent(cookieValue);
+                try {
+                    return decodeURIComponent(cookieValue);
+                } catch (_error) {
+                    //set by someone else, not encoded
+                    return cookieValue;
+                }
             }
         }
 
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 2c1c3c7..7ecfa10 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),c=await fetch(r,{method:t,headers:i,body:a}),l=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(c.headers.get("content-type"));if("json"===l)return void S(n,e,c,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===l)return void S(n,e,c,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,c,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,u=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);u=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,u?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim(),s=r.indexOf("=");if(-1===s){console.warn(`Cookies.get: Broken cookie part => ${t}`);continue}if(r.slice(0,s)===e){const e=r.slice(s+1);try{return decodeURIComponent(e)}catch(t){return e}}}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),c=await fetch(r,{method:t,headers:i,body:a}),l=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(c.headers.get("content-type"));if("json"===l)return void S(n,e,c,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===l)return void S(n,e,c,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,c,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,u=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);u=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,u?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 825fc2b781a8b8e8b9b35424538da4c128cce320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 25/55] fix: cookie_get_json lost texts, numbers and booleans

---
 .../vertigo/src/driver_module/api/api_import.rs   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/api/api_import.rs b/crates/vertigo/src/driver_module/api/api_import.rs
index 13ebd9b..bdb9ac6 100644
--- a/crates/vertigo/src/driver_module/api/api_import.rs
+++ b/crates/vertigo/src/driver_module/api/api_import.rs
@@ -131,11 +131,18 @@ impl ApiImport {
                 .call("get_json", vec![JsValue::str(cname)])
                 .fetch();
 
-            if result != JsValue::Null {
-                if let JsValue::Json(value) = result {
-                    return value;
+            match result {
+                JsValue::Json(value) => return value,
+                // simple values arrive without the json wrapper
+                JsValue::String(value) => return JsJson::String(value),
+                JsValue::True => return JsJson::True,
+                JsValue::False => return JsJson::False,
+                JsValue::I32(value) => return JsJson::Number(value as f64),
+                JsValue::F64(value) => return JsJson::Number(value),
+                JsValue::Null => {}
+                result => {
+                    log::error!("cookie_get_json -> params decode error -> result={result:?}");
                 }
-                log::error!("cookie_get_json -> params decode error -> result={result:?}");
             }
         }
         JsJson::Null
-- 
2.43.0


From e751c9ff35db5b5684da7dc55840ee1496c1985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 26/55] fix: a router that was not observed for a while kept an
 outdated route

---
 crates/vertigo/src/router.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo/src/router.rs b/crates/vertigo/src/router.rs
index d82bed9..5805029 100644
--- a/crates/vertigo/src/router.rs
+++ b/crates/vertigo/src/router.rs
@@ -1,4 +1,7 @@
-use crate::{computed::Value, get_driver, Computed, DomNode, EmbedDom, Reactive, ToComputed};
+use crate::{
+    computed::Value, get_driver, struct_mut::ValueMut, Computed, DomNode, EmbedDom, Reactive,
+    ToComputed,
+};
 
 /// Router based on path or hash part of current location.
 ///
@@ -85,15 +88,20 @@ impl<T: Clone + ToString + From<String> + PartialEq + 'static> Router<T> {
     fn new(use_history_api: bool) -> Self {
         let driver = get_driver();
 
-        let init_value = match use_history_api {
+        let get_location = move || match use_history_api {
             false => T::from(driver.inner.api.get_hash_location()),
             true => T::from(driver.inner.api.get_history_location()),
         };
 
-        let route = Value::with_connect(init_value, move |value| {
-            let value = value.clone();
+        // Signals that the location has changed since the route was calculated
+        let changes = Value::with_connect(0u64, move |changes| {
+            let changes = changes.clone();
+            let last = ValueMut::new(get_location());
+
             let callback = move |url: String| {
-                value.set_value_and_compare(T::from(url));
+                if last.set_and_check(T::from(url)) {
+                    changes.change(|counter| *counter += 1);
+                }
             };
 
             match use_history_api {
@@ -102,6 +110,13 @@ impl<T: Clone + ToString + From<String> + PartialEq + 'static> Router<T> {
             }
         });
 
+        // The location might have changed while nobody observed it,
+        // so it has to be read anew whenever the route is calculated
+        let route = Computed::from(move |context| {
+            changes.get(context);
+            get_location()
+        });
+
         Self {
             use_history_api,
             route,
-- 
2.43.0


From 62724840e823c423ac04837ff405a1998ec3dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 27/55] fix: an element with autofocus removed at once crashed
 the focusing of others

---
 .../src/driver_module/src_js/api_browser/dom/dom.ts       | 8 ++++++--
 crates/vertigo/src/driver_module/wasm_run.js              | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts b/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
index 2701150..6439e5e 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
@@ -462,8 +462,12 @@ export class DriverDom {
         if (setFocus.size > 0) {
             setTimeout(() => {
                 for (const id of setFocus) {
-                    const node = this.nodes.get_node_element(`set focus ${id}`, id);
-                    node.focus();
+                    const node = this.nodes.get_any_option(id);
+
+                    //it might have been removed in the meantime
+                    if (node instanceof HTMLElement) {
+                        node.focus();
+                    }
                 }
             }, 0);
         }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 7ecfa10..e81c0b2 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim(),s=r.indexOf("=");if(-1===s){console.warn(`Cookies.get: Broken cookie part => ${t}`);continue}if(r.slice(0,s)===e){const e=r.slice(s+1);try{return decodeURIComponent(e)}catch(t){return e}}}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),c=await fetch(r,{method:t,headers:i,body:a}),l=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(c.headers.get("content-type"));if("json"===l)return void S(n,e,c,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===l)return void S(n,e,c,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,c,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,u=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);u=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,u?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getView(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}getBuffer(){return this.getView().slice()}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getView())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object)return Object.fromEntries(Object.entries(t.value).map((([e,t])=>[e,_(t)])));return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:e<2n**63n?g.I64:g.U64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}return{type:g.Object,value:Object.fromEntries(Object.entries(e).map((([e,t])=>[e,b(t)])))}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array))return Object.fromEntries(Object.entries(e).map((([e,t])=>[e,k(t)])));throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim(),s=r.indexOf("=");if(-1===s){console.warn(`Cookies.get: Broken cookie part => ${t}`);continue}if(r.slice(0,s)===e){const e=r.slice(s+1);try{return decodeURIComponent(e)}catch(t){return e}}}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o),c=await fetch(r,{method:t,headers:i,body:a}),l=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(c.headers.get("content-type"));if("json"===l)return void S(n,e,c,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===l)return void S(n,e,c,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,c,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,u=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);u=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,u?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r=[];for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r.push([s,t.wsk])}}return new F(this.api,this.nodes,Object.fromEntries(r))}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From f26e998dd1b78051976e9a4d8dc365d683c0d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 28/55] fix: removing an attribute crashed the rendering on the
 server

---
 crates/vertigo-cli/src/serve/html/dom_command.rs |  6 ++++++
 crates/vertigo-cli/src/serve/html/element.rs     | 11 +++++++++++
 crates/vertigo-cli/src/serve/html/ordered_map.rs |  6 ++++++
 3 files changed, 23 insertions(+)

diff --git a/crates/vertigo-cli/src/serve/html/dom_command.rs b/crates/vertigo-cli/src/serve/html/dom_command.rs
index 344bf43..c0dd597 100644
--- a/crates/vertigo-cli/src/serve/html/dom_command.rs
+++ b/crates/vertigo-cli/src/serve/html/dom_command.rs
@@ -16,6 +16,8 @@ pub enum DomCommand {
         name: String,
         value: String,
     },
+    #[serde(rename = "remove_attr")]
+    RemoveAttr { id: u64, name: String },
     #[serde(rename = "remove_node")]
     RemoveNode { id: u64 },
     #[serde(rename = "remove_text")]
@@ -68,6 +70,10 @@ impl JsJsonDeserialize for DomCommand {
                 name: json.get_property(&context, "name")?,
                 value: json.get_property(&context, "value")?,
             },
+            "remove_attr" => Self::RemoveAttr {
+                id: json.get_property(&context, "id")?,
+                name: json.get_property(&context, "name")?,
+            },
             "remove_node" => Self::RemoveNode {
                 id: json.get_property(&context, "id")?,
             },
diff --git a/crates/vertigo-cli/src/serve/html/element.rs b/crates/vertigo-cli/src/serve/html/element.rs
index dbb50f1..6d3c35a 100644
--- a/crates/vertigo-cli/src/serve/html/element.rs
+++ b/crates/vertigo-cli/src/serve/html/element.rs
@@ -67,6 +67,14 @@ impl AllElements {
         element.attr.set(name, value);
     }
 
+    fn remove_attr(&mut self, id: u64, name: &str) {
+        let Some(Node::Element(element)) = self.all.get_mut(&id) else {
+            unreachable!();
+        };
+
+        element.attr.remove(name);
+    }
+
     fn remove_from_parent(&mut self, child_id: u64) {
         let Some(parent_id) = self.parent.get(&child_id) else {
             return;
@@ -130,6 +138,9 @@ impl AllElements {
                 DomCommand::SetAttr { id, name, value } => {
                     self.set_attr(id, name, value);
                 }
+                DomCommand::RemoveAttr { id, name } => {
+                    self.remove_attr(id, &name);
+                }
                 DomCommand::RemoveNode { id } => {
                     self.remove(id);
                 }
diff --git a/crates/vertigo-cli/src/serve/html/ordered_map.rs b/crates/vertigo-cli/src/serve/html/ordered_map.rs
index 21f3e63..6117e95 100644
--- a/crates/vertigo-cli/src/serve/html/ordered_map.rs
+++ b/crates/vertigo-cli/src/serve/html/ordered_map.rs
@@ -36,6 +36,12 @@ impl OrderedMap {
         }
     }
 
+    pub fn remove(&mut self, name: &str) {
+        if self.data.remove(name).is_some() {
+            self.order.retain(|item_name| item_name != name);
+        }
+    }
+
     pub fn get_iter(&self) -> Vec<(String, String)> {
         let mut result = Vec::new();
 
-- 
2.43.0


From 9e380176fb3622e6cb4d80314d79a273687d5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 29/55] fix: a crash of the application dropped the connection
 instead of answering with an error

---
 .../src/serve/wasm/wasm_instance.rs           | 42 ++++++++++++++++---
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
index f644adc..027a5eb 100644
--- a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
+++ b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
@@ -14,6 +14,8 @@ use super::{
 pub struct WasmInstance {
     instance: Instance,
     store: Store<RequestState>,
+    sender: UnboundedSender<Message>,
+    crashed: bool,
 }
 
 impl WasmInstance {
@@ -40,6 +42,8 @@ impl WasmInstance {
         });
 
         let import_dom_access = {
+            let sender = sender.clone();
+
             Func::wrap(
                 &mut store,
                 move |caller: Caller<'_, RequestState>, ptr: u32, offset: u32| -> u32 {
@@ -143,7 +147,12 @@ impl WasmInstance {
         let imports = [import_panic_message.into(), import_dom_access.into()];
         let instance = Instance::new(&mut store, module, &imports).unwrap();
 
-        WasmInstance { instance, store }
+        WasmInstance {
+            instance,
+            store,
+            sender,
+            crashed: false,
+        }
     }
 
     fn call_function<Params: wasmtime::WasmParams, Results: wasmtime::WasmResults>(
@@ -162,21 +171,42 @@ impl WasmInstance {
             .map_err(|error| format!("{error}"))
     }
 
+    /// The application crashed. If it has managed to report the reason, that message comes first.
+    fn report_crash(&mut self, error: String) {
+        self.crashed = true;
+        log::error!("wasm crash: {error}");
+        let _ = self.sender.send(Message::Panic(Some(error)));
+    }
+
     pub fn call_vertigo_entry_function(&mut self) {
-        self.call_function::<(u32, u32), ()>(
+        let result = self.call_function::<(u32, u32), ()>(
             "vertigo_entry_function",
             (super::VERTIGO_VERSION_MAJOR, super::VERTIGO_VERSION_MINOR),
-        )
-        .unwrap();
+        );
+
+        if let Err(error) = result {
+            self.report_crash(error);
+        }
     }
 
     pub fn wasm_callback(&mut self, callback_id: u64, params: JsValue) -> JsValue {
+        if self.crashed {
+            return JsValue::Undefined;
+        }
+
         let mut data_context = DataContext::from_store(&mut self.store, self.instance);
         let params_ptr = data_context.save_value(params);
 
         let result = self
-            .call_function::<(u64, u32), u64>("wasm_callback", (callback_id, params_ptr))
-            .unwrap();
+            .call_function::<(u64, u32), u64>("wasm_callback", (callback_id, params_ptr));
+
+        let result = match result {
+            Ok(result) => result,
+            Err(error) => {
+                self.report_crash(error);
+                return JsValue::Undefined;
+            }
+        };
 
         if result == 0 {
             JsValue::Undefined
-- 
2.43.0


From 0a51201d70ab0ae611ec805c7b645777aecd8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 30/55] fix: requests other than GET and POST were never
 answered on the server

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index 2a54bb1..79ceabe 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -1,4 +1,4 @@
-use reqwest::Response;
+use reqwest::{Method, Response};
 use serde_json::{Map, Number, Value};
 use std::{
     collections::{HashMap, VecDeque},
@@ -178,11 +178,12 @@ fn get_response_type(response: &Response) -> ResponseType {
 async fn send_request_inner(request_params: Arc<FetchRequest>) -> Option<(u32, RequestBody)> {
     let client = reqwest::Client::new();
 
-    let mut request = match request_params.method.trim().to_lowercase().as_str() {
-        "get" => client.get(&request_params.url),
-        "post" => client.post(&request_params.url),
-        _ => {
-            unreachable!();
+    let method = request_params.method.trim().to_uppercase();
+    let mut request = match Method::from_bytes(method.as_bytes()) {
+        Ok(method) => client.request(method, &request_params.url),
+        Err(error) => {
+            log::error!("Error send: method={method} {error}");
+            return None;
         }
     };
 
-- 
2.43.0


From 4e1151dcbda738daba5be3d1fe02a8a0ee6689db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 31/55] fix: equal requests with several headers or json
 members were not recognised as equal on the server

---
 crates/vertigo-cli/src/serve/wasm/message.rs              | 8 ++++----
 .../vertigo/src/driver_module/js_value/js_json_struct.rs  | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/message.rs b/crates/vertigo-cli/src/serve/wasm/message.rs
index 38425d9..35657d4 100644
--- a/crates/vertigo-cli/src/serve/wasm/message.rs
+++ b/crates/vertigo-cli/src/serve/wasm/message.rs
@@ -42,10 +42,10 @@ impl Hash for FetchRequest {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.method.hash(state);
         self.url.hash(state);
-        for (key, value) in self.headers.iter() {
-            key.hash(state);
-            value.hash(state);
-        }
+        // equal maps may be iterated over in a different order
+        let mut headers = self.headers.iter().collect::<Vec<_>>();
+        headers.sort();
+        headers.hash(state);
         self.body.hash(state);
     }
 }
diff --git a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
index 10a659b..0287fb5 100644
--- a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
@@ -102,7 +102,8 @@ impl Hash for JsJson {
             }
             Self::Number(value) => {
                 state.write_u8(JsJsonConst::Number.into());
-                let value_bits = value.to_bits();
+                // 0.0 and -0.0 are equal
+                let value_bits = if *value == 0.0 { 0 } else { value.to_bits() };
                 state.write_u64(value_bits);
             }
             Self::List(list) => {
@@ -113,7 +114,10 @@ impl Hash for JsJson {
             }
             Self::Object(map) => {
                 state.write_u8(JsJsonConst::Object.into());
-                for (name, value) in map {
+                // equal maps may be iterated over in a different order
+                let mut list = map.iter().collect::<Vec<_>>();
+                list.sort_by_key(|(name, _)| *name);
+                for (name, value) in list {
                     name.hash(state);
                     value.hash(state);
                 }
-- 
2.43.0


From dfcfaabcc6cf2dedc1824769cc3ff995d6d56ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 32/55] fix: a request with a NaN in its json body was never
 answered on the server

---
 .../src/serve/wasm/decode_commands.rs            | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/decode_commands.rs b/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
index 07279b3..be006f1 100644
--- a/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
+++ b/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
@@ -5,9 +5,23 @@ use crate::serve::html::RequestBody;
 
 use super::{get_now::get_now, js_value_match::Match, message::CallWebsocketResult, FetchRequest};
 
+/// Json has no NaN nor infinities, they are sent as null (the same way as in the browser)
+fn without_not_finite(json: JsJson) -> JsJson {
+    match json {
+        JsJson::Number(value) if !value.is_finite() => JsJson::Null,
+        JsJson::List(list) => JsJson::List(list.into_iter().map(without_not_finite).collect()),
+        JsJson::Object(map) => JsJson::Object(
+            map.into_iter()
+                .map(|(name, value)| (name, without_not_finite(value)))
+                .collect(),
+        ),
+        json => json,
+    }
+}
+
 pub fn convert_value_to_body(body: JsValue) -> Result<Option<RequestBody>, String> {
     match body {
-        JsValue::Json(json) => Ok(Some(RequestBody::Json(json))),
+        JsValue::Json(json) => Ok(Some(RequestBody::Json(without_not_finite(json)))),
         JsValue::String(text) => Ok(Some(RequestBody::Text(text))),
         JsValue::Vec(buffer) => Ok(Some(RequestBody::Binary(buffer))),
         JsValue::Undefined => Ok(None),
-- 
2.43.0


From 0aa4bf1dc80a451fbaca567ab46887b4c1d281b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 33/55] fix: get_random and timezone_offset failed the
 rendering on the server

---
 .../src/serve/wasm/decode_commands.rs         | 35 ++++++++++++++++++-
 .../src/serve/wasm/wasm_instance.rs           |  8 +++++
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/decode_commands.rs b/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
index be006f1..43fe654 100644
--- a/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
+++ b/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
@@ -1,4 +1,5 @@
-use std::collections::HashMap;
+use std::collections::{hash_map::RandomState, HashMap};
+use std::hash::{BuildHasher, Hasher};
 use vertigo::{from_json, JsJson, JsValue};
 
 use crate::serve::html::RequestBody;
@@ -49,6 +50,38 @@ pub fn match_is_browser(arg: &JsValue) -> Result<(), ()> {
     Ok(())
 }
 
+pub fn match_get_random(arg: &JsValue) -> Result<JsValue, ()> {
+    let matcher = Match::new(arg)?;
+    let matcher = matcher.test_list(&["api"])?;
+    let (matcher, (min, max)) = matcher.test_list_with_fn(|matcher: Match| {
+        let matcher = matcher.str("call")?;
+        let matcher = matcher.str("getRandom")?;
+        let (matcher, min) = matcher.u32()?;
+        let (matcher, max) = matcher.u32()?;
+        matcher.end()?;
+
+        Ok((min, max))
+    })?;
+    matcher.end()?;
+
+    // every RandomState has different, random keys
+    let random = RandomState::new().build_hasher().finish();
+    let range = u64::from(max.saturating_sub(min)) + 1;
+    let result = u64::from(min) + random % range;
+
+    Ok(JsValue::I32(result as i32))
+}
+
+/// Time on the server is in UTC
+pub fn match_get_timezone_offset(arg: &JsValue) -> Result<JsValue, ()> {
+    let matcher = Match::new(arg)?;
+    let matcher = matcher.test_list(&["api"])?;
+    let matcher = matcher.test_list(&["call", "getTimezoneOffset"])?;
+    matcher.end()?;
+
+    Ok(JsValue::I32(0))
+}
+
 pub fn match_cookie_command(arg: &JsValue) -> Result<(), ()> {
     let matcher = Match::new(arg)?;
     let matcher = matcher.test_list(&["api"])?;
diff --git a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
index 027a5eb..b9bcaa0 100644
--- a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
+++ b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
@@ -101,6 +101,14 @@ impl WasmInstance {
                         return data_context.save_value(current_time);
                     }
 
+                    if let Ok(random) = match_get_random(&value) {
+                        return data_context.save_value(random);
+                    }
+
+                    if let Ok(offset) = match_get_timezone_offset(&value) {
+                        return data_context.save_value(offset);
+                    }
+
                     if let Ok(result) = match_interval(&value) {
                         match result {
                             CallWebsocketResult::TimeoutSet { time, callback_id } => {
-- 
2.43.0


From 844810cb83784c3fa472875004bd9dabb4a5d777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 34/55] fix: a text could close the script or style element it
 was in, in the html from the server

---
 .../src/serve/html/html_element.rs            | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_element.rs b/crates/vertigo-cli/src/serve/html/html_element.rs
index 4e6aa22..ceb2adf 100644
--- a/crates/vertigo-cli/src/serve/html/html_element.rs
+++ b/crates/vertigo-cli/src/serve/html/html_element.rs
@@ -136,6 +136,29 @@ fn is_self_closing(element: &HtmlElement) -> bool {
     tags.contains(&element.name.as_str())
 }
 
+/// The content of script and style is not decoded by the browser and it ends with the first closing
+/// tag. `<\/` means the same as `</` in strings of both languages.
+fn escape_raw_text(text: String) -> String {
+    let lower = text.to_ascii_lowercase();
+
+    if !lower.contains("</script") && !lower.contains("</style") {
+        return text;
+    }
+
+    let mut result = String::with_capacity(text.len() + 8);
+
+    for (index, char) in text.char_indices() {
+        let rest = &lower[index..];
+        result.push(char);
+
+        if rest.starts_with("</script") || rest.starts_with("</style") {
+            result.push('\\');
+        }
+    }
+
+    result
+}
+
 fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
     let ident_str = ident.get();
 
@@ -172,7 +195,7 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
                 ChildMode::Text(text) => {
                     let escaped_text =
                         if ["script", "style"].contains(&element.name.to_lowercase().as_str()) {
-                            Cow::from(text)
+                            Cow::from(escape_raw_text(text))
                         } else {
                             encode_safe(&text)
                         };
-- 
2.43.0


From bbb31058ead49225dd178706dee5f58cf081bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 35/55] fix: carriage returns were lost in the html from the
 server

---
 .../src/serve/html/html_element.rs            | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_element.rs b/crates/vertigo-cli/src/serve/html/html_element.rs
index ceb2adf..c19631f 100644
--- a/crates/vertigo-cli/src/serve/html/html_element.rs
+++ b/crates/vertigo-cli/src/serve/html/html_element.rs
@@ -56,13 +56,26 @@ impl HtmlDocument {
     }
 }
 
+/// A literal carriage return would be read as a new line
+fn escape_carriage_return(text: Cow<'_, str>) -> Cow<'_, str> {
+    if text.contains('\r') {
+        Cow::from(text.replace('\r', "&#13;"))
+    } else {
+        text
+    }
+}
+
+fn escape_text(text: &str) -> Cow<'_, str> {
+    escape_carriage_return(encode_safe(text))
+}
+
 fn attributes_to_string(attr: OrderedMap) -> String {
     let mut line = Vec::new();
     for (name, value) in attr.get_iter() {
         line.push(format!(
             " {}=\"{}\"",
             encode_safe(&name),
-            encode_quoted_attribute(&value)
+            escape_carriage_return(encode_quoted_attribute(&value))
         ));
     }
     line.concat()
@@ -197,7 +210,7 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
                         if ["script", "style"].contains(&element.name.to_lowercase().as_str()) {
                             Cow::from(escape_raw_text(text))
                         } else {
-                            encode_safe(&text)
+                            escape_text(&text)
                         };
 
                     let line = [
@@ -220,7 +233,7 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
             }
         }
         HtmlNode::Text(text) => {
-            result.push(format!("{ident_str}{}", encode_safe(&text)));
+            result.push(format!("{ident_str}{}", escape_text(&text)));
         }
         HtmlNode::Comment(comment) => {
             result.push(format!("{ident_str}<!--{}-->", encode_safe(&comment)));
-- 
2.43.0


From c49fe7f35f4b56988b891b4da05c7a59ade8178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 36/55] fix: white characters of preformatted elements were
 changed in the html from the server

---
 .../src/serve/html/html_element.rs            | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_element.rs b/crates/vertigo-cli/src/serve/html/html_element.rs
index c19631f..4314611 100644
--- a/crates/vertigo-cli/src/serve/html/html_element.rs
+++ b/crates/vertigo-cli/src/serve/html/html_element.rs
@@ -149,6 +149,10 @@ fn is_self_closing(element: &HtmlElement) -> bool {
     tags.contains(&element.name.as_str())
 }
 
+fn is_preformatted(element: &HtmlElement) -> bool {
+    ["pre", "textarea", "listing"].contains(&element.name.to_lowercase().as_str())
+}
+
 /// The content of script and style is not decoded by the browser and it ends with the first closing
 /// tag. `<\/` means the same as `</` in strings of both languages.
 fn escape_raw_text(text: String) -> String {
@@ -179,7 +183,7 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
         HtmlNode::Element(element) => {
             let is_self_closing = is_self_closing(&element);
             let el_name = encode_safe(&element.name);
-            let attrs = attributes_to_string(element.attr);
+            let attrs = attributes_to_string(element.attr.clone());
 
             if is_self_closing {
                 let line = [&ident_str, "<", &el_name, &attrs, " />"];
@@ -188,6 +192,16 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
                 return;
             }
 
+            let is_preformatted = is_preformatted(&element);
+
+            if is_preformatted && ident.value.is_some() {
+                // white characters are a part of the content
+                let mut content = vec![ident_str];
+                html_node_to_string(&mut content, Ident::empty(), HtmlNode::Element(element));
+                result.push(content.concat());
+                return;
+            }
+
             match get_render_child_mode(element.children) {
                 ChildMode::Child(children) => {
                     //open tag
@@ -195,6 +209,13 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
 
                     result.push(line.concat());
 
+                    if let Some(HtmlNode::Text(text)) = children.first() {
+                        if is_preformatted && text.starts_with('\n') {
+                            // the first new line is skipped by the browser
+                            result.push("\n".to_string());
+                        }
+                    }
+
                     //render child
                     for child in children {
                         html_node_to_string(result, ident.add(2), child);
@@ -213,6 +234,13 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
                             escape_text(&text)
                         };
 
+                    // the first new line is skipped by the browser
+                    let new_line = if is_preformatted && escaped_text.starts_with('\n') {
+                        "\n"
+                    } else {
+                        ""
+                    };
+
                     let line = [
                         //open tag
                         &ident_str,
@@ -221,6 +249,7 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
                         &attrs,
                         ">",
                         // content
+                        new_line,
                         &escaped_text,
                         //close tag
                         "</",
-- 
2.43.0


From 20da2aeeb2748ff87ddc00a0e9ffd469b189741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 37/55] fix: proxied answers sent in chunks by the target could
 not be read

---
 crates/vertigo-cli/src/serve/serve_run.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index ad0ea66..7c4b4a1 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -72,6 +72,14 @@ pub async fn run(opts: ServeOpts, port_watch: Option<u16>) -> Result<(), i32> {
     Ok(())
 }
 
+/// The body is sent anew, so the headers describing the way it was transferred don't apply to it
+fn get_forwarded_headers(response: &reqwest::Response) -> HeaderMap {
+    let mut headers = response.headers().clone();
+    headers.remove(header::TRANSFER_ENCODING);
+    headers.remove(header::CONNECTION);
+    headers
+}
+
 async fn get_response(target_url: String) -> Response<BoxBody> {
     let response = match reqwest::get(target_url.clone()).await {
         Ok(response) => response,
@@ -85,7 +93,7 @@ async fn get_response(target_url: String) -> Response<BoxBody> {
         }
     };
 
-    let headers = response.headers().clone();
+    let headers = get_forwarded_headers(&response);
     let status = response.status();
     let body = match response.bytes().await {
         Ok(body) => body.to_vec(),
@@ -129,7 +137,7 @@ async fn post_response(target_url: String, headers: HeaderMap, body: Value) -> R
         }
     };
 
-    let headers = response.headers().clone();
+    let headers = get_forwarded_headers(&response);
     let status = response.status();
     let body = match response.bytes().await {
         Ok(body) => body.to_vec(),
-- 
2.43.0


From 58552a733bf885e93516cbb284f6ba742196e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 38/55] fix: the body of a proxied post was rewritten, with the
 length of the original one

---
 crates/vertigo-cli/src/serve/serve_run.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index 7c4b4a1..7446388 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -1,13 +1,12 @@
 use axum::{
-    body::BoxBody,
-    extract::{Json, RawQuery, State},
+    body::{BoxBody, Bytes},
+    extract::{RawQuery, State},
     http::{header::HeaderMap, HeaderValue, StatusCode, Uri},
     response::Response,
     routing::get,
     Router,
 };
 use reqwest::header;
-use serde_json::Value;
 use std::{
     sync::Arc,
     time::{Duration, Instant},
@@ -116,9 +115,8 @@ async fn get_response(target_url: String) -> Response<BoxBody> {
     response
 }
 
-async fn post_response(target_url: String, headers: HeaderMap, body: Value) -> Response<BoxBody> {
+async fn post_response(target_url: String, headers: HeaderMap, body: Bytes) -> Response<BoxBody> {
     let client = reqwest::Client::new();
-    let body = serde_json::to_vec(&body).unwrap();
     let response = match client
         .post(target_url.clone())
         .headers(headers)
@@ -183,10 +181,9 @@ fn install_proxy(
             .post({
                 let path = path.clone();
 
-                move |url: Uri, headers: HeaderMap, body: Json<Value>| async move {
+                move |url: Uri, headers: HeaderMap, body: Bytes| async move {
                     let from_url = format!("{path}{url}");
                     let target_url = format!("{target}{url}");
-                    let Json(body) = body;
                     log::info!("proxy post {from_url} -> {target_url}");
 
                     post_response(target_url, headers, body).await
-- 
2.43.0


From febbe4cf81a6eb18c470043fbb5a788b3ce27743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 39/55] fix: a page with a request that was never answered
 could not be sent by the server

---
 crates/vertigo/src/driver_module/dom.rs | 9 +++++++++
 crates/vertigo/src/lib.rs               | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/crates/vertigo/src/driver_module/dom.rs b/crates/vertigo/src/driver_module/dom.rs
index 7705b31..1dbd651 100644
--- a/crates/vertigo/src/driver_module/dom.rs
+++ b/crates/vertigo/src/driver_module/dom.rs
@@ -116,6 +116,11 @@ impl Commands {
         }
     }
 
+    /// Stop holding back the commands until the initial requests are finished
+    fn end_initiation(&self) {
+        self.state.set(StateInitiation::Ready);
+    }
+
     fn fetch_up(&self) {
         self.state.change(|state| {
             state.up();
@@ -287,6 +292,10 @@ impl DriverDom {
         self.commands.flush_dom_changes();
     }
 
+    pub fn end_initiation(&self) {
+        self.commands.end_initiation();
+    }
+
     pub fn node_parent(&self, node_id: DomId, callback: impl Fn(DomId) + 'static) -> DropResource {
         self.node_parent_callback.insert(node_id, Rc::new(callback));
 
diff --git a/crates/vertigo/src/lib.rs b/crates/vertigo/src/lib.rs
index 47ac574..e77ad0c 100644
--- a/crates/vertigo/src/lib.rs
+++ b/crates/vertigo/src/lib.rs
@@ -379,6 +379,12 @@ fn start_app_inner(root_view: DomNode) {
 
         state.set_root(root_view);
 
+        // The server waits for the requests on its own, for a limited time,
+        // and it responds with what has been rendered until then.
+        if !state.driver.is_browser() {
+            get_driver().inner.dom.end_initiation();
+        }
+
         state.driver.inner.api.on_fetch_stop.trigger(());
         get_driver().inner.dom.flush_dom_changes();
     });
-- 
2.43.0


From 8d0c252777846c5a07809b4aa95211dd5cf8ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 40/55] fix: a path with parent segments was proxied to an
 address outside of the target

---
 crates/vertigo-cli/src/serve/serve_run.rs | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index 7446388..dde9f40 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -158,6 +158,23 @@ async fn post_response(target_url: String, headers: HeaderMap, body: Bytes) -> R
     response
 }
 
+/// Such a path would be resolved to an address outside of the target of the proxy
+fn has_parent_segment(path: &str) -> bool {
+    path.split(['/', '\\']).any(|segment| {
+        matches!(
+            segment.to_ascii_lowercase().as_str(),
+            ".." | ".%2e" | "%2e." | "%2e%2e"
+        )
+    })
+}
+
+fn bad_request(message: &'static str) -> Response<BoxBody> {
+    use axum::response::IntoResponse;
+    let mut response = message.into_response();
+    *response.status_mut() = StatusCode::BAD_REQUEST;
+    response
+}
+
 fn install_proxy(
     app: Router<Arc<RwLock<Arc<ServerState>>>>,
     path: String,
@@ -175,6 +192,10 @@ fn install_proxy(
                     let target_url = format!("{target}{url}");
                     log::info!("proxy get {from_url} -> {target_url}");
 
+                    if has_parent_segment(url.path()) {
+                        return bad_request("Incorrect path");
+                    }
+
                     get_response(target_url).await
                 }
             })
@@ -186,6 +207,10 @@ fn install_proxy(
                     let target_url = format!("{target}{url}");
                     log::info!("proxy post {from_url} -> {target_url}");
 
+                    if has_parent_segment(url.path()) {
+                        return bad_request("Incorrect path");
+                    }
+
                     post_response(target_url, headers, body).await
                 }
             }),
-- 
2.43.0


From 136a58a945fd16a990791c860c626837ea7d5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 41/55] fix: bind_spawn moved values given by a path
 (state.value) instead of copying them

---
 crates/vertigo-macro/src/bind.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-macro/src/bind.rs b/crates/vertigo-macro/src/bind.rs
index 4d946b1..f0f1c89 100644
--- a/crates/vertigo-macro/src/bind.rs
+++ b/crates/vertigo-macro/src/bind.rs
@@ -71,17 +71,25 @@ pub(crate) fn bind_spawn_inner(input: TokenStream) -> Result<TokenStream, String
         body,
     } = split_params_and_body(tokens.as_slice())?;
 
-    let bind_params: Vec<TokenStream2> = bind_params
-        .into_iter()
-        .map(convert_tokens_to_stream)
-        .collect::<Vec<_>>();
+    let mut outer_params: Vec<TokenStream2> = Vec::new();
+    // The outer closure already holds the values under their names
+    let mut inner_params: Vec<Ident> = Vec::new();
+
+    for item in bind_params {
+        let Some(param_name) = find_param_name(item) else {
+            return Ok(quote! {""}.into());
+        };
+
+        outer_params.push(convert_tokens_to_stream(item));
+        inner_params.push(param_name);
+    }
 
     let body: TokenStream2 = convert_tokens_to_stream(body.as_slice());
 
     Ok(quote! {
         {
-            vertigo::bind!(#(#bind_params,)* || {
-                vertigo::get_driver().spawn(vertigo::bind!(#(#bind_params,)* #body));
+            vertigo::bind!(#(#outer_params,)* || {
+                vertigo::get_driver().spawn(vertigo::bind!(#(#inner_params,)* #body));
             })
         }
     }
-- 
2.43.0


From 29513bb28b1c7b87f52daee1f2f09fbc2e4666a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 42/55] fix: watch mode ignored --port-watch, pages listened on
 a port nothing was sent on

---
 crates/vertigo-cli/src/watch/watch_run.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index b0a7d48..a555c68 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -110,8 +110,10 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
             .with(cors_middleware)
             .data(rx);
 
+        let address = format!("127.0.0.1:{}", opts.port_watch);
+
         async move {
-            Server::new(TcpListener::bind("127.0.0.1:5555"))
+            Server::new(TcpListener::bind(address))
                 .run(app)
                 .await
         }
-- 
2.43.0


From 87e7d9c1823c6b91badcfa423cd9632a73183c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 43/55] fix: in watch mode the script was put into every text
 of the page containing </body>

---
 .../vertigo-cli/src/serve/response_state.rs   | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/response_state.rs b/crates/vertigo-cli/src/serve/response_state.rs
index 0990b57..cb1dd38 100644
--- a/crates/vertigo-cli/src/serve/response_state.rs
+++ b/crates/vertigo-cli/src/serve/response_state.rs
@@ -59,21 +59,16 @@ impl ResponseState {
 
             let start = format!("start_watch('http://127.0.0.1:{port_watch}/events');");
 
-            let chunks = [
-                &self.body,
-                "<script>",
-                watch,
-                &start,
-                "</script>",
-                "\n</body>",
-            ];
+            let script = ["<script>", watch, &start, "</script>"].join("\n");
 
-            // Usually body tag is in the response, but better be prepared
-            if self.body.contains("</body>") {
-                let script = chunks[1..6].join("\n");
-                self.body = self.body.replace("</body>", &script);
-            } else {
-                self.body = chunks[0..5].join("\n");
+            // Usually body tag is in the response, but better be prepared.
+            // Only the last one closes the body, others belong to the content of the page.
+            match self.body.rfind("</body>") {
+                Some(index) => self.body.insert_str(index, &["\n", &script, "\n"].concat()),
+                None => {
+                    self.body.push('\n');
+                    self.body.push_str(&script);
+                }
             }
         }
     }
-- 
2.43.0


From 23d87771648fe1ec5a1fa93a3705b270bb0e25d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 44/55] fix: watch mode rebuilt endlessly when the destination
 was inside of the package and the command was run elsewhere

---
 crates/vertigo-cli/src/watch/watch_run.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index a555c68..7b41050 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -58,7 +58,13 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
         return Err(-1);
     };
 
-    let excludes = [path.join("target"), path.join(opts.common.dest_dir.clone())];
+    // Destination is relative to the current directory, which doesn't have to be the package
+    let dest_dir = match std::env::current_dir() {
+        Ok(current_dir) => current_dir.join(&opts.common.dest_dir),
+        Err(_) => path.join(&opts.common.dest_dir),
+    };
+
+    let excludes = [path.join("target"), ws.get_target_dir(), dest_dir];
 
     let notify_build = Arc::new(Notify::new());
 
-- 
2.43.0


From c0b61165cc33b978a9609728c0a67e2d6d119934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 45/55] fix: a page opened while a build was starting kept
 showing the notice and the old version

---
 crates/vertigo-cli/src/serve/watch.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/watch.js b/crates/vertigo-cli/src/serve/watch.js
index 5ba5318..661f58c 100644
--- a/crates/vertigo-cli/src/serve/watch.js
+++ b/crates/vertigo-cli/src/serve/watch.js
@@ -26,7 +26,8 @@ function start_watch(url) {
             return;
         }
 
-        if (last_message === null) {
+        // After a notice of a build in progress even the first version is newer than this page
+        if (last_message === null && building_message === null) {
             console.info(`Watch - init version ${message}`);
             last_message = message;
             return;
-- 
2.43.0


From 7da8338d4cb0d6df8455be00ab057f3478550cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 46/55] fix: overlapping builds of watch mode mixed their
 outputs, an older version could stay served

---
 crates/vertigo-cli/src/watch/watch_run.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index 7b41050..4284bdb 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -6,7 +6,8 @@ use std::path::Path;
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::watch::Sender;
-use tokio::sync::Notify;
+use tokio::sync::{Mutex, Notify};
+use tokio::task::yield_now;
 use tokio::time::sleep;
 use tokio_retry::{strategy::FibonacciBackoff, Retry};
 
@@ -136,6 +137,9 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
     }
     let mut version = 0;
 
+    // A build can't be interrupted and two of them must not write to the same directories
+    let build_lock = Arc::new(Mutex::new(()));
+
     loop {
         version += 1;
 
@@ -146,7 +150,7 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
 
         log::info!("build run ...");
 
-        let spawn = build_and_watch(version, tx.clone(), &opts, &ws);
+        let spawn = build_and_watch(version, tx.clone(), build_lock.clone(), &opts, &ws);
         notify_build.notified().await;
         spawn.off();
     }
@@ -155,6 +159,7 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
 fn build_and_watch(
     version: u32,
     tx: Arc<Sender<Status>>,
+    build_lock: Arc<Mutex<()>>,
     opts: &WatchOpts,
     ws: &Workspace,
 ) -> SpawnOwner {
@@ -163,7 +168,16 @@ fn build_and_watch(
     SpawnOwner::new(async move {
         sleep(Duration::from_millis(200)).await;
 
-        match crate::build::run_with_ws(opts.to_build_opts(), &ws) {
+        let build_result = {
+            let _guard = build_lock.lock().await;
+            let result = crate::build::run_with_ws(opts.to_build_opts(), &ws);
+
+            // If there was another change in the meantime, it ends here
+            yield_now().await;
+            result
+        };
+
+        match build_result {
             Ok(()) => {
                 log::info!("build run ok");
 
-- 
2.43.0


From 3f66205921347cc188be07ed37c0e02868f66941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 47/55] fix: Instant::elapsed of a moment ahead of the clock is
 zero

---
 crates/vertigo/src/instant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vertigo/src/instant.rs b/crates/vertigo/src/instant.rs
index b676f54..0c1f456 100644
--- a/crates/vertigo/src/instant.rs
+++ b/crates/vertigo/src/instant.rs
@@ -28,7 +28,7 @@ impl Instant {
     }
 
     pub fn elapsed(&self) -> InstantType {
-        self.api.instant_now() - self.instant
+        self.api.instant_now().saturating_sub(self.instant)
     }
 
     pub fn seconds_elapsed(&self) -> InstantType {
-- 
2.43.0


From 1bb3f3ee03e9edd3ff31717b00d1d7beec0a4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 48/55] fix: utc_now understands a clock close to the epoch

---
 crates/vertigo/src/driver_module/api/api_import.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/vertigo/src/driver_module/api/api_import.rs b/crates/vertigo/src/driver_module/api/api_import.rs
index bdb9ac6..7881817 100644
--- a/crates/vertigo/src/driver_module/api/api_import.rs
+++ b/crates/vertigo/src/driver_module/api/api_import.rs
@@ -284,6 +284,7 @@ impl ApiImport {
 
         match result {
             JsValue::I64(time) => time,
+            JsValue::I32(time) => time as i64,
             JsValue::F64(time) => time as i64,
             _ => {
                 self.panic_message
-- 
2.43.0


From 22c1f69ecb1be56c88f1c402d27e292bbc3e851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 49/55] fix: get_random returns also numbers above i32::MAX

---
 .../vertigo/src/driver_module/api/api_import.rs   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo/src/driver_module/api/api_import.rs b/crates/vertigo/src/driver_module/api/api_import.rs
index 7881817..036a571 100644
--- a/crates/vertigo/src/driver_module/api/api_import.rs
+++ b/crates/vertigo/src/driver_module/api/api_import.rs
@@ -656,12 +656,15 @@ impl ApiImport {
             .call("getRandom", vec![JsValue::U32(min), JsValue::U32(max)])
             .fetch();
 
-        if let JsValue::I32(result) = result {
-            result as u32
-        } else {
-            self.panic_message
-                .show(format!("api.get_random -> incorrect result {result:?}"));
-            min
+        match result {
+            JsValue::I32(result) => result as u32,
+            // numbers above i32::MAX come from the browser as floats
+            JsValue::F64(result) => result as u32,
+            _ => {
+                self.panic_message
+                    .show(format!("api.get_random -> incorrect result {result:?}"));
+                min
+            }
         }
     }
 
-- 
2.43.0


From 0410ad5b0068145eccbdebd17ea729935b60ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 50/55] fix: the debugging fragment shows the styles of the
 current class only

---
 crates/vertigo/src/inspect.rs | 36 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/crates/vertigo/src/inspect.rs b/crates/vertigo/src/inspect.rs
index 68f8f68..2c24334 100644
--- a/crates/vertigo/src/inspect.rs
+++ b/crates/vertigo/src/inspect.rs
@@ -60,29 +60,12 @@ impl DomDebugFragment {
                 }
                 DriverDomCommand::SetAttr { id, name, value } => {
                     if let Some(node) = map.get_mut(&id) {
-                        if name == "class".into() {
-                            if let Some(new_styles) = css.get(&format!(".{value}")) {
-                                let mut styles = String::new();
-                                if let Some(old_styles) = node.attrs.get(&("style".into())) {
-                                    styles.push_str(old_styles);
-                                }
-                                styles.push_str(new_styles);
-                                node.attrs.insert("style".into(), styles);
-                            } else {
-                                node.attrs.insert(name, value);
-                            }
-                        } else {
-                            node.attrs.insert(name, value);
-                        }
+                        node.attrs.insert(name, value);
                     }
                 }
                 DriverDomCommand::RemoveAttr { id, name } => {
                     if let Some(node) = map.get_mut(&id) {
-                        if name == "class".into() {
-                            // TODO
-                        } else {
-                            node.attrs.remove(&name);
-                        }
+                        node.attrs.remove(&name);
                     }
                 }
                 DriverDomCommand::RemoveNode { id }
@@ -164,6 +147,21 @@ impl DomDebugFragment {
             }
         }
 
+        // Show the styles the current class stands for
+        for node in map.values_mut() {
+            let styles = node
+                .attrs
+                .get(&("class".into()))
+                .and_then(|class| css.get(&format!(".{class}")));
+
+            if let Some(new_styles) = styles {
+                let mut styles = node.attrs.remove(&("style".into())).unwrap_or_default();
+                styles.push_str(new_styles);
+                node.attrs.insert("style".into(), styles);
+                node.attrs.remove(&("class".into()));
+            }
+        }
+
         // Try to return real root node
         let root_node = if let Some(root_node) = map
             .iter()
-- 
2.43.0


From c7180a96b72fd15494911539155e773dbbf3d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 51/55] fix: the text of a debugging fragment no longer varies
 from run to run

---
 crates/vertigo/src/inspect.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo/src/inspect.rs b/crates/vertigo/src/inspect.rs
index 2c24334..65e4d18 100644
--- a/crates/vertigo/src/inspect.rs
+++ b/crates/vertigo/src/inspect.rs
@@ -205,18 +205,21 @@ impl DomDebugFragment {
                     .map(|c| self.render(c))
                     .collect::<Vec<_>>()
                     .join("");
-                let attrs = node
+                // Sorted, as the order in the maps changes from run to run
+                let mut attrs = node
                     .attrs
                     .iter()
                     .map(|(k, v)| format!(" {k}='{v}'"))
-                    .collect::<Vec<_>>()
-                    .join("");
-                let callbacks = node
+                    .collect::<Vec<_>>();
+                attrs.sort();
+                let attrs = attrs.join("");
+                let mut callbacks = node
                     .callbacks
                     .iter()
                     .map(|(k, v)| format!(" {k}={}", v.as_u64()))
-                    .collect::<Vec<_>>()
-                    .join("");
+                    .collect::<Vec<_>>();
+                callbacks.sort();
+                let callbacks = callbacks.join("");
                 format!(
                     "<{}{attrs}{callbacks}>{children}</{}>",
                     node.name.as_str(),
-- 
2.43.0


From 6e4754d6961f84e5d0daa987556b1cf9543af40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 52/55] fix: the debugging fragment of a whole page starts at
 the html element

---
 crates/vertigo/src/inspect.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/inspect.rs b/crates/vertigo/src/inspect.rs
index 65e4d18..5c91fd9 100644
--- a/crates/vertigo/src/inspect.rs
+++ b/crates/vertigo/src/inspect.rs
@@ -163,7 +163,9 @@ impl DomDebugFragment {
         }
 
         // Try to return real root node
-        let root_node = if let Some(root_node) = map
+        let root_node = if map.contains_key(&DomId::root_id()) {
+            Some(DomId::root_id())
+        } else if let Some(root_node) = map
             .iter()
             .find(|(_, child)| child.parent_id == DomId::root_id())
             .map(|(id, _)| id)
-- 
2.43.0


From 68688e51ad894db4abe6e7e577760e8422fb5468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:37 +0000
Subject: [PATCH 53/55] fix: a comment in a style description became a part of
 the row that follows it

---
 crates/vertigo/src/css/transform_css/mod.rs   |  9 ++++--
 .../vertigo/src/css/transform_css/splits.rs   | 30 +++++++++++++++++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/mod.rs b/crates/vertigo/src/css/transform_css/mod.rs
index 095d5a9..66a860c 100644
--- a/crates/vertigo/src/css/transform_css/mod.rs
+++ b/crates/vertigo/src/css/transform_css/mod.rs
@@ -1,7 +1,9 @@
 use super::{get_selector::get_selector, next_id::NextId};
 
 mod splits;
-use splits::{css_row_split_to_pair, css_split_rows, css_split_selectors, find_brackets};
+use splits::{
+    css_remove_comments, css_row_split_to_pair, css_split_rows, css_split_selectors, find_brackets,
+};
 
 #[cfg(test)]
 mod tests;
@@ -138,7 +140,10 @@ pub fn transform_css(css: &str, next_id: &NextId) -> (u64, Vec<(String, String)>
     let mut css_out: Vec<String> = Vec::new();
     let mut css_documents: Vec<(String, String)> = Vec::new();
 
-    for row in css_split_rows(css) {
+    // A comment is not a part of the row it precedes
+    let css = css_remove_comments(css);
+
+    for row in css_split_rows(&css) {
         if row.starts_with([':', '[']) {
             // It's a pseudo-selector or references Css
             let extra_rule =
diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index d9509c2..163db70 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -1,3 +1,5 @@
+use std::ops::Range;
+
 #[derive(Eq, PartialEq, Debug)]
 enum RowSideState {
     Left,
@@ -8,7 +10,13 @@ enum RowSideState {
 // Characters (with their byte offsets) which can be a part of css structure,
 // so not those inside quotes, parentheses (i.e. data in `url(...)`) and comments
 fn structural_chars(css: &str) -> Vec<(usize, char)> {
+    scan(css).0
+}
+
+// Structural characters, and the byte ranges of comments
+fn scan(css: &str) -> (Vec<(usize, char)>, Vec<Range<usize>>) {
     let mut out = Vec::new();
+    let mut comments = Vec::new();
     let mut quote: Option<char> = None;
     let mut parentheses: usize = 0;
     let mut chars = css.char_indices().peekable();
@@ -29,8 +37,12 @@ fn structural_chars(css: &str) -> Vec<(usize, char)> {
                 chars.next();
             }
             '/' if parentheses == 0 && matches!(chars.peek(), Some((_, '*'))) => {
-                let end = css[index + 2..].find("*/").map(|end| index + 2 + end + 1);
-                while chars.next_if(|(pos, _)| end.map_or(true, |end| *pos <= end)).is_some() {}
+                let end = match css[index + 2..].find("*/") {
+                    Some(end) => index + 2 + end + 2,
+                    None => css.len(),
+                };
+                while chars.next_if(|(pos, _)| *pos < end).is_some() {}
+                comments.push(index..end);
             }
             '(' => parentheses += 1,
             ')' => parentheses = parentheses.saturating_sub(1),
@@ -39,6 +51,20 @@ fn structural_chars(css: &str) -> Vec<(usize, char)> {
         }
     }
 
+    (out, comments)
+}
+
+pub fn css_remove_comments(css: &str) -> String {
+    let mut out = String::with_capacity(css.len());
+    let mut start = 0;
+
+    for comment in scan(css).1 {
+        out.push_str(&css[start..comment.start]);
+        out.push(' ');
+        start = comment.end;
+    }
+
+    out.push_str(&css[start..]);
     out
 }
 
-- 
2.43.0


From 1cd4372c7bee531631cc0de4f58950c7d39e0cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 54/55] fix: posts of more than 2 MB were refused by the proxy

---
 crates/vertigo-cli/src/serve/serve_run.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index dde9f40..ff91fcd 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -1,6 +1,6 @@
 use axum::{
     body::{BoxBody, Bytes},
-    extract::{RawQuery, State},
+    extract::{DefaultBodyLimit, RawQuery, State},
     http::{header::HeaderMap, HeaderValue, StatusCode, Uri},
     response::Response,
     routing::get,
@@ -215,6 +215,8 @@ fn install_proxy(
                 }
             }),
         )
+        // The size of the body is up to the target
+        .layer(DefaultBodyLimit::disable())
         .with_state(ref_state);
 
     app.nest_service(path.as_str(), router)
-- 
2.43.0


From 5ca6bbd59692da7e271ab4365865f088a782c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 55/55] fix: embedded expressions in css! were separated from
 their unit, or not embedded at all

`width: {n}%;` came out as `width: 5 %` (only `px` was special-cased), and an
expression not at the beginning of a value (`border: 1px solid {color};`) was
emitted literally.
---
 crates/vertigo-macro/src/css.pest      |  4 +++-
 crates/vertigo-macro/src/css_parser.rs | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo-macro/src/css.pest b/crates/vertigo-macro/src/css.pest
index 1bf91a0..b3ab3f0 100644
--- a/crates/vertigo-macro/src/css.pest
+++ b/crates/vertigo-macro/src/css.pest
@@ -277,7 +277,9 @@ rule_ident = { (ASCII_ALPHA_LOWER | "@" | "-" ) ~ (ASCII_ALPHA_LOWER | "-")+ }
 value = _{ url_value | (simple_value)+ }
 simple_value = _{ expression | color_value | unquoted_value | quoted_value }
 
-unquoted_value = { (!semicolon ~ ANY)+ }
+unquoted_value = { (quoted_text | escaped_brace | !(semicolon | brace_left) ~ ANY)+ }
+quoted_text = _{ (singlequote ~ (!(singlequote | semicolon) ~ ANY)* ~ singlequote) | (doublequote ~ (!(doublequote | semicolon) ~ ANY)* ~ doublequote) }
+escaped_brace = _{ "{{" }
 quoted_value = { PUSH(quote) ~ (!PEEK ~ ANY)+ ~ POP }
 
 color_value = { hexa_value | hex_value | rgba_value | rgb_value | hsla_value | hsl_value }
diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index 1366cdf..ae54b3e 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -110,9 +110,18 @@ impl CssParser {
         let rule_ident = pairs.next().unwrap();
 
         let ident_str = rule_ident.as_str();
-        let mut value_strs = Vec::new();
+        let mut value_strs = String::new();
+        let mut last_end = None;
 
         for value in pairs {
+            let span = value.as_span();
+
+            // Parts of the value are separated only where they were separated in the source
+            if last_end.is_some_and(|last_end| last_end < span.start()) {
+                value_strs.push(' ');
+            }
+            last_end = Some(span.end());
+
             let value_str = match value.as_rule() {
                 Rule::color_value => value.as_str().to_string(),
                 Rule::unquoted_value => value.as_str().to_string(),
@@ -144,13 +153,10 @@ impl CssParser {
                     "".to_string()
                 }
             };
-            value_strs.push(value_str);
+            value_strs.push_str(&value_str);
         }
 
-        format!(
-            "{ident_str}: {};",
-            value_strs.join(" ").replace("} px", "}px")
-        )
+        format!("{ident_str}: {value_strs};")
     }
 
     fn generate_animation_rule(&mut self, pair: Pair<Rule>) -> String {
-- 
2.43.0

