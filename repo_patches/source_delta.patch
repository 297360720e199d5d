From 3cdcbef021829fb18704ac0f9d31046eea7e7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 01/48] fix: report the port that is missing when linking to an
 unknown second port

---
 src/portgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 65e8e0f..1336039 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -763,7 +763,7 @@ impl<PO: Unsigned> LinkMut for PortGraph<u32, u32, PO> {
         };
 
         let Some(meta_b) = self.port_meta_valid(port_b) else {
-            return Err(LinkError::UnknownPort { port: port_a });
+            return Err(LinkError::UnknownPort { port: port_b });
         };
 
         if meta_a.direction() == meta_b.direction() {
-- 
2.43.0


From a731e5e7fffc03e9b02c4dc3ee72857de1e2b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 02/48] fix: keep the free node list consistent when swapping
 free node slots

---
 src/portgraph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 1336039..f58ae24 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -616,6 +616,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
         let meta_a = self.node_meta[a.index()];
         let meta_b = self.node_meta[b.index()];
+        if let (NodeEntry::Free(_), NodeEntry::Free(_)) = (meta_a, meta_b) {
+            // There is nothing to swap. Leave the free list as it is.
+            return;
+        }
         self.node_meta.swap(a.index(), b.index());
         // Update the node indices in the ports metadata.
         let mut update_ports = |new_node: NodeIndex, entry: NodeEntry| {
@@ -635,6 +639,9 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         let mut update_free_list = |new_node: NodeIndex, entry: FreeNodeEntry| {
             if let Some(prev) = entry.prev.to_option() {
                 self.node_meta[prev.index()].free_entry_mut().unwrap().next = new_node.into();
+            } else {
+                // The entry was the head of the free list.
+                self.node_free = new_node.into();
             }
             if let Some(next) = entry.next.to_option() {
                 self.node_meta[next.index()].free_entry_mut().unwrap().prev = new_node.into();
-- 
2.43.0


From b4ac7f074270668050f371762c6b80fb2fc19686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 03/48] fix: free the port slab of a node when removing all its
 ports

---
 src/portgraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index f58ae24..d9f7a05 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -558,7 +558,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // old slab.
         //
         // TODO: Fine-tune overallocation factor
-        let target_capacity = new_total.next_power_of_two();
+        let target_capacity = match new_total {
+            0 => 0,
+            _ => new_total.next_power_of_two(),
+        };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
         // Move the port data.
-- 
2.43.0


From d7026c4d8edf96846bf9b09a4f603d5940abeb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 04/48] fix: return a linked subport, not the port itself, when
 unlinking a multiport

---
 src/multiportgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index f6e8468..53e4744 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -381,7 +381,7 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
         let dir = self.port_direction(copy_port).unwrap();
         debug_assert!(self.copy_node.get(copy_node));
 
-        let link = self.graph.links(copy_node, dir).next();
+        let link = self.graph.links(copy_node, dir.reverse()).next();
         let link = link.map(|(_, tgt)| self.get_subport_from_index(tgt).unwrap());
 
         let mut subports = self.graph._ports(copy_node, dir.reverse());
-- 
2.43.0


From e432d7b1b2542ec5c3b0277ca5fe8fe02f1524f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 05/48] fix: validate both ports before linking in a
 MultiPortGraph

A refused link left a new subport behind, blamed an internal port, or
linked to the internal port it had just allocated.
---
 src/multiportgraph.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 53e4744..700bdb9 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -306,6 +306,21 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
         port_a: PortIndex,
         port_b: PortIndex,
     ) -> Result<(SubportIndex, SubportIndex), LinkError<PO>> {
+        // Validate the ports before allocating any subport.
+        for port in [port_a, port_b] {
+            if !self.contains_port(port) {
+                return Err(LinkError::UnknownPort { port });
+            }
+        }
+        let dir = self.port_direction(port_a).unwrap();
+        if self.port_direction(port_b) == Some(dir) {
+            return Err(LinkError::IncompatibleDirections {
+                port_a,
+                port_b,
+                dir,
+            });
+        }
+
         let (multiport_a, index_a) = self.get_free_multiport(port_a)?;
         let (multiport_b, index_b) = self.get_free_multiport(port_b)?;
         self.graph.link_ports(index_a, index_b)?;
-- 
2.43.0


From a1f814a3661d470dee417104d703f0ea0f7ad7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:21 +0000
Subject: [PATCH 06/48] fix: clear the flags of removed multiports before
 moving the remaining ports

---
 src/multiportgraph.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 700bdb9..5f23763 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -227,7 +227,9 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
             match op {
                 PortOperation::Removed { old_link } => {
                     if *self.multiport.get(port) {
-                        dropped_ports.push((port, old_link.expect("Multiport node has no link")));
+                        // Clear the flag now, as moved ports may reuse the index.
+                        self.multiport.set(port, false);
+                        dropped_ports.push(old_link.expect("Multiport node has no link"));
                     }
                 }
                 PortOperation::Moved { new_index } => self.multiport.swap(port, new_index),
@@ -236,8 +238,8 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
         };
         self.graph
             .set_num_ports(node, incoming, outgoing, rekey_wrapper);
-        for (port, old_link) in dropped_ports {
-            self.remove_copy_node(port, old_link);
+        for copy_port in dropped_ports {
+            self.remove_copy_node(copy_port);
         }
     }
 
@@ -333,7 +335,8 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
                 .graph
                 .port_link(port)
                 .expect("MultiPortGraph error: a port marked as multiport has no link.");
-            self.remove_copy_node(port, link)
+            self.multiport.set(port, false);
+            self.remove_copy_node(link)
         } else {
             self.graph.unlink_port(port).map(SubportIndex::new_unique)
         }
@@ -384,24 +387,21 @@ impl<PO: Unsigned> MultiMut for MultiPortGraph<u32, u32, PO> {
 
 /// Internal helper methods
 impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
-    /// Remove an internal copy node.
+    /// Remove an internal copy node, given its port connecting to the main node.
+    ///
+    /// The multiport flag of the main node's port must be cleared by the caller.
     ///
     /// Returns one of the links, if the node was connected
-    fn remove_copy_node(
-        &mut self,
-        main_node_port: PortIndex,
-        copy_port: PortIndex,
-    ) -> Option<SubportIndex> {
+    fn remove_copy_node(&mut self, copy_port: PortIndex) -> Option<SubportIndex> {
         let copy_node = self.graph.port_node(copy_port).unwrap();
         let dir = self.port_direction(copy_port).unwrap();
         debug_assert!(self.copy_node.get(copy_node));
 
         let link = self.graph.links(copy_node, dir.reverse()).next();
-        let link = link.map(|(_, tgt)| self.get_subport_from_index(tgt).unwrap());
+        let link = link.and_then(|(_, tgt)| self.get_subport_from_index(tgt));
 
         let mut subports = self.graph._ports(copy_node, dir.reverse());
         self.multiport.set(copy_port, false);
-        self.multiport.set(main_node_port, false);
         self.copy_node.set(copy_node, false);
         self.graph.remove_node(copy_node);
         self.copy_node_count -= 1;
-- 
2.43.0


From 8bded7d04c0b051f97a5a65dcf22a103dd040d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:21 +0000
Subject: [PATCH 07/48] fix: return the linked subport when unlinking a port
 connected to a multiport

---
 src/multiportgraph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 5f23763..7b59a56 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -338,7 +338,8 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
             self.multiport.set(port, false);
             self.remove_copy_node(link)
         } else {
-            self.graph.unlink_port(port).map(SubportIndex::new_unique)
+            let link = self.graph.unlink_port(port)?;
+            self.get_subport_from_index(link)
         }
     }
 }
-- 
2.43.0


From 20ebe32dbefd9f3ea6e2359f447fe7919f8877d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 08/48] fix: report links between visible ports when removing
 ports of a MultiPortGraph

---
 src/multiportgraph.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 7b59a56..4a0ed55 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -15,6 +15,7 @@ use crate::{
 use delegate::delegate;
 
 use bitvec::vec::BitVec;
+use std::collections::HashMap;
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -223,16 +224,25 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
         F: FnMut(PortIndex, PortOperation),
     {
         let mut dropped_ports = Vec::new();
-        let rekey_wrapper = |port, op| {
-            match op {
+        // The ports linked to each port to be removed, looking past the copy nodes.
+        let old_links: HashMap<PortIndex, PortIndex> = self
+            .graph
+            ._inputs(node)
+            .skip(incoming)
+            .chain(self.graph._outputs(node).skip(outgoing))
+            .filter_map(|port| Some((port, self.port_link(port)?.port())))
+            .collect();
+        let rekey_wrapper = |port, mut op| {
+            match &mut op {
                 PortOperation::Removed { old_link } => {
                     if *self.multiport.get(port) {
                         // Clear the flag now, as moved ports may reuse the index.
                         self.multiport.set(port, false);
                         dropped_ports.push(old_link.expect("Multiport node has no link"));
                     }
+                    *old_link = old_link.and_then(|_| old_links.get(&port).copied());
                 }
-                PortOperation::Moved { new_index } => self.multiport.swap(port, new_index),
+                PortOperation::Moved { new_index } => self.multiport.swap(port, *new_index),
             }
             rekey(port, op);
         };
-- 
2.43.0


From f504ceec677840203e104c1d22ac97594e515386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 09/48] fix: report errors of link_subports instead of
 panicking or blaming internal ports

---
 src/multiportgraph.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 4a0ed55..03af0ba 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -378,14 +378,28 @@ impl<PO: Unsigned> MultiMut for MultiPortGraph<u32, u32, PO> {
         subport_to: SubportIndex,
     ) -> Result<(), LinkError<PO>> {
         // TODO: Custom errors
+        let (port_from, port_to) = (subport_from.port(), subport_to.port());
         let from_index = self
             .get_subport_index(subport_from)
-            .expect("subport_from does not exist");
+            .ok_or(LinkError::UnknownPort { port: port_from })?;
         let to_index = self
             .get_subport_index(subport_to)
-            .expect("subport_to does not exist");
-        self.graph.link_ports(from_index, to_index)?;
-        Ok(())
+            .ok_or(LinkError::UnknownPort { port: port_to })?;
+        match self.graph.link_ports(from_index, to_index) {
+            Ok(_) => Ok(()),
+            // Do not expose the ports of the copy nodes.
+            Err(LinkError::AlreadyLinked { port }) => Err(LinkError::AlreadyLinked {
+                port: if port == from_index { port_from } else { port_to },
+            }),
+            Err(LinkError::IncompatibleDirections { dir, .. }) => {
+                Err(LinkError::IncompatibleDirections {
+                    port_a: port_from,
+                    port_b: port_to,
+                    dir,
+                })
+            }
+            Err(err) => Err(err),
+        }
     }
 
     fn unlink_subport(&mut self, subport: SubportIndex) -> Option<SubportIndex> {
@@ -600,7 +614,7 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
             let subport_offset = PortOffset::new(dir, subport.offset());
             self.graph.port_index(copy_node, subport_offset)
         } else {
-            Some(port_index)
+            (subport.offset() == 0).then_some(port_index)
         }
     }
 
-- 
2.43.0


From 5f39207770ed17b48dd40b425c87a5c6a8c127c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 10/48] fix: check the port count limits before allocating
 ports

Nodes with more ports than the limit were silently created with a
truncated count, and growing a node past 2^15 ports panicked midway.
---
 src/portgraph.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index d9f7a05..89de757 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -459,6 +459,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
             outgoing <= PortOffset::<PO>::max_offset(),
             "Outgoing port count exceeds maximum."
         );
+        assert!(
+            incoming <= NodeMeta::MAX_INCOMING && incoming + outgoing <= NodeMeta::MAX_PORTS,
+            "Total port count exceeds maximum."
+        );
 
         let node = self.alloc_node();
         let node_meta = self.alloc_ports(node, incoming, outgoing, 0);
@@ -517,13 +521,17 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         F: FnMut(PortIndex, PortOperation),
     {
         assert!(
-            incoming <= NodeMeta::MAX_INCOMING,
+            incoming <= NodeMeta::MAX_INCOMING && incoming <= PortOffset::<PO>::max_offset(),
             "Incoming port count exceeds maximum."
         );
         assert!(
-            outgoing <= NodeMeta::MAX_OUTGOING,
+            outgoing <= NodeMeta::MAX_OUTGOING && outgoing <= PortOffset::<PO>::max_offset(),
             "Outgoing port count exceeds maximum."
         );
+        assert!(
+            incoming + outgoing <= NodeMeta::MAX_PORTS,
+            "Total port count exceeds maximum."
+        );
 
         let new_total = incoming + outgoing;
 
@@ -560,7 +568,7 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // TODO: Fine-tune overallocation factor
         let target_capacity = match new_total {
             0 => 0,
-            _ => new_total.next_power_of_two(),
+            _ => new_total.next_power_of_two().min(NodeMeta::MAX_PORTS),
         };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
@@ -834,6 +842,8 @@ impl NodeMeta {
     const MAX_INCOMING: usize = u16::MAX as usize - 1;
     /// The maximum number of outgoing ports for a node.
     const MAX_OUTGOING: usize = u16::MAX as usize;
+    /// The maximum total number of ports for a node, and its maximum capacity.
+    const MAX_PORTS: usize = u16::MAX as usize;
 
     #[inline]
     pub fn new(first_port: PortIndex, incoming: u16, outgoing: u16, capacity: u16) -> Self {
-- 
2.43.0


From a1bfd7de42b5e65c79e75c076f21a42699f40827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:47 +0000
Subject: [PATCH 11/48] fix: refuse to attach a node to itself in a Hierarchy

---
 src/hierarchy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index 333ef9b..af8cab2 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -273,6 +273,11 @@ impl Hierarchy {
 
     /// Ensures that making `node` a child of `parent` would not introduce a cycle.
     fn cycle_check(&self, node: NodeIndex, mut parent: NodeIndex) -> bool {
+        // A node can not be its own child.
+        if node == parent {
+            return false;
+        }
+
         // When `node` does not have any children it can't contain `parent`.
         if self.get(node).children[0].is_none() {
             debug_assert!(self.get(node).children[1].is_none());
-- 
2.43.0


From 640509afecd08c86074054cb294589c6d5b04d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:47 +0000
Subject: [PATCH 12/48] fix: rekeying a hierarchy node to its own index is a
 no-op

---
 src/hierarchy.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index af8cab2..471f854 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -473,12 +473,12 @@ impl Hierarchy {
     ///
     /// Panics if the index `new` is not a root without any children.
     pub fn rekey(&mut self, old: NodeIndex, new: NodeIndex) {
-        if self.get(new) != &NodeData::default() {
-            panic!("can not rekey into an occupied slot");
-        }
         if old == new {
             return;
         }
+        if self.get(new) != &NodeData::default() {
+            panic!("can not rekey into an occupied slot");
+        }
         let node_data = mem::take(self.get_mut(old));
 
         self.rekey_in_children(node_data, new);
-- 
2.43.0


From 411123bdb399e47e520e8e41595731d1581f1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:47 +0000
Subject: [PATCH 13/48] fix: leave the default of the map behind when rekeying

---
 src/unmanaged.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unmanaged.rs b/src/unmanaged.rs
index 23aeb87..3838784 100644
--- a/src/unmanaged.rs
+++ b/src/unmanaged.rs
@@ -164,7 +164,8 @@ where
         V: Default,
     {
         if old.into() < self.data.len() {
-            let val = mem::take(self.get_mut(old));
+            let default = self.default.clone();
+            let val = mem::replace(self.get_mut(old), default);
             let Some(new) = new else { return };
             if new.into() >= self.data.len() {
                 self.resize_for_get_mut(new.into() + 1);
@@ -173,7 +174,7 @@ where
         } else {
             let Some(new) = new else { return };
             if new.into() < self.data.len() {
-                self.data[new.into()] = Default::default();
+                self.data[new.into()] = self.default.clone();
             }
         }
     }
-- 
2.43.0


From 8e32e02e5c001d32d22cbec85a5a7dcb25c6a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:53 +0000
Subject: [PATCH 14/48] fix: reserve the requested capacity in secondary maps

---
 src/secondary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/secondary.rs b/src/secondary.rs
index 1de9404..4165e53 100644
--- a/src/secondary.rs
+++ b/src/secondary.rs
@@ -115,7 +115,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        BitVec::reserve(self, capacity.saturating_sub(self.capacity()));
+        BitVec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     #[inline]
@@ -268,7 +268,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        HashSet::reserve(self, capacity.saturating_sub(self.capacity()));
+        HashSet::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     #[inline]
-- 
2.43.0


From 9d9fb9c6499c0d184a18c24a66eb483131ba215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 15/48] fix: refuse indices above the documented maximum

---
 src/index.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/index.rs b/src/index.rs
index ff3d9fc..71226e2 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -458,6 +458,7 @@ impl<U: Unsigned> BitField<U> {
     /// Create a new bit field with the given index and bit flag.
     #[inline(always)]
     fn new(index: usize, bit_flag: bool) -> Self {
+        assert!(index <= Self::max_index(), "index too large");
         let u = U::from_usize(index).expect("index too large");
         let ret = Self(u);
         if bit_flag {
-- 
2.43.0


From 1a4beb6781df16ed5c3d40e3747bdbf9c0ed85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:27 +0000
Subject: [PATCH 16/48] fix: FlatRegion::is_empty of a region without its root
 and without children

---
 src/view/flat_region.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/view/flat_region.rs b/src/view/flat_region.rs
index b21f62e..baf06d1 100644
--- a/src/view/flat_region.rs
+++ b/src/view/flat_region.rs
@@ -129,8 +129,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        // The region root is always present
-        false
+        self.nodes_iter().next().is_none()
     }
 
     #[inline]
-- 
2.43.0


From cb964789cc2bc297d9dad88010bb94e3f30fd644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:32 +0000
Subject: [PATCH 17/48] fix: regions of a view contained nodes that the view
 does not

---
 src/view/flat_region.rs |  8 +++++---
 src/view/region.rs      | 11 ++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/view/flat_region.rs b/src/view/flat_region.rs
index baf06d1..a6db2c7 100644
--- a/src/view/flat_region.rs
+++ b/src/view/flat_region.rs
@@ -115,8 +115,9 @@ where
 
     #[inline(always)]
     fn contains_node(&'_ self, node: NodeIndex) -> bool {
-        (self.include_root && node == self.region_root)
-            || self.hierarchy.parent(node) == Some(self.region_root)
+        let in_region = (self.include_root && node == self.region_root)
+            || self.hierarchy.parent(node) == Some(self.region_root);
+        in_region && self.graph.contains_node(node)
     }
 
     #[inline(always)]
@@ -134,7 +135,7 @@ where
 
     #[inline]
     fn node_count(&self) -> usize {
-        self.hierarchy.child_count(self.region_root) + self.include_root as usize
+        self.nodes_iter().count()
     }
 
     #[inline]
@@ -147,6 +148,7 @@ where
         let root = self.include_root.then_some(self.region_root);
         root.into_iter()
             .chain(self.hierarchy.children(self.region_root))
+            .filter(|&n| self.graph.contains_node(n))
     }
 
     #[inline]
diff --git a/src/view/region.rs b/src/view/region.rs
index bba40ba..918ca2f 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -150,7 +150,7 @@ where
 
     #[inline(always)]
     fn contains_node(&'_ self, node: NodeIndex) -> bool {
-        self.is_descendant(node)
+        self.is_descendant(node) && self.graph.contains_node(node)
     }
 
     #[inline(always)]
@@ -163,8 +163,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        // The region root is always present
-        false
+        self.nodes_iter().next().is_none()
     }
 
     #[inline]
@@ -179,7 +178,9 @@ where
 
     #[inline]
     fn nodes_iter(&self) -> impl Iterator<Item = NodeIndex> + Clone {
-        self.hierarchy.descendants(self.region_root)
+        self.hierarchy
+            .descendants(self.region_root)
+            .filter(|&n| self.graph.contains_node(n))
     }
 
     #[inline]
@@ -225,7 +226,7 @@ where
         from: NodeIndex,
         to: NodeIndex,
     ) -> impl Iterator<Item = (Self::LinkEndpoint, Self::LinkEndpoint)> + Clone {
-        if self.is_descendant(from) && self.is_descendant(to) {
+        if self.contains_node(from) && self.contains_node(to) {
             Either::Left(self.graph.get_connections(from, to))
         } else {
             Either::Right(std::iter::empty())
-- 
2.43.0


From 3fc2f650fb62c49dcea95a3a7838eda43fcb9ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:22 +0000
Subject: [PATCH 18/48] fix: FilteredGraph::link_count counted most links twice

---
 src/view/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index a5d4384..31aafb2 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -225,7 +225,7 @@ where
 
     fn link_count(&self) -> usize {
         self.nodes_iter()
-            .flat_map(|node| self.all_links(node))
+            .flat_map(|node| self.links(node, Direction::Outgoing))
             .count()
     }
 }
-- 
2.43.0


From 2df5a6e38ba115188edec0ca3181e4dcbe4c9bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:22 +0000
Subject: [PATCH 19/48] fix: FilteredGraph::subport_link reported links to
 filtered nodes

---
 src/view/filter.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index 31aafb2..9560d12 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -251,13 +251,7 @@ where
     }
 
     fn subport_link(&self, subport: Self::LinkEndpoint) -> Option<Self::LinkEndpoint> {
-        if !(self.link_filter)(subport.into(), &self.context) {
-            return None;
-        }
         let to = self.graph.subport_link(subport)?;
-        if !(self.link_filter)(to.into(), &self.context) {
-            return None;
-        }
-        Some(to)
+        self.link_filter(&(subport, to)).then_some(to)
     }
 }
-- 
2.43.0


From 89a595c4606395d4d19ef0381d9e048a3fa4b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:57 +0000
Subject: [PATCH 20/48] fix: regions reported subport links that leave the
 region

---
 src/view/flat_region.rs | 2 +-
 src/view/region.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view/flat_region.rs b/src/view/flat_region.rs
index a6db2c7..3fe6fff 100644
--- a/src/view/flat_region.rs
+++ b/src/view/flat_region.rs
@@ -276,7 +276,7 @@ where
     fn subport_link(&self, subport: Self::LinkEndpoint) -> Option<Self::LinkEndpoint> {
         self.graph
             .subport_link(subport)
-            .filter(|&p| self.contains_endpoint(p))
+            .filter(|&p| self.contains_link((subport, p)))
     }
 }
 
diff --git a/src/view/region.rs b/src/view/region.rs
index 918ca2f..0061116 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -307,7 +307,7 @@ where
     fn subport_link(&self, subport: Self::LinkEndpoint) -> Option<Self::LinkEndpoint> {
         self.graph
             .subport_link(subport)
-            .filter(|&p| self.contains_endpoint(p))
+            .filter(|&p| self.contains_link((subport, p)))
     }
 }
 
-- 
2.43.0


From e2d2002c58b5d83adeaf06de8620609096889546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:29 +0000
Subject: [PATCH 21/48] fix: boundaries in multigraphs only followed one link
 of each port

---
 src/boundary.rs | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index 92c04a6..4a00f67 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -305,20 +305,12 @@ impl Boundary {
         &self,
         graph: &'g impl LinkView,
     ) -> impl Iterator<Item = NodeIndex> + 'g {
-        // For every visited edge, we mark both ports as visited
-        let mut visited = BTreeSet::new();
+        let boundary: BTreeSet<_> = self.port_indices().collect();
 
         // The set of nodes to traverse
-        let mut nodes_to_process: BTreeSet<_> = self
-            .port_indices()
-            .map(|p| {
-                let this_node = graph.port_node(p).unwrap();
-                if let Some(other_port) = graph.port_link(p) {
-                    visited.insert(other_port.into());
-                }
-                visited.insert(p);
-                this_node
-            })
+        let mut nodes_to_process: BTreeSet<_> = boundary
+            .iter()
+            .map(|&p| graph.port_node(p).unwrap())
             .collect();
 
         if nodes_to_process.is_empty() {
@@ -326,17 +318,18 @@ impl Boundary {
             nodes_to_process = graph.nodes_iter().collect();
         }
 
+        // All the nodes that have been added to `nodes_to_process`
+        let mut visited = nodes_to_process.clone();
+
         std::iter::successors(nodes_to_process.pop_first(), move |&node| {
-            // Traverse every unvisited edge in `node`
-            for p in graph.all_ports(node) {
-                if visited.insert(p) {
-                    // Visit it
-                    if let Some(other_port) = graph.port_link(p) {
-                        visited.insert(other_port.into());
-                        // Possibly a new node!
-                        let other_node = graph.port_node(other_port).unwrap();
-                        nodes_to_process.insert(other_node);
-                    }
+            // Traverse every edge in `node` that is not part of the boundary
+            for (p, other_port) in graph.all_links(node) {
+                if boundary.contains(&p.into()) || boundary.contains(&other_port.into()) {
+                    continue;
+                }
+                let other_node = graph.port_node(other_port).unwrap();
+                if visited.insert(other_node) {
+                    nodes_to_process.insert(other_node);
                 }
             }
             nodes_to_process.pop_first()
-- 
2.43.0


From 6634845a1cf0f0aeaf3b4e30d06ab54a92fa24c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:27 +0000
Subject: [PATCH 22/48] fix: a region cloned while its cache is locked
 contained only its root

---
 src/view/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view/region.rs b/src/view/region.rs
index 0061116..4c91f48 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -128,10 +128,10 @@ impl<G: PartialEq> PartialEq for Region<'_, G> {
 impl<G: Clone> Clone for Region<'_, G> {
     fn clone(&self) -> Self {
         // Clone the cache if it is not currently locked.
-        // Otherwise, create a new empty cache.
+        // Otherwise, create a new cache containing only the root.
         let is_descendant = match self.is_descendant.try_read() {
             Ok(cache) => cache.clone(),
-            Err(_) => HashMap::new(),
+            Err(_) => HashMap::from([(self.region_root, false)]),
         };
         Self {
             graph: self.graph.clone(),
-- 
2.43.0


From ffc770dde5f227b83e49d9c22046cbf9cddce01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:49 +0000
Subject: [PATCH 23/48] fix: toposort visited nodes before all links of a port
 were seen, and mixed up filtered links

---
 src/algorithms/toposort.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index e2849f7..8ad49fc 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -233,7 +233,7 @@ where
                 !self.visited_ports.get(p)
             } else if *self.visited_ports.get(p) {
                 true
-            } else if self.graph.port_link(p).is_none() || self.ignore_port(node, p) {
+            } else if self.ignore_port(node, p) || !self.has_pending_links(p) {
                 // If the port is not linked or should be ignored, mark it as visited.
                 self.visited_ports.set(p, true);
                 true
@@ -243,6 +243,22 @@ where
         })
     }
 
+    /// Returns `true` if a port of a node has links that are not ignored and
+    /// come from nodes that have not been visited yet.
+    fn has_pending_links(&mut self, port: PortIndex) -> bool {
+        let sources: SmallVec<[PortIndex; 2]> = self
+            .graph
+            .port_links(port)
+            .map(|(_, source)| source.into())
+            .collect();
+        sources.into_iter().any(|source| {
+            let node = self.graph.port_node(source).unwrap();
+            !*self.visited_ports.get(source)
+                && !self.ignore_node(node)
+                && !self.ignore_port(node, source)
+        })
+    }
+
     /// Returns `true` if the node should be ignored.
     #[inline]
     fn ignore_node(&mut self, node: NodeIndex) -> bool {
@@ -288,6 +304,11 @@ where
             for port in linked_ports {
                 let target = self.graph.port_node(port).unwrap();
 
+                // The port is only visited with the last of its links, and not
+                // at all if it is ignored.
+                if self.ignore_port(target, port) || self.has_pending_links(port) {
+                    continue;
+                }
                 if self.becomes_ready(target, port) {
                     self.candidate_nodes.push_back(target);
                 }
-- 
2.43.0


From 086743ba47431bcdc6e8d59abe2c7831407ba9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:53 +0000
Subject: [PATCH 24/48] fix: toposort yielded repeated sources twice and never
 yielded added sources without ports

---
 src/algorithms/toposort.rs | 46 +++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index 8ad49fc..ba9e647 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -1,7 +1,11 @@
 use crate::{Direction, LinkView, NodeIndex, PortIndex, SecondaryMap};
 use bitvec::prelude::BitVec;
 use smallvec::SmallVec;
-use std::{collections::VecDeque, fmt::Debug, iter::FusedIterator};
+use std::{
+    collections::{HashSet, VecDeque},
+    fmt::Debug,
+    iter::FusedIterator,
+};
 
 /// Returns an iterator over a [`LinkView`] in topological order.
 ///
@@ -117,6 +121,8 @@ pub struct TopoSort<'f, G, Map = BitVec> {
     /// A VecDeque is used for the node list to produce a canonical ordering,
     /// as successors of nodes already have a canonical ordering due to ports.
     candidate_nodes: VecDeque<NodeIndex>,
+    /// The nodes that have been added as sources.
+    sources: HashSet<NodeIndex>,
     direction: Direction,
     /// The number of nodes already returned from the iterator.
     /// This is used to calculate the upper bound for the iterator's `size_hint`.
@@ -144,17 +150,11 @@ where
         graph: G,
         source: impl IntoIterator<Item = NodeIndex>,
         direction: Direction,
-        mut node_filter: Option<Box<dyn FnMut(NodeIndex) -> bool + 'f>>,
+        node_filter: Option<Box<dyn FnMut(NodeIndex) -> bool + 'f>>,
         port_filter: Option<Box<dyn FnMut(NodeIndex, PortIndex) -> bool + 'f>>,
     ) -> Self {
         let mut visited_ports: Map = SecondaryMap::new();
 
-        let candidate_nodes: VecDeque<_> = if let Some(node_filter) = node_filter.as_mut() {
-            source.into_iter().filter(|&n| node_filter(n)).collect()
-        } else {
-            source.into_iter().collect()
-        };
-
         // If the default value of `Map` is not `false`, we must mark all ports as not visited.
         if visited_ports.default_value() {
             for port in graph.ports_iter() {
@@ -162,22 +162,18 @@ where
             }
         }
 
-        // Mark all the candidate ports as visited, so we don't visit them again.
-        for node in candidate_nodes.iter() {
-            for port in graph.ports(*node, direction.reverse()) {
-                visited_ports.set(port, true);
-            }
-        }
-
-        Self {
+        let mut topo = Self {
             graph,
             visited_ports,
-            candidate_nodes,
+            candidate_nodes: VecDeque::new(),
+            sources: HashSet::new(),
             direction,
             nodes_seen: 0,
             node_filter,
             port_filter,
-        }
+        };
+        topo.add_sources(source);
+        topo
     }
 
     /// Returns whether there are ports that have not been visited yet.
@@ -193,23 +189,17 @@ where
     /// Nodes that have already been yielded will not be returned again.
     pub fn add_sources(&mut self, sources: impl IntoIterator<Item = NodeIndex>) {
         for node in sources.into_iter() {
-            if self.ignore_node(node) {
+            if self.ignore_node(node) || !self.sources.insert(node) {
                 continue;
             };
 
-            let mut new_candidate = false;
+            // Mark all the incoming ports as visited, so we don't visit them again.
+            // A node without incoming ports can only have been added as a source.
+            let mut new_candidate = self.graph.num_ports(node, self.direction.reverse()) == 0;
             for port in self.graph.ports(node, self.direction.reverse()) {
                 new_candidate |= !self.visited_ports.get(port);
                 self.visited_ports.set(port, true);
             }
-            if self.graph.num_ports(node, self.direction.reverse()) == 0 {
-                // If the node has no incoming ports, we check if it has been visited by looking at the outgoing ports.
-                new_candidate = !self.candidate_nodes.contains(&node)
-                    && self
-                        .graph
-                        .ports(node, self.direction)
-                        .any(|p| !self.visited_ports.get(p));
-            }
 
             if new_candidate {
                 self.candidate_nodes.push_back(node);
-- 
2.43.0


From 636f57746c02beac47df8b8ea62bc14aaccfbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:11 +0000
Subject: [PATCH 25/48] fix: dominators panicked when the filter rejects the
 entry

---
 src/algorithms/dominators.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/dominators.rs b/src/algorithms/dominators.rs
index 796609c..250a798 100644
--- a/src/algorithms/dominators.rs
+++ b/src/algorithms/dominators.rs
@@ -157,7 +157,14 @@ where
         // We set the entry node (i.e. the last node in the post oder traversal) it to dominate itself.
         let num_nodes = index_to_node.len();
         let mut dominators = vec![usize::MAX; num_nodes];
-        *dominators.last_mut().unwrap() = num_nodes - 1;
+        let Some(entry_dominator) = dominators.last_mut() else {
+            // The entry node is filtered out.
+            return Self {
+                root: entry,
+                idom: Map::new(),
+            };
+        };
+        *entry_dominator = num_nodes - 1;
 
         // Iterate until we have reached a fixed point
         let mut changed = true;
-- 
2.43.0


From bb58a39b0539d73af408c13538dee625427041c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:09 +0000
Subject: [PATCH 26/48] fix: dominators treated unreachable predecessors as a
 reachable node

---
 src/algorithms/dominators.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/dominators.rs b/src/algorithms/dominators.rs
index 250a798..6352b16 100644
--- a/src/algorithms/dominators.rs
+++ b/src/algorithms/dominators.rs
@@ -137,7 +137,9 @@ where
     ) -> Self {
         // We traverse the graph in post order starting at the `entry` node.
         // We associate each node that we encounter with its index within the traversal.
-        let mut node_to_index = UnmanagedDenseMap::with_capacity(graph.node_capacity());
+        // Unreachable nodes keep the default value.
+        let mut node_to_index =
+            UnmanagedDenseMap::with_capacity_and_default(graph.node_capacity(), usize::MAX);
         let mut index_to_node = Vec::with_capacity(graph.node_capacity());
 
         for (index, node) in postorder_filtered(
@@ -190,8 +192,8 @@ where
                             return None;
                         }
                         let pred_index = node_to_index[pred];
-                        if dominators[pred_index] == usize::MAX {
-                            // No dominator yet
+                        if pred_index == usize::MAX || dominators[pred_index] == usize::MAX {
+                            // Unreachable, or no dominator yet
                             return None;
                         }
                         Some(pred_index)
-- 
2.43.0


From e552770f91c2ddff0fc121e30f3da9a93c219ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:28 +0000
Subject: [PATCH 27/48] fix: a refused insert_graph left part of the graph
 behind

---
 src/view.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/view.rs b/src/view.rs
index a3da097..857e42e 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -602,12 +602,19 @@ pub trait LinkMut: LinkView + PortMut {
                 let Some(&other_node) = rekeys.get(&other.port_node(to).unwrap()) else {
                     continue;
                 };
-                self.link_offsets(
+                let linked = self.link_offsets(
                     new,
                     other.port_offset(from).unwrap(),
                     other_node,
                     other.port_offset(to).unwrap(),
-                )?;
+                );
+                if let Err(err) = linked {
+                    // Do not leave a partial copy behind.
+                    for &node in rekeys.values() {
+                        self.remove_node(node);
+                    }
+                    return Err(err);
+                }
             }
         }
         Ok(rekeys)
-- 
2.43.0


From 270d2cf74583987b49ef9bf81641f65925ae1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:03 +0000
Subject: [PATCH 28/48] fix: LineConvexChecker panicked on the empty subgraph

---
 src/algorithms/convex/line_convex_checker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 04fb1f5..6aa7983 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -207,11 +207,14 @@ impl<G: LinkView> LineConvexChecker<G> {
     /// In other words, check if there is a path in `self.graph()` from an end
     /// of one interval to the start of another.
     pub fn is_convex_by_intervals(&self, intervals: &LineIntervals) -> bool {
-        let max_start_pos = intervals
+        let Some(max_start_pos) = intervals
             .values()
             .map(|LineInterval { min, .. }| min)
             .max()
-            .unwrap();
+        else {
+            // The empty subgraph is convex.
+            return true;
+        };
         let mut future_nodes = VecDeque::from_iter(intervals.iter().filter_map(
             |(line, LineInterval { max, .. })| {
                 let ind = self.find_index(line, max).expect("max not on line");
-- 
2.43.0


From cbd68b3908534eda0a6c7ddc227b5af382a2c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:53 +0000
Subject: [PATCH 29/48] fix: convexity checkers only followed one link of each
 boundary port

---
 src/algorithms/convex/line_convex_checker.rs | 2 +-
 src/algorithms/convex/topo_convex_checker.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 6aa7983..0959df3 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -639,7 +639,7 @@ impl<G: LinkView> ConvexChecker for LineConvexChecker<G> {
     ) -> bool {
         let pre_outputs: BTreeSet<_> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p).map(|(_, linked)| linked.into()))
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
diff --git a/src/algorithms/convex/topo_convex_checker.rs b/src/algorithms/convex/topo_convex_checker.rs
index 883ebe8..31d7b76 100644
--- a/src/algorithms/convex/topo_convex_checker.rs
+++ b/src/algorithms/convex/topo_convex_checker.rs
@@ -129,7 +129,7 @@ impl<G: LinkView> ConvexChecker for TopoConvexChecker<G> {
     ) -> bool {
         let pre_outputs: BTreeSet<_> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p).map(|(_, linked)| linked.into()))
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
-- 
2.43.0


From 62bcc2a9cabca20f446437fc75ffbbb32dfbebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 30/48] fix: DynamicTopoConvexChecker::is_convex did not follow
 its definition

---
 src/algorithms/dynamic.rs | 152 +++++++-------------------------------
 1 file changed, 28 insertions(+), 124 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 052c3a7..0b7ff4f 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -4,7 +4,6 @@ use crate::{
     Direction, LinkError, LinkMut, LinkView, NodeIndex, PortIndex, PortMut, PortOffset, PortView,
 };
 use delegate::delegate;
-use std::cmp::{max, min};
 use std::collections::{HashMap, HashSet, VecDeque};
 use thiserror::Error;
 
@@ -215,78 +214,6 @@ impl DynamicTopoSort {
     pub fn get_order(&self) -> &Vec<NodeIndex> {
         &self.order
     }
-
-    fn has_path_outside_subgraph<G: LinkView>(
-        &self,
-        start: NodeIndex,
-        end: NodeIndex,
-        min_pos: usize,
-        max_pos: usize,
-        nodes: &HashSet<NodeIndex>,
-        graph: &G,
-    ) -> bool {
-        let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back(start);
-        while let Some(node) = queue.pop_front() {
-            if !nodes.contains(&node) && node != start {
-                return true;
-            }
-            if node == end {
-                continue;
-            }
-            if visited.insert(node) {
-                for n in graph.output_neighbours(node) {
-                    let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                    if n_pos >= min_pos && n_pos <= max_pos {
-                        queue.push_back(n);
-                    }
-                }
-            }
-        }
-        false
-    }
-
-    /// Checks if `start` can reach any input within position bounds, going outside `nodes`.
-    fn can_reach_inputs<G: LinkView + PortView>(
-        &self,
-        start: NodeIndex,
-        min_pos: usize,
-        max_pos: usize,
-        nodes: &HashSet<NodeIndex>,
-        inputs: &[PortIndex],
-        graph: &G,
-    ) -> bool {
-        let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back((start, false));
-        while let Some((node, has_exited)) = queue.pop_front() {
-            if visited.contains(&node) {
-                continue;
-            }
-            visited.insert(node);
-            let pos = *self.node_to_pos.get(&node).unwrap_or(&usize::MAX);
-            if pos < min_pos || pos > max_pos {
-                continue;
-            }
-            let is_outside = !nodes.contains(&node) && node != start;
-            let current_exited = has_exited || is_outside;
-            if current_exited {
-                for &input in inputs {
-                    if graph.port_node(input) == Some(node) {
-                        return true; // Reached an input via a path that exited the subgraph
-                    }
-                }
-            }
-            for n in graph.input_neighbours(node) {
-                let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                if n_pos >= min_pos && n_pos <= max_pos {
-                    queue.push_back((n, current_exited));
-                }
-            }
-        }
-        false
-    }
 }
 
 /// A dynamic topological convex checker for portgraphs.
@@ -450,63 +377,40 @@ where
                 return false;
             }
         }
-        if nodes.len() < 2 {
-            return true;
-        }
-        let inputs: Vec<PortIndex> = inputs.into_iter().collect();
-        let outputs: Vec<PortIndex> = outputs.into_iter().collect();
-        let mut min_pos = usize::MAX;
-        let mut max_pos = 0;
 
-        for &node in &nodes {
-            if let Some(&pos) = self.topo_sort.node_to_pos.get(&node) {
-                min_pos = min(min_pos, pos);
-                max_pos = max(max_pos, pos);
-            } else {
-                return false;
-            }
+        // There must be no edge from an output port to an input port.
+        let pre_outputs: HashSet<PortIndex> = outputs
+            .into_iter()
+            .flat_map(|p| self.graph.port_links(p).map(|(_, linked)| linked.into()))
+            .collect();
+        if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
+            return false;
         }
 
-        if inputs.is_empty() && outputs.is_empty() {
-            for &start in &nodes {
-                for &end in &nodes {
-                    if start == end {
-                        continue;
-                    }
-                    let start_pos = *self.topo_sort.node_to_pos.get(&start).unwrap();
-                    let end_pos = *self.topo_sort.node_to_pos.get(&end).unwrap();
-                    if start_pos < end_pos
-                        && self.topo_sort.has_path_outside_subgraph(
-                            start,
-                            end,
-                            min_pos,
-                            max_pos,
-                            &nodes,
-                            &self.graph,
-                        )
-                    {
-                        return false;
-                    }
-                }
-            }
+        // There must be no path that leaves the subgraph and comes back. Nodes
+        // after the last one of the subgraph cannot be on such a path.
+        let Some(max_pos) = nodes
+            .iter()
+            .map(|node| self.topo_sort.node_to_pos[node])
+            .max()
+        else {
             return true;
-        }
-
-        for &output in &outputs {
-            if let Some(output_node) = self.graph.port_node(output) {
-                if !nodes.contains(&output_node) {
-                    continue;
-                }
-                if self.topo_sort.can_reach_inputs(
-                    output_node,
-                    min_pos,
-                    max_pos,
-                    &nodes,
-                    &inputs,
-                    &self.graph,
-                ) {
+        };
+        let mut visited = HashSet::new();
+        let mut queue: VecDeque<NodeIndex> = nodes
+            .iter()
+            .flat_map(|&node| self.graph.output_neighbours(node))
+            .filter(|neighbour| !nodes.contains(neighbour))
+            .collect();
+        while let Some(node) = queue.pop_front() {
+            if self.topo_sort.node_to_pos[&node] > max_pos || !visited.insert(node) {
+                continue;
+            }
+            for neighbour in self.graph.output_neighbours(node) {
+                if nodes.contains(&neighbour) {
                     return false;
                 }
+                queue.push_back(neighbour);
             }
         }
         true
-- 
2.43.0


From d96bab91a1e0b402a6e3fdaf3261494d0a010944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 31/48] fix: DynamicTopoConvexChecker lost its topological
 order when linking, and panicked on links that close no cycle

---
 src/algorithms/dynamic.rs | 85 ++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 46 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 0b7ff4f..e777ed6 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -150,17 +150,26 @@ impl DynamicTopoSort {
         }
         let lb = to_pos;
         let ub = from_pos;
-        let delta_f = self.cone(to, ub, graph, Direction::Outgoing);
-        let delta_b = self.cone(from, lb, graph, Direction::Incoming);
-        let mut new_pos = to_pos;
-        for w in delta_b.into_iter().chain(delta_f) {
+        let mut delta_f = self.cone(to, ub, graph, Direction::Outgoing);
+        let mut delta_b = self.cone(from, lb, graph, Direction::Incoming);
+        // Reuse the positions of the affected nodes, so that the past of `from`
+        // comes before the future of `to` and each keeps its relative order.
+        let mut positions: Vec<usize> = delta_b
+            .iter()
+            .chain(&delta_f)
+            .map(|node| self.node_to_pos[node])
+            .collect();
+        positions.sort_unstable();
+        delta_b.sort_unstable_by_key(|node| self.node_to_pos[node]);
+        delta_f.sort_unstable_by_key(|node| self.node_to_pos[node]);
+        for (w, new_pos) in delta_b.into_iter().chain(delta_f).zip(positions) {
             self.order[new_pos] = w;
             self.node_to_pos.insert(w, new_pos);
-            new_pos += 1;
         }
     }
 
-    /// Computes the future cone from a starting node, up to position `ub`.
+    /// Computes the future or past cone from a starting node, up to and
+    /// including position `bound`.
     fn cone<G: LinkView>(
         &self,
         start: NodeIndex,
@@ -168,45 +177,23 @@ impl DynamicTopoSort {
         graph: &G,
         dir: Direction,
     ) -> Vec<NodeIndex> {
-        let mut visited = HashSet::new();
-        let mut cone = Vec::new();
-        self.dfs(start, &mut visited, &mut cone, bound, graph, dir);
-        cone
-    }
-
-    fn dfs<G: LinkView>(
-        &self,
-        n: NodeIndex,
-        visited: &mut HashSet<NodeIndex>,
-        cone: &mut Vec<NodeIndex>,
-        bound: usize,
-        graph: &G,
-        dir: Direction,
-    ) -> bool {
-        let pos = *self.node_to_pos.get(&n).unwrap();
-        let out_of_bounds = match dir {
-            Direction::Outgoing => pos >= bound,
-            Direction::Incoming => pos <= bound,
-        };
-        if visited.contains(&n) || out_of_bounds {
-            return false;
-        }
-        visited.insert(n);
-        cone.push(n);
-        if dir == Direction::Outgoing {
-            for neighbor in graph.output_neighbours(n) {
-                if self.dfs(neighbor, visited, cone, bound, graph, dir) {
-                    return true;
-                }
-            }
-        } else {
-            for neighbor in graph.input_neighbours(n) {
-                if self.dfs(neighbor, visited, cone, bound, graph, dir) {
-                    return true;
+        let mut visited = HashSet::from([start]);
+        let mut cone = vec![start];
+        let mut next = 0;
+        while let Some(&node) = cone.get(next) {
+            next += 1;
+            for neighbor in graph.neighbours(node, dir) {
+                let pos = self.node_to_pos[&neighbor];
+                let out_of_bounds = match dir {
+                    Direction::Outgoing => pos > bound,
+                    Direction::Incoming => pos < bound,
+                };
+                if !out_of_bounds && visited.insert(neighbor) {
+                    cone.push(neighbor);
                 }
             }
         }
-        false
+        cone
     }
 
     /// Returns the current topological order (for testing or inspection).
@@ -324,15 +311,21 @@ impl<G: LinkMut> LinkMut for DynamicTopoConvexChecker<G> {
             .graph
             .port_node(to)
             .ok_or(LinkError::UnknownPort { port: to })?;
-        if self
-            .topo_sort
-            .would_create_cycle(to_node, from_node, &self.graph)
+        // The ports can be given in any order, the edge goes from the output to the input.
+        let (source, target) = match self.graph.port_direction(from) {
+            Some(Direction::Incoming) => (to_node, from_node),
+            _ => (from_node, to_node),
+        };
+        if self.graph.port_direction(from) != self.graph.port_direction(to)
+            && self
+                .topo_sort
+                .would_create_cycle(source, target, &self.graph)
         {
             panic!("Adding this edge would create a cycle");
         }
         let result = self.graph.link_ports(from, to)?;
         self.topo_sort
-            .connect_nodes(from_node, to_node, &self.graph)
+            .connect_nodes(source, target, &self.graph)
             .map_err(|e| match e {
                 DynamicTopoSortError::InvalidNode { .. } => LinkError::UnknownPort { port: from },
                 DynamicTopoSortError::WouldCreateCycle { .. } => {
-- 
2.43.0


From ca0e7e14e6a49b84465c9ea27afc85a610e75bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:14 +0000
Subject: [PATCH 32/48] fix: DynamicTopoConvexChecker did not follow clearing,
 swapping and compacting nodes, and panicked on removing an absent node

---
 src/algorithms/dynamic.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index e777ed6..7e625c1 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -101,6 +101,17 @@ impl DynamicTopoSort {
         }
     }
 
+    /// Exchanges the positions of two node indices, either of which may be unused.
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        let (pos_a, pos_b) = (self.node_to_pos.remove(&a), self.node_to_pos.remove(&b));
+        for (node, pos) in [(b, pos_a), (a, pos_b)] {
+            if let Some(pos) = pos {
+                self.order[pos] = node;
+                self.node_to_pos.insert(node, pos);
+            }
+        }
+    }
+
     /// Removes an edge and updates the topological order if necessary.
     pub fn disconnect_nodes<G: LinkView>(
         &mut self,
@@ -280,16 +291,32 @@ impl<G: PortMut> PortMut for DynamicTopoConvexChecker<G> {
 
     fn remove_node(&mut self, node: NodeIndex) {
         self.graph.remove_node(node);
-        self.topo_sort.remove_node(node).expect("Node not found");
+        // Removing a node that does not exist does nothing.
+        let _ = self.topo_sort.remove_node(node);
+    }
+
+    fn clear(&mut self) {
+        self.graph.clear();
+        self.topo_sort = DynamicTopoSort::default();
+    }
+
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        self.graph.swap_nodes(a, b);
+        self.topo_sort.swap_nodes(a, b);
+    }
+
+    fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, mut rekey: F) {
+        let topo_sort = &mut self.topo_sort;
+        self.graph.compact_nodes(|old, new| {
+            topo_sort.swap_nodes(old, new);
+            rekey(old, new);
+        });
     }
 
     delegate! {
         to self.graph {
-            fn clear(&mut self);
             fn reserve(&mut self, nodes: usize, ports: usize);
             fn set_num_ports<F: FnMut(PortIndex, crate::portgraph::PortOperation)>(&mut self, node: NodeIndex, inputs: usize, outputs: usize, rekey: F);
-            fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex);
-            fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, rekey: F);
             fn compact_ports<F: FnMut(PortIndex, PortIndex)>(&mut self, rekey: F);
             fn shrink_to_fit(&mut self);
         }
-- 
2.43.0


From bdd550b7fbde3220b11910cdf84b6d67aa9e2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:26 +0000
Subject: [PATCH 33/48] fix: edits of indices used internally by a
 MultiPortGraph corrupted it

---
 src/multiportgraph.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 03af0ba..cbf2153 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -195,7 +195,10 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     }
 
     fn remove_node(&mut self, node: NodeIndex) {
-        debug_assert!(!self.copy_node.get(node));
+        if *self.copy_node.get(node) {
+            // Not a node of the multiport graph.
+            return;
+        }
         for port in self.graph._all_ports(node) {
             if *self.multiport.get(port) {
                 self.unlink_port(port);
@@ -223,6 +226,10 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
+        if *self.copy_node.get(node) {
+            // Not a node of the multiport graph.
+            return;
+        }
         let mut dropped_ports = Vec::new();
         // The ports linked to each port to be removed, looking past the copy nodes.
         let old_links: HashMap<PortIndex, PortIndex> = self
@@ -340,6 +347,9 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
     }
 
     fn unlink_port(&mut self, port: PortIndex) -> Option<SubportIndex> {
+        if !self.contains_port(port) {
+            return None;
+        }
         if self.is_multiport(port) {
             let link = self
                 .graph
@@ -522,7 +532,12 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
                 outgoing - 1
             }
         };
-        self.set_num_ports(node, incoming, outgoing, |_, _| {});
+        self.graph
+            .set_num_ports(node, incoming, outgoing, |port, op| {
+                if let PortOperation::Moved { new_index } = op {
+                    self.multiport.swap(port, new_index);
+                }
+            });
         self.graph
             .port_index(node, PortOffset::new(direction, new_offset))
             .unwrap()
-- 
2.43.0


From e8d65cf8db5a6e3e6af7809fbeac8aafe21cfae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:26 +0000
Subject: [PATCH 34/48] fix: DynamicTopoConvexChecker took internal ports of a
 multiport graph for existing ones

---
 src/algorithms/dynamic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 7e625c1..172cb1e 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -333,10 +333,12 @@ impl<G: LinkMut> LinkMut for DynamicTopoConvexChecker<G> {
         let from_node = self
             .graph
             .port_node(from)
+            .filter(|_| self.graph.contains_port(from))
             .ok_or(LinkError::UnknownPort { port: from })?;
         let to_node = self
             .graph
             .port_node(to)
+            .filter(|_| self.graph.contains_port(to))
             .ok_or(LinkError::UnknownPort { port: to })?;
         // The ports can be given in any order, the edge goes from the output to the input.
         let (source, target) = match self.graph.port_direction(from) {
-- 
2.43.0


From c8cfcc69e78ef928356551afd9324ac00c716a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:29 +0000
Subject: [PATCH 35/48] fix: Boundary::port_ordering panicked on graphs with
 links across the boundary

---
 src/boundary.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index 4a00f67..1b1c52f 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -150,6 +150,16 @@ impl Boundary {
         let boundary_ports: HashSet<PortIndex> =
             self.inputs.iter().chain(&self.outputs).copied().collect();
 
+        // The neighbours of a node, following only edges that are not part of the boundary.
+        let internal_neighbours = |node, dir| {
+            graph
+                .links(node, dir)
+                .filter(|&(p, q)| {
+                    !boundary_ports.contains(&p.into()) && !boundary_ports.contains(&q.into())
+                })
+                .map(|(_, q)| graph.port_node(q).unwrap())
+        };
+
         // Maps between the input/output ports in the boundary and the nodes they belong to.
         let mut input_nodes: BTreeMap<NodeIndex, Vec<PortIndex>> = BTreeMap::new();
         let mut output_nodes: BTreeMap<NodeIndex, Vec<PortIndex>> = BTreeMap::new();
@@ -169,11 +179,10 @@ impl Boundary {
         // trim the `reaching` set when we reach the last one.
 
         // We have to start the toposort from the input nodes that do not have predecessors.
-        let source_nodes = input_nodes.keys().copied().filter(|&node| {
-            graph
-                .inputs(node)
-                .all(|p| boundary_ports.contains(&p) || graph.port_links(p).count() == 0)
-        });
+        let source_nodes = input_nodes
+            .keys()
+            .copied()
+            .filter(|&node| internal_neighbours(node, Direction::Incoming).count() == 0);
 
         let mut reaching: BTreeMap<NodeIndex, (usize, HashSet<PortIndex>)> = BTreeMap::new();
         let mut topo = TopoSort::<_, HashSet<PortIndex>>::new(
@@ -209,7 +218,7 @@ impl Boundary {
                 // to the candidates list for the toposort traversal.
                 let new_source_nodes = self
                     .internal_nodes(graph)
-                    .filter(|&node| graph.input_neighbours(node).count() == 0);
+                    .filter(|&node| internal_neighbours(node, Direction::Incoming).count() == 0);
                 topo.add_sources(new_source_nodes);
 
                 continue;
@@ -221,7 +230,7 @@ impl Boundary {
                 input_nodes.remove(&node).into_iter().flatten().collect();
 
             // Add the reaching ports from the input neighbours.
-            for input_neigh in graph.input_neighbours(node) {
+            for input_neigh in internal_neighbours(node, Direction::Incoming) {
                 let (output_neighs, input_reaching) = reaching
                     .get_mut(&input_neigh)
                     .expect("Incoming neighbour not visited");
@@ -244,7 +253,7 @@ impl Boundary {
                 }
             }
 
-            let output_neighs = graph.output_neighbours(node).count();
+            let output_neighs = internal_neighbours(node, Direction::Outgoing).count();
             reaching.insert(node, (output_neighs, reaching_ports));
 
             // If we have explored all the nodes for the input or output ports,
-- 
2.43.0


From d9a8e655c3669cb947ee46c64dbb107698200539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 36/48] fix: petgraph node_bound was the node count, which node
 indices can exceed

---
 src/view/petgraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 000c18c..9b861b9 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -76,7 +76,10 @@ macro_rules! impl_petgraph_traits {
 
         impl<$($args)*> petgraph::visit::NodeIndexable for $graph where $($where)* {
             fn node_bound(&self) -> usize {
-                PortView::node_count(self)
+                self.nodes_iter()
+                    .map(|node| node.index() + 1)
+                    .max()
+                    .unwrap_or(0)
             }
 
             fn to_index(&self, ix: Self::NodeId) -> usize {
-- 
2.43.0


From 19c08c9d0df699c768f7e323fc5c01e255c16cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 37/48] fix: the petgraph visit map reported first visits the
 wrong way round

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 9b861b9..4a30b5a 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -314,7 +314,7 @@ impl petgraph::visit::VisitMap<NodeIndex> for BitVec {
     fn visit(&mut self, a: NodeIndex) -> bool {
         let is_visited = self.is_visited(&a);
         <Self as SecondaryMap<NodeIndex, bool>>::set(self, a, true);
-        is_visited
+        !is_visited
     }
 
     fn is_visited(&self, a: &NodeIndex) -> bool {
-- 
2.43.0


From a85203ceebd74d56260e195c9f56d218581b9a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:22 +0000
Subject: [PATCH 38/48] fix: petgraph edges included incoming edges, and
 edges_directed reversed them

---
 src/view/petgraph.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 4a30b5a..1802bee 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -446,19 +446,26 @@ impl<'g, G> NodeEdgeRefs<'g, G>
 where
     G: LinkView,
 {
-    /// Create a new iterator over the edges of a portgraph.
+    /// Create a new iterator over the edges leaving a node.
     pub fn new(graph: &'g G, node: NodeIndex) -> Self {
         Self {
             graph,
-            links: Box::new(graph.all_links(node)),
+            links: Box::new(graph.links(node, crate::Direction::Outgoing)),
         }
     }
 
-    /// Create a new iterator over the edges of a portgraph.
+    /// Create a new iterator over the edges leaving or entering a node.
+    ///
+    /// The edges always go from an output to an input port.
     pub fn new_directed(graph: &'g G, node: NodeIndex, dir: crate::Direction) -> Self {
         Self {
             graph,
-            links: Box::new(graph.links(node, dir)),
+            links: match dir {
+                crate::Direction::Outgoing => Box::new(graph.links(node, dir)),
+                crate::Direction::Incoming => {
+                    Box::new(graph.links(node, dir).map(|(to, from)| (from, to)))
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 4ac2fb93542914676a4780af6afc2c0550b89c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 39/48] fix: petgraph edge_references yielded every link twice,
 and its size estimate never changed

---
 src/view/petgraph.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 1802bee..377b869 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -9,7 +9,7 @@ use crate::view::filter::{LinkFilter, NodeFilter};
 use crate::view::flat_region::FlatRegion;
 use crate::view::region::Region;
 use crate::view::subgraph::Subgraph;
-use crate::{LinkView, NodeIndex, PortGraph, PortIndex, PortView, SecondaryMap};
+use crate::{Direction, LinkView, NodeIndex, PortGraph, PortIndex, PortView, SecondaryMap};
 
 use super::FilteredGraph;
 
@@ -383,7 +383,11 @@ where
     pub fn new(graph: &'g G) -> Self {
         Self {
             graph,
-            ports: Box::new(graph.ports_iter()),
+            ports: Box::new(
+                graph
+                    .ports_iter()
+                    .filter(|&port| graph.port_direction(port) == Some(Direction::Outgoing)),
+            ),
             links: None,
             count: graph.link_count(),
         }
@@ -399,6 +403,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         loop {
             if let Some((from, to)) = self.links.as_mut().and_then(|links| links.next()) {
+                self.count -= 1;
                 return Some(EdgeRef {
                     from_node: self.graph.port_node(from).unwrap(),
                     to_node: self.graph.port_node(to).unwrap(),
-- 
2.43.0


From 96a2de457abb019dbcf772cda431b46550af1dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:24 +0000
Subject: [PATCH 40/48] fix: petgraph adjacency_matrix panicked on multiport
 graphs with node indices above the node capacity

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 377b869..321d586 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -193,7 +193,7 @@ macro_rules! impl_visit_dense {
             type AdjMatrix = (bitvec::vec::BitVec, usize);
 
             fn adjacency_matrix(&self) -> Self::AdjMatrix {
-                let row_size = self.node_capacity();
+                let row_size = petgraph::visit::NodeIndexable::node_bound(self);
                 let mut matrix = bitvec::bitvec![0; row_size * row_size];
                 for node in self.nodes_iter() {
                     for neighbour in self.output_neighbours(node) {
-- 
2.43.0


From 3227191e622841f9baa7b2db84b135112b44315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:56 +0000
Subject: [PATCH 41/48] fix: dot rendering drew links to hidden nodes

---
 src/render/dot.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/render/dot.rs b/src/render/dot.rs
index d5db7d8..f782117 100644
--- a/src/render/dot.rs
+++ b/src/render/dot.rs
@@ -1,5 +1,6 @@
 //! Functions to encode a `PortGraph` in dot format.
 
+use std::collections::HashSet;
 use std::fmt::Display;
 
 use itertools::Itertools;
@@ -79,8 +80,18 @@ where
         let mut dot = String::new();
 
         dot.push_str("digraph {\n");
-        self.node_and_edge_strings(&mut dot);
-        self.hierarchy_strings(&mut dot);
+        let styles: Vec<(NodeIndex, NodeStyle)> = self
+            .graph
+            .nodes_iter()
+            .map(|node| (node, self.node_style(node)))
+            .collect();
+        let hidden: HashSet<NodeIndex> = styles
+            .iter()
+            .filter(|(_, style)| matches!(style, NodeStyle::Hidden))
+            .map(|&(node, _)| node)
+            .collect();
+        self.node_and_edge_strings(styles, &hidden, &mut dot);
+        self.hierarchy_strings(&hidden, &mut dot);
         dot.push_str("}\n");
 
         dot
@@ -111,10 +122,14 @@ where
     }
 
     /// Append the node and edge data in dot format to a string
-    fn node_and_edge_strings(&mut self, dot: &mut String) {
-        for node in self.graph.nodes_iter() {
+    fn node_and_edge_strings(
+        &mut self,
+        styles: Vec<(NodeIndex, NodeStyle)>,
+        hidden: &HashSet<NodeIndex>,
+        dot: &mut String,
+    ) {
+        for (node, node_style) in styles {
             // Format the node as a table
-            let node_style = self.node_style(node);
             let (node_label, attrs) = match node_style {
                 NodeStyle::Boxed { label, attrs } => (label, attrs),
                 #[allow(deprecated)]
@@ -152,10 +167,15 @@ where
                 + ">]\n";
             dot.push_str(&node_str);
 
-            // Connect the linked output ports
+            // Connect the linked output ports, except to hidden nodes
             self.graph
                 .outputs(node)
                 .flat_map(|port| self.graph.port_links(port))
+                .filter(|&(_, to)| {
+                    self.graph
+                        .port_node(to)
+                        .map_or(true, |node| !hidden.contains(&node))
+                })
                 .map(|(from, to)| self.get_edge_dot(node, from, to))
                 .for_each(|edge| {
                     dot.push_str(&edge);
@@ -236,11 +256,11 @@ where
         )
     }
 
-    fn hierarchy_strings(&mut self, dot: &mut String) {
+    fn hierarchy_strings(&mut self, hidden: &HashSet<NodeIndex>, dot: &mut String) {
         if let Some(forest) = self.forest {
             let hier_node_id = |n: NodeIndex| format!("hier{}", n.index());
 
-            for n in self.graph.nodes_iter() {
+            for n in self.graph.nodes_iter().filter(|n| !hidden.contains(n)) {
                 let node_str = format!(
                     "{} [shape=plain label=\"{}\"]\n",
                     hier_node_id(n),
@@ -251,7 +271,7 @@ where
                 // Connect the parent to any existing children
                 forest
                     .children(n)
-                    .filter(|&c| self.graph.contains_node(c))
+                    .filter(|&c| self.graph.contains_node(c) && !hidden.contains(&c))
                     .for_each(|child| {
                         dot.push_str(&{
                             let from_node = n;
-- 
2.43.0


From 1e35df0a8e324f36a3395f655a2a5d71f9cd8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:59 +0000
Subject: [PATCH 42/48] fix: mermaid rendering drew links to hidden nodes

---
 src/render/mermaid.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 3c28503..76a9b50 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -1,6 +1,6 @@
 //! Functions to encode a `PortGraph` in mermaid format.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt::Display;
 
 use itertools::Itertools;
@@ -273,6 +273,8 @@ struct MermaidBuilder<'g, G: LinkView> {
     /// The styling function for edges.
     #[allow(clippy::type_complexity)]
     edge_style: Option<Box<dyn FnMut(G::LinkEndpoint, G::LinkEndpoint) -> EdgeStyle + 'g>>,
+    /// The hidden nodes added so far.
+    hidden: HashSet<NodeIndex>,
 }
 
 impl<'g, G: LinkView> MermaidBuilder<'g, G> {
@@ -287,6 +289,7 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
             indent: 1,
             node_style,
             edge_style,
+            hidden: HashSet::new(),
         }
     }
 
@@ -327,7 +330,10 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         let id = node.index().to_string();
 
         match style {
-            NodeStyle::Hidden => self.push_strings(&[id.as_ref(), ":::hidden"]),
+            NodeStyle::Hidden => {
+                self.hidden.insert(node);
+                self.push_strings(&[id.as_ref(), ":::hidden"]);
+            }
             #[allow(deprecated)]
             NodeStyle::Box(lbl) => {
                 self.push_strings(&[id.as_ref(), "[", &encode_label(&id, &lbl), "]"]);
@@ -358,7 +364,10 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         let id = node.index().to_string();
 
         match &style {
-            NodeStyle::Hidden => self.push_strings(&["subgraph ", id.as_ref(), " [ ]"]),
+            NodeStyle::Hidden => {
+                self.hidden.insert(node);
+                self.push_strings(&["subgraph ", id.as_ref(), " [ ]"]);
+            }
             NodeStyle::Boxed { label, .. } => self.push_strings(&[
                 "subgraph ",
                 id.as_ref(),
@@ -390,7 +399,9 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         self.push_line("end");
     }
 
-    /// Adds an edge to the mermaid definition.
+    /// Adds an edge to the mermaid definition, unless it connects to a hidden node.
+    ///
+    /// Both nodes must have been added before.
     pub fn add_link(
         &mut self,
         src_node: NodeIndex,
@@ -398,6 +409,9 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         tgt_node: NodeIndex,
         tgt: G::LinkEndpoint,
     ) {
+        if self.hidden.contains(&src_node) || self.hidden.contains(&tgt_node) {
+            return;
+        }
         let style = self
             .edge_style
             .as_mut()
-- 
2.43.0


From 0e29eac84b71516b98f6a0ac7f3e11e721436ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 43/48] fix: mermaid rendering of a view drew nodes outside of
 the view

---
 src/render/mermaid.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 76a9b50..6abb954 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -182,12 +182,15 @@ where
 
     /// Helper function to check if a node is a leaf in the hierarchy.
     fn is_leaf(&self, node: NodeIndex) -> bool {
-        self.forest.map_or(true, |f| !f.has_children(node))
+        self.node_children(node).next().is_none()
     }
 
-    /// Returns the children of a node in the hierarchy.
+    /// Returns the children of a node in the hierarchy that are part of the graph.
     fn node_children(&self, node: NodeIndex) -> impl DoubleEndedIterator<Item = NodeIndex> + '_ {
-        self.forest.iter().flat_map(move |f| f.children(node))
+        self.forest
+            .iter()
+            .flat_map(move |f| f.children(node))
+            .filter(|&child| self.graph.contains_node(child))
     }
 }
 
-- 
2.43.0


From 249567bae2acc8b31610a4550d57e1421e52107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:22 +0000
Subject: [PATCH 44/48] fix: LCA mixed up trees whose root is not part of a
 view, and mermaid drew edges inside the regions they connect to

---
 src/algorithms/lca.rs | 10 ++++++++--
 src/render/mermaid.rs | 24 ++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/lca.rs b/src/algorithms/lca.rs
index 2193624..9425cfb 100644
--- a/src/algorithms/lca.rs
+++ b/src/algorithms/lca.rs
@@ -45,13 +45,19 @@ impl LCA {
         // `first_visit`, and `last_visit` arrays.
         let mut timestamp = 0;
         let mut stack = vec![];
-        for root in graph.nodes_iter() {
+        for node in graph.nodes_iter() {
             // We start with an empty stack
             debug_assert!(stack.is_empty());
 
-            if !hierarchy.is_root(root) {
+            // Skip the nodes in trees that have already been visited.
+            if lca.last_visit[node] != 0 {
                 continue;
             }
+            // The root may not be part of the graph if it is a view.
+            let mut root = node;
+            while let Some(parent) = hierarchy.parent(root) {
+                root = parent;
+            }
             stack.push(DFSState::Visit {
                 node: root,
                 parent: None,
diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 6abb954..ced6027 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -142,9 +142,18 @@ where
                     for (src, tgt) in self.graph.output_links(node) {
                         let src_node = self.graph.port_node(src).unwrap();
                         let tgt_node = self.graph.port_node(tgt).unwrap();
-                        let lca = lca.as_ref().and_then(|l| l.lca(src_node, tgt_node));
+                        let region = lca.as_ref().and_then(|l| l.lca(src_node, tgt_node));
+                        // An edge between a region and itself or one of its
+                        // descendants cannot be drawn inside the region.
+                        let region = region.and_then(|r| match r == src_node || r == tgt_node {
+                            true => self.forest.and_then(|f| f.parent(r)),
+                            false => Some(r),
+                        });
+                        let region = region.filter(|&r| {
+                            self.is_inside(src_node, r) && self.is_inside(tgt_node, r)
+                        });
                         edges
-                            .entry(lca)
+                            .entry(region)
                             .or_insert_with(Vec::new)
                             .push((src_node, src, tgt_node, tgt));
                     }
@@ -180,6 +189,17 @@ where
                 .map_or(true, |p| !self.graph.contains_node(p))
     }
 
+    /// Helper function to check if a node is drawn inside a region.
+    ///
+    /// This excludes descendants in filtered graphs where some node in between
+    /// is not part of the graph.
+    fn is_inside(&self, node: NodeIndex, region: NodeIndex) -> bool {
+        let parent = |&n: &NodeIndex| self.forest.and_then(|f| f.parent(n));
+        std::iter::successors(parent(&node), parent)
+            .take_while(|&n| self.graph.contains_node(n))
+            .any(|n| n == region)
+    }
+
     /// Helper function to check if a node is a leaf in the hierarchy.
     fn is_leaf(&self, node: NodeIndex) -> bool {
         self.node_children(node).next().is_none()
-- 
2.43.0


From 8567024c9569437b99fb237e103fa9aa2d158607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 45/48] fix: size estimate of port_links counted the missing
 link of an unlinked multiport graph port

---
 src/multiportgraph/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multiportgraph/iter.rs b/src/multiportgraph/iter.rs
index ccd58d2..47ffd11 100644
--- a/src/multiportgraph/iter.rs
+++ b/src/multiportgraph/iter.rs
@@ -371,7 +371,7 @@ impl<PO: Unsigned> FusedIterator for NodeConnections<'_, PO> {}
 #[derive(Debug, Clone)]
 #[allow(missing_docs)]
 pub enum PortLinks<'a, PO: Unsigned> {
-    /// The port is not a multiport. The iterator returns exactly one link.
+    /// The port is not a multiport. The iterator returns at most one link.
     SinglePort {
         multigraph: &'a MultiPortGraph<u32, u32, PO>,
         port: PortIndex,
@@ -400,7 +400,7 @@ impl<'a, PO: Unsigned> PortLinks<'a, PO> {
             Self::SinglePort {
                 multigraph,
                 port,
-                empty: false,
+                empty: multigraph.graph.port_link(port).is_none(),
             }
         }
     }
-- 
2.43.0


From ad10712cd6ec8511a60709f8868e87f826a0bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 46/48] fix: get_disjoint_mut returned aliasing references for
 different keys with the same index

---
 src/unmanaged.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/unmanaged.rs b/src/unmanaged.rs
index 3838784..105df6d 100644
--- a/src/unmanaged.rs
+++ b/src/unmanaged.rs
@@ -218,8 +218,12 @@ where
     where
         K: Eq,
     {
+        // The conversion is only called once for each key, and the offsets are
+        // compared instead of the keys. Different keys may share an offset.
+        let offsets: [usize; N] = keys.map(Into::into);
+
         // Ensure that there is enough capacity
-        if let Some(max_index) = keys.iter().map(|i| (*i).into()).max() {
+        if let Some(&max_index) = offsets.iter().max() {
             if max_index >= self.data.len() {
                 self.resize_for_get_mut(max_index + 1);
             }
@@ -234,12 +238,11 @@ where
         // for a linear time implementation. Unfortunately their trick is not
         // applicable here since we do not have the extra tagging bit available.
         let data = self.data.as_mut_ptr();
-        for (i, key) in keys.iter().enumerate() {
-            if keys[(i + 1)..].iter().any(|other| key == other) {
+        for (i, &offset) in offsets.iter().enumerate() {
+            if offsets[(i + 1)..].contains(&offset) {
                 return None;
             }
 
-            let offset = (*key).into();
             if offset >= self.data.len() {
                 return None;
             }
-- 
2.43.0


From 77dc202f0663b64182bdabe2ef632fb7d1c9158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:14 +0000
Subject: [PATCH 47/48] fix: strategies for random graphs panicked or gave up
 for tight bounds

---
 src/proptest.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/proptest.rs b/src/proptest.rs
index 58c5971..874ebad 100644
--- a/src/proptest.rs
+++ b/src/proptest.rs
@@ -7,6 +7,7 @@ use std::collections::{BTreeMap, HashSet};
 use crate::{
     Direction, LinkMut, MultiPortGraph, NodeIndex, PortGraph, PortMut, PortOffset, PortView,
 };
+use itertools::Itertools;
 use proptest::prelude::*;
 
 #[derive(Debug, Clone, Copy)]
@@ -16,13 +17,19 @@ struct Edge {
     src_p: PortOffset,
     target_p: PortOffset,
 }
+
+/// A random number of edges. Without ports, there can be none.
+fn gen_n_edges(max_n_ports: usize, max_n_edges: usize) -> impl Strategy<Value = usize> {
+    0..=if max_n_ports > 0 { max_n_edges } else { 0 }
+}
+
 prop_compose! {
     /// A random set of edges for a portgraph.
     fn gen_edges(max_n_nodes: usize, max_n_ports: usize, max_n_edges: usize)(
-        n_edges in 0..=max_n_edges
+        n_edges in gen_n_edges(max_n_ports, max_n_edges)
     )(
-        out_ports in vec![(1..max_n_nodes, 0..max_n_ports); n_edges],
-        in_ports in vec![(1..max_n_nodes, 0..max_n_ports); n_edges],
+        out_ports in vec![(0..max_n_nodes, 0..max_n_ports); n_edges],
+        in_ports in vec![(0..max_n_nodes, 0..max_n_ports); n_edges],
     ) -> Vec<Edge> {
         out_ports.into_iter().zip(in_ports).map(|((src_v, src_p), (target_v, target_p))| {
             Edge {
@@ -38,12 +45,14 @@ prop_compose! {
 prop_compose! {
     /// A random set of distinct edges for a portgraph.
     fn gen_unique_edges(max_n_nodes: usize, max_n_ports: usize, max_n_edges: usize)(
-        out_ports in prop::collection::hash_set((1..max_n_nodes, 0..max_n_ports), 0..=max_n_edges),
-        in_ports in prop::collection::hash_set((1..max_n_nodes, 0..max_n_ports), 0..=max_n_edges),
+        n_edges in gen_n_edges(max_n_ports, max_n_edges)
+    )(
+        out_ports in vec![(0..max_n_nodes, 0..max_n_ports); n_edges],
+        in_ports in vec![(0..max_n_nodes, 0..max_n_ports); n_edges],
     ) -> Vec<Edge> {
         // Unlike the non-unique case, in this case we do not "control" the number of
         // edges directly. Might make shrinking slightly more difficult.
-        out_ports.into_iter().zip(in_ports).map(|((src_v, src_p), (target_v, target_p))| {
+        out_ports.into_iter().unique().zip(in_ports.into_iter().unique()).map(|((src_v, src_p), (target_v, target_p))| {
             Edge {
                 src_v: NodeIndex::new(src_v),
                 target_v: NodeIndex::new(target_v),
-- 
2.43.0


From eec929709f6edb08cc64153bdce16a800ee35cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:14 +0000
Subject: [PATCH 48/48] fix: strategies for random graphs gave different graphs
 for the same seed

---
 src/proptest.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proptest.rs b/src/proptest.rs
index 874ebad..addb547 100644
--- a/src/proptest.rs
+++ b/src/proptest.rs
@@ -2,7 +2,7 @@
 //!
 //! Currently, this module exposes a single function [`gen_portgraph`], which
 //! returns strategies that generate random portgraphs.
-use std::collections::{BTreeMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
     Direction, LinkMut, MultiPortGraph, NodeIndex, PortGraph, PortMut, PortOffset, PortView,
@@ -139,7 +139,8 @@ fn graph_from_edges<G: PortMut<PortOffsetBase = u16> + LinkMut + Default>(edges:
         add_port(target_v, target_p);
     }
     let mut g = G::default();
-    let vertices: HashSet<_> = edges
+    // In a fixed order, so that a strategy always yields the same graph for the same seed.
+    let vertices: BTreeSet<_> = edges
         .iter()
         .flat_map(|e| vec![e.src_v, e.target_v])
         .collect();
-- 
2.43.0

