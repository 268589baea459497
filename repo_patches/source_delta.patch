From d094467f7adf50dfb00953c48ea9fa810e663494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:29 +0000
Subject: [PATCH 01/12] fix: count a repeated term once when building a
 SortedDawg

---
 src/liblevenshtein/collection/sorted_dawg.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index 7d8afa6..0a6d919 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -18,12 +18,17 @@ auto SortedDawg::add(const std::string &term) -> bool {
   }
 
   if (term.empty()) {
-    _root->is_final(true);
-    _prev_term = term;
-    _size += 1;
+    if (!_root->is_final()) {
+      _root->is_final(true);
+      _size += 1;
+    }
     return true;
   }
 
+  if (term == _prev_term) {
+    return true; // already present
+  }
+
   std::size_t upper_bound = std::min(term.length(), _prev_term.length());
 
   // Find the length of the longest common prefix between term and prev_term
-- 
2.43.0


From f4618b9f1e37e0a825dc6b86e0ded93ff4eeb69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:29 +0000
Subject: [PATCH 02/12] fix: refuse add on a SortedDawg that is not under
 construction

---
 src/liblevenshtein/collection/sorted_dawg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index 0a6d919..fefcfe9 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -13,6 +13,10 @@ SortedDawg::~SortedDawg() {
 }
 
 auto SortedDawg::add(const std::string &term) -> bool {
+  if (unchecked_transitions == nullptr) {
+    return false; // not under construction
+  }
+
   if (term < _prev_term) {
     return false;
   }
-- 
2.43.0


From 9205d194555f6887064008e4aaab5ae106718f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:29 +0000
Subject: [PATCH 03/12] fix: report failure when a saved dictionary cannot be
 flushed to its file

---
 src/liblevenshtein/serialization/serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 80bdeee..602d84e 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -31,7 +31,7 @@ auto serialize_protobuf(Dawg *dawg, const char *path) -> bool {
                                 std::fstream::binary);
   bool serialized = serialize_protobuf(dawg, output);
   output.close();
-  return serialized;
+  return serialized && !output.fail();
 }
 
 auto serialize_protobuf(Dawg *dawg, std::ostream &output) -> bool {
-- 
2.43.0


From 994e668220a5e880fb9601f0fef856848e6385df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:29 +0000
Subject: [PATCH 04/12] fix: compare the special flags of both positions in
 subsumes

---
 src/liblevenshtein/transducer/subsumes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/liblevenshtein/transducer/subsumes.cpp b/src/liblevenshtein/transducer/subsumes.cpp
index 9bd5c4b..a002966 100644
--- a/src/liblevenshtein/transducer/subsumes.cpp
+++ b/src/liblevenshtein/transducer/subsumes.cpp
@@ -21,7 +21,7 @@ auto subsumes<Algorithm::TRANSPOSITION>(Position *lhs, Position *rhs,
 
   std::size_t j = rhs->term_index();
   std::size_t f = rhs->num_errors();
-  bool t = lhs->is_special();
+  bool t = rhs->is_special();
 
   if (s) {
     if (t) {
@@ -46,7 +46,7 @@ auto subsumes<Algorithm::MERGE_AND_SPLIT>(Position *lhs, Position *rhs,
   bool s = lhs->is_special();
   std::size_t j = rhs->term_index();
   std::size_t f = rhs->num_errors();
-  bool t = lhs->is_special();
+  bool t = rhs->is_special();
 
   if (s && !t) {
     return false;
-- 
2.43.0


From 994459bbbc683a4c947659f79277b1496195b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:29 +0000
Subject: [PATCH 05/12] fix: keep the target when DawgNode::add_edge is given
 the edge it already has

---
 src/liblevenshtein/collection/dawg_node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/liblevenshtein/collection/dawg_node.cpp b/src/liblevenshtein/collection/dawg_node.cpp
index 0c2965d..f2d6d8c 100644
--- a/src/liblevenshtein/collection/dawg_node.cpp
+++ b/src/liblevenshtein/collection/dawg_node.cpp
@@ -40,7 +40,9 @@ auto DawgNode::transition(char label) const -> DawgNode * {
 
 auto DawgNode::add_edge(char label, DawgNode *target) -> DawgNode * {
   DawgNode* existing = transition(label);
-  delete existing;
+  if (existing != target) {
+    delete existing;
+  }
   _edges[label] = target;
   return this;
 }
-- 
2.43.0


From fa7c51b8a4c8b2ed38650ada6a661e98b7053acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:29 +0000
Subject: [PATCH 06/12] fix: visit every node once in Dawg::all_nodes

---
 src/liblevenshtein/collection/dawg.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/liblevenshtein/collection/dawg.cpp b/src/liblevenshtein/collection/dawg.cpp
index 2e8fbf9..4e482de 100644
--- a/src/liblevenshtein/collection/dawg.cpp
+++ b/src/liblevenshtein/collection/dawg.cpp
@@ -32,10 +32,11 @@ auto Dawg::all_nodes() const -> std::unordered_set<DawgNode *> {
   while (!pending.empty()) {
     DawgNode *node = pending.front();
     pending.pop();
-    nodes.insert(node);
-    node->for_each_edge([&](char label, DawgNode *target) {
-      pending.push(target);
-    });
+    if (nodes.insert(node).second) {
+      node->for_each_edge([&](char label, DawgNode *target) {
+        pending.push(target);
+      });
+    }
   }
   return nodes;
 }
-- 
2.43.0


From b432b9b2e187f9f1f2490febda6296e3dcb14c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:21 +0000
Subject: [PATCH 07/12] fix: reject saved dictionaries that are damaged or
 incomplete when loading

---
 .../serialization/serializer.cpp              | 82 +++++++++++++++++--
 1 file changed, 76 insertions(+), 6 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 602d84e..f133851 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -5,6 +5,7 @@
 #include <map>
 #include <set>
 #include <utility>
+#include <vector>
 
 #include "liblevenshtein/collection/dawg.h"
 #include "liblevenshtein/collection/dawg_node.h"
@@ -125,6 +126,67 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary * {
   return dict_proto;
 }
 
+/**
+ * Whether the nodes reachable from the root form a dictionary: they are all the
+ * nodes there are, contain no cycle, each lead to the end of some term (unless
+ * there is no term at all), and spell the given number of terms.
+ */
+static auto is_dictionary(DawgNode *root, std::size_t num_nodes,
+                          uint64_t num_terms) -> bool {
+  // Order the nodes such that every source precedes its targets
+  std::map<DawgNode *, std::size_t> in_degree = {{root, 0}};
+  std::vector<DawgNode *> pending = {root};
+  while (!pending.empty()) {
+    DawgNode *source = pending.back();
+    pending.pop_back();
+    source->for_each_edge([&](char label, DawgNode *target) {
+      if (in_degree[target]++ == 0 && target != root) {
+        pending.push_back(target);
+      }
+    });
+  }
+
+  std::vector<DawgNode *> order;
+  if (in_degree[root] == 0) {
+    order.push_back(root);
+  }
+  for (std::size_t index = 0; index < order.size(); index += 1) {
+    order[index]->for_each_edge([&](char label, DawgNode *target) {
+      if (--in_degree[target] == 0) {
+        order.push_back(target);
+      }
+    });
+  }
+  if (order.size() != num_nodes) {
+    return false;
+  }
+
+  // Count the terms, from the targets back to their sources
+  std::map<DawgNode *, uint64_t> terms;
+  for (auto iter = order.rbegin(); iter != order.rend(); ++iter) {
+    DawgNode *source = *iter;
+    uint64_t count = source->is_final() ? 1 : 0;
+    bool excess = count > num_terms;
+    source->for_each_edge([&](char label, DawgNode *target) {
+      excess = excess || terms[target] > num_terms - count;
+      count += terms[target];
+    });
+    if (excess || (count == 0 && source != root)) {
+      return false;
+    }
+    terms[source] = count;
+  }
+  return terms[root] == num_terms;
+}
+
+/** Deletes the nodes of a dictionary that cannot be reconstructed. */
+static auto discard(const std::map<uint64_t, DawgNode *> &nodes) -> Dawg * {
+  for (const auto &[node_id, node] : nodes) {
+    delete node;
+  }
+  return nullptr;
+}
+
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
   std::set<uint64_t> final_node_ids;
   for (int index = 0; index < dict_proto.final_node_id_size(); index += 1) {
@@ -147,14 +209,22 @@ auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
     uint64_t source_id = edge_proto.source_id();
     char label = (char)edge_proto.label();
     uint64_t target_id = edge_proto.target_id();
-    DawgNode *source = nodes[source_id];
-    DawgNode *target = nodes[target_id];
-    source->add_edge(label, target);
+    auto source = nodes.find(source_id);
+    auto target = nodes.find(target_id);
+    if (source == nodes.end() || target == nodes.end() ||
+        source->second->transition(label) != nullptr) {
+      return discard(nodes);
+    }
+    source->second->add_edge(label, target->second);
   }
 
-  DawgNode *root = nodes[dict_proto.root_id()];
-  auto *dawg = new SortedDawg(root, dict_proto.size());
-  return dawg;
+  auto root = nodes.find(dict_proto.root_id());
+  if (root == nodes.end() ||
+      !is_dictionary(root->second, nodes.size(), dict_proto.size())) {
+    return discard(nodes);
+  }
+
+  return new SortedDawg(root->second, dict_proto.size());
 }
 
 } // namespace liblevenshtein
-- 
2.43.0


From 5423743114406be737cb9fc655c4fffe8b215c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:01 +0000
Subject: [PATCH 08/12] fix: spell out long terms without recursion

Iterating over and querying a dictionary recursed once per character of a
term and overflowed the stack on terms of some 100,000 characters or more.
---
 src/liblevenshtein/collection/prefix.cpp       | 12 +++++++++---
 src/liblevenshtein/transducer/intersection.cpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/liblevenshtein/collection/prefix.cpp b/src/liblevenshtein/collection/prefix.cpp
index d3d2289..0c0d8c3 100644
--- a/src/liblevenshtein/collection/prefix.cpp
+++ b/src/liblevenshtein/collection/prefix.cpp
@@ -1,4 +1,6 @@
+#include <algorithm>
 #include <sstream>
+#include <string>
 
 #include "liblevenshtein/collection/prefix.h"
 
@@ -38,10 +40,14 @@ auto Prefix::str() const -> std::string {
 }
 
 auto operator<<(std::ostream &out, const Prefix &prefix) -> std::ostream & {
-  if (prefix._parent != nullptr) {
-    out << *(prefix._parent) << prefix._label;
+  // The labels are found in reverse order, from the last to the first
+  std::string labels;
+  for (const Prefix *iter = &prefix; iter->_parent != nullptr;
+       iter = iter->_parent) {
+    labels += iter->_label;
   }
-  return out;
+  std::reverse(labels.begin(), labels.end());
+  return out << labels;
 }
 
 } // namespace liblevenshtein
diff --git a/src/liblevenshtein/transducer/intersection.cpp b/src/liblevenshtein/transducer/intersection.cpp
index 41bff4f..c5d30c2 100644
--- a/src/liblevenshtein/transducer/intersection.cpp
+++ b/src/liblevenshtein/transducer/intersection.cpp
@@ -1,4 +1,6 @@
+#include <algorithm>
 #include <sstream>
+#include <string>
 
 #include "liblevenshtein/transducer/intersection.h"
 
@@ -30,10 +32,14 @@ auto Intersection::str() const -> std::string {
 
 auto operator<<(std::ostream &out, const Intersection &intersection)
     -> std::ostream & {
-  if (intersection._parent != nullptr) {
-    out << *(intersection._parent) << intersection._label;
+  // The labels are found in reverse order, from the last to the first
+  std::string labels;
+  for (const Intersection *iter = &intersection; iter->_parent != nullptr;
+       iter = iter->_parent) {
+    labels += iter->_label;
   }
-  return out;
+  std::reverse(labels.begin(), labels.end());
+  return out << labels;
 }
 
 } // namespace liblevenshtein
-- 
2.43.0


From 865232fcc5e4e2275c6bff86ce357fefbb6ee7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:01 +0000
Subject: [PATCH 09/12] fix: save dictionaries with long terms without
 recursion

Collecting the nodes and edges recursed once per character of a term and
overflowed the stack on terms of some 100,000 characters.
---
 .../serialization/serializer.cpp              | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index f133851..aad2690 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -68,29 +68,37 @@ auto deserialize_protobuf(std::istream &input) -> Dawg * {
 
 void collect_nodes(DawgNode *source, std::set<uint64_t> &node_ids,
                    std::set<uint64_t> &final_node_ids) {
-  auto source_id = reinterpret_cast<uint64_t>(source);
-  if (!node_ids.contains(source_id)) {
-    node_ids.insert(source_id);
-    if (source->is_final()) {
-      final_node_ids.insert(source_id);
+  std::vector<DawgNode *> pending = {source};
+  while (!pending.empty()) {
+    DawgNode *node = pending.back();
+    pending.pop_back();
+    auto node_id = reinterpret_cast<uint64_t>(node);
+    if (node_ids.insert(node_id).second) {
+      if (node->is_final()) {
+        final_node_ids.insert(node_id);
+      }
+      node->for_each_edge([&](char label, DawgNode *target) {
+        pending.push_back(target);
+      });
     }
-    source->for_each_edge([&](char label, DawgNode *target) {
-      collect_nodes(target, node_ids, final_node_ids);
-    });
   }
 }
 
 void collect_edges(DawgNode *source,
                    std::map<std::pair<uint64_t, char>, uint64_t> &edges) {
-  auto source_id = reinterpret_cast<uint64_t>(source);
-  source->for_each_edge([&](char label, DawgNode *target) {
-    std::pair<uint64_t, char> key = std::make_pair(source_id, label);
-    if (!edges.contains(key)) {
+  std::vector<DawgNode *> pending = {source};
+  while (!pending.empty()) {
+    DawgNode *node = pending.back();
+    pending.pop_back();
+    auto source_id = reinterpret_cast<uint64_t>(node);
+    node->for_each_edge([&](char label, DawgNode *target) {
+      std::pair<uint64_t, char> key = std::make_pair(source_id, label);
       auto target_id = reinterpret_cast<uint64_t>(target);
-      edges[key] = target_id;
-      collect_edges(target, edges);
-    }
-  });
+      if (edges.emplace(key, target_id).second) {
+        pending.push_back(target);
+      }
+    });
+  }
 }
 
 auto to_protobuf(Dawg *dawg) -> llp::Dictionary * {
-- 
2.43.0


From 88b2df44e3169b22afcf8cbed855d8501f24879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:01 +0000
Subject: [PATCH 10/12] fix: compare and hash nodes without recursion, shared
 nodes once

Both recursed once per character, overflowing the stack on long terms, and
followed every path rather than every node, which takes exponential time
where nodes are shared.
---
 src/liblevenshtein/collection/dawg_node.cpp | 94 ++++++++++++++++-----
 src/liblevenshtein/collection/dawg_node.h   |  3 +
 2 files changed, 77 insertions(+), 20 deletions(-)

diff --git a/src/liblevenshtein/collection/dawg_node.cpp b/src/liblevenshtein/collection/dawg_node.cpp
index f2d6d8c..b311f7f 100644
--- a/src/liblevenshtein/collection/dawg_node.cpp
+++ b/src/liblevenshtein/collection/dawg_node.cpp
@@ -1,5 +1,9 @@
 #include <array>
 #include <iostream>
+#include <set>
+#include <unordered_map>
+#include <utility>
+#include <vector>
 
 #include "MurmurHash2.h"
 
@@ -53,20 +57,34 @@ auto DawgNode::add_edge(char label, DawgNode *target) -> DawgNode * {
 #endif
 
 auto DawgNode::operator==(const DawgNode &other) const -> bool {
-  if (is_final() != other.is_final()) {
-    return false;
-  }
+  using Pair = std::pair<const DawgNode *, const DawgNode *>;
+  std::vector<Pair> pending = {{this, &other}};
+  std::set<Pair> compared;
 
-  if (_edges.size() != other._edges.size()) {
-    return false;
-  }
+  while (!pending.empty()) {
+    auto [expected, actual] = pending.back();
+    pending.pop_back();
+
+    if (expected->is_final() != actual->is_final()) {
+      return false;
+    }
 
-  // NOLINTNEXTLINE(readability-use-anyofallof)
-  for (const auto &[label, expected_target] : _edges) {
-    DawgNode *actual_target = other.transition(label);
-    if (actual_target == nullptr || *expected_target != *actual_target) {
+    if (expected->_edges.size() != actual->_edges.size()) {
       return false;
     }
+
+    for (const auto &[label, expected_target] : expected->_edges) {
+      DawgNode *actual_target = actual->transition(label);
+      if (actual_target == nullptr) {
+        return false;
+      }
+      // Pairs that could be reached in many ways are compared once
+      if (expected_target != actual_target &&
+          (expected_target->_edges.size() < 2 ||
+           compared.emplace(expected_target, actual_target).second)) {
+        pending.emplace_back(expected_target, actual_target);
+      }
+    }
   }
 
   return true;
@@ -95,17 +113,53 @@ auto operator<<(std::ostream &out, const DawgNode &node) -> std::ostream & {
 auto std::hash<liblevenshtein::DawgNode>::operator()(
     const liblevenshtein::DawgNode &node) const -> std::size_t {
 
-  uint64_t hash_code = 0xDEADBEEF;
-  std::array<uint64_t, 1> key = {0};
+  using liblevenshtein::DawgNode;
 
-  node.for_each_edge([&](char label, liblevenshtein::DawgNode *target) {
-    key[0] = (unsigned char) label;
-    hash_code = MurmurHash64A(key.data(), 1, hash_code);
+  // Nodes on the way from the root to the one being hashed
+  struct Frame {
+    const DawgNode *node;
+    std::map<char, DawgNode *>::const_iterator edge;
+    uint64_t hash_code;
+  };
 
-    key[0] = (*this)(*target);
-    hash_code = MurmurHash64A(key.data(), 1, hash_code);
-  });
+  std::vector<Frame> frames = {{&node, node._edges.begin(), 0xDEADBEEF}};
+
+  // Hash codes of the nodes having several edges, so that they are not followed
+  // from every node that shares them
+  std::unordered_map<const DawgNode *, uint64_t> hash_codes;
+
+  std::array<uint64_t, 1> key = {0};
 
-  key[0] = (uint64_t) node.is_final();
-  return MurmurHash64A(key.data(), 1, hash_code);
+  while (true) {
+    const DawgNode *source = frames.back().node;
+    uint64_t hash_code;
+
+    if (frames.back().edge != source->_edges.end()) {
+      const DawgNode *target = frames.back().edge->second;
+      auto iter = hash_codes.find(target);
+      if (iter == hash_codes.end()) {
+        frames.push_back({target, target->_edges.begin(), 0xDEADBEEF});
+        continue;
+      }
+      hash_code = iter->second;
+    }
+    else {
+      key[0] = (uint64_t) source->is_final();
+      hash_code = MurmurHash64A(key.data(), 1, frames.back().hash_code);
+      if (source->_edges.size() > 1) {
+        hash_codes[source] = hash_code;
+      }
+      frames.pop_back();
+      if (frames.empty()) {
+        return hash_code;
+      }
+    }
+
+    Frame &frame = frames.back();
+    key[0] = (unsigned char) frame.edge->first;
+    frame.hash_code = MurmurHash64A(key.data(), 1, frame.hash_code);
+    key[0] = hash_code;
+    frame.hash_code = MurmurHash64A(key.data(), 1, frame.hash_code);
+    ++frame.edge;
+  }
 }
diff --git a/src/liblevenshtein/collection/dawg_node.h b/src/liblevenshtein/collection/dawg_node.h
index 76ce2c0..e2d5952 100644
--- a/src/liblevenshtein/collection/dawg_node.h
+++ b/src/liblevenshtein/collection/dawg_node.h
@@ -91,6 +91,9 @@ public:
    */
   auto operator==(const DawgNode &other) const -> bool;
 
+  /** The hash function may access the outgoing edges from this node. */
+  friend struct std::hash<DawgNode>;
+
 private:
 
   /** Outgoing edges from this node. */
-- 
2.43.0


From 8964ed18e1d591fb37052a10e300d21a8a7ce50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 11/12] fix: report running out of memory when a long term is
 spelled out

str() went through a string stream, which swallows std::bad_alloc: the term
was cut short silently.
---
 src/liblevenshtein/collection/prefix.cpp       | 16 +++++++---------
 src/liblevenshtein/transducer/intersection.cpp | 17 +++++++----------
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/liblevenshtein/collection/prefix.cpp b/src/liblevenshtein/collection/prefix.cpp
index 0c0d8c3..6c922c3 100644
--- a/src/liblevenshtein/collection/prefix.cpp
+++ b/src/liblevenshtein/collection/prefix.cpp
@@ -1,5 +1,4 @@
 #include <algorithm>
-#include <sstream>
 #include <string>
 
 #include "liblevenshtein/collection/prefix.h"
@@ -34,20 +33,19 @@ auto Prefix::label() const -> char {
 }
 
 auto Prefix::str() const -> std::string {
-  std::stringstream ss;
-  ss << *this;
-  return ss.str();
-}
-
-auto operator<<(std::ostream &out, const Prefix &prefix) -> std::ostream & {
   // The labels are found in reverse order, from the last to the first
   std::string labels;
-  for (const Prefix *iter = &prefix; iter->_parent != nullptr;
+  for (const Prefix *iter = this; iter->_parent != nullptr;
        iter = iter->_parent) {
     labels += iter->_label;
   }
   std::reverse(labels.begin(), labels.end());
-  return out << labels;
+  return labels;
+}
+
+auto operator<<(std::ostream &out, const Prefix &prefix)
+    -> std::ostream & {
+  return out << prefix.str();
 }
 
 } // namespace liblevenshtein
diff --git a/src/liblevenshtein/transducer/intersection.cpp b/src/liblevenshtein/transducer/intersection.cpp
index c5d30c2..beda0e5 100644
--- a/src/liblevenshtein/transducer/intersection.cpp
+++ b/src/liblevenshtein/transducer/intersection.cpp
@@ -1,5 +1,4 @@
 #include <algorithm>
-#include <sstream>
 #include <string>
 
 #include "liblevenshtein/transducer/intersection.h"
@@ -25,21 +24,19 @@ auto Intersection::state() const -> State * {
 }
 
 auto Intersection::str() const -> std::string {
-  std::stringstream ss;
-  ss << *this;
-  return ss.str();
-}
-
-auto operator<<(std::ostream &out, const Intersection &intersection)
-    -> std::ostream & {
   // The labels are found in reverse order, from the last to the first
   std::string labels;
-  for (const Intersection *iter = &intersection; iter->_parent != nullptr;
+  for (const Intersection *iter = this; iter->_parent != nullptr;
        iter = iter->_parent) {
     labels += iter->_label;
   }
   std::reverse(labels.begin(), labels.end());
-  return out << labels;
+  return labels;
+}
+
+auto operator<<(std::ostream &out, const Intersection &intersection)
+    -> std::ostream & {
+  return out << intersection.str();
 }
 
 } // namespace liblevenshtein
-- 
2.43.0


From 59c9546d320ae99591b0574a9f32bcee5506802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 12/12] fix: types that own what they point to cannot be copied

A copy of a dictionary, transducer, query or iterator shared its nodes with the
original, and both deleted them.
---
 src/liblevenshtein/collection/dawg.h          | 4 ++++
 src/liblevenshtein/collection/dawg_iterator.h | 4 ++++
 src/liblevenshtein/transducer/intersection.h  | 4 ++++
 src/liblevenshtein/transducer/lazy_query.h    | 4 ++++
 src/liblevenshtein/transducer/position.h      | 4 ++++
 src/liblevenshtein/transducer/state.h         | 4 ++++
 src/liblevenshtein/transducer/transducer.h    | 4 ++++
 7 files changed, 28 insertions(+)

diff --git a/src/liblevenshtein/collection/dawg.h b/src/liblevenshtein/collection/dawg.h
index 6339d99..e9879ca 100644
--- a/src/liblevenshtein/collection/dawg.h
+++ b/src/liblevenshtein/collection/dawg.h
@@ -45,6 +45,10 @@ public:
    */
   virtual ~Dawg();
 
+  /** The nodes belong to one dictionary only. */
+  Dawg(const Dawg &other) = delete;
+  auto operator=(const Dawg &other) -> Dawg & = delete;
+
   /**
    * Adds a new term to this dictionary by adding missing sequential edges
    * leading outward from the root node.
diff --git a/src/liblevenshtein/collection/dawg_iterator.h b/src/liblevenshtein/collection/dawg_iterator.h
index 3aeb97f..0d01fe1 100644
--- a/src/liblevenshtein/collection/dawg_iterator.h
+++ b/src/liblevenshtein/collection/dawg_iterator.h
@@ -39,6 +39,10 @@ public:
    */
   ~DawgIterator();
 
+  /** The prefixes belong to one iterator only. */
+  DawgIterator(const DawgIterator &other) = delete;
+  auto operator=(const DawgIterator &other) -> DawgIterator & = delete;
+
   /**
    * Advances the iterator by one term.
    *
diff --git a/src/liblevenshtein/transducer/intersection.h b/src/liblevenshtein/transducer/intersection.h
index 43e7361..be4abc0 100644
--- a/src/liblevenshtein/transducer/intersection.h
+++ b/src/liblevenshtein/transducer/intersection.h
@@ -32,6 +32,10 @@ public:
    */
   ~Intersection();
 
+  /** The state belongs to one intersection only. */
+  Intersection(const Intersection &other) = delete;
+  auto operator=(const Intersection &other) -> Intersection & = delete;
+
   /**
    * Returns the dictionary DawgNode from the Intersection.
    *
diff --git a/src/liblevenshtein/transducer/lazy_query.h b/src/liblevenshtein/transducer/lazy_query.h
index b0b4390..942a2e0 100644
--- a/src/liblevenshtein/transducer/lazy_query.h
+++ b/src/liblevenshtein/transducer/lazy_query.h
@@ -59,6 +59,10 @@ public:
    */
   ~LazyQuery();
 
+  /** The intersections belong to one query only. */
+  LazyQuery(const LazyQuery &other) = delete;
+  auto operator=(const LazyQuery &other) -> LazyQuery & = delete;
+
   /**
    * Advances to the next spelling candidate.
    *
diff --git a/src/liblevenshtein/transducer/position.h b/src/liblevenshtein/transducer/position.h
index 3283caf..0c0964a 100644
--- a/src/liblevenshtein/transducer/position.h
+++ b/src/liblevenshtein/transducer/position.h
@@ -27,6 +27,10 @@ public:
    */
   ~Position();
 
+  /** The position following this one belongs to no other. */
+  Position(const Position &other) = delete;
+  auto operator=(const Position &other) -> Position & = delete;
+
   /**
    * Assigns the subsequent Position along the current path.
    *
diff --git a/src/liblevenshtein/transducer/state.h b/src/liblevenshtein/transducer/state.h
index 06dc156..940160e 100644
--- a/src/liblevenshtein/transducer/state.h
+++ b/src/liblevenshtein/transducer/state.h
@@ -50,6 +50,10 @@ public:
    */
   ~State();
 
+  /** The positions belong to one state only. */
+  State(const State &other) = delete;
+  auto operator=(const State &other) -> State & = delete;
+
   /**
    * Sets the first element in the linked-list of Position nodes. The
    * linked-list is used with a modified version of merge-sort to merge new
diff --git a/src/liblevenshtein/transducer/transducer.h b/src/liblevenshtein/transducer/transducer.h
index f78475b..52b5608 100644
--- a/src/liblevenshtein/transducer/transducer.h
+++ b/src/liblevenshtein/transducer/transducer.h
@@ -39,6 +39,10 @@ public:
    */
   ~Transducer();
 
+  /** The initial intersection belongs to one transducer only. */
+  Transducer(const Transducer &other) = delete;
+  auto operator=(const Transducer &other) -> Transducer & = delete;
+
   /**
    * Transduces the query `term` and `max_distance` into the set of all spelling
    * candidates from the dictionary automaton whose edit distances from `term`
-- 
2.43.0

