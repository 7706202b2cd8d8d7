From 2e28747875dbb9c6e268a74d952043ad3df3d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 1/3] fix: do not modify merkle block when concealing fails

MerkleBlock::conceal_except dropped the entropy and concealed all other
leafs before reporting that a requested protocol is not known.
---
 commit_verify/src/mpc/block.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index a7125ec..6df6e5d 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -321,6 +321,14 @@ impl MerkleBlock {
         let mut count = 0usize;
         let mut not_found = protocols.iter().copied().collect::<BTreeSet<_>>();
 
+        // Check that all requested leafs are known before modifying the block
+        for protocol_id in self.known_protocol_ids() {
+            not_found.remove(&protocol_id);
+        }
+        if let Some(protocol_id) = not_found.into_iter().next() {
+            return Err(LeafNotKnown(protocol_id));
+        }
+
         self.entropy = None;
 
         // Conceal all leafs except of one
@@ -330,7 +338,7 @@ impl MerkleBlock {
                     // Do nothing
                 }
                 TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.contains(p) => {
-                    not_found.remove(p);
+                    // Do nothing
                 }
                 TreeNode::CommitmentLeaf { .. } => {
                     count += 1;
@@ -342,10 +350,6 @@ impl MerkleBlock {
             }
         }
 
-        if let Some(protocol_id) = not_found.into_iter().next() {
-            return Err(LeafNotKnown(protocol_id));
-        }
-
         loop {
             debug_assert!(!self.cross_section.is_empty());
             let prev_count = count;
-- 
2.43.0


From 71eaeb700b2471e08ba597c972f63422212dc7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 2/3] fix: report proof mismatch in embed-commit verification

A regenerated proof not matching the provided one has a dedicated error
kind, EmbedVerifyError::ProofMismatch, which was never returned.
---
 commit_verify/src/embed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commit_verify/src/embed.rs b/commit_verify/src/embed.rs
index 3009e71..5811e9b 100644
--- a/commit_verify/src/embed.rs
+++ b/commit_verify/src/embed.rs
@@ -169,7 +169,7 @@ where
         let mut container_prime = proof.restore_original_container(self)?;
         let proof_prime = container_prime.embed_commit(msg)?;
         if !proof_prime.verify_eq(proof) {
-            return Err(EmbedVerifyError::InvalidProof);
+            return Err(EmbedVerifyError::ProofMismatch);
         }
         if !self.verify_eq(&container_prime) {
             return Err(EmbedVerifyError::CommitmentMismatch);
-- 
2.43.0


From 8f0d2e3bf3815c5e13f56e558e271224af11ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 3/3] fix: do not underflow factored width of untrusted merkle
 data

A decoded proof, block or tree may have a cofactor exceeding its width.
---
 commit_verify/src/mpc/block.rs | 8 ++++++--
 commit_verify/src/mpc/tree.rs  | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index 6df6e5d..6226aaa 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -603,7 +603,9 @@ Changed commitment id: {}",
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit().saturating_sub(self.cofactor as u32)
+    }
 
     pub fn known_protocol_ids(&self) -> impl Iterator<Item = ProtocolId> + '_ {
         self.cross_section.iter().filter_map(|item| match item {
@@ -708,7 +710,9 @@ impl MerkleProof {
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit().saturating_sub(self.cofactor as u32)
+    }
 
     /// Converts the proof into inner merkle path representation
     pub fn into_path(self) -> Confined<Vec<MerkleHash>, 0, 32> { self.path }
diff --git a/commit_verify/src/mpc/tree.rs b/commit_verify/src/mpc/tree.rs
index f1999fc..628a832 100644
--- a/commit_verify/src/mpc/tree.rs
+++ b/commit_verify/src/mpc/tree.rs
@@ -199,7 +199,9 @@ impl MerkleTree {
 
     /// Computes the factored width of the merkle tree, equal to `2 ^ depth -
     /// cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit().saturating_sub(self.cofactor as u32)
+    }
 
     pub fn depth(&self) -> u5 { self.depth }
 
-- 
2.43.0

