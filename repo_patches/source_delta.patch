From 4ff577652693f2d0fff4c6607b5aeeb3d17e1edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 01/12] fix: Choice bind/join keep the alternatives when the
 primary value yields no choices

bind, bind_owned, join and join_owned returned an empty Choice whenever the
primary value mapped to an empty Choice, although the documentation promises
that alternatives are tried and that bind is associative.
---
 src/datatypes/choice.rs | 114 +++-------------------------------------
 1 file changed, 8 insertions(+), 106 deletions(-)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index b4842f0..19a19af 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1446,34 +1446,11 @@ impl<T: Clone> Monad for Choice<T> {
         F: Fn(&T) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let self_values = &self.values;
-        let first_choice = f(&self_values[0]);
-
-        if first_choice.values.is_empty() {
-            return Choice::new_empty();
+        // Every value, primary or alternative, contributes its choices in order: an empty
+        // choice contributes nothing, and the first value left over is the primary one.
+        Choice {
+            values: self.values.iter().flat_map(|value| f(value).values).collect(),
         }
-
-        let first_choice_values = &first_choice.values;
-        let first = first_choice_values[0].clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(first_choice_values.len() - 1 + self_values.len() - 1);
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(&first_choice_values[1..]);
-
-        // Apply f to each alternative and collect all values
-        for alt in &self_values[1..] {
-            let alt_choice = f(alt);
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
     }
 
     fn bind_owned<U, F>(self, mut f: F) -> Self::Output<U>
@@ -1481,31 +1458,9 @@ impl<T: Clone> Monad for Choice<T> {
         F: FnMut(Self::Source) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
+        Choice {
+            values: self.values.into_iter().flat_map(|value| f(value).values).collect(),
         }
-
-        let mut values = self.values;
-        let primary_choice = f(values.remove(0));
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_choice_values = &primary_choice.values;
-        let first = primary_choice_values[0].clone();
-
-        // Calculate better capacity estimate for bind_owned
-        let mut alternatives = Vec::with_capacity(primary_choice_values.len() - 1 + values.len());
-
-        alternatives.extend_from_slice(&primary_choice_values[1..]);
-
-        for alt in values {
-            let alt_choice = f(alt);
-            alternatives.extend(alt_choice.values);
-        }
-
-        Choice::new(first, alternatives)
     }
 
     #[inline]
@@ -1514,33 +1469,7 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_value = self.first().unwrap().clone();
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + self.alternatives().len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in self.alternatives() {
-            let alt_choice: Self::Output<U> = alt.clone().into();
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
+        self.bind(|inner| inner.clone().into())
     }
 
     #[inline]
@@ -1549,34 +1478,7 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_value = values.remove(0);
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + values.len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in values {
-            let alt_choice: Self::Output<U> = alt.into();
-            alternatives.extend_from_slice(&alt_choice.values);
-        }
-
-        Choice::new(first, alternatives)
+        self.bind_owned(|inner| inner.into())
     }
 }
 
-- 
2.43.0


From 4ece46a893ae185898139eadaf70634f29a60286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 02/12] fix: ReaderT::bind duplicated the inner value with
 transmute_copy and dropped it twice

The bound value was bitwise copied out of a clone that is dropped as well, a
double drop for every value type that owns something. M::Source is A, so the
clone can be handed to the function directly.
---
 src/transformers/reader_t.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/transformers/reader_t.rs b/src/transformers/reader_t.rs
index b2a2e4d..e783310 100644
--- a/src/transformers/reader_t.rs
+++ b/src/transformers/reader_t.rs
@@ -952,12 +952,8 @@ where
             let f_clone = f.clone();
             let e_clone = e.clone();
 
-            M::bind::<B, _>(&ma, move |source_ref: &M::Source| {
-                let a_owned = source_ref.clone();
-                // Use unsafe transmute to convert from M::Source to A
-                // This is safe because we have the constraint M: HKT<Source = A>
-                let a_value: A = unsafe { std::mem::transmute_copy(&a_owned) };
-                f_clone(a_value).run_reader(e_clone.clone())
+            M::bind::<B, _>(&ma, move |source_ref: &A| {
+                f_clone(source_ref.clone()).run_reader(e_clone.clone())
             })
         })
     }
-- 
2.43.0


From b0b14b0b5bfcd1472bb18553a79634795b50ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 03/12] fix: concatenating a shallow persistent vector onto a
 deeper one swapped the operands

RRBTree::concat handed (other, self) to concat_different_height, which already
elevates its receiver, so a.concat(&b) held b's elements before a's whenever
a's tree was the lower one.
---
 src/pvec/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 1a246ba..2892a6d 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -288,7 +288,7 @@ impl<T: Clone> RRBTree<T> {
         if self.height == other.height {
             self.concat_same_height(other)
         } else if self.height < other.height {
-            other.concat_different_height(self, false)
+            self.concat_different_height(other, false)
         } else {
             self.concat_different_height(other, true)
         }
-- 
2.43.0


From 08935a9dfa65e7a5186678603a55a192005db8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 04/12] fix: splitting a concatenated persistent vector lost
 elements

The tree returned by concat recorded the height of its operands although the
merged root can be one level higher, and split_at stopped descending after
that many levels. split_at, take, skip, insert and remove then dropped
elements. Record the real height and descend until a leaf is reached.
---
 src/pvec/tree.rs | 49 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 2892a6d..f178c45 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -312,11 +312,14 @@ impl<T: Clone> RRBTree<T> {
             self.height.max(other.height),
         );
 
+        let root = Arc::new(merged_root);
+        let height = Self::calculate_height(&root);
+
         Self {
-            root: Arc::new(merged_root),
+            root,
             tail: right_for_merge.tail.clone(),
             head: left_for_merge.head.clone(),
-            height: self.height.max(other.height),
+            height,
             len: self.len + other.len,
         }
     }
@@ -756,32 +759,28 @@ impl<T: Clone> RRBTree<T> {
         let mut remaining_index = index;
         let mut current_height = self.height;
 
-        while current_height > 0 {
-            match current_node.as_ref() {
-                RRBNode::Branch { children, sizes } => {
-                    let (child_idx, sub_index) = if sizes.is_some() {
-                        current_node
-                            .find_child_relaxed(remaining_index)
-                            .unwrap_or((0, 0))
-                    } else {
-                        let child_height = current_height.saturating_sub(1);
-                        current_node
-                            .find_child_regular(remaining_index, child_height)
-                            .unwrap_or((0, 0))
-                    };
+        // Relaxed trees need not be of uniform depth: descend until a leaf is reached.
+        while let RRBNode::Branch { children, sizes } = current_node.as_ref() {
+            let (child_idx, sub_index) = if sizes.is_some() {
+                current_node
+                    .find_child_relaxed(remaining_index)
+                    .unwrap_or((0, 0))
+            } else {
+                let child_height = current_height.saturating_sub(1);
+                current_node
+                    .find_child_regular(remaining_index, child_height)
+                    .unwrap_or((0, 0))
+            };
 
-                    path.push(child_idx);
-                    remaining_index = sub_index;
+            path.push(child_idx);
+            remaining_index = sub_index;
 
-                    if let Some(child) = children.get(child_idx) {
-                        current_node = child;
-                    } else {
-                        break;
-                    }
-                    current_height = current_height.saturating_sub(1);
-                },
-                RRBNode::Leaf { .. } => break,
+            if let Some(child) = children.get(child_idx) {
+                current_node = child;
+            } else {
+                break;
             }
+            current_height = current_height.saturating_sub(1);
         }
         path
     }
-- 
2.43.0


From 39ad3165ac7546208a824977e6da5ef6b0786132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 05/12] fix: popping from a persistent vector's tree lost or
 reordered elements

pop_back counted the head buffer as part of the tree and returned None (or the
wrong element) for vectors with a head; pop_front moved the tail into the head
in reverse, and gave up on trees starting with an empty leaf. Both now take
the element and split the tree next to it.
---
 src/pvec/tree.rs | 80 ++++--------------------------------------------
 1 file changed, 6 insertions(+), 74 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index f178c45..647ece7 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -460,42 +460,9 @@ impl<T: Clone> RRBTree<T> {
     }
 
     fn pop_from_tree(&self) -> Option<(Self, T)> {
-        if self.len == 0 {
-            return None;
-        }
-
-        let tree_size = self.len - self.tail.len();
-        if tree_size == 0 {
-            return None;
-        }
-
-        let last_tree_index = tree_size - 1;
-        let last_element = self.root.get(last_tree_index)?.clone();
-
-        let (new_root, new_height) = if tree_size == 1 {
-            (
-                Arc::new(RRBNode::Leaf {
-                    elements: SmallVec::new(),
-                }),
-                0,
-            )
-        } else {
-            match self.root.pop_back() {
-                Some((new_root, _)) => (Arc::new(new_root), self.height),
-                None => (self.root.clone(), self.height),
-            }
-        };
-
-        Some((
-            Self {
-                root: new_root,
-                tail: self.tail.clone(),
-                head: self.head.clone(),
-                height: new_height,
-                len: self.len - 1,
-            },
-            last_element,
-        ))
+        let popped = self.get(self.len.checked_sub(1)?)?.clone();
+        let (rest, _) = self.split_at(self.len - 1);
+        Some((rest, popped))
     }
 
     pub fn pop_front(&self) -> Option<(Self, T)> {
@@ -522,44 +489,9 @@ impl<T: Clone> RRBTree<T> {
     }
 
     fn pop_front_from_tree(&self) -> Option<(Self, T)> {
-        let tree_size = self.len - self.head.len() - self.tail.len();
-        if tree_size > 0
-            && let Some((new_root, popped_element)) = self.root.pop_front()
-        {
-            return Some((
-                Self {
-                    root: Arc::new(new_root),
-                    tail: self.tail.clone(),
-                    head: self.head.clone(),
-                    height: self.height,
-                    len: self.len - 1,
-                },
-                popped_element,
-            ));
-        }
-
-        if !self.tail.is_empty() {
-            let mut new_head = SmallVec::new();
-            for item in self.tail.iter().rev() {
-                new_head.push(item.clone());
-            }
-            let popped = new_head.pop()?;
-
-            Some((
-                Self {
-                    root: Arc::new(RRBNode::Leaf {
-                        elements: SmallVec::new(),
-                    }),
-                    tail: SmallVec::new(),
-                    head: new_head,
-                    height: 0,
-                    len: self.len - 1,
-                },
-                popped,
-            ))
-        } else {
-            None
-        }
+        let popped = self.get(0)?.clone();
+        let (_, rest) = self.split_at(1);
+        Some((rest, popped))
     }
 
     pub fn split_at(&self, index: usize) -> (Self, Self) {
-- 
2.43.0


From 2be345c78a216359fa871169435008f63a5941f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 06/12] fix: persistent vectors with equal contents compared
 unequal

The derived PartialEq, Ord and Hash looked at the generation counter and at the
representation, so vectors holding the same elements differed when they were
built in different ways, and the Monoid identity laws failed.
---
 src/pvec/core.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index f185bbb..3d57e66 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -1,7 +1,9 @@
 //! Core implementation of the persistent vector data structure.
 
 use smallvec::SmallVec;
+use std::cmp::Ordering;
 use std::fmt::{self, Debug};
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 
 use super::error::PVecError;
@@ -40,7 +42,7 @@ type Generation = u32;
 /// assert_eq!(vec.get(1), Some(&2));  // Original unchanged
 /// assert_eq!(vec2.get(1), Some(&42)); // New vector updated
 /// ```
-#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone)]
 pub struct PersistentVector<T> {
     inner: VectorImpl<T>,
     len: usize,
@@ -51,7 +53,7 @@ pub struct PersistentVector<T> {
 ///
 /// Uses an adaptive strategy where small vectors are stored inline
 /// and larger vectors use a tree structure.
-#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug)]
 enum VectorImpl<T> {
     /// Inline storage for small vectors.
     Inline {
@@ -977,6 +979,37 @@ impl<T: Clone> PersistentVector<T> {
     }
 }
 
+// Comparison and hashing look at the elements only: neither the representation chosen for them
+// nor the history recorded in `generation` is part of the value.
+impl<T: Clone + PartialEq> PartialEq for PersistentVector<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len == other.len && self.iter().eq(other.iter())
+    }
+}
+
+impl<T: Clone + Eq> Eq for PersistentVector<T> {}
+
+impl<T: Clone + PartialOrd> PartialOrd for PersistentVector<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.iter().partial_cmp(other.iter())
+    }
+}
+
+impl<T: Clone + Ord> Ord for PersistentVector<T> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.iter().cmp(other.iter())
+    }
+}
+
+impl<T: Clone + Hash> Hash for PersistentVector<T> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.len.hash(state);
+        for item in self.iter() {
+            item.hash(state);
+        }
+    }
+}
+
 impl<T> Default for PersistentVector<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 1a005258313bd0f84cb38ce55064e8778fa936ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 07/12] fix: combine_n_owned doubled the accumulator instead of
 adding one copy per step

combine_n_owned(n) combined 2^(n-1) copies where combine_n and the
documentation say n.
---
 src/traits/semigroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/semigroup.rs b/src/traits/semigroup.rs
index 6a57dc1..48dffd2 100644
--- a/src/traits/semigroup.rs
+++ b/src/traits/semigroup.rs
@@ -234,9 +234,9 @@ pub trait SemigroupExt: Semigroup {
         if n == 0 {
             return self;
         }
-        let mut acc = self;
+        let mut acc = self.clone();
         for _ in 1..n {
-            acc = acc.clone().combine_owned(acc);
+            acc = acc.combine_owned(self.clone());
         }
         acc
     }
-- 
2.43.0


From a902926a2c93ab637aa2f1d2e76de423b602a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 08/12] fix: lazy error contexts were evaluated when the
 computation succeeded

try_run_state_with_context (State, StateT) and try_run_reader_with_context
built the context before looking at the result, although context! promises
that it is only evaluated when an error occurs.
---
 src/datatypes/state.rs       | 6 ++----
 src/transformers/reader_t.rs | 3 +--
 src/transformers/state_t.rs  | 8 ++++----
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/datatypes/state.rs b/src/datatypes/state.rs
index 97ab874..8cd01d1 100644
--- a/src/datatypes/state.rs
+++ b/src/datatypes/state.rs
@@ -1081,10 +1081,8 @@ impl<
         C: IntoErrorContext,
     {
         let (result, final_state) = self.run_state(s);
-        let context = context.into_error_context();
-        let transformed_result = result.map_err(|error| {
-            ComposableError::new(error).with_context(context.clone())
-        });
+        let transformed_result =
+            result.map_err(|error| ComposableError::new(error).with_context(context));
         (transformed_result, final_state)
     }
 
diff --git a/src/transformers/reader_t.rs b/src/transformers/reader_t.rs
index e783310..aae4ca9 100644
--- a/src/transformers/reader_t.rs
+++ b/src/transformers/reader_t.rs
@@ -1143,9 +1143,8 @@ where
     where
         C: IntoErrorContext,
     {
-        let context = context.into_error_context();
         self.run_reader(env)
-            .map_err(|e| ComposableError::new(e).with_context(context.clone()))
+            .map_err(|e| ComposableError::new(e).with_context(context))
     }
 
     /// Maps a function over the error contained in this ReaderT.
diff --git a/src/transformers/state_t.rs b/src/transformers/state_t.rs
index 3345176..185143a 100644
--- a/src/transformers/state_t.rs
+++ b/src/transformers/state_t.rs
@@ -861,15 +861,15 @@ where
         A: Clone,
         E: Clone,
     {
-        let context = context.into_error_context();
         match self {
             StateT::Pure(_) => panic!("Cannot run Pure StateT without proper context"),
             StateT::LiftM(result) => match result.as_ref() {
                 Ok((s, a)) => Ok((s.clone(), a.clone())),
-                Err(e) => Err(ComposableError::new(e.clone()).with_context(context.clone())),
+                Err(e) => Err(ComposableError::new(e.clone()).with_context(context)),
+            },
+            StateT::Effect(run_fn) => {
+                run_fn(state).map_err(|e| ComposableError::new(e).with_context(context))
             },
-            StateT::Effect(run_fn) => run_fn(state)
-                .map_err(|e| ComposableError::new(e).with_context(context.clone())),
         }
     }
 
-- 
2.43.0


From 680a569c6b1fc33de5930ced123db052432f20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 09/12] fix: Validated::collect took an invalid value without
 errors for a missing one

collect and collect_owned decided by whether any error had been gathered, so
an Invalid holding no errors (invalid_many of nothing, Monoid::empty) was
dropped and the result was Valid with an element missing.
---
 src/datatypes/validated/core.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index e47702c..a5b05ef 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -1547,21 +1547,22 @@ impl<E: Clone, A: Clone> Validated<E, A> {
         A: Clone,
         E: Clone,
     {
-        let (values, errors): (Vec<_>, SmallVec<[E; 8]>) = iter.fold(
-            (Vec::new(), SmallVec::<[E; 8]>::new()),
-            |(mut values, mut errors), item| {
+        let (values, errors): (Vec<_>, Option<SmallVec<[E; 8]>>) = iter.fold(
+            (Vec::new(), None),
+            |(mut values, mut errors): (Vec<_>, Option<SmallVec<[E; 8]>>), item| {
                 match item {
                     Validated::Valid(a) => values.push(a),
-                    Validated::Invalid(es) => errors.extend(es),
+                    Validated::Invalid(es) => {
+                        errors.get_or_insert_with(SmallVec::new).extend(es)
+                    },
                 }
                 (values, errors)
             },
         );
 
-        if errors.is_empty() {
-            Validated::Valid(C::from_iter(values))
-        } else {
-            Validated::Invalid(errors)
+        match errors {
+            None => Validated::Valid(C::from_iter(values)),
+            Some(errors) => Validated::Invalid(errors),
         }
     }
 
@@ -1595,15 +1596,19 @@ impl<E: Clone, A: Clone> Validated<E, A> {
     {
         let mut acc = ErrorAccumulator::new();
         let mut values = Vec::new();
+        let mut all_valid = true;
 
         for item in iter {
             match item {
                 Validated::Valid(a) => values.push(a),
-                Validated::Invalid(es) => acc.extend_owned(es),
+                Validated::Invalid(es) => {
+                    all_valid = false;
+                    acc.extend_owned(es);
+                },
             }
         }
 
-        if acc.buffer.is_empty() {
+        if all_valid {
             Validated::Valid(C::from_iter(values))
         } else {
             Validated::Invalid(acc.into_inner())
-- 
2.43.0


From 107ff983789249d7f0f80ef588f61e0e4dcf91c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 10/12] fix: run IO::new_async's future on the shared runtime
 from any thread

run() outside a Tokio context panicked with 'there is no reactor running'
because the blocking task was spawned on the caller's runtime.
---
 src/datatypes/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index e7beb46..f1cbd9d 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -783,7 +783,7 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
             let future_to_run = future_once.lock().unwrap().take();
             if let Some(f) = future_to_run {
                 let result = TOKIO_RUNTIME
-                    .block_on(tokio::task::spawn_blocking(move || {
+                    .block_on(TOKIO_RUNTIME.spawn_blocking(move || {
                         TOKIO_RUNTIME.block_on(f)
                     }))
                     .unwrap();
-- 
2.43.0


From 9f7e7ad85403178bd551bedb7fe29bba0b882348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 11/12] fix: keep IO::new_async's future locked until its
 result is stored

A second concurrent run found the future taken and the result not yet
cached, and panicked on unwrapping None.
---
 src/datatypes/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index f1cbd9d..32644c7 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -780,8 +780,8 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
                 return cached_result.clone();
             }
 
-            let future_to_run = future_once.lock().unwrap().take();
-            if let Some(f) = future_to_run {
+            let mut future_to_run = future_once.lock().unwrap();
+            if let Some(f) = future_to_run.take() {
                 let result = TOKIO_RUNTIME
                     .block_on(TOKIO_RUNTIME.spawn_blocking(move || {
                         TOKIO_RUNTIME.block_on(f)
-- 
2.43.0


From 09ce9f58928bd23c198370eb87c1455e3a93a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 12/12] fix: Identity::try_value and try_into_value return None
 when there is no value

Either, Maybe, Validated, First, Last and Choice inherited the default,
which calls value() and panics; the trait asks such types to override it.
---
 src/datatypes/choice.rs           | 10 ++++++++++
 src/datatypes/either.rs           | 16 ++++++++++++++++
 src/datatypes/maybe.rs            | 16 ++++++++++++++++
 src/datatypes/validated/traits.rs | 16 ++++++++++++++++
 src/datatypes/wrapper/first.rs    | 10 ++++++++++
 src/datatypes/wrapper/last.rs     | 10 ++++++++++
 6 files changed, 78 insertions(+)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index 19a19af..fb603fa 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1307,6 +1307,11 @@ impl<T: Clone> Identity for Choice<T> {
         self.first().expect("Cannot get value from an empty Choice")
     }
 
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.first()
+    }
+
     #[inline]
     fn into_value(self) -> Self::Source {
         self.values
@@ -1314,6 +1319,11 @@ impl<T: Clone> Identity for Choice<T> {
             .next()
             .expect("Cannot get value from an empty Choice")
     }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.values.into_iter().next()
+    }
 }
 
 impl<T: Clone> Functor for Choice<T> {
diff --git a/src/datatypes/either.rs b/src/datatypes/either.rs
index 06266d3..ae22613 100644
--- a/src/datatypes/either.rs
+++ b/src/datatypes/either.rs
@@ -1067,6 +1067,14 @@ impl<L: Clone, R: Clone> Identity for Either<L, R> {
         }
     }
 
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        match self {
+            Either::Right(r) => Some(r),
+            Either::Left(_) => None,
+        }
+    }
+
     #[inline]
     /// Consumes the `Either` and returns the contained `Right` value.
     ///
@@ -1082,6 +1090,14 @@ impl<L: Clone, R: Clone> Identity for Either<L, R> {
             Either::Right(r) => r,
         }
     }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        match self {
+            Either::Right(r) => Some(r),
+            Either::Left(_) => None,
+        }
+    }
 }
 
 /// Implementation of `MonadPlus` for `Either`, which provides zero and plus operations.
diff --git a/src/datatypes/maybe.rs b/src/datatypes/maybe.rs
index 300066f..2330ab0 100644
--- a/src/datatypes/maybe.rs
+++ b/src/datatypes/maybe.rs
@@ -1416,10 +1416,26 @@ impl<T> Identity for Maybe<T> {
         }
     }
 
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        match self {
+            Maybe::Just(v) => Some(v),
+            Maybe::Nothing => None,
+        }
+    }
+
     #[inline]
     fn into_value(self) -> Self::Source {
         self.unwrap()
     }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        match self {
+            Maybe::Just(v) => Some(v),
+            Maybe::Nothing => None,
+        }
+    }
 }
 
 impl<T> Default for Maybe<T> {
diff --git a/src/datatypes/validated/traits.rs b/src/datatypes/validated/traits.rs
index e654ee9..fc080df 100644
--- a/src/datatypes/validated/traits.rs
+++ b/src/datatypes/validated/traits.rs
@@ -644,6 +644,14 @@ impl<E: Clone, A: Clone> Identity for Validated<E, A> {
         }
     }
 
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        match self {
+            Validated::Valid(a) => Some(a),
+            _ => None,
+        }
+    }
+
     #[inline]
     fn into_value(self) -> Self::Source {
         match self {
@@ -651,6 +659,14 @@ impl<E: Clone, A: Clone> Identity for Validated<E, A> {
             _ => panic!("Cannot extract value from invalid Validated"),
         }
     }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        match self {
+            Validated::Valid(a) => Some(a),
+            _ => None,
+        }
+    }
 }
 
 /// # Examples for `Foldable` on `Validated`
diff --git a/src/datatypes/wrapper/first.rs b/src/datatypes/wrapper/first.rs
index 4d041da..d019d62 100644
--- a/src/datatypes/wrapper/first.rs
+++ b/src/datatypes/wrapper/first.rs
@@ -378,9 +378,19 @@ impl<T: Clone> Identity for First<T> {
         self.0.as_ref().unwrap()
     }
 
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for First<T> {
diff --git a/src/datatypes/wrapper/last.rs b/src/datatypes/wrapper/last.rs
index 49436c7..9120050 100644
--- a/src/datatypes/wrapper/last.rs
+++ b/src/datatypes/wrapper/last.rs
@@ -397,9 +397,19 @@ impl<T: Clone> Identity for Last<T> {
         self.0.as_ref().unwrap()
     }
 
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for Last<T> {
-- 
2.43.0

