From 0209e72973ad2c48593135016ad442f354ae9b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:38 +0000
Subject: [PATCH 001/151] fix: keep the value parser on character boundaries

Reading or skipping a non-ASCII character moved the cursor by one byte.
The next slice then panicked in the middle of the character.
Matching a fixed string had the same problem at its end.
---
 crates/oxvg_parse/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index 7dfda4d..0079af0 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -40,7 +40,7 @@ impl<'input> Parser<'input> {
 
     /// Go to the next value without reading
     pub fn advance(&mut self) {
-        self.cursor += 1;
+        self.cursor += self.current().map_or(1, char::len_utf8);
     }
 
     /// Move backwards without reading
@@ -213,13 +213,15 @@ impl<'input> Parser<'input> {
     ///
     /// If the next set of characters does not match the given string
     pub fn expect_str(&mut self, expected: &'static str) -> Result<(), Error<'input>> {
-        let cursor = self.cursor;
-        self.cursor += expected.len();
-        let received = self.slice_from(cursor);
-        if received == expected {
+        let slice = self.slice();
+        if slice.starts_with(expected) {
+            self.cursor += expected.len();
             Ok(())
         } else {
-            Err(Error::ExpectedString { expected, received })
+            Err(Error::ExpectedString {
+                expected,
+                received: slice.get(..expected.len()).unwrap_or(slice),
+            })
         }
     }
 
-- 
2.43.0


From dd822b5e89aed0edb83f37da395a77a7146d009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:38 +0000
Subject: [PATCH 002/151] fix: skip a separator only at the cursor

Skipping a character also counted matches at the far end of the input.
A trailing separator made the parser jump over unread content.
---
 crates/oxvg_parse/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index 0079af0..753dcff 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -121,7 +121,7 @@ impl<'input> Parser<'input> {
 
     /// Moves the cursor forward the number of matching characters
     pub fn skip_char(&mut self, char: char) {
-        self.skip_internal(self.slice().trim_matches(char).len());
+        self.skip_internal(self.slice().trim_start_matches(char).len());
     }
 
     /// Moves the cursor forward the number of whitespace characters
-- 
2.43.0


From 46026e7deb5cc483b0249ccddbc106c8419832c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:38 +0000
Subject: [PATCH 003/151] fix: end a number's exponent at a decimal point

`1e-7.5` is two numbers in path data and lists.
The parser read it as one malformed number and rejected the whole value.
---
 crates/oxvg_parse/src/types/number.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/oxvg_parse/src/types/number.rs b/crates/oxvg_parse/src/types/number.rs
index 23fc0a4..482150b 100644
--- a/crates/oxvg_parse/src/types/number.rs
+++ b/crates/oxvg_parse/src/types/number.rs
@@ -19,8 +19,6 @@ impl<'input> Parse<'input> for f64 {
                 let exponent_cursor = input.cursor();
                 input.skip_matches(|char| matches!(char, '-' | '+'));
                 input.skip_matches(|char| char.is_ascii_digit());
-                input.skip_char('.');
-                input.skip_matches(|char| char.is_ascii_digit());
                 if exponent_cursor == input.cursor() {
                     return Err(Error::InvalidNumber);
                 }
-- 
2.43.0


From 77593472017f79a2b51abfc9ff6571db97e3cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:38 +0000
Subject: [PATCH 004/151] fix: don't repeat a close command implicitly in path
 data

Arguments after a close command made the parser append close commands
forever, as nothing was consumed.
Whitespace after the last close command appended an extra one.
---
 crates/oxvg_path/src/parser.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/parser.rs b/crates/oxvg_path/src/parser.rs
index 83c8048..a91507e 100644
--- a/crates/oxvg_path/src/parser.rs
+++ b/crates/oxvg_path/src/parser.rs
@@ -33,12 +33,21 @@ impl<'input> Path {
             if !list.is_empty() {
                 input.skip_char(',');
                 input.skip_whitespace();
+                if input.is_empty() {
+                    break;
+                }
             }
             let mut command_id = input
                 .try_parse(command::ID::parse)
                 .or_else(|_| {
                     if let Some(last) = list.last() {
-                        Ok(command::ID::Implicit(Box::new(last.id().next_implicit())))
+                        match last.id().next_implicit() {
+                            // Takes no arguments, so there's nothing to repeat
+                            command::ID::ClosePath => {
+                                Err(oxvg_parse::error::Error::Path(PathError::NoCommand))
+                            }
+                            id => Ok(command::ID::Implicit(Box::new(id))),
+                        }
                     } else if allow_implicit_start {
                         Ok(command::ID::MoveTo)
                     } else {
@@ -50,7 +59,10 @@ impl<'input> Path {
                     remaining_content: input.take_slice(),
                 })?;
             if let Some(last) = list.last() {
-                if !command_id.is_implicit() && last.id().next_implicit() == command_id {
+                if !command_id.is_implicit()
+                    && command_id != command::ID::ClosePath
+                    && last.id().next_implicit() == command_id
+                {
                     command_id = command::ID::Implicit(Box::new(command_id));
                 }
             } else if !matches!(command_id, command::ID::MoveBy | command::ID::MoveTo) {
-- 
2.43.0


From e5552ec57935ab90a65c1df01df5d5406ce55ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:37 +0000
Subject: [PATCH 005/151] fix: keep the exponent of short path numbers intact

Stripping a trailing zero also stripped it from exponents.
1.1e-10 was written as 1.1e-1.
---
 crates/oxvg_path/src/paths/svg/command.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_path/src/paths/svg/command.rs b/crates/oxvg_path/src/paths/svg/command.rs
index 5ab200d..ddede05 100644
--- a/crates/oxvg_path/src/paths/svg/command.rs
+++ b/crates/oxvg_path/src/paths/svg/command.rs
@@ -514,14 +514,11 @@ pub(crate) fn short_number_from_buffer<W: std::fmt::Write>(
     mut raw: &str,
     w: &mut W,
 ) -> std::fmt::Result {
-    // Remove trailing zeros
-    if raw.contains('.') {
-        raw = raw.strip_suffix('0').unwrap_or(raw);
-    }
-    if matches!(raw, "0." | "-0.") {
+    // Remove trailing zeros, which are only given for whole numbers
+    raw = raw.strip_suffix(".0").unwrap_or(raw);
+    if matches!(raw, "0" | "-0") {
         return w.write_char('0');
     }
-    raw = raw.strip_suffix('.').unwrap_or(raw);
     // Remove leading zero
     if raw.starts_with("0.") {
         w.write_str(&raw[1..])
-- 
2.43.0


From 88e2c3095d460bb681ebc30b14b0fa555c486c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:37 +0000
Subject: [PATCH 006/151] fix: separate implicit path arguments written in
 exponent form

A first argument below 1e-4 is written as 1e-5, without a leading point.
It was joined to the previous command's last argument.
---
 crates/oxvg_path/src/paths/svg/command.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/svg/command.rs b/crates/oxvg_path/src/paths/svg/command.rs
index ddede05..6651bfd 100644
--- a/crates/oxvg_path/src/paths/svg/command.rs
+++ b/crates/oxvg_path/src/paths/svg/command.rs
@@ -506,7 +506,10 @@ impl Args<'_> {
     /// command.
     /// This check is only needed when `self` is for an implicit command.
     pub(crate) fn is_space_needed(&self, prev: &Self) -> bool {
-        (prev.last() % 1.0) == 0.0 || self.first() >= &1.0 || self.first() == &0.0
+        (prev.last() % 1.0) == 0.0
+            || self.first() >= &1.0
+            || self.first() == &0.0
+            || (self.first() > &0.0 && self.first() < &1e-4)
     }
 }
 
-- 
2.43.0


From f40fcecd6812529d15d8b145d66e93517c1ef1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:06 +0000
Subject: [PATCH 007/151] fix: relink siblings when retaining children

A retained child kept pointing to its removed next sibling.
Everything after the first removed child was lost from the tree.
---
 crates/oxvg_ast/src/node.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 5973cfc..2e41f41 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -345,13 +345,16 @@ impl<'input, 'arena> Node<'input, 'arena> {
     {
         self.last_child.set(None);
         let mut current = self.first_child.take();
-        let mut previously_retained = None;
+        let mut previously_retained: Option<Ref<'input, 'arena>> = None;
         while let Some(child) = current {
             current = child.next_sibling.get();
             let retain = f(child);
             if retain {
                 child.previous_sibling.set(previously_retained);
-                if previously_retained.is_none() {
+                child.next_sibling.set(None);
+                if let Some(previous) = previously_retained {
+                    previous.next_sibling.set(Some(child));
+                } else {
                     self.first_child.set(Some(child));
                 }
                 previously_retained = Some(child);
-- 
2.43.0


From 8297bc5a915a056cde7fe5c2d0c9ba291dfda62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:06 +0000
Subject: [PATCH 008/151] fix: keep the siblings when inserting before an
 element

The node was given its new parent before it was removed from the old one.
Removing it then cleared the new parent's list of children.
---
 crates/oxvg_ast/src/element.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index b120247..f573651 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -488,8 +488,6 @@ impl<'input, 'arena> Element<'input, 'arena> {
     /// [MDN | before](https://developer.mozilla.org/en-US/docs/Web/API/Element/before)
     pub fn before(&self, node: Ref<'input, 'arena>) -> Option<()> {
         let parent = self.parent_node()?;
-        node.remove();
-        node.set_parent_node(&parent);
         parent.insert_before(node, self);
         Some(())
     }
-- 
2.43.0


From e13dd6b01ff91780bef52cd00c1738b142321896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:45 +0000
Subject: [PATCH 009/151] fix: detach nodes before placing them elsewhere in
 the tree

Appending, prepending or replacing with a node that already had a parent
left it in the old parent's list of children as well.
Emptying an element left its old children linked to it.
Inserting a node next to itself linked it to itself.
---
 crates/oxvg_ast/src/element.rs | 25 ++++++-------------------
 crates/oxvg_ast/src/node.rs    | 18 +++++++++++++++++-
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index f573651..703852a 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -6,7 +6,6 @@ use std::{
     ops::Deref,
 };
 
-use itertools::Itertools as _;
 use oxvg_collections::{
     atom::Atom,
     attribute::{Attr, AttrId},
@@ -325,6 +324,7 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | prepend](https://developer.mozilla.org/en-US/docs/Web/API/Element/prepend)
     pub fn prepend(&self, node: Ref<'input, 'arena>) {
+        node.remove();
         if let Some(first_node) = self.first_child.get() {
             first_node.previous_sibling.set(Some(node));
             node.next_sibling.set(Some(first_node));
@@ -349,25 +349,12 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | replaceChildren](https://developer.mozilla.org/en-US/docs/Web/API/Element/replaceChildren)
     pub fn replace_children(&self, children: impl std::iter::Iterator<Item = Ref<'input, 'arena>>) {
-        let mut children = children.peekable();
-        let first = children.peek().copied();
-        self.first_child.set(first);
-        first.inspect(|first| {
-            first.previous_sibling.set(None);
-        });
-        let mut last = first;
-        for (a, b) in children.tuple_windows() {
-            // NOTE: This only runs if children >= 2
-            a.parent.set(Some(self));
-            a.next_sibling.set(Some(b));
-            b.previous_sibling.set(Some(a));
-            last = Some(b);
+        // The iterator may depend on the current children, so it must be consumed first
+        let children: Vec<_> = children.collect();
+        self.empty();
+        for child in children {
+            self.append_child(child);
         }
-        last.inspect(|last| {
-            last.parent.set(Some(self));
-            last.next_sibling.set(None);
-        });
-        self.last_child.set(last);
     }
 
     /// Replaces this element in the children list of it's parent with another.
diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 2e41f41..0f2456d 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -274,8 +274,13 @@ impl<'input, 'arena> Node<'input, 'arena> {
 
     /// Removes all child nodes
     pub fn empty(&self) {
-        self.first_child.set(None);
+        let mut current = self.first_child.take();
         self.last_child.set(None);
+        while let Some(child) = current {
+            current = child.next_sibling.take();
+            child.previous_sibling.set(None);
+            child.parent.set(None);
+        }
     }
 
     /// Does a breadth-first search to find an element from the current node, returning this node
@@ -299,6 +304,9 @@ impl<'input, 'arena> Node<'input, 'arena> {
         new_node: Ref<'input, 'arena>,
         reference_node: Ref<'input, 'arena>,
     ) {
+        if new_node.id_eq(reference_node) {
+            return;
+        }
         new_node.remove();
         new_node.parent.set(Some(self));
         let Some(prev_child) = reference_node.previous_sibling.replace(Some(new_node)) else {
@@ -322,6 +330,9 @@ impl<'input, 'arena> Node<'input, 'arena> {
         new_node: Ref<'input, 'arena>,
         reference_node: &Ref<'input, 'arena>,
     ) {
+        if new_node.id_eq(reference_node) {
+            return;
+        }
         new_node.remove();
         new_node.parent.set(Some(self));
         let Some(next_child) = reference_node.next_sibling.replace(Some(new_node)) else {
@@ -429,6 +440,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
     ///
     /// [MDN | appendChild](https://developer.mozilla.org/en-US/docs/Web/API/Node/appendChild)
     pub fn append_child(&'arena self, a_child: Ref<'input, 'arena>) {
+        a_child.remove();
         a_child.parent.set(Some(self));
         if let Some(child) = self.last_child.replace(Some(a_child)) {
             child.next_sibling.set(Some(a_child));
@@ -705,6 +717,10 @@ impl<'input, 'arena> Node<'input, 'arena> {
         debug_assert_eq!(old_child.parent.get(), Some(self));
         debug_assert!(self.child_nodes_iter().contains(old_child));
 
+        if new_child.id_eq(old_child) {
+            return Some(*old_child);
+        }
+        new_child.remove();
         let previous_sibling = old_child.previous_sibling.take();
         let next_sibling = old_child.next_sibling.take();
         old_child.parent.set(None);
-- 
2.43.0


From 1bd07443a5432107014f73d5a7b2c852634010a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:46 +0000
Subject: [PATCH 010/151] fix: sort child elements consistently and relink the
 first child

The comparison of two non-element nodes was not antisymmetric, which the
standard sort may answer with a panic.
The new first child kept its old previous sibling.
---
 crates/oxvg_ast/src/element.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 703852a..9debe02 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -666,23 +666,18 @@ impl<'input, 'arena> Element<'input, 'arena> {
         F: FnMut(Self, Self) -> std::cmp::Ordering,
     {
         let mut children: Vec<_> = self.child_nodes_iter().collect();
-        children.sort_by(|a, b| {
-            let Some(a) = Element::new(a) else {
-                return std::cmp::Ordering::Less;
-            };
-            let Some(b) = Element::new(b) else {
-                return std::cmp::Ordering::Greater;
-            };
-            f(a, b)
+        children.sort_by(|a, b| match (Element::new(a), Element::new(b)) {
+            (Some(a), Some(b)) => f(a, b),
+            (a, b) => a.is_some().cmp(&b.is_some()),
         });
 
         self.first_child.set(children.first().copied());
         self.last_child.set(children.last().copied());
         for i in 0..children.len() {
             let child = children[i];
-            if i > 0 {
-                child.previous_sibling.set(children.get(i - 1).copied());
-            }
+            child
+                .previous_sibling
+                .set(i.checked_sub(1).map(|i| children[i]));
             child.next_sibling.set(children.get(i + 1).copied());
         }
     }
-- 
2.43.0


From 188a4c618b5b48bafc1719abb79cccf472cfe23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:46 +0000
Subject: [PATCH 011/151] fix: keep the children of a renamed element

Renaming an element replaced it with a childless copy.
Converting a shape to a path dropped its title or animations.
---
 crates/oxvg_ast/src/element.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 9debe02..ea27cde 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -410,8 +410,12 @@ impl<'input, 'arena> Element<'input, 'arena> {
             #[cfg(feature = "range")]
             ranges: std::collections::HashMap::new(),
         });
-        self.replace_with(replacement);
-        Self(&*replacement)
+        let replacement = Self(&*replacement);
+        self.replace_with(replacement.0);
+        while let Some(child) = self.first_child() {
+            replacement.append(child);
+        }
+        replacement
     }
 
     /// Returns the element immediately following this one in it's parent's child list.
-- 
2.43.0


From cfe78a499a3b1ed14679731988a3aa49c26fed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:02 +0000
Subject: [PATCH 012/151] fix: keep the class list a set when replacing a token

---
 crates/oxvg_ast/src/class_list.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_ast/src/class_list.rs b/crates/oxvg_ast/src/class_list.rs
index 2ff4423..dbbd262 100644
--- a/crates/oxvg_ast/src/class_list.rs
+++ b/crates/oxvg_ast/src/class_list.rs
@@ -147,14 +147,18 @@ impl<'a, 'input: 'a> ClassList<'a, 'input> {
         let Some(mut attr) = self.attr() else {
             return false;
         };
-        let Some(token) = attr
-            .list
-            .iter_mut()
-            .find(|token| token.0.as_str() == old_token)
-        else {
+        if !attr.list.iter().any(|token| token.0.as_str() == old_token) {
             return false;
-        };
-        *token = NonWhitespace(new_token);
+        }
+        // The first of either token becomes the new one, so the list remains a set
+        let mut is_replaced = false;
+        attr.list.retain_mut(|token| {
+            if token.0.as_str() != old_token && token.0 != new_token {
+                return true;
+            }
+            token.0 = new_token.clone();
+            !std::mem::replace(&mut is_replaced, true)
+        });
         true
     }
 
-- 
2.43.0


From ce7afc9bbf1d12005e9cf688720dd50ff29f6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:10 +0000
Subject: [PATCH 013/151] fix: match mixed-case names in selectors

---
 crates/oxvg_ast/src/selectors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index 0779cdf..01c5d35 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -377,7 +377,7 @@ impl selectors::Element for SelectElement<'_, '_> {
     }
 
     fn is_html_element_in_html_document(&self) -> bool {
-        true
+        false
     }
 
     fn has_local_name(
-- 
2.43.0


From c72074bcfe78ccc477a8f485a04de13f6742c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:10 +0000
Subject: [PATCH 014/151] fix: identify selected elements by their node

---
 crates/oxvg_ast/src/selectors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index 01c5d35..ba372be 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -345,7 +345,7 @@ impl selectors::Element for SelectElement<'_, '_> {
     type Impl = SelectorImpl;
 
     fn opaque(&self) -> selectors::OpaqueElement {
-        selectors::OpaqueElement::new(self)
+        selectors::OpaqueElement::new(self.element.0)
     }
 
     fn parent_element(&self) -> Option<Self> {
-- 
2.43.0


From 44142c35c8018b2ab4c79381751fef40655e61c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:11 +0000
Subject: [PATCH 015/151] fix: ignore comments when matching :empty

---
 crates/oxvg_ast/src/selectors.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index ba372be..43373fb 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -521,12 +521,16 @@ impl selectors::Element for SelectElement<'_, '_> {
 
     fn is_empty(&self) -> bool {
         !self.element.has_child_nodes()
-            || self.element.child_nodes_iter().all(|child| {
-                child.node_type() == node::Type::Text
-                    && child
+            || self
+                .element
+                .child_nodes_iter()
+                .all(|child| match child.node_type() {
+                    node::Type::Comment | node::Type::ProcessingInstruction => true,
+                    node::Type::Text => child
                         .text_content()
-                        .is_none_or(|string| string.trim().is_empty())
-            })
+                        .is_none_or(|string| string.trim().is_empty()),
+                    _ => false,
+                })
     }
 
     fn is_root(&self) -> bool {
-- 
2.43.0


From 3c9d74af25ebd14aaf4f59d7ef1c5cc1c2111c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:26 +0000
Subject: [PATCH 016/151] fix: match attributes of any namespace in selectors

---
 crates/oxvg_ast/src/selectors.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index 43373fb..90d3c1d 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -418,7 +418,14 @@ impl selectors::Element for SelectElement<'_, '_> {
         use selectors::attr::NamespaceConstraint;
 
         let value = match ns {
-            NamespaceConstraint::Any => self.element.get_attribute_local(&local_name.0),
+            NamespaceConstraint::Any => {
+                return self.element.attributes().into_iter().any(|attr| {
+                    *attr.local_name() == local_name.0
+                        && attr
+                            .to_value_string(PrinterOptions::default())
+                            .is_ok_and(|value| operation.eval_str(&value))
+                });
+            }
             NamespaceConstraint::Specific(ns) if ns.0.is_empty() => {
                 self.element.get_attribute_local(&local_name.0)
             }
-- 
2.43.0


From 0890b9d56ea3b342c5fffc616e0b5504a36bf6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:55 +0000
Subject: [PATCH 017/151] fix: compare a subpath's end with its own start

---
 crates/oxvg_path/src/paths/segment/convert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index d7812ee..cb8b774 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -205,8 +205,10 @@ impl Segment {
         }
 
         let tolerance_squared = tolerance.positional * tolerance.positional;
-        result.closed =
-            start.distance_squared(result.data().last().unwrap().end_point()) < tolerance_squared;
+        result.closed = result
+            .start
+            .distance_squared(result.data().last().unwrap().end_point())
+            < tolerance_squared;
         result
     }
 }
-- 
2.43.0


From 8455287a8cc79eadbf96965d655cd4d3240ba762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:53 +0000
Subject: [PATCH 018/151] fix: write a close command only where a subpath
 closes

---
 crates/oxvg_path/src/paths/segment/convert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index cb8b774..a56aa19 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -277,6 +277,7 @@ impl Path {
                     segment_start,
                     start,
                     *to,
+                    close,
                     implicit.as_ref(),
                     precision,
                 ),
@@ -336,11 +337,12 @@ impl Path {
         segment_start: Point,
         start: Point,
         to: Point,
+        close: bool,
         implicit: Option<&ID>,
         precision: TolerancePrecision,
     ) -> command::Data {
         let by = to - start;
-        if start == to {
+        if close && start == to {
             command::Data::ClosePath
         } else if precision.round(to.x) == precision.round(start.x) {
             let v_to = command::Data::VerticalLineTo([to.y]);
@@ -350,7 +352,7 @@ impl Path {
             let h_to = command::Data::HorizontalLineTo([to.x]);
             let h_by = command::Data::HorizontalLineBy([by.x]);
             compactest(previous, h_by, h_to, implicit, precision)
-        } else if to == segment_start {
+        } else if close && to == segment_start {
             command::Data::ClosePath
         } else {
             let l_to = command::Data::LineTo(to.into());
-- 
2.43.0


From 46117653eaf27d821951a743a0bcb803dd9e8622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:02 +0000
Subject: [PATCH 019/151] fix: keep curves that reach beyond their end points

---
 crates/oxvg_path/src/geometry/curve.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/geometry/curve.rs b/crates/oxvg_path/src/geometry/curve.rs
index 27561e8..69ef04c 100644
--- a/crates/oxvg_path/src/geometry/curve.rs
+++ b/crates/oxvg_path/src/geometry/curve.rs
@@ -289,11 +289,20 @@ impl Curve {
     pub fn is_straight(&self, start: Point, tolerance: &Tolerance) -> bool {
         let chord = start.distance(self.end_point);
         if chord < tolerance.positional {
-            return true;
+            return start.distance(self.start_control) < tolerance.positional
+                && start.distance(self.end_control) < tolerance.positional;
         }
         let tolerance_scaled = tolerance.positional * chord;
+        let direction = self.end_point - start;
+        // The curve must not reach beyond either end of the line
+        let is_between = |control: Point| {
+            let along = (control - start).dot(direction) / chord;
+            along > -tolerance.positional && along < chord + tolerance.positional
+        };
         start.cross(self.end_point, self.start_control).abs() < tolerance_scaled
             && start.cross(self.end_point, self.end_control).abs() < tolerance_scaled
+            && is_between(self.start_control)
+            && is_between(self.end_control)
     }
 
     /// Returns various bezier forms of the curve.
-- 
2.43.0


From b3c84fd6892d9fb8c59ef16fb4c8e582332c950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:32 +0000
Subject: [PATCH 020/151] fix: reflect control points only between curves of
 the same kind

---
 crates/oxvg_path/src/paths/segment/convert.rs | 54 ++++++++++++-------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index a56aa19..29bdd73 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -10,13 +10,20 @@ use crate::{
     paths::segment::{Data, IterStartCursorItem, Path, Segment},
 };
 
+/// The last control point of a curve, which the next smooth curve of the same kind reflects.
+#[derive(Clone, Copy)]
+pub(crate) enum Control {
+    Cubic(Point),
+    Quadratic(Point),
+}
+
 impl Data {
     #[allow(clippy::too_many_lines)]
     pub(crate) fn take(
         command: &command::Data,
         start: &mut Point,
         cursor: &mut Point,
-        control: &mut Option<Point>,
+        control: &mut Option<Control>,
         z_end: &mut bool,
     ) -> Option<Self> {
         let last_control = control.take();
@@ -60,7 +67,7 @@ impl Data {
                 let end_control = *cursor + Point::new(a[2], a[3]);
                 let end_point = *cursor + Point::new(a[4], a[5]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end_point;
                 Some(Self::CurveTo(Curve::new(
                     start_control,
@@ -72,14 +79,14 @@ impl Data {
                 let end_control = Point::new(a[2], a[3]);
                 let end_point = Point::new(a[4], a[5]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end_point;
                 Some(Data::CurveTo(Curve::from(*a)))
             }
             command::Data::QuadraticBezierBy(a) => {
                 let quad_control = *cursor + Point::new(a[0], a[1]);
                 let end = *cursor + Point::new(a[2], a[3]);
-                *control = Some(quad_control);
+                *control = Some(Control::Quadratic(quad_control));
 
                 let start = *cursor;
                 *cursor = end;
@@ -88,14 +95,14 @@ impl Data {
             command::Data::QuadraticBezierTo(a) => {
                 let quad_control = Point::new(a[0], a[1]);
                 let end = Point::new(a[2], a[3]);
-                *control = Some(quad_control);
+                *control = Some(Control::Quadratic(quad_control));
 
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(quad_control, start, end)))
             }
             command::Data::SmoothBezierBy(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Cubic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
@@ -103,12 +110,12 @@ impl Data {
                 let end_control = *cursor + Point::new(a[0], a[1]);
                 let end = *cursor + Point::new(a[2], a[3]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new(start_control, end_control, end)))
             }
             command::Data::SmoothBezierTo(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Cubic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
@@ -116,32 +123,32 @@ impl Data {
                 let end_control = Point::new(a[0], a[1]);
                 let end = Point::new(a[2], a[3]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new(start_control, end_control, end)))
             }
             command::Data::SmoothQuadraticBezierBy(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Quadratic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
                 };
                 let end = *cursor + Point::from(*a);
 
-                *control = Some(start_control);
+                *control = Some(Control::Quadratic(start_control));
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(start_control, start, end)))
             }
             command::Data::SmoothQuadraticBezierTo(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(Control::Quadratic(prev_cp)) = last_control {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
                 };
                 let end = Point::from(*a);
 
-                *control = Some(start_control);
+                *control = Some(Control::Quadratic(start_control));
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(start_control, start, end)))
@@ -364,14 +371,14 @@ impl Path {
     #[allow(clippy::too_many_arguments)]
     pub(crate) fn to_svg_curve(
         previous: Option<&command::Data>,
-        control: Option<Point>,
+        control: Option<Control>,
         start: Point,
         curve: &Curve,
         next: Option<&Data>,
         implicit: Option<&ID>,
         tolerance_squared: ToleranceSquared,
         precision: TolerancePrecision,
-    ) -> (command::Data, Option<Point>) {
+    ) -> (command::Data, Option<Control>) {
         let start_control = curve.start_control;
         let end_control = curve.end_control;
         let to = curve.end_point;
@@ -379,8 +386,15 @@ impl Path {
 
         let mut candidates = Vec::with_capacity(4);
 
-        let (_, smooth_bezier, quadratic_bezier, smooth_quadratic_bezier) =
-            curve.types(start, control, tolerance_squared);
+        let (cubic_control, quad_control) = match control {
+            Some(Control::Cubic(control)) => (Some(control), None),
+            Some(Control::Quadratic(control)) => (None, Some(control)),
+            None => (None, None),
+        };
+        let smooth_bezier = curve.smooth_bezier(start, cubic_control, tolerance_squared);
+        let quadratic_bezier = curve.quadratic_bezier(start, tolerance_squared);
+        let smooth_quadratic_bezier =
+            curve.smooth_quadratic_bezier(start, quad_control, tolerance_squared);
         if let Some(SmoothBezierTo {
             end_control,
             end_point: _,
@@ -462,13 +476,13 @@ impl Path {
         let result = compactest_vec(previous, candidates, implicit, precision);
         let control = match result.id().as_explicit() {
             ID::QuadraticBezierTo | ID::QuadraticBezierBy => {
-                quadratic_bezier.map(|q| q.quad_control)
+                quadratic_bezier.map(|q| Control::Quadratic(q.quad_control))
             }
             ID::SmoothQuadraticBezierTo | ID::SmoothQuadraticBezierBy => {
-                control.map(|c| c.reflect(start))
+                quad_control.map(|c| Control::Quadratic(c.reflect(start)))
             }
             ID::CubicBezierTo | ID::CubicBezierBy | ID::SmoothBezierBy | ID::SmoothBezierTo => {
-                Some(quadratic_bezier.map_or(end_control, |q| q.quad_control))
+                Some(Control::Cubic(end_control))
             }
             _ => None,
         };
-- 
2.43.0


From 26ff4ec7d8eb1eb1ac58b900d36cfdcd54ecc14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:55 +0000
Subject: [PATCH 021/151] fix: don't fit an arc to a curve that reaches beyond
 its end points

---
 crates/oxvg_path/src/geometry/ellipses.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/oxvg_path/src/geometry/ellipses.rs b/crates/oxvg_path/src/geometry/ellipses.rs
index cc57860..6f7019e 100644
--- a/crates/oxvg_path/src/geometry/ellipses.rs
+++ b/crates/oxvg_path/src/geometry/ellipses.rs
@@ -134,6 +134,17 @@ impl Ellipses {
         {
             return None;
         }
+        // The curve must not reach beyond its end points, as an arc of up to half a turn doesn't
+        let chord = curve.end_point - start;
+        let length = chord.len();
+        let margin = tolerance.positional * length.max(1.0);
+        if [0.1, 0.25, 0.5, 0.75, 0.9]
+            .into_iter()
+            .map(|t| (curve.point_at_from(start, t) - start).dot(chord))
+            .any(|along| along < -margin * length || along > (length + margin) * length)
+        {
+            return None;
+        }
         // Find circumcircle
         let middle = curve.point_at_from(start, 0.5);
         let end = curve.end_point;
-- 
2.43.0


From 987cb9bf7d1984f9548f35951a3f40994015559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:55 +0000
Subject: [PATCH 022/151] fix: don't join arcs that make more than a full turn

---
 crates/oxvg_path/src/paths/segment/simplify.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/segment/simplify.rs b/crates/oxvg_path/src/paths/segment/simplify.rs
index 0bf42bf..5cbb196 100644
--- a/crates/oxvg_path/src/paths/segment/simplify.rs
+++ b/crates/oxvg_path/src/paths/segment/simplify.rs
@@ -290,7 +290,11 @@ impl Path {
                         }
                     }
                     (Data::ArcTo(previous), Data::ArcTo(current))
-                        if previous.is_connected(current, tolerance, tolerance_squared) =>
+                        if previous.is_connected(current, tolerance, tolerance_squared)
+                            && ((previous.sweep_angle() + current.sweep_angle()).abs()
+                                < 2.0 * PI + tolerance.angular
+                                || current.end_point().distance_squared(start)
+                                    < *tolerance_squared) =>
                     {
                         let prev_sweep = previous.sweep_angle();
                         let current_sweep = current.sweep_angle();
-- 
2.43.0


From fdbe6375e677699b07360a8e1666b628f928f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:53 +0000
Subject: [PATCH 023/151] fix: don't join arcs that turn in opposite directions

---
 crates/oxvg_path/src/geometry/arc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_path/src/geometry/arc.rs b/crates/oxvg_path/src/geometry/arc.rs
index 9250ca7..70dd17c 100644
--- a/crates/oxvg_path/src/geometry/arc.rs
+++ b/crates/oxvg_path/src/geometry/arc.rs
@@ -513,6 +513,10 @@ impl Arc {
         tolerance: &Tolerance,
         tolerance_squared: ToleranceSquared,
     ) -> bool {
+        if self.is_clockwise() != other.is_clockwise() {
+            return false;
+        }
+
         let self_chord_sq = self.start_point().distance_squared(self.end_point());
         let other_chord_sq = other.start_point().distance_squared(other.end_point());
 
-- 
2.43.0


From 9fdd018b7e5801bc5fc48ec228c51badce772a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:06 +0000
Subject: [PATCH 024/151] fix: don't fit an arc to a curve that turns back

---
 crates/oxvg_path/src/geometry/ellipses.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_path/src/geometry/ellipses.rs b/crates/oxvg_path/src/geometry/ellipses.rs
index 6f7019e..78c7e77 100644
--- a/crates/oxvg_path/src/geometry/ellipses.rs
+++ b/crates/oxvg_path/src/geometry/ellipses.rs
@@ -134,16 +134,18 @@ impl Ellipses {
         {
             return None;
         }
-        // The curve must not reach beyond its end points, as an arc of up to half a turn doesn't
+        // The curve must not turn back or reach beyond its end points, as an arc of up to half a
+        // turn doesn't
         let chord = curve.end_point - start;
         let length = chord.len();
         let margin = tolerance.positional * length.max(1.0);
-        if [0.1, 0.25, 0.5, 0.75, 0.9]
-            .into_iter()
-            .map(|t| (curve.point_at_from(start, t) - start).dot(chord))
-            .any(|along| along < -margin * length || along > (length + margin) * length)
-        {
-            return None;
+        let mut last = 0.0;
+        for t in [0.1, 0.25, 0.5, 0.75, 0.9, 1.0] {
+            let along = (curve.point_at_from(start, t) - start).dot(chord);
+            if along < last - margin * length || along > (length + margin) * length {
+                return None;
+            }
+            last = along;
         }
         // Find circumcircle
         let middle = curve.point_at_from(start, 0.5);
-- 
2.43.0


From d930724060e2201517af5ed21163561eae4f57ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:51 +0000
Subject: [PATCH 025/151] fix: split joined arcs that return to their start

---
 crates/oxvg_path/src/paths/segment/simplify.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/paths/segment/simplify.rs b/crates/oxvg_path/src/paths/segment/simplify.rs
index 5cbb196..095c26e 100644
--- a/crates/oxvg_path/src/paths/segment/simplify.rs
+++ b/crates/oxvg_path/src/paths/segment/simplify.rs
@@ -332,7 +332,9 @@ impl Path {
                             *previous = current;
                         }
                         if previous.sweep_angle().abs() > 2.0 * PI - tolerance.angular
-                            || previous.end_point() == start
+                            || previous.sweep_angle().abs() > PI
+                                && previous.end_point().distance_squared(start)
+                                    < *tolerance_squared
                         {
                             let delta = PI.copysign(previous.sweep_angle());
                             previous.set_sweep_angle(delta);
-- 
2.43.0


From 125f6ec717b6fa41705c3769e76a809a6149f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:42 +0000
Subject: [PATCH 026/151] fix: step along curves and arcs that return to their
 start

---
 crates/oxvg_path/src/algorithm/coords_iter.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_path/src/algorithm/coords_iter.rs b/crates/oxvg_path/src/algorithm/coords_iter.rs
index 9f76e46..06c6a25 100644
--- a/crates/oxvg_path/src/algorithm/coords_iter.rs
+++ b/crates/oxvg_path/src/algorithm/coords_iter.rs
@@ -33,8 +33,9 @@ impl<'a> CurveCoordsIter<'a> {
         // TODO: PERF: Adaptive steps would improve iteration count for consumers
         let mut t_step = 1.0;
         for _ in 0..7 {
-            let distance_squared = curve.start.distance_squared(curve.point_at(t_step));
-            if distance_squared < *tolerance_squared {
+            // A curve may return to its start, so the step's middle has to be near too
+            let is_near = |t| curve.start.distance_squared(curve.point_at(t)) < *tolerance_squared;
+            if is_near(t_step) && is_near(t_step / 2.0) {
                 break;
             }
             t_step /= 2.0;
@@ -65,11 +66,11 @@ impl<'a> ArcCoordsIter<'a> {
         // TODO: PERF: Adaptive steps would improve iteration count for consumers
         let mut t_step = 1.0;
         for _ in 0..7 {
+            // An arc may return to its start, so the step's middle has to be near too
+            let is_near =
+                |t| arc.start_point().distance_squared(arc.point_at(t)) <= *tolerance_squared;
             if (t_step * arc.sweep_angle()).abs() <= tolerance.angular
-                || arc
-                    .start_point()
-                    .distance_squared(arc.point_at_angle(t_step))
-                    <= *tolerance_squared
+                || (is_near(t_step) && is_near(t_step / 2.0))
             {
                 break;
             }
-- 
2.43.0


From d9b3a081d0ab326f117599c9ca9f716c8e60a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:50 +0000
Subject: [PATCH 027/151] fix: recover a curve in a boolean result only where
 it follows the outline

---
 .../bool_ops/i_overlay_integration.rs         | 80 ++++++++++++++++---
 1 file changed, 71 insertions(+), 9 deletions(-)

diff --git a/crates/oxvg_path/src/algorithm/bool_ops/i_overlay_integration.rs b/crates/oxvg_path/src/algorithm/bool_ops/i_overlay_integration.rs
index 697e4a9..c59e593 100644
--- a/crates/oxvg_path/src/algorithm/bool_ops/i_overlay_integration.rs
+++ b/crates/oxvg_path/src/algorithm/bool_ops/i_overlay_integration.rs
@@ -264,14 +264,27 @@ pub mod convert {
                             segment.data.push(segment::Data::LineTo(t2));
                         }
                         segment::Data::CurveTo(curve) => {
-                            let t1 = curve.t_at(seg.start, t1, tolerance).unwrap();
-                            let t2 = curve.t_at(seg.start, t2, tolerance).unwrap();
-                            segment.data.push(segment::Data::CurveTo(if t1 <= t2 {
-                                curve.clamp_t(seg.start, t1, t2)
-                            } else {
-                                let end = curve.end_point;
-                                curve.reverse(seg.start).clamp_t(end, 1.0 - t1, 1.0 - t2)
-                            }));
+                            let t1 = curve.t_at(seg.start, t1, tolerance);
+                            let t2 = curve.t_at(seg.start, t2, tolerance);
+                            let clamped_curve = t1.zip(t2).map(|(t1, t2)| {
+                                let whole = curve.clone().with_start(seg.start);
+                                if t1 <= t2 {
+                                    whole.clamp_t(t1, t2)
+                                } else {
+                                    whole.reverse().clamp_t(1.0 - t1, 1.0 - t2)
+                                }
+                            });
+                            match clamped_curve {
+                                Some(curve)
+                                    if follows_ring(
+                                        |t| curve.point_at(t),
+                                        &ring[p_start..=p_end],
+                                    ) =>
+                                {
+                                    segment.data.push(segment::Data::CurveTo(curve.curve));
+                                }
+                                _ => push_lines(&mut segment, &ring[p_start..=p_end]),
+                            }
                         }
                         segment::Data::ArcTo(arc) => {
                             let near = if p_end > p_start + 1 {
@@ -280,7 +293,11 @@ pub mod convert {
                                 None
                             };
                             let clamped_arc = clamp_arc_for_edge(arc, t1, t2, near);
-                            segment.data.push(segment::Data::ArcTo(clamped_arc));
+                            if follows_ring(|t| clamped_arc.point_at(t), &ring[p_start..=p_end]) {
+                                segment.data.push(segment::Data::ArcTo(clamped_arc));
+                            } else {
+                                push_lines(&mut segment, &ring[p_start..=p_end]);
+                            }
                         }
                     }
                 }
@@ -293,6 +310,51 @@ pub mod convert {
         segment
     }
 
+    /// Whether a curve recovered from its source goes the way the part of the ring it stands for does.
+    ///
+    /// A ring may turn back along its source, or leave it for another part of the same source where
+    /// the source crosses itself.
+    fn follows_ring(point_at: impl Fn(f64) -> Point, ring: &[BoolOpsCoord]) -> bool {
+        const END_TOLERANCE_SQUARED: f64 = 1e-4;
+
+        let ring: Vec<_> = ring.iter().map(|coord| **coord).collect();
+        let steps = ring.len() * 2;
+        #[allow(clippy::cast_precision_loss)]
+        let curve: Vec<_> = (0..=steps)
+            .map(|step| *point_at(step as f64 / steps as f64))
+            .collect();
+
+        let longest_squared = ring
+            .iter()
+            .tuple_windows()
+            .map(|(p0, p1)| Point(*p0).distance_squared(Point(*p1)))
+            .fold(END_TOLERANCE_SQUARED, f64::max);
+
+        // Walk along both without ever stepping back, keeping the two walkers near each other
+        let mut reached = vec![false; curve.len()];
+        for (i, p) in ring.iter().enumerate() {
+            let mut previous_diagonal = i == 0;
+            for (j, q) in curve.iter().enumerate() {
+                let before = reached[j];
+                let from = before || previous_diagonal || (j > 0 && reached[j - 1]);
+                reached[j] = from && Point(*p).distance_squared(Point(*q)) <= longest_squared;
+                previous_diagonal = before;
+            }
+        }
+        Point(ring[0]).distance_squared(Point(curve[0])) <= END_TOLERANCE_SQUARED
+            && Point(ring[ring.len() - 1]).distance_squared(Point(curve[steps]))
+                <= END_TOLERANCE_SQUARED
+            && reached[steps]
+    }
+
+    fn push_lines(segment: &mut segment::Segment, ring: &[BoolOpsCoord]) {
+        segment.data.extend(
+            ring.iter()
+                .skip(1)
+                .map(|coord| segment::Data::LineTo(Point(**coord))),
+        );
+    }
+
     fn find_matching_segment<'a, 'b>(
         a: Coord<f64>,
         b: Coord<f64>,
-- 
2.43.0


From aa423842421cfbd000baebbb5902f96dab36a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:51 +0000
Subject: [PATCH 028/151] fix: keep xlink namespace and unrelated attributes
 when removing xlink

---
 .../oxvg_optimiser/src/jobs/remove_xlink.rs   | 103 +++++-------------
 1 file changed, 25 insertions(+), 78 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
index ca9e1c4..077b7d3 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
@@ -1,12 +1,9 @@
-use std::cell::RefCell;
-
 use oxvg_ast::{
     element::Element,
     get_attribute, has_attribute, is_attribute, is_element, remove_attribute, set_attribute,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::{
-    atom::Atom,
     attribute::{Attr, AttrId, uncategorised::Target, xlink::XLinkShow},
     element::{ElementId, ElementInfo},
     is_prefix,
@@ -44,12 +41,8 @@ pub struct RemoveXlink {
     pub include_legacy: bool,
 }
 
-struct State<'o, 'input> {
+struct State<'o> {
     options: &'o RemoveXlink,
-    xlink_prefix_stack: RefCell<Vec<Atom<'input>>>,
-    overridden_prefix_stack: RefCell<Vec<bool>>,
-    /// Tracks when `xlink:href` is used in legacy element
-    used_in_legacy_element_stack: RefCell<Vec<bool>>,
 }
 
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveXlink {
@@ -60,18 +53,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveXlink {
         document: Element<'input, 'arena>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> Result<PrepareOutcome, Self::Error> {
-        State {
-            options: self,
-            xlink_prefix_stack: RefCell::new(vec![]),
-            overridden_prefix_stack: RefCell::new(vec![]),
-            used_in_legacy_element_stack: RefCell::new(vec![]),
-        }
-        .start_with_context(document, context)?;
+        State { options: self }.start_with_context(document, context)?;
         Ok(PrepareOutcome::skip)
     }
 }
 
-impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
+impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
     type Error = JobsError<'input>;
 
     fn element(
@@ -79,40 +66,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
         element: Element<'input, 'arena>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
-        let mut xlink_prefix_stack = self.xlink_prefix_stack.borrow_mut();
-        let mut overridden_prefix_stack = self.overridden_prefix_stack.borrow_mut();
-        let mut used_in_legacy_element_stack = self.used_in_legacy_element_stack.borrow_mut();
-        for attr in element.attributes() {
-            let Attr::Unparsed {
-                attr_id: AttrId::Unknown(QualName { prefix, local }),
-                value,
-            } = &*attr
-            else {
-                continue;
-            };
-            if !is_prefix!(prefix, XMLNS) {
-                continue;
-            }
-            if value == NS::XLink.uri() {
-                xlink_prefix_stack.push(local.clone());
-                overridden_prefix_stack.push(false);
-                used_in_legacy_element_stack.push(false);
-            } else if xlink_prefix_stack.last() == Some(local)
-                && let Some(last) = overridden_prefix_stack.last_mut()
-            {
-                *last = true;
-            }
-        }
         element.attributes().retain(|attr| {
             !is_attribute!(attr, XLinkActuate | XLinkArcrole | XLinkRole | XLinkType)
         });
         Self::handle_show(element);
         Self::handle_title(element, context);
-        Self::handle_href(
-            element,
-            &mut used_in_legacy_element_stack,
-            self.options.include_legacy,
-        );
+        Self::handle_href(element, self.options.include_legacy);
 
         Ok(())
     }
@@ -122,6 +81,18 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
         element: Element<'input, 'arena>,
         _context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
+        // Attributes which couldn't be converted still need their namespace
+        let is_xlink_used = std::iter::once(element)
+            .chain(element.breadth_first())
+            .any(|element| {
+                element
+                    .attributes()
+                    .into_iter()
+                    .any(|attr| is_prefix!(attr.prefix(), XLink))
+            });
+        if is_xlink_used {
+            return Ok(());
+        }
         element.attributes().retain(|attr| {
             let Attr::Unparsed {
                 attr_id: AttrId::Unknown(QualName { prefix, .. }),
@@ -130,34 +101,16 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
             else {
                 return true;
             };
-            if is_prefix!(prefix, XMLNS) && value == NS::XLink.uri() {
-                return false;
-            }
-
-            self.xlink_prefix_stack.borrow_mut().pop();
-            let overridden_prefixes = self
-                .overridden_prefix_stack
-                .borrow_mut()
-                .pop()
-                .unwrap_or(false);
-            let used_in_legacy_element = self
-                .used_in_legacy_element_stack
-                .borrow_mut()
-                .pop()
-                .unwrap_or(false);
-            if !self.options.include_legacy && !overridden_prefixes && !used_in_legacy_element {
-                return false;
-            }
-            true
+            !is_prefix!(prefix, XMLNS) || value != NS::XLink.uri()
         });
 
         Ok(())
     }
 }
 
-impl<'input> State<'_, 'input> {
+impl State<'_> {
     /// Replaces `xlink:show` with `target` when possible
-    fn handle_show(element: Element<'input, '_>) {
+    fn handle_show(element: Element) {
         if has_attribute!(element, Target) {
             remove_attribute!(element, XLinkShow);
             return;
@@ -179,7 +132,7 @@ impl<'input> State<'_, 'input> {
         }
     }
 
-    fn handle_title<'arena>(
+    fn handle_title<'input, 'arena>(
         element: Element<'input, 'arena>,
         context: &Context<'input, 'arena, '_>,
     ) {
@@ -201,19 +154,13 @@ impl<'input> State<'_, 'input> {
         element.insert(0, title_element.0);
     }
 
-    fn handle_href(
-        element: Element<'input, '_>,
-        used_in_legacy_element: &mut [bool],
-        include_legacy: bool,
-    ) {
-        let used_in_legacy_element = used_in_legacy_element.last_mut();
-        if has_attribute!(element, Href) {
+    fn handle_href(element: Element, include_legacy: bool) {
+        if !include_legacy && element.qual_name().info().contains(ElementInfo::Legacy) {
             return;
         }
-        if !include_legacy && element.qual_name().info().contains(ElementInfo::Legacy) {
-            if let Some(value) = used_in_legacy_element {
-                *value = true;
-            }
+        if has_attribute!(element, Href) {
+            // `href` takes precedence
+            remove_attribute!(element, XLinkHref);
             return;
         }
 
-- 
2.43.0


From e819b5c9a433b515606926ca097a20a00ecf1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:51 +0000
Subject: [PATCH 029/151] fix: keep the root element when it is hidden

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 36eea70..7d454e0 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -164,6 +164,9 @@ impl<'input, 'arena> Visitor<'input, 'arena> for Data<'input, 'arena> {
 
 impl<'input, 'arena> Data<'input, 'arena> {
     fn remove_element(&self, element: Element<'input, 'arena>) {
+        if element.is_root() {
+            return;
+        }
         if let Some(parent) = Element::parent_element(&element)
             && is_element!(parent, Defs)
         {
-- 
2.43.0


From 01b7a3dd588d6f6638494810ba3c3604fb5169c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:51 +0000
Subject: [PATCH 030/151] fix: keep rendered whitespace between the parts of a
 text element

---
 crates/oxvg_ast/src/serialize.rs | 21 +++++++++++++++++++++
 crates/oxvg_ast/src/xmlwriter.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/crates/oxvg_ast/src/serialize.rs b/crates/oxvg_ast/src/serialize.rs
index 31a9acc..e59a748 100644
--- a/crates/oxvg_ast/src/serialize.rs
+++ b/crates/oxvg_ast/src/serialize.rs
@@ -103,6 +103,7 @@ fn serialize_node<'arena, W: Write>(
             if let Some(text) = node.text_content()
                 && !text.is_empty()
             {
+                let (is_first, is_last) = text_edges(node).unwrap_or((is_first, is_last));
                 xml.write_text(&text, is_first, is_last)?;
             }
         }
@@ -140,3 +141,23 @@ fn serialize_node<'arena, W: Write>(
         Ok(())
     }
 }
+
+/// For a node within a `<text>` element, returns whether it is at the start or the end of that
+/// element. Only there is collapsible whitespace not rendered.
+fn text_edges(node: crate::node::Ref) -> Option<(bool, bool)> {
+    use crate::{is_element, node};
+    let (mut is_first, mut is_last) = (true, true);
+    let mut current = node;
+    loop {
+        is_first &= current.previous_sibling().is_none();
+        is_last &= current.next_sibling().is_none();
+        let parent = current.parent_node()?;
+        if parent.node_type() != node::Type::Element {
+            return None;
+        }
+        if is_element!(parent, Text) {
+            return Some((is_first, is_last));
+        }
+        current = *parent;
+    }
+}
diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index d673cc1..ea729c7 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -348,6 +348,8 @@ enum State {
 struct DepthData<'input> {
     element_name: Option<ElementId<'input>>,
     has_children: bool,
+    /// The whitespace handling to return to after the element
+    outer_preserve_whitespaces: bool,
 }
 
 /// This wrapper writer is so that we can make sure formatted strings are properly escaped too,
@@ -553,6 +555,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                outer_preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -594,6 +597,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         self.depth_stack.push(DepthData {
             element_name: Some(name.clone()),
             has_children: false,
+            outer_preserve_whitespaces: self.preserve_whitespaces,
         });
 
         self.state = State::Attributes;
@@ -809,6 +813,18 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         match space {
             Space::Default => {
                 if text.trim_start().is_empty() {
+                    if is_first
+                        || is_last
+                        || self.opt.indent != Indent::None
+                        || !self.is_text_element()
+                    {
+                        return Ok(());
+                    }
+                    self.before_write_text(false)?;
+                    self.fmt_writer
+                        .write_char(' ')
+                        .map_err(|_| self.fmt_writer.take_err())?;
+                    self.state = State::Document;
                     return Ok(());
                 }
                 self.before_write_text(false)?;
@@ -953,6 +969,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                outer_preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -1014,6 +1031,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                     .write_all(b"/>")
                     .map_err(XmlWriterError::IO)?;
             }
+            self.preserve_whitespaces = depth.outer_preserve_whitespaces;
         }
 
         self.state = State::Document;
@@ -1127,6 +1145,14 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         Ok(())
     }
 
+    fn is_text_element(&self) -> bool {
+        self.depth_stack.iter().any(|data| {
+            data.element_name
+                .as_ref()
+                .is_some_and(|name| is_element!(name, Text))
+        })
+    }
+
     fn is_text_content_element(&self) -> bool {
         self.depth_stack.iter().rev().any(is_text_content_element)
     }
-- 
2.43.0


From 1d975f50f6344621e9edfa4d4d6a9b00d51ccea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:51 +0000
Subject: [PATCH 031/151] fix: separate font families by comma

---
 crates/oxvg_collections/src/attribute.rs              | 4 ++--
 crates/oxvg_collections/src/attribute/presentation.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute.rs b/crates/oxvg_collections/src/attribute.rs
index 294df98..115f12f 100644
--- a/crates/oxvg_collections/src/attribute.rs
+++ b/crates/oxvg_collections/src/attribute.rs
@@ -31,7 +31,7 @@ use lightningcss::{
     },
     vendor_prefix::VendorPrefix,
 };
-use list_of::{ListOf, Semicolon, Separators, Space, SpaceOrComma};
+use list_of::{Comma, ListOf, Semicolon, Separators, Space, SpaceOrComma};
 use path::{Path, Points};
 use presentation::{
     AlignmentBaseline, BaselineShift, Clip, ClipPath, ColorInterpolation, ColorProfile,
@@ -2695,7 +2695,7 @@ try_from_into_property! {
     Font(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     FontFamily(value) => Inheritable::Defined(FontFamily(ListOf {
         list: value,
-        separator: SpaceOrComma,
+        separator: Comma,
     })) => value.option().ok_or(())?.0.list,
     FontSize(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     FontStretch(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
diff --git a/crates/oxvg_collections/src/attribute/presentation.rs b/crates/oxvg_collections/src/attribute/presentation.rs
index 2ba4496..60d190a 100644
--- a/crates/oxvg_collections/src/attribute/presentation.rs
+++ b/crates/oxvg_collections/src/attribute/presentation.rs
@@ -3,7 +3,7 @@ use std::ops::{Deref, DerefMut};
 
 use super::{
     core_attrs::{Angle, Anything, Length, Number, Percentage},
-    list_of::{ListOf, SpaceOrComma},
+    list_of::{Comma, ListOf, SpaceOrComma},
 };
 use lightningcss::values::length::LengthValue;
 pub use lightningcss::{
@@ -420,7 +420,7 @@ fn enable_background() {
 ///
 /// [w3 | SVG 1.1](https://www.w3.org/TR/2011/REC-SVG11-20110816/text.html#FontFamilyProperty)
 pub struct FontFamily<'input>(
-    pub ListOf<lightningcss::properties::font::FontFamily<'input>, SpaceOrComma>,
+    pub ListOf<lightningcss::properties::font::FontFamily<'input>, Comma>,
 );
 #[cfg(feature = "parse")]
 impl<'input> Parse<'input> for FontFamily<'input> {
-- 
2.43.0


From 7cef58094557669c1b5ad75e6d339bf0c981032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:51 +0000
Subject: [PATCH 032/151] fix: only use transform decompositions that match the
 matrix

---
 .../src/attribute/transform.rs                | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/transform.rs b/crates/oxvg_collections/src/attribute/transform.rs
index d755130..7693204 100644
--- a/crates/oxvg_collections/src/attribute/transform.rs
+++ b/crates/oxvg_collections/src/attribute/transform.rs
@@ -128,7 +128,9 @@ impl SVGTransform {
                 })
                 .join("");
             log::debug!("optimized: {optimized_string} ({})", optimized_string.len());
-            if optimized_string.len() <= shortest_len {
+            if optimized_string.len() <= shortest_len
+                && Self::is_equivalent(&optimized, m, precision)
+            {
                 shortest = optimized;
                 shortest_len = optimized_string.len();
             }
@@ -138,6 +140,22 @@ impl SVGTransform {
         shortest
     }
 
+    /// Returns whether the rounded transforms still multiply to roughly the matrix
+    #[cfg(feature = "serialize")]
+    fn is_equivalent(transforms: &[Self], matrix: &Matrix<f32>, precision: &Precision) -> bool {
+        let Some(result) = SVGTransformList(transforms.to_vec()).to_matrix_2d() else {
+            return false;
+        };
+        let tolerance = 0.5 * f32::powi(10.0, -precision.float);
+        let near = |a: f32, b: f32, tolerance: f32| (a - b).abs() <= tolerance * a.abs().max(1.0);
+        near(matrix.a, result.a, tolerance)
+            && near(matrix.b, result.b, tolerance)
+            && near(matrix.c, result.c, tolerance)
+            && near(matrix.d, result.d, tolerance)
+            && near(matrix.e, result.e, tolerance * 10.0)
+            && near(matrix.f, result.f, tolerance * 10.0)
+    }
+
     fn get_compositions(matrix: &Matrix<f32>) -> Vec<Vec<SVGTransform>> {
         let mut decompositions = vec![];
 
@@ -236,7 +254,8 @@ impl SVGTransform {
     fn is_identity(&self) -> bool {
         match self {
             Self::Rotate(n, _, _) | Self::SkewX(n) | Self::SkewY(n) => *n == 0.0,
-            Self::Scale(x, y) | Self::Translate(x, y) => *x == 1.0 && *y == 1.0,
+            Self::Scale(x, y) => *x == 1.0 && *y == 1.0,
+            Self::Translate(x, y) => *x == 0.0 && *y == 0.0,
             Self::Matrix(_) | Self::CssTransform(_) => false,
         }
     }
-- 
2.43.0


From b4a5345bd7da4db4e264e9f31dbce41380635f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:51 +0000
Subject: [PATCH 033/151] fix: keep ids referenced from stylesheets when
 inlining styles

---
 .../oxvg_optimiser/src/jobs/inline_styles.rs  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/inline_styles.rs b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
index e41f6da..8c71339 100644
--- a/crates/oxvg_optimiser/src/jobs/inline_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
@@ -9,7 +9,7 @@ use lightningcss::{
     rules::{CssRule, CssRuleList},
     selector::{Component, Selector},
     traits::ToCss,
-    values::{ident::Ident, string::CSSString},
+    values::{ident::Ident, string::CSSString, url::Url},
     visit_types,
     visitor::{self, Visit, VisitTypes},
 };
@@ -114,6 +114,9 @@ struct CollectMatchingSelectors<'a, 'o, 'input, 'arena> {
     root: Element<'input, 'arena>,
 }
 
+/// Collects the ids referenced by the urls of a stylesheet
+struct CollectReferences<'a, 'input>(&'a mut HashSet<Atom<'input>>);
+
 struct InlinePresentationAttributes<'a, 'o, 'input, 'arena> {
     state: &'a State<'o, 'input, 'arena>,
     element: Element<'input, 'arena>,
@@ -284,6 +287,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
 
         let mut find_removable_tokens = FindRemovableTokens::new(self.options);
         let css = &mut *css.borrow_mut();
+        css.visit(&mut CollectReferences(&mut referenced_ids)).ok();
         if let Err(err) = find_removable_tokens.inline_rules(css, context.root) {
             log::debug!("Not merging style: {err}");
             return Ok(());
@@ -503,6 +507,21 @@ impl<'input, 'arena> CollectMatchingSelectors<'_, '_, 'input, 'arena> {
     }
 }
 
+impl<'input> visitor::Visitor<'input> for CollectReferences<'_, 'input> {
+    type Error = PrinterError;
+
+    fn visit_types(&self) -> VisitTypes {
+        visit_types!(URLS)
+    }
+
+    fn visit_url(&mut self, url: &mut Url<'input>) -> Result<(), Self::Error> {
+        if let Some(id) = url.url.strip_prefix('#') {
+            self.0.insert(id.to_string().into());
+        }
+        Ok(())
+    }
+}
+
 impl<'input> visitor::Visitor<'input> for CollectMatchingSelectors<'_, '_, 'input, '_> {
     type Error = PrinterError;
 
-- 
2.43.0


From 47a370ada9b208add4f9daf7b152a7c4447b66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:51 +0000
Subject: [PATCH 034/151] fix: keep transform of paths with inherited paint
 servers and markers

---
 .../src/jobs/apply_transforms.rs              | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index abd0260..855396d 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -2,7 +2,7 @@ use core::ops::Mul;
 use std::f64;
 
 use lightningcss::properties::{
-    svg::{SVGPaint, StrokeDasharray},
+    svg::{Marker, SVGPaint, StrokeDasharray},
     transform::{Matrix, TransformList},
 };
 use oxvg_ast::{
@@ -109,6 +109,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
         let computed_styles = ComputedStyles::default()
             .with_all(element, &context.query_has_stylesheet_result)
             .map_err(JobsError::ComputedStylesError)?;
+        if is_painted_by_reference(&computed_styles) {
+            log::debug!("run: element inherits a url reference");
+            return Ok(());
+        }
         let Some(transform_attr) = get_attribute!(element, Transform) else {
             log::debug!("run: element has no transform");
             return Ok(());
@@ -245,6 +249,28 @@ impl ApplyTransforms {
     }
 }
 
+/// Returns whether the element uses a paint server or marker, which would be affected by its
+/// transform
+fn is_painted_by_reference(computed_styles: &ComputedStyles) -> bool {
+    let is_url = |paint: ComputedStyle<Inheritable<SVGPaint>>| {
+        matches!(
+            paint.option(),
+            Some((Inheritable::Defined(SVGPaint::Url { .. }), _))
+        )
+    };
+    let is_marker = |marker: ComputedStyle<Inheritable<Marker>>| {
+        matches!(
+            marker.option(),
+            Some((Inheritable::Defined(Marker::Url(_)), _))
+        )
+    };
+    is_url(get_computed_style!(computed_styles, Fill))
+        || is_url(get_computed_style!(computed_styles, Stroke))
+        || is_marker(get_computed_style!(computed_styles, MarkerStart))
+        || is_marker(get_computed_style!(computed_styles, MarkerMid))
+        || is_marker(get_computed_style!(computed_styles, MarkerEnd))
+}
+
 fn matrix32_to_slice(matrix: &Matrix<f32>) -> [f64; 6] {
     [
         f64::from(matrix.a),
@@ -423,7 +449,7 @@ fn transform_arc(cursor: [f64; 2], args: &mut [f64; 7], matrix: &[f64; 6]) {
             / std::f64::consts::PI;
     }
 
-    if (matrix[0] < 0.0) != (matrix[3] < 0.0) {
+    if matrix[0] * matrix[3] - matrix[1] * matrix[2] < 0.0 {
         args[4] = 1.0 - args[4];
     }
 }
-- 
2.43.0


From 501f07e902962aa35166319b4674c11fd3670e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:51 +0000
Subject: [PATCH 035/151] fix: keep effect of group styles when collapsing into
 a child

---
 .../src/jobs/collapse_groups.rs               | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 4726c2d..b02f335 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -8,7 +8,7 @@ use oxvg_ast::{
 };
 use oxvg_collections::{
     atom::Atom,
-    attribute::{Attr, inheritable::Inheritable},
+    attribute::{Attr, AttributeInfo, inheritable::Inheritable},
     content_type::ContentType,
     element::ElementCategory,
 };
@@ -111,6 +111,9 @@ fn move_attributes_to_child(element: Element) {
     } else if is_node_with_filter(element) {
         log::debug!("collapse_groups: not moving attrs: filter");
         return;
+    } else if is_style_overriding(element, first_child) {
+        log::debug!("collapse_groups: not moving attrs: style would override child");
+        return;
     }
 
     let mut removals = Vec::default();
@@ -138,6 +141,11 @@ fn move_attributes_to_child(element: Element) {
             value.0.extend(mem::take(&mut child_value.0));
             mem::swap(&mut value.0, &mut child_value.0);
         } else if let ContentType::Inheritable(inheritable) = child_attr.value() {
+            if !child_attr.name().info().contains(AttributeInfo::Inheritable) {
+                log::debug!("collapse_groups: keeping {attr:?}: applies to group and child");
+                removals.pop();
+                break;
+            }
             if Inheritable::Inherited == inheritable {
                 log::debug!("collapse_groups: moved {attr:?}: is explicit inherit");
                 *child_attr = attr.clone();
@@ -205,6 +213,27 @@ fn is_position_visually_unstable<'input, 'arena>(
     is_node_clipping || is_child_transformed_group
 }
 
+/// Returns whether moving the styles of the group would affect styles given by the child
+fn is_style_overriding<'input, 'arena>(
+    node: Element<'input, 'arena>,
+    child: Element<'input, 'arena>,
+) -> bool {
+    let is_declared = |declaring: Element<'input, 'arena>, attr: &Attr<'input>| {
+        get_attribute!(declaring, Style).is_some_and(|style| {
+            style
+                .iter()
+                .any(|(property, _)| property.property_id().name() == &**attr.local_name())
+        })
+    };
+    child
+        .attributes()
+        .into_iter()
+        .any(|attr| is_declared(node, &attr))
+        || node.attributes().into_iter().any(|attr| {
+            !attr.name().info().contains(AttributeInfo::Inheritable) && is_declared(child, &attr)
+        })
+}
+
 fn is_node_with_filter(node: Element) -> bool {
     has_attribute!(node, Filter)
         || get_attribute!(node, Style)
-- 
2.43.0


From be1f7ae224ced525ba0d6787377c2385de3180a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:54 +0000
Subject: [PATCH 036/151] fix: resolve computed styles by specificity and
 document order

---
 crates/oxvg_ast/src/style.rs | 46 +++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 24510c5..dd3a44c 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -138,9 +138,22 @@ pub struct ComputedStyles<'input> {
 pub fn root<'input, 'arena>(
     root: Element<'input, 'arena>,
 ) -> impl Iterator<Item = RefCell<CssRuleList<'input>>> + use<'input, 'arena> {
-    root.breadth_first()
-        .filter_map(|node| node.first_child())
-        .filter_map(|node| node.style().cloned())
+    let mut styles = vec![];
+    collect_styles(root, &mut styles);
+    styles.into_iter()
+}
+
+/// Collects in document order, as later styles take precedence
+fn collect_styles<'input>(
+    element: Element<'input, '_>,
+    styles: &mut Vec<RefCell<CssRuleList<'input>>>,
+) {
+    for child in element.children_iter() {
+        if let Some(style) = child.first_child().and_then(|node| node.style()) {
+            styles.push(style.clone());
+        }
+        collect_styles(child, styles);
+    }
 }
 
 impl<T> ComputedStyle<T> {
@@ -213,12 +226,6 @@ impl<'input> ComputedStyles<'input> {
         }
         let parent_styles = ComputedStyles::default().with_all(parent, styles)?;
         self.inherited.extend(parent_styles.inherited);
-        self.inherited.extend(
-            parent_styles
-                .declarations
-                .into_iter()
-                .map(|(id, value)| (id.name().to_string(), value.1)),
-        );
         self.inherited
             .extend(parent_styles.attr.into_iter().map(|attr| {
                 (
@@ -226,6 +233,12 @@ impl<'input> ComputedStyles<'input> {
                     Style::Static(Static::Attr(attr.clone())),
                 )
             }));
+        self.inherited.extend(
+            parent_styles
+                .declarations
+                .into_iter()
+                .map(|(id, value)| (id.name().to_string(), value.1)),
+        );
         let (inline, important_inline) = parent_styles
             .inline
             .map(|style| (style.declarations, style.important_declarations))
@@ -299,10 +312,9 @@ impl<'input> ComputedStyles<'input> {
                             selector: r.selectors.clone(),
                         }
                     })?;
-                    if !select.matches_naive(&SelectElement::new(element)) {
-                        continue;
+                    if select.matches_naive(&SelectElement::new(element)) {
+                        self.add_declarations(&r.declarations, specificity + s.specificity(), mode);
                     }
-                    self.add_declarations(&r.declarations, specificity + s.specificity(), mode);
                     selector.pop();
                 }
                 Ok(())
@@ -436,7 +448,7 @@ impl<'input> ComputedStyles<'input> {
                 inline
                     .important_declarations
                     .iter()
-                    .find(|css| css.property_id() == *id)
+                    .rfind(|css| css.property_id() == *id)
                     .cloned()
                     .map(|css| (css, Mode::Static))
             })
@@ -457,7 +469,7 @@ impl<'input> ComputedStyles<'input> {
                     inline
                         .declarations
                         .iter()
-                        .find(|css| css.property_id() == *id)
+                        .rfind(|css| css.property_id() == *id)
                         .cloned()
                         .map(|css| (css, Mode::Static))
                 })
@@ -513,6 +525,12 @@ impl<'input> ComputedStyles<'input> {
     ) {
         for d in declarations {
             let id = d.property_id();
+            if record
+                .get(&id)
+                .is_some_and(|(existing, _)| *existing > specificity)
+            {
+                continue;
+            }
             record.insert(id, (specificity, mode.style(Static::Css(d.clone()))));
         }
     }
-- 
2.43.0


From ff64049b242cbb3c8a794f3e7960d91b93a31efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:54 +0000
Subject: [PATCH 037/151] fix: keep stroke attributes of paths with start or
 mid markers

---
 .../oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
index ee89cce..b77a98b 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
@@ -156,7 +156,9 @@ impl State<'_> {
             }
         });
 
-        if !is_stroke_width_zero && has_computed_style!(computed_styles, MarkerEnd) {
+        if !is_stroke_width_zero
+            && has_computed_style!(computed_styles, MarkerStart | MarkerMid | MarkerEnd)
+        {
             log::debug!("skipping stroke removal, has marker");
             return;
         }
-- 
2.43.0


From 2d0cc7160c23af085a65d680b9b2c18cf4e8741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:54 +0000
Subject: [PATCH 038/151] fix: keep attributes overridden by the group's style
 on its children

---
 .../src/jobs/move_elems_attrs_to_group.rs             | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 58a7668..668127d 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -2,7 +2,7 @@ use std::collections::BTreeMap;
 
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut, has_attribute, is_attribute, is_element,
+    get_attribute, get_attribute_mut, has_attribute, is_attribute, is_element,
     visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{
@@ -85,6 +85,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
             common_attributes.remove(&AttrId::Transform);
         }
 
+        if let Some(style) = get_attribute!(element, Style) {
+            // the group's style would take precedence
+            common_attributes.retain(|name, _| {
+                !style
+                    .iter()
+                    .any(|(property, _)| property.property_id().name() == &**name.local_name())
+            });
+        }
+
         for name in common_attributes.keys() {
             for child in element.children_iter() {
                 child.remove_attribute(name);
-- 
2.43.0


From 8a09409f9e0f4b2a54efdf166e7f206239b54d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:54 +0000
Subject: [PATCH 039/151] fix: keep group when it and its child have a style

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index b02f335..bd1642b 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -225,10 +225,12 @@ fn is_style_overriding<'input, 'arena>(
                 .any(|(property, _)| property.property_id().name() == &**attr.local_name())
         })
     };
-    child
-        .attributes()
-        .into_iter()
-        .any(|attr| is_declared(node, &attr))
+    // the styles of both would be merged when equal
+    (has_attribute!(node, Style) && has_attribute!(child, Style))
+        || child
+            .attributes()
+            .into_iter()
+            .any(|attr| is_declared(node, &attr))
         || node.attributes().into_iter().any(|attr| {
             !attr.name().info().contains(AttributeInfo::Inheritable) && is_declared(child, &attr)
         })
-- 
2.43.0


From b5a4225c83399e46969202d7b1f779d4af29e086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:00 +0000
Subject: [PATCH 040/151] fix: keep groups that are styled by a stylesheet

---
 crates/oxvg_ast/src/style.rs                  |  9 ++++++++
 .../src/jobs/collapse_groups.rs               | 22 +++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index dd3a44c..5d2e341 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -208,6 +208,15 @@ impl<'input> ComputedStyles<'input> {
             .with_inherited(element, styles)
     }
 
+    /// Returns whether none of the included sources provide a style
+    pub fn is_empty(&self) -> bool {
+        self.inherited.is_empty()
+            && self.declarations.is_empty()
+            && self.attr.is_empty()
+            && self.inline.is_none()
+            && self.important_declarations.is_empty()
+    }
+
     /// Include the computed styles of a parent element
     ///
     /// # Errors
diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index bd1642b..6bff871 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -4,6 +4,7 @@ use lightningcss::{properties::PropertyId, vendor_prefix::VendorPrefix};
 use oxvg_ast::{
     element::Element,
     get_attribute, has_attribute, is_element,
+    style::ComputedStyles,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::{
@@ -45,9 +46,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for CollapseGroups {
 
     fn prepare(
         &self,
-        _document: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<PrepareOutcome, Self::Error> {
+        context.query_has_stylesheet(document);
         Ok(if self.0 {
             PrepareOutcome::none
         } else {
@@ -58,7 +60,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for CollapseGroups {
     fn exit_element(
         &self,
         element: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
         let Some(parent) = Element::parent_element(&element) else {
             return Ok(());
@@ -70,6 +72,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for CollapseGroups {
         if !is_element!(element, G) || !element.has_child_elements() {
             return Ok(());
         }
+        if !has_attribute!(element, Class)
+            && ComputedStyles::default()
+                .with_style(element, &context.query_has_stylesheet_result)
+                .is_ok_and(|styles| !styles.is_empty())
+        {
+            log::debug!("collapse_groups: group is styled by stylesheet");
+            return Ok(());
+        }
 
         move_attributes_to_child(element);
         flatten_when_all_attributes_moved(element);
@@ -141,7 +151,11 @@ fn move_attributes_to_child(element: Element) {
             value.0.extend(mem::take(&mut child_value.0));
             mem::swap(&mut value.0, &mut child_value.0);
         } else if let ContentType::Inheritable(inheritable) = child_attr.value() {
-            if !child_attr.name().info().contains(AttributeInfo::Inheritable) {
+            if !child_attr
+                .name()
+                .info()
+                .contains(AttributeInfo::Inheritable)
+            {
                 log::debug!("collapse_groups: keeping {attr:?}: applies to group and child");
                 removals.pop();
                 break;
-- 
2.43.0


From 2b9a512b531ba2bd84cc289ec081170a8c2ec41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:00 +0000
Subject: [PATCH 041/151] fix: keep hidden groups with children made visible by
 style

---
 .../src/jobs/remove_hidden_elems.rs               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 7d454e0..bc3acec 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -339,9 +339,9 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
 
     fn is_hidden_style(
         &self,
-        element: Element,
-        computed_styles: &ComputedStyles,
-        context: &mut Context,
+        element: Element<'input, 'arena>,
+        computed_styles: &ComputedStyles<'input>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> bool {
         let mut is_hidden = false;
         if self.options.is_hidden.unwrap_or(true)
@@ -351,7 +351,14 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
                 matches!(
                     get_attribute!(child, Visibility).as_deref(),
                     Some(Inheritable::Defined(Visibility::Visible) | Inheritable::Inherited)
-                )
+                ) || ComputedStyles::default()
+                    .with_all(child, &context.query_has_stylesheet_result)
+                    .is_ok_and(|styles| {
+                        !matches!(
+                            get_computed_style!(styles, Visibility).option(),
+                            Some((Inheritable::Defined(Visibility::Hidden), Mode::Static))
+                        )
+                    })
             })
         {
             is_hidden = true;
-- 
2.43.0


From 4657036027d4144d1790e493d5b8daa6e098c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:00 +0000
Subject: [PATCH 042/151] fix: keep default values in the content of referenced
 elements

---
 .../src/jobs/remove_unknowns_and_defaults.rs               | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs b/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs
index 69acef1..85b8e57 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs
@@ -198,7 +198,12 @@ impl RemoveUnknownsAndDefaults {
         inherited_styles: &ComputedStyles<'input>,
     ) {
         let element_name = element.qual_name();
-        let has_id = has_attribute!(element, Id);
+        // The content of referenced elements may inherit from wherever it's used
+        let has_id = has_attribute!(element, Id)
+            || std::iter::successors(Element::parent_element(&element), |parent| {
+                Element::parent_element(parent)
+            })
+            .any(|parent| !parent.is_root() && has_attribute!(parent, Id));
 
         element.attributes().retain(|attr| {
             let name = attr.name().unaliased();
-- 
2.43.0


From d65ac025cba6908e42d4fdb3d5678eadeb0ec0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:00 +0000
Subject: [PATCH 043/151] fix: keep fill-opacity when the style attribute sets
 fill

---
 .../src/jobs/remove_useless_stroke_and_fill.rs   | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
index b77a98b..04de6ff 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
@@ -1,9 +1,13 @@
 use std::cell::Cell;
 
-use lightningcss::{properties::svg::SVGPaint, traits::Zero, values::alpha::AlphaValue};
+use lightningcss::{
+    properties::{PropertyId, svg::SVGPaint},
+    traits::Zero,
+    values::alpha::AlphaValue,
+};
 use oxvg_ast::{
     element::Element,
-    get_computed_style, has_computed_style, is_attribute, set_attribute,
+    get_attribute, get_computed_style, has_computed_style, is_attribute, set_attribute,
     style::{ComputedStyles, Mode},
     visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
@@ -241,7 +245,13 @@ impl State<'_> {
             .option()
             .is_some_and(|s| matches!(s, (Inheritable::Defined(AlphaValue(0.0)), Mode::Static)));
 
-        if is_fill_none || is_fill_opacity_zero {
+        let is_fill_inline = get_attribute!(element, Style).is_some_and(|style| {
+            style
+                .0
+                .iter()
+                .any(|(property, _)| matches!(property.property_id(), PropertyId::Fill))
+        });
+        if is_fill_none || (is_fill_opacity_zero && !is_fill_inline) {
             log::debug!("removing useless fill");
             log::debug!("fill none: {is_fill_none}");
             log::debug!("fill opacity zero: {is_fill_opacity_zero}");
-- 
2.43.0


From 509982d590d8ef67e3ec3bff25d33d126e90c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:00 +0000
Subject: [PATCH 044/151] fix: keep classes used by remaining selectors when
 inlining styles

---
 .../oxvg_optimiser/src/jobs/inline_styles.rs  | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/inline_styles.rs b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
index 8c71339..1f868c8 100644
--- a/crates/oxvg_optimiser/src/jobs/inline_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
@@ -91,6 +91,8 @@ struct State<'o, 'input, 'arena> {
     /// Which of matching tokens in a selector that are a dynamic reference.
     /// e.g. `.foo .bar` would record `.foo` as dynamic.
     pub dynamically_referenced: RefCell<HashSet<Token<'input>>>,
+    /// The tokens of selectors with combinators which remain in a stylesheet.
+    pub retained: RefCell<HashSet<Token<'input>>>,
     /// Ids referenced in the document.
     pub referenced_ids: RefCell<HashSet<Atom<'input>>>,
 }
@@ -117,6 +119,9 @@ struct CollectMatchingSelectors<'a, 'o, 'input, 'arena> {
 /// Collects the ids referenced by the urls of a stylesheet
 struct CollectReferences<'a, 'input>(&'a mut HashSet<Atom<'input>>);
 
+/// Collects the tokens of the selectors with combinators in a stylesheet
+struct CollectTokens<'a, 'input>(&'a mut HashSet<Token<'input>>);
+
 struct InlinePresentationAttributes<'a, 'o, 'input, 'arena> {
     state: &'a State<'o, 'input, 'arena>,
     element: Element<'input, 'arena>,
@@ -299,6 +304,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
             .borrow_mut()
             .extend(find_removable_tokens.inlines);
         minify_style::style_list(css).ok();
+        css.visit(&mut CollectTokens(&mut self.retained.borrow_mut()))
+            .ok();
         if css.0.is_empty() {
             element.remove();
         }
@@ -313,6 +320,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         _context: &Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
         let dynamically_referenced = self.dynamically_referenced.borrow();
+        let retained = self.retained.borrow();
         let inlined = self.inlined.borrow();
         let referenced_ids = self.referenced_ids.borrow();
         #[allow(clippy::mutable_key_type)]
@@ -356,7 +364,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
             } in group
             {
                 for token in tokens {
-                    if dynamically_referenced.contains(token) {
+                    if dynamically_referenced.contains(token) || retained.contains(token) {
                         continue;
                     }
                     match token {
@@ -522,6 +530,22 @@ impl<'input> visitor::Visitor<'input> for CollectReferences<'_, 'input> {
     }
 }
 
+impl<'input> visitor::Visitor<'input> for CollectTokens<'_, 'input> {
+    type Error = PrinterError;
+
+    fn visit_types(&self) -> VisitTypes {
+        visit_types!(SELECTORS)
+    }
+
+    fn visit_selector(&mut self, selector: &mut Selector<'input>) -> Result<(), Self::Error> {
+        if selector.has_combinator() {
+            self.0
+                .extend(selector.iter_raw_match_order().map(Token::from));
+        }
+        Ok(())
+    }
+}
+
 impl<'input> visitor::Visitor<'input> for CollectMatchingSelectors<'_, '_, 'input, '_> {
     type Error = PrinterError;
 
@@ -716,6 +740,7 @@ impl<'o> State<'o, '_, '_> {
             options,
             inlined: RefCell::new(Vec::new()),
             dynamically_referenced: RefCell::new(HashSet::new()),
+            retained: RefCell::new(HashSet::new()),
             referenced_ids: RefCell::new(HashSet::new()),
         }
     }
-- 
2.43.0


From dfc8d22bdfe8ce60de238795f20e9efa55782adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:00 +0000
Subject: [PATCH 045/151] fix: keep zero-length commands of paths with mid
 markers

---
 crates/oxvg_path/src/optimize.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/optimize.rs b/crates/oxvg_path/src/optimize.rs
index acd3efd..d37d614 100644
--- a/crates/oxvg_path/src/optimize.rs
+++ b/crates/oxvg_path/src/optimize.rs
@@ -54,7 +54,9 @@ bitflags! {
         /// - `fill-rule: "evenodd"`: Safe
         /// - `fill-rule: "nonzero"`: Safe
         /// - `stroke` + `stroke-linecap`: Unsafe
-        /// - `marker-*`: Safe
+        /// - `marker-start`: Safe
+        /// - `marker-mid`: Unsafe
+        /// - `marker-end`: Safe
         const RemoveNoopCommands = 1 << 4;
         /// Replace final line commands of segments that return to the start with `Z`.
         /// Remove `Z` when retained final commands of segments return to the start.
@@ -87,7 +89,7 @@ bitflags! {
         /// A set of flags that should be excluded when `marker-start` is present
         const UnsafeMarkerStart = Self::UnsafeMarker.bits();
         /// A set of flags that should be excluded when `marker-mid` is present
-        const UnsafeMarkerMid = Self::UnsafeMarker.union(Self::CloseSegments).union(Self::JoinNodes).union(Self::RemoveCloseLine).bits();
+        const UnsafeMarkerMid = Self::UnsafeMarker.union(Self::CloseSegments).union(Self::JoinNodes).union(Self::RemoveCloseLine).union(Self::RemoveNoopCommands).bits();
         /// A set of flags that should be excluded when `marker-end` is present
         const UnsafeMarkerEnd = Self::UnsafeMarker.union(Self::CloseSegments).union(Self::RemoveCloseLine).bits();
         /// A set of flags that should be excluded when `stroke` + `stroke-linecap` is present
-- 
2.43.0


From fc56537d32094eb7777ccf9dc8bb758c280e3d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:00 +0000
Subject: [PATCH 046/151] fix: keep whitespace-only tspan elements within text

---
 .../oxvg_optimiser/src/jobs/remove_empty_text.rs   | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs b/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs
index 7487851..23299b3 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs
@@ -54,7 +54,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveEmptyText {
             element.remove();
         }
 
-        if self.tspan.unwrap_or(true) && is_element!(element, TSpan) && element.is_empty() {
+        if self.tspan.unwrap_or(true)
+            && is_element!(element, TSpan)
+            && element.is_empty()
+            && (!element.has_child_nodes() || !is_within_text(element))
+        {
             element.remove();
         }
 
@@ -69,6 +73,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveEmptyText {
     }
 }
 
+/// The whitespace of a `tspan` is rendered between its siblings in text
+fn is_within_text<'input, 'arena>(element: Element<'input, 'arena>) -> bool {
+    Element::parent_element(&element).is_some_and(|parent| {
+        is_element!(parent, Text | TSpan | TextPath)
+            || (is_element!(parent, A) && is_within_text(parent))
+    })
+}
+
 #[test]
 fn remove_empty_text() -> anyhow::Result<()> {
     use crate::test_config;
-- 
2.43.0


From 8596ede0e80d78d126e5e75f344d080dae051c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:29 +0000
Subject: [PATCH 047/151] fix: keep hidden parts of text

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index bc3acec..cb0038b 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -344,7 +344,9 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
         context: &mut Context<'input, 'arena, '_>,
     ) -> bool {
         let mut is_hidden = false;
+        // Hidden parts of text still take up space
         if self.options.is_hidden.unwrap_or(true)
+            && !is_element!(element, TSpan | TextPath | A)
             && let Some((Inheritable::Defined(Visibility::Hidden), Mode::Static)) =
                 get_computed_style!(computed_styles, Visibility).option()
             && !element.breadth_first().any(|child| {
-- 
2.43.0


From 945187123127e728f9a636e0bfaffd05f7b28e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:11 +0000
Subject: [PATCH 048/151] fix: keep rects without size when converting shapes
 to paths

---
 crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
index f78f6ea..5084047 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
@@ -236,6 +236,10 @@ impl ConvertShapeToPath {
         let Some(height) = get_attribute!(element, HeightRect).and_then(lp_px) else {
             return;
         };
+        if width <= 0.0 || height <= 0.0 {
+            // The rect isn't rendered, but a path's stroke would be
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([x, y]),
-- 
2.43.0


From 8175e2d7a72ca816cfc1cc3ae8989db71d673fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:11 +0000
Subject: [PATCH 049/151] fix: keep precision of transforms mixed with matrices

---
 crates/oxvg_optimiser/src/jobs/convert_transform.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_transform.rs b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
index 344ee73..37be5d1 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_transform.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
@@ -153,7 +153,11 @@ impl ConvertTransform {
                 number_of_decimals = arg_decimal_digits;
             }
         }
-        if is_matrix_data && number_of_decimals < transform_precision {
+        let is_only_matrix_data = data
+            .0
+            .iter()
+            .all(|t| matches!(t, SVGTransform::Matrix(_)));
+        if is_matrix_data && is_only_matrix_data && number_of_decimals < transform_precision {
             transform_precision = number_of_decimals;
         }
         if !is_matrix_data {
-- 
2.43.0


From c1702322b20beea0ca92ca9729224a64d2880771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:11 +0000
Subject: [PATCH 050/151] fix: keep referenced masks, clip paths and patterns
 with display none

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index cb0038b..94d1713 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -371,7 +371,8 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             && let Some((Inheritable::Defined(Display::Keyword(DisplayKeyword::None)), _)) =
                 get_computed_style!(computed_styles, Display).option()
         {
-            is_hidden = !is_element!(element, Marker);
+            // Elements which are only rendered by reference aren't affected by `display`
+            is_hidden = !is_element!(element, Marker | Mask | ClipPath | Pattern);
         }
         if is_hidden {
             // Protect references that may use non-visible data
-- 
2.43.0


From a2ec2c5cae64c7a5eff8932b3b452bca29ff72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:11 +0000
Subject: [PATCH 051/151] fix: keep stroke attributes when the style attribute
 sets stroke

---
 .../src/jobs/remove_useless_stroke_and_fill.rs           | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
index 04de6ff..cb15c5e 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
@@ -197,7 +197,14 @@ impl State<'_> {
             }
         });
 
-        if is_stroke_none || is_stroke_opacity_zero || is_stroke_width_zero {
+        let is_stroke_inline = get_attribute!(element, Style).is_some_and(|style| {
+            style
+                .0
+                .iter()
+                .any(|(property, _)| matches!(property.property_id(), PropertyId::Stroke))
+        });
+        if is_stroke_none || ((is_stroke_opacity_zero || is_stroke_width_zero) && !is_stroke_inline)
+        {
             log::debug!("removing useless stroke");
             log::debug!("stroke none: {is_stroke_none}");
             log::debug!("stroke opacity zero: {is_stroke_opacity_zero}");
-- 
2.43.0


From fe420bac509b4af8551722b3aa4c3213052654b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:25 +0000
Subject: [PATCH 052/151] fix: keep ellipses with percentage radii

---
 .../oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs b/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
index b77ad6c..d8514e5 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
@@ -1,3 +1,4 @@
+use lightningcss::values::percentage::DimensionPercentage;
 use oxvg_ast::{
     element::Element,
     get_attribute, is_element, remove_attribute, set_attribute,
@@ -81,6 +82,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertEllipseToCircle {
             },
         }
         .cloned();
+        if radius
+            .as_ref()
+            .is_some_and(|radius| !matches!(radius.0, DimensionPercentage::Dimension(_)))
+        {
+            // Percentages of an ellipse's radii are relative to different lengths
+            return Ok(());
+        }
         log::debug!("derived {radius:?} from {rx:?}, {ry:?}");
 
         drop(rx);
-- 
2.43.0


From fbb31176f0154284c3e356c4775e45b54a65720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:25 +0000
Subject: [PATCH 053/151] fix: keep groups when a stylesheet cannot be resolved

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 6bff871..eebfecb 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -75,7 +75,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for CollapseGroups {
         if !has_attribute!(element, Class)
             && ComputedStyles::default()
                 .with_style(element, &context.query_has_stylesheet_result)
-                .is_ok_and(|styles| !styles.is_empty())
+                .map_or(true, |styles| !styles.is_empty())
         {
             log::debug!("collapse_groups: group is styled by stylesheet");
             return Ok(());
-- 
2.43.0


From dd475e1318c2d713163f0138fcb6e880223fe4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:25 +0000
Subject: [PATCH 054/151] fix: keep classes used by other rules when inlining
 styles

---
 crates/oxvg_optimiser/src/jobs/inline_styles.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/inline_styles.rs b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
index 1f868c8..573056a 100644
--- a/crates/oxvg_optimiser/src/jobs/inline_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
@@ -91,7 +91,7 @@ struct State<'o, 'input, 'arena> {
     /// Which of matching tokens in a selector that are a dynamic reference.
     /// e.g. `.foo .bar` would record `.foo` as dynamic.
     pub dynamically_referenced: RefCell<HashSet<Token<'input>>>,
-    /// The tokens of selectors with combinators which remain in a stylesheet.
+    /// The tokens of static selectors which remain in a stylesheet.
     pub retained: RefCell<HashSet<Token<'input>>>,
     /// Ids referenced in the document.
     pub referenced_ids: RefCell<HashSet<Atom<'input>>>,
@@ -119,7 +119,7 @@ struct CollectMatchingSelectors<'a, 'o, 'input, 'arena> {
 /// Collects the ids referenced by the urls of a stylesheet
 struct CollectReferences<'a, 'input>(&'a mut HashSet<Atom<'input>>);
 
-/// Collects the tokens of the selectors with combinators in a stylesheet
+/// Collects the tokens of the static selectors in a stylesheet
 struct CollectTokens<'a, 'input>(&'a mut HashSet<Token<'input>>);
 
 struct InlinePresentationAttributes<'a, 'o, 'input, 'arena> {
@@ -538,7 +538,10 @@ impl<'input> visitor::Visitor<'input> for CollectTokens<'_, 'input> {
     }
 
     fn visit_selector(&mut self, selector: &mut Selector<'input>) -> Result<(), Self::Error> {
-        if selector.has_combinator() {
+        let has_pseudo = selector
+            .iter()
+            .any(|token| matches!(token, Component::NonTSPseudoClass(_)));
+        if selector.has_combinator() || !has_pseudo {
             self.0
                 .extend(selector.iter_raw_match_order().map(Token::from));
         }
-- 
2.43.0


From 872e69d98439f1b1c9c77cb7fad597828586c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:25 +0000
Subject: [PATCH 055/151] fix: keep definitions inside of hidden elements

---
 .../src/jobs/remove_hidden_elems.rs           | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 94d1713..48f5ad7 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -377,20 +377,26 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
         if is_hidden {
             // Protect references that may use non-visible data
             let references_by_id = self.data.references_by_id.borrow();
-            if let Some(id) = get_attribute!(element, Id)
-                && references_by_id.contains_key(id.0.as_str())
-            {
+            let is_referenced = |element: Element<'input, 'arena>| {
+                get_attribute!(element, Id).is_some_and(|id| {
+                    references_by_id.contains_key(id.0.as_str())
+                        || is_element!(
+                            element,
+                            ClipPath
+                                | Filter
+                                | LinearGradient
+                                | Marker
+                                | Mask
+                                | Pattern
+                                | RadialGradient
+                        )
+                })
+            };
+            if is_referenced(element) {
                 context.flags.visit_skip();
                 return false;
             }
-            return !element.breadth_first().any(|child| {
-                if let Some(id) = get_attribute!(child, Id)
-                    && references_by_id.contains_key(id.0.as_str())
-                {
-                    return true;
-                }
-                false
-            });
+            return !element.breadth_first().any(is_referenced);
         }
         is_hidden
     }
-- 
2.43.0


From ce142fa0cfb0f08c9b0d241ac8d661935f2be074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 056/151] fix: keep transforms of paths clipped by a stylesheet

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index 855396d..d7a444a 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -8,7 +8,7 @@ use lightningcss::properties::{
 use oxvg_ast::{
     element::Element,
     get_attribute, get_attribute_mut, get_computed_style, get_computed_style_css, has_attribute,
-    is_attribute,
+    has_computed_style, is_attribute,
     style::{ComputedStyle, ComputedStyles, Mode},
     visitor::{Context, PrepareOutcome, Visitor},
 };
@@ -264,7 +264,8 @@ fn is_painted_by_reference(computed_styles: &ComputedStyles) -> bool {
             Some((Inheritable::Defined(Marker::Url(_)), _))
         )
     };
-    is_url(get_computed_style!(computed_styles, Fill))
+    has_computed_style!(computed_styles, ClipPath | Filter | Mask)
+        || is_url(get_computed_style!(computed_styles, Fill))
         || is_url(get_computed_style!(computed_styles, Stroke))
         || is_marker(get_computed_style!(computed_styles, MarkerStart))
         || is_marker(get_computed_style!(computed_styles, MarkerMid))
-- 
2.43.0


From eeb77717cc0f1e7e32d2e34d0bf465c9a07b427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 057/151] fix: keep one-stop gradients that are not a solid
 colour

---
 .../src/jobs/convert_one_stop_gradients.rs           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 31bb659..d22e7e6 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -11,7 +11,7 @@ use lightningcss::{
 };
 use oxvg_ast::{
     element::Element,
-    get_attribute, get_attribute_mut, has_attribute, is_element,
+    get_attribute, get_attribute_mut, has_attribute, has_computed_style, is_element,
     node::AllocationID,
     style::{ComputedStyles, Mode},
     visitor::{Context, PrepareOutcome, Visitor},
@@ -140,6 +140,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             return Ok(());
         }
 
+        let Some(color) = get_color(context, &effective_stops)? else {
+            log::debug!("skipping, not a solid color");
+            return Ok(());
+        };
+
         if let Some(parent) = element.parent_element()
             && is_element!(parent, Defs)
         {
@@ -148,13 +153,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
 
         gradients_to_detach.insert(element.id(), element);
 
-        let color = get_color(context, &effective_stops)?;
         let Some(id) = get_attribute!(element, Id) else {
             log::debug!("skipping reference updates, no id");
             return Ok(());
         };
         log::debug!("updating colors: {color:?}");
-        let Some(color) = color else { return Ok(()) };
         let id_value = id.clone();
         drop(id);
         update_color_references(context, &color, &id_value);
@@ -205,6 +208,9 @@ fn get_color<'input, 'arena>(
         .with_all(*effective_stop, &context.query_has_stylesheet_result)
         .map_err(JobsError::ComputedStylesError)?;
 
+    if has_computed_style!(computed_styles, StopOpacity) {
+        return Ok(None);
+    }
     if let Some((stop_color, Mode::Static)) = computed_styles.get(&AttrId::StopColor) {
         return Ok(match stop_color {
             Attr::StopColor(Inheritable::Defined(color)) => Some(color),
-- 
2.43.0


From 08f40a6e0bb6585cda73aa316ee662967a44d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 058/151] fix: keep elements hidden only by a media query

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 48f5ad7..2ba26e1 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -368,8 +368,10 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
 
         if !is_hidden
             && self.options.display_none.unwrap_or(true)
-            && let Some((Inheritable::Defined(Display::Keyword(DisplayKeyword::None)), _)) =
-                get_computed_style!(computed_styles, Display).option()
+            && let Some((
+                Inheritable::Defined(Display::Keyword(DisplayKeyword::None)),
+                Mode::Static,
+            )) = get_computed_style!(computed_styles, Display).option()
         {
             // Elements which are only rendered by reference aren't affected by `display`
             is_hidden = !is_element!(element, Marker | Mask | ClipPath | Pattern);
-- 
2.43.0


From 0aa3e02f93d3bd2c35ba632d9d3122eb767403f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:42 +0000
Subject: [PATCH 059/151] fix: keep inherited values on the elements of a group

---
 .../src/jobs/move_elems_attrs_to_group.rs           | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 668127d..920d61e 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -5,9 +5,12 @@ use oxvg_ast::{
     get_attribute, get_attribute_mut, has_attribute, is_attribute, is_element,
     visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
-use oxvg_collections::attribute::{
-    Attr, AttrId, AttributeInfo,
-    inheritable::{self, Inheritable},
+use oxvg_collections::{
+    attribute::{
+        Attr, AttrId, AttributeInfo,
+        inheritable::{self, Inheritable},
+    },
+    content_type::ContentType,
 };
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -128,6 +131,10 @@ fn get_common_attributes<'input>(
         .filter(|a| {
             is_attribute!(a, Transform) || a.name().info().contains(AttributeInfo::Inheritable)
         })
+        .filter(|a| {
+            // the value would be inherited from elsewhere by the group
+            !matches!(a.value(), ContentType::Inheritable(Inheritable::Inherited))
+        })
         .map(|a| (a.name().clone(), a.clone()))
         .collect();
     parent.children_iter().for_each(|e| {
-- 
2.43.0


From 17c99b6336a60dd8cfae3bb1dbfa8c20728eb85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:42 +0000
Subject: [PATCH 060/151] fix: keep transforms when a stylesheet sets the
 stroke width

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index d7a444a..cccb8e4 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -156,6 +156,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             return Ok(());
         }
         let stroke_width = stroke_width.option().map(|(stroke_width, _)| stroke_width);
+        let stylesheet_styles = ComputedStyles::default()
+            .with_style(element, &context.query_has_stylesheet_result)
+            .map_err(JobsError::ComputedStylesError)?;
+        if has_computed_style!(stylesheet_styles, StrokeWidth) {
+            log::debug!("run: stylesheet would override updated stroke_width");
+            return Ok(());
+        }
 
         let css_transform: TransformList = transform.clone().into();
         let Some(matrix) = css_transform.to_matrix() else {
-- 
2.43.0


From e552763f08025def69f8a3e9ed1a26583e6c3156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:42 +0000
Subject: [PATCH 061/151] fix: keep hidden use elements as their content may be
 visible

---
 .../src/jobs/remove_hidden_elems.rs           | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 2ba26e1..309ac9b 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -349,18 +349,21 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             && !is_element!(element, TSpan | TextPath | A)
             && let Some((Inheritable::Defined(Visibility::Hidden), Mode::Static)) =
                 get_computed_style!(computed_styles, Visibility).option()
+            && !is_element!(element, Use)
             && !element.breadth_first().any(|child| {
-                matches!(
-                    get_attribute!(child, Visibility).as_deref(),
-                    Some(Inheritable::Defined(Visibility::Visible) | Inheritable::Inherited)
-                ) || ComputedStyles::default()
-                    .with_all(child, &context.query_has_stylesheet_result)
-                    .is_ok_and(|styles| {
-                        !matches!(
-                            get_computed_style!(styles, Visibility).option(),
-                            Some((Inheritable::Defined(Visibility::Hidden), Mode::Static))
-                        )
-                    })
+                is_element!(child, Use)
+                    || matches!(
+                        get_attribute!(child, Visibility).as_deref(),
+                        Some(Inheritable::Defined(Visibility::Visible) | Inheritable::Inherited)
+                    )
+                    || ComputedStyles::default()
+                        .with_all(child, &context.query_has_stylesheet_result)
+                        .is_ok_and(|styles| {
+                            !matches!(
+                                get_computed_style!(styles, Visibility).option(),
+                                Some((Inheritable::Defined(Visibility::Hidden), Mode::Static))
+                            )
+                        })
             })
         {
             is_hidden = true;
-- 
2.43.0


From 4066d2595421ad7cfed1e3d8b6ab1da65bbbc9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:23 +0000
Subject: [PATCH 062/151] fix: keep transparent parts of text

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 309ac9b..0fc80cc 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -144,6 +144,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for Data<'input, 'arena> {
             .with_all(element, &context.query_has_stylesheet_result)
             .map_err(JobsError::ComputedStylesError)?;
         if self.opacity_zero
+            && !is_element!(element, TSpan | TextPath | A)
             && matches!(
                 get_computed_style!(computed_styles, Opacity).option(),
                 Some((Inheritable::Defined(AlphaValue(0.0)), Mode::Static))
-- 
2.43.0


From 460ee9777b93e343d4b9c4b4bbbde169538371ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:23 +0000
Subject: [PATCH 063/151] fix: keep angle precision of transforms mixed with
 matrices

---
 crates/oxvg_optimiser/src/jobs/convert_transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_transform.rs b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
index 37be5d1..a8b3454 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_transform.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
@@ -160,7 +160,7 @@ impl ConvertTransform {
         if is_matrix_data && is_only_matrix_data && number_of_decimals < transform_precision {
             transform_precision = number_of_decimals;
         }
-        if !is_matrix_data {
+        if !is_matrix_data || !is_only_matrix_data {
             number_of_digits = self.transform_precision;
         }
 
-- 
2.43.0


From b3b6508286c6ec121d082dd95b3db1659f4e3545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:29 +0000
Subject: [PATCH 064/151] fix: keep stylesheets and definitions with zero
 opacity

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 0fc80cc..0df54ed 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -144,7 +144,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for Data<'input, 'arena> {
             .with_all(element, &context.query_has_stylesheet_result)
             .map_err(JobsError::ComputedStylesError)?;
         if self.opacity_zero
-            && !is_element!(element, TSpan | TextPath | A)
+            && !is_element!(element, A | Defs | Style | TSpan | TextPath)
             && matches!(
                 get_computed_style!(computed_styles, Opacity).option(),
                 Some((Inheritable::Defined(AlphaValue(0.0)), Mode::Static))
@@ -255,6 +255,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         element: Element<'input, 'arena>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
+        if is_element!(element, Style) {
+            return Ok(());
+        }
+
         let computed_styles = ComputedStyles::default()
             .with_all(element, &context.query_has_stylesheet_result)
             .map_err(JobsError::ComputedStylesError)?;
-- 
2.43.0


From a8bab13ffbbc891b7c2f023f603c940cd099cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:29 +0000
Subject: [PATCH 065/151] fix: keep id of groups that cannot be collapsed

---
 .../oxvg_optimiser/src/jobs/collapse_groups.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index eebfecb..e46563a 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -3,7 +3,7 @@ use std::mem;
 use lightningcss::{properties::PropertyId, vendor_prefix::VendorPrefix};
 use oxvg_ast::{
     element::Element,
-    get_attribute, has_attribute, is_element,
+    get_attribute, has_attribute, is_attribute, is_element,
     style::ComputedStyles,
     visitor::{Context, PrepareOutcome, Visitor},
 };
@@ -124,6 +124,9 @@ fn move_attributes_to_child(element: Element) {
     } else if is_style_overriding(element, first_child) {
         log::debug!("collapse_groups: not moving attrs: style would override child");
         return;
+    } else if is_reference_incomplete(element, first_child) {
+        log::debug!("collapse_groups: not moving attrs: id would refer to part of the group");
+        return;
     }
 
     let mut removals = Vec::default();
@@ -218,6 +221,19 @@ fn is_group_identifiable<'input, 'arena>(
     has_attribute!(child, Id) && (!has_attribute!(node, Class) || !has_attribute!(child, Class))
 }
 
+/// When attributes of a referenced group cannot move to the child, neither can the id.
+fn is_reference_incomplete<'input, 'arena>(
+    node: Element<'input, 'arena>,
+    child: Element<'input, 'arena>,
+) -> bool {
+    has_attribute!(node, Id)
+        && node.attributes().into_iter().any(|attr| {
+            !is_attribute!(attr, Class | Transform)
+                && !attr.name().info().contains(AttributeInfo::Inheritable)
+                && child.attributes().get_named_item(attr.name()).is_some()
+        })
+}
+
 fn is_position_visually_unstable<'input, 'arena>(
     node: Element<'input, 'arena>,
     child: Element<'input, 'arena>,
-- 
2.43.0


From adf89e210654c02c4a920c3e4e9d1fed42cdc761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:29 +0000
Subject: [PATCH 066/151] fix: keep transform of groups clipped by a stylesheet

---
 .../src/jobs/move_group_attrs_to_elems.rs       | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs b/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
index 7354a20..ebb6c0f 100644
--- a/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs
@@ -2,7 +2,9 @@ use std::mem;
 
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut, has_attribute, is_attribute, is_element, remove_attribute, set_attribute,
+    get_attribute_mut, has_attribute, has_computed_style, is_attribute, is_element,
+    remove_attribute, set_attribute,
+    style::ComputedStyles,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{
@@ -40,9 +42,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveGroupAttrsToElems {
 
     fn prepare(
         &self,
-        _document: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<PrepareOutcome, Self::Error> {
+        context.query_has_stylesheet(document);
         Ok(if self.0 {
             PrepareOutcome::none
         } else {
@@ -53,7 +56,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveGroupAttrsToElems {
     fn element(
         &self,
         element: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
         if !is_element!(element, G) {
             return Ok(());
@@ -77,6 +80,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveGroupAttrsToElems {
         }) {
             return Ok(());
         }
+        let stylesheet_styles = ComputedStyles::default()
+            .with_style(element, &context.query_has_stylesheet_result)
+            .map_err(JobsError::ComputedStylesError)?;
+        if has_computed_style!(stylesheet_styles, ClipPath | Filter | Mask) {
+            return Ok(());
+        }
         if element.children_iter().any(|e| {
             let name = e.qual_name();
             !(is_element!(name, G | Text) || name.expected_attributes().contains(&AttrId::D))
-- 
2.43.0


From 028433e48657f9b71a33afeca62179a93d649cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:36 +0000
Subject: [PATCH 067/151] fix: keep transforms of paths with inherited dashes

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index cccb8e4..c42fb87 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -164,6 +164,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             return Ok(());
         }
 
+        if (has_computed_style!(computed_styles, StrokeDasharray)
+            && !has_attribute!(element, StrokeDasharray))
+            || (has_computed_style!(computed_styles, StrokeDashoffset)
+                && !has_attribute!(element, StrokeDashoffset))
+        {
+            log::debug!("run: cannot update inherited dashes");
+            return Ok(());
+        }
+
         let css_transform: TransformList = transform.clone().into();
         let Some(matrix) = css_transform.to_matrix() else {
             log::debug!("run: cannot get matrix");
-- 
2.43.0


From 35b7bdae8409db7367e479e40b2a123be0f8cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:36 +0000
Subject: [PATCH 068/151] fix: keep transforms out of groups clipped by their
 style

---
 .../oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 920d61e..0c7d686 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -89,6 +89,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
         }
 
         if let Some(style) = get_attribute!(element, Style) {
+            if style.iter().any(|(property, _)| {
+                matches!(
+                    property.property_id().name(),
+                    "filter" | "clip-path" | "mask"
+                )
+            }) {
+                common_attributes.remove(&AttrId::Transform);
+            }
             // the group's style would take precedence
             common_attributes.retain(|name, _| {
                 !style
-- 
2.43.0


From adc57f5d83ab6c08481ec87c0b7d58744cd164b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:36 +0000
Subject: [PATCH 069/151] fix: leave path data as is when removing off canvas
 paths

---
 .../src/jobs/remove_off_canvas_paths.rs             | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
index 937498f..4e1a5e5 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
@@ -3,7 +3,7 @@ use std::cell::RefCell;
 use lightningcss::values::percentage::DimensionPercentage;
 use oxvg_ast::{
     element::Element,
-    get_attribute, get_attribute_mut, has_attribute, is_element,
+    get_attribute, has_attribute, is_element,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{path, presentation::LengthPercentage, uncategorised::ViewBox};
@@ -86,8 +86,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
         let Some(view_box_data) = view_box_data.as_ref() else {
             return Ok(());
         };
-        let mut path = get_attribute_mut!(element, D);
-        let Some(path::Path(path, _)) = path.as_deref_mut() else {
+        let path = get_attribute!(element, D);
+        let Some(path::Path(path, _)) = path.as_deref() else {
             return Ok(());
         };
 
@@ -104,8 +104,9 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
             return Ok(());
         }
 
-        if path.0.len() == 2 {
-            path.0.push(Data::ClosePath);
+        let mut path_data = path.clone();
+        if path_data.0.len() == 2 {
+            path_data.0.push(Data::ClosePath);
         }
         let ViewBox {
             min_x,
@@ -125,7 +126,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
         view_box_path_data.close();
         let view_box_path_data = segment::Path(vec![view_box_path_data]);
 
-        let segments = segment::Path::from_svg(&*path, &Tolerance::default());
+        let segments = segment::Path::from_svg(&path_data, &Tolerance::default());
         if !view_box_path_data.intersects(&segments) {
             element.remove();
         }
-- 
2.43.0


From 3aa91ac50f7271b94905297f310fa4a7d8277e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:09 +0000
Subject: [PATCH 070/151] fix: keep groups clipped by their style when
 collapsing groups

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index e46563a..beddd95 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -238,7 +238,12 @@ fn is_position_visually_unstable<'input, 'arena>(
     node: Element<'input, 'arena>,
     child: Element<'input, 'arena>,
 ) -> bool {
-    let is_node_clipping = has_attribute!(node, ClipPath | Mask);
+    let is_node_clipping = has_attribute!(node, ClipPath | Mask)
+        || get_attribute!(node, Style).is_some_and(|style| {
+            style
+                .iter()
+                .any(|(property, _)| matches!(property.property_id().name(), "clip-path" | "mask"))
+        });
     let is_child_transformed_group = is_element!(child, G) && has_attribute!(child, Transform);
     is_node_clipping || is_child_transformed_group
 }
-- 
2.43.0


From b35ddf2265bf5698ca8eb4240eb8a2152bf50ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:37 +0000
Subject: [PATCH 071/151] fix: keep gradient stops with display none

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 0df54ed..ff55459 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -382,7 +382,7 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             )) = get_computed_style!(computed_styles, Display).option()
         {
             // Elements which are only rendered by reference aren't affected by `display`
-            is_hidden = !is_element!(element, Marker | Mask | ClipPath | Pattern);
+            is_hidden = !is_element!(element, Marker | Mask | ClipPath | Pattern | Stop);
         }
         if is_hidden {
             // Protect references that may use non-visible data
-- 
2.43.0


From c87099d0c5b048c87195a81a59407e7f97c2312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:59 +0000
Subject: [PATCH 072/151] fix: write well-formed processing instructions and
 nested selectors

---
 crates/oxvg_ast/src/serialize.rs |  2 +-
 crates/oxvg_ast/src/xmlwriter.rs | 36 +++++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/serialize.rs b/crates/oxvg_ast/src/serialize.rs
index e59a748..391aacc 100644
--- a/crates/oxvg_ast/src/serialize.rs
+++ b/crates/oxvg_ast/src/serialize.rs
@@ -115,7 +115,7 @@ fn serialize_node<'arena, W: Write>(
         node::Type::Comment => xml.write_comment(&node.text_content().unwrap_or_default())?,
         node::Type::ProcessingInstruction => {
             let (target, value) = node.processing_instruction().expect("expected pi");
-            xml.write_declaration(&target, &value)?;
+            xml.write_processing_instruction(&target, &value)?;
         }
         node::Type::Document | node::Type::DocumentType | node::Type::DocumentFragment => {}
     }
diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index ea729c7..c2e2792 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -411,6 +411,18 @@ impl<W: Write> FmtWriter<W> {
         // Write the rest of the string which needs no escaping
         self.writer.write_all(&s.as_bytes()[part_start_pos..])
     }
+
+    /// Escapes nested selectors, leaving `<` and `>` as they're common in media queries
+    fn write_escaped_style(&mut self, s: &str) -> io::Result<()> {
+        let mut parts = s.split('&');
+        self.writer
+            .write_all(parts.next().unwrap_or_default().as_bytes())?;
+        for part in parts {
+            self.writer.write_all(b"&amp;")?;
+            self.writer.write_all(part.as_bytes())?;
+        }
+        Ok(())
+    }
 }
 
 #[derive(Clone, Copy, PartialEq, Debug)]
@@ -432,7 +444,8 @@ impl<W: Write> fmt::Write for FmtWriter<W> {
             Escape::Text => self.write_escaped(s, false),
             // We don't bother escaping double hyphen (--) in comment as it's
             // unlikely to ever happen, and even libxml2 does not do it.
-            Escape::Comment | Escape::CData | Escape::Style => self.writer.write_all(s.as_bytes()),
+            Escape::Comment | Escape::CData => self.writer.write_all(s.as_bytes()),
+            Escape::Style => self.write_escaped_style(s),
         };
         if let Err(error) = error.as_ref() {
             self.error_kind = Some(error.kind());
@@ -511,6 +524,27 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         Ok(())
     }
 
+    /// Writes a processing instruction.
+    ///
+    /// # Errors
+    ///
+    /// When in a bad state or when io fails.
+    #[inline(never)]
+    pub fn write_processing_instruction(&mut self, target: &Atom, value: &Option<Atom>) -> Result {
+        if self.state == State::Attributes {
+            self.write_open_element()?;
+        }
+
+        if self.state == State::Empty {
+            return self.write_declaration(target, value);
+        }
+
+        self.write_new_line()?;
+        self.write_node_indent()?;
+        self.state = State::Empty;
+        self.write_declaration(target, value)
+    }
+
     /// Writes a comment string.
     ///
     /// # Errors
-- 
2.43.0


From 74843d4e9c3e5e72f108b20ca6e4871e09ad5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:58 +0000
Subject: [PATCH 073/151] fix: keep the xlink namespace while any xlink
 attribute remains

---
 .../src/jobs/convert_one_stop_gradients.rs    | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index d22e7e6..075436b 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -11,7 +11,7 @@ use lightningcss::{
 };
 use oxvg_ast::{
     element::Element,
-    get_attribute, get_attribute_mut, has_attribute, has_computed_style, is_element,
+    get_attribute, get_attribute_mut, has_computed_style, is_element,
     node::AllocationID,
     style::{ComputedStyles, Mode},
     visitor::{Context, PrepareOutcome, Visitor},
@@ -24,6 +24,7 @@ use oxvg_collections::{
         inheritable::Inheritable,
     },
     content_type::ContentType,
+    is_prefix,
     name::{Prefix, QualName},
 };
 #[cfg(feature = "serde")]
@@ -56,7 +57,7 @@ struct State<'input, 'arena> {
     /// All defs and their associated parent
     all_defs: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
     gradients_to_detach: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
-    xlink_href_count: Cell<usize>,
+    xlink_count: Cell<usize>,
 }
 
 impl<'input, 'arena> Visitor<'input, 'arena> for ConvertOneStopGradients {
@@ -91,9 +92,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
         element: Element<'input, 'arena>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
-        if has_attribute!(element, XLinkHref) {
-            self.xlink_href_count.set(self.xlink_href_count.get() + 1);
-        }
+        self.xlink_count
+            .set(self.xlink_count.get() + count_xlink(element));
         if is_element!(element, Defs) {
             self.all_defs.borrow_mut().insert(element.id(), element);
             return Ok(());
@@ -174,14 +174,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
         }
 
         for gradient in self.gradients_to_detach.borrow().values() {
-            if has_attribute!(gradient, XLinkHref) {
-                self.xlink_href_count.set(self.xlink_href_count.get() - 1);
-            }
-
+            self.xlink_count
+                .set(self.xlink_count.get() - count_xlink(*gradient));
             gradient.remove();
         }
 
-        if self.xlink_href_count.get() == 0 {
+        if self.xlink_count.get() == 0 {
             element.remove_attribute(&AttrId::Unknown(QualName {
                 prefix: Prefix::XMLNS,
                 local: Atom::Static("xlink"),
@@ -199,6 +197,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
     }
 }
 
+fn count_xlink(element: Element) -> usize {
+    element
+        .attributes()
+        .into_iter()
+        .filter(|attr| is_prefix!(attr, XLink))
+        .count()
+}
+
 fn get_color<'input, 'arena>(
     context: &mut Context<'input, 'arena, '_>,
     effective_stops: &[Element<'input, 'arena>],
-- 
2.43.0


From 78790fa2bc7886084fe98cf38f4745504b93c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:58 +0000
Subject: [PATCH 074/151] fix: skip unparsed style attributes when minifying
 styles

---
 crates/oxvg_optimiser/src/jobs/minify_styles.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/minify_styles.rs b/crates/oxvg_optimiser/src/jobs/minify_styles.rs
index 73deda8..3fe4815 100644
--- a/crates/oxvg_optimiser/src/jobs/minify_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/minify_styles.rs
@@ -183,8 +183,9 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         }
 
         for element_with_style in self.elements_with_style.borrow().values() {
-            let mut style_sheet =
-                get_attribute_mut!(element_with_style, Style).expect("element without style used");
+            let Some(mut style_sheet) = get_attribute_mut!(element_with_style, Style) else {
+                continue;
+            };
 
             minify_style::style(&mut style_sheet.0);
             if style_sheet.0.is_empty() {
-- 
2.43.0


From 9919433359dd4accebdec60d3cab52fed68991d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:58 +0000
Subject: [PATCH 075/151] fix: skip use references that aren't ids when
 removing hidden elements

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index ff55459..bb98c14 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -196,7 +196,9 @@ impl<'input, 'arena> Data<'input, 'arena> {
                     let (Attr::Href(value) | Attr::XLinkHref(value)) = &*attr else {
                         continue;
                     };
-                    let id = &value[1..];
+                    let Some(id) = value.strip_prefix('#') else {
+                        continue;
+                    };
 
                     let mut references_by_id = self.references_by_id.borrow_mut();
                     let refs = references_by_id.get_mut(id);
-- 
2.43.0


From a3bbab426a1826e8d4d8f7dc634f8dfefcbc3e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:58 +0000
Subject: [PATCH 076/151] fix: keep order of classes when adding classes

---
 .../src/jobs/add_classes_to_s_v_g_element.rs      | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
index 4b603e0..23996e4 100644
--- a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
@@ -101,16 +101,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for AddClassesToSVGElement {
         match &self.class_names {
             Some(names) => {
                 let mut set = HashSet::new();
-                for item in class.list.drain(..) {
-                    set.insert(item);
+                class.list.retain(|item| set.insert(item.clone()));
+                for name in names {
+                    let name: NonWhitespace = (&*context.info.allocator.alloc_str(name)).into();
+                    if set.insert(name.clone()) {
+                        class.list.push(name);
+                    }
                 }
-                set.extend(
-                    names
-                        .iter()
-                        .map(|name| &*context.info.allocator.alloc_str(name))
-                        .map(Into::into),
-                );
-                class.list = set.into_iter().collect();
             }
             None => match &self.class_name {
                 Some(name) => {
-- 
2.43.0


From ad55ea3b424df1c773f51c24f7e6b98c3a963c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:58 +0000
Subject: [PATCH 077/151] fix: resolve the xml and xmlns prefixes

---
 crates/oxvg_ast/src/element.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index ea27cde..1e2048d 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -126,6 +126,11 @@ impl<'input, 'arena> Element<'input, 'arena> {
     /// For a given prefix name, finds the namespace URI that the given prefix belongs to be searching for
     /// the closest matching `xmlns` attribute.
     pub fn find_xmlns(&self, prefix: Option<&str>) -> Atom<'input> {
+        match prefix {
+            Some("xml") => return NS::XML.uri().clone(),
+            Some("xmlns") => return NS::XMLNS.uri().clone(),
+            _ => {}
+        }
         let mut container = Some(*self);
         while let Some(inner) = container {
             container = inner.parent_element();
-- 
2.43.0


From b940456453134e36a9b6a3e340487034d9dd5d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:23 +0000
Subject: [PATCH 078/151] fix: check for animations before borrowing attributes
 when collapsing groups

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index beddd95..36b9f09 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -133,12 +133,12 @@ fn move_attributes_to_child(element: Element) {
     let first_child_attrs = first_child.attributes();
     for mut attr in attrs.into_iter_mut() {
         let name = attr.name().clone();
-        let child_attr = first_child_attrs.get_named_item_mut(&name);
         if has_animated_attr(first_child, name.local_name()) {
             log::debug!("collapse_groups: canelled moves: has animated_attr");
             return;
         }
 
+        let child_attr = first_child_attrs.get_named_item_mut(&name);
         removals.push(name);
         let Some(mut child_attr) = child_attr else {
             log::debug!("collapse_groups: moved {attr:?}: same as parent");
-- 
2.43.0


From 9ccb3abf791e1c3c4fc9988d13ca06fcb25bb212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:30 +0000
Subject: [PATCH 079/151] fix: remove nested empty defs in a stable order

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index bb98c14..240b244 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -100,7 +100,7 @@ struct Data<'input, 'arena> {
     opacity_zero: bool,
     non_rendered_nodes: RefCell<HashSet<HashableElement<'input, 'arena>>>,
     removed_def_ids: RefCell<HashSet<Atom<'input>>>,
-    all_defs: RefCell<HashSet<HashableElement<'input, 'arena>>>,
+    all_defs: RefCell<Vec<Element<'input, 'arena>>>,
     all_references: RefCell<HashSet<String>>,
     references_by_id: RefCell<HashMap<String, Vec<Element<'input, 'arena>>>>,
 }
@@ -187,9 +187,7 @@ impl<'input, 'arena> Data<'input, 'arena> {
     fn ref_element(&self, element: Element<'input, 'arena>) {
         match element.qual_name().unaliased() {
             ElementId::Defs => {
-                self.all_defs
-                    .borrow_mut()
-                    .insert(HashableElement::new(element));
+                self.all_defs.borrow_mut().push(element);
             }
             ElementId::Use => {
                 for attr in element.attributes() {
@@ -321,7 +319,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
             }
         }
 
-        for node in &*self.data.all_defs.borrow() {
+        // Inner defs come last, and may leave their parent empty
+        for node in self.data.all_defs.borrow().iter().rev() {
             if node.is_empty() {
                 log::debug!("RemoveHiddenElems: remove def");
                 node.remove();
-- 
2.43.0


From 74d8d5d6ecbfdd4b05014c6232c90e1cad799e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:12 +0000
Subject: [PATCH 080/151] fix: keep gradient stops with hidden visibility

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 240b244..987088f 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -350,9 +350,9 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
         context: &mut Context<'input, 'arena, '_>,
     ) -> bool {
         let mut is_hidden = false;
-        // Hidden parts of text still take up space
+        // Hidden parts of text still take up space, and stops aren't affected by `visibility`
         if self.options.is_hidden.unwrap_or(true)
-            && !is_element!(element, TSpan | TextPath | A)
+            && !is_element!(element, TSpan | TextPath | A | Stop)
             && let Some((Inheritable::Defined(Visibility::Hidden), Mode::Static)) =
                 get_computed_style!(computed_styles, Visibility).option()
             && !is_element!(element, Use)
-- 
2.43.0


From 899919e07222c71b42ff459297b7a44808cb417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:12 +0000
Subject: [PATCH 081/151] fix: keep identity transforms of paint servers that
 override a referenced transform

---
 crates/oxvg_optimiser/src/jobs/convert_transform.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_transform.rs b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
index a8b3454..d3b6886 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_transform.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
@@ -3,7 +3,7 @@ use std::cell::RefMut;
 use lightningcss::properties::transform::Matrix;
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut,
+    get_attribute_mut, has_attribute,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{
@@ -182,8 +182,12 @@ impl ConvertTransform {
 
         self.transform(&mut transform);
         if transform.0.is_empty() {
-            log::debug!("transform_attr: removing {name}");
             drop(transform);
+            if *name != AttrId::Transform && has_attribute!(element, Href | XLinkHref) {
+                log::debug!("transform_attr: keeping {name}: overrides the referenced transform");
+                return;
+            }
+            log::debug!("transform_attr: removing {name}");
             element.remove_attribute(name);
         }
     }
-- 
2.43.0


From 9f504747419255e80d27135c39cae8f6c04d8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:12 +0000
Subject: [PATCH 082/151] fix: keep transforms of paths that inherit their
 stroke width explicitly

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index c42fb87..7b91943 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -156,6 +156,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             return Ok(());
         }
         let stroke_width = stroke_width.option().map(|(stroke_width, _)| stroke_width);
+        if matches!(stroke_width, Some(Inheritable::Inherited)) {
+            log::debug!("run: cannot handle inherited stroke_width");
+            return Ok(());
+        }
         let stylesheet_styles = ComputedStyles::default()
             .with_style(element, &context.query_has_stylesheet_result)
             .map_err(JobsError::ComputedStylesError)?;
-- 
2.43.0


From a01a013a6dd93afcf174a7a1dd6738532ff064f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:12 +0000
Subject: [PATCH 083/151] fix: keep ids of groups whose color differs from the
 child when collapsing groups

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 36b9f09..3a2c752 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -229,8 +229,14 @@ fn is_reference_incomplete<'input, 'arena>(
     has_attribute!(node, Id)
         && node.attributes().into_iter().any(|attr| {
             !is_attribute!(attr, Class | Transform)
-                && !attr.name().info().contains(AttributeInfo::Inheritable)
-                && child.attributes().get_named_item(attr.name()).is_some()
+                && child
+                    .attributes()
+                    .get_named_item(attr.name())
+                    .is_some_and(|child_attr| {
+                        !attr.name().info().contains(AttributeInfo::Inheritable)
+                            || (!matches!(child_attr.value(), ContentType::Inheritable(_))
+                                && *attr != *child_attr)
+                    })
         })
 }
 
-- 
2.43.0


From dd9118a94837521f691bade3b9066c03813515b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:12 +0000
Subject: [PATCH 084/151] fix: keep group attributes that a stylesheet would
 override on the child when collapsing groups

---
 .../src/jobs/collapse_groups.rs               | 31 +++++++++++++++++--
 .../src/jobs/convert_transform.rs             |  5 +--
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 3a2c752..b38ff06 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -9,7 +9,7 @@ use oxvg_ast::{
 };
 use oxvg_collections::{
     atom::Atom,
-    attribute::{Attr, AttributeInfo, inheritable::Inheritable},
+    attribute::{Attr, AttributeGroup, AttributeInfo, inheritable::Inheritable},
     content_type::ContentType,
     element::ElementCategory,
 };
@@ -81,7 +81,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for CollapseGroups {
             return Ok(());
         }
 
-        move_attributes_to_child(element);
+        move_attributes_to_child(element, context);
         flatten_when_all_attributes_moved(element);
         Ok(())
     }
@@ -93,7 +93,10 @@ impl Default for CollapseGroups {
     }
 }
 
-fn move_attributes_to_child(element: Element) {
+fn move_attributes_to_child<'input, 'arena>(
+    element: Element<'input, 'arena>,
+    context: &Context<'input, 'arena, '_>,
+) {
     log::debug!("collapse_groups: move_attributes_to_child");
 
     let mut children = element.children_iter();
@@ -124,6 +127,9 @@ fn move_attributes_to_child(element: Element) {
     } else if is_style_overriding(element, first_child) {
         log::debug!("collapse_groups: not moving attrs: style would override child");
         return;
+    } else if is_stylesheet_overriding(element, first_child, context) {
+        log::debug!("collapse_groups: not moving attrs: stylesheet would override attribute");
+        return;
     } else if is_reference_incomplete(element, first_child) {
         log::debug!("collapse_groups: not moving attrs: id would refer to part of the group");
         return;
@@ -277,6 +283,25 @@ fn is_style_overriding<'input, 'arena>(
         })
 }
 
+/// Returns whether attributes that apply to the group itself would be overridden on the child
+fn is_stylesheet_overriding<'input, 'arena>(
+    node: Element<'input, 'arena>,
+    child: Element<'input, 'arena>,
+    context: &Context<'input, 'arena, '_>,
+) -> bool {
+    ComputedStyles::default()
+        .with_style(child, &context.query_has_stylesheet_result)
+        .map_or(true, |styles| {
+            node.attributes().into_iter().any(|attr| {
+                let name = attr.name();
+                name.attribute_group()
+                    .contains(AttributeGroup::Presentation)
+                    && !name.info().contains(AttributeInfo::Inheritable)
+                    && styles.get(name).is_some()
+            })
+        })
+}
+
 fn is_node_with_filter(node: Element) -> bool {
     has_attribute!(node, Filter)
         || get_attribute!(node, Style)
diff --git a/crates/oxvg_optimiser/src/jobs/convert_transform.rs b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
index d3b6886..4b7fba9 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_transform.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
@@ -153,10 +153,7 @@ impl ConvertTransform {
                 number_of_decimals = arg_decimal_digits;
             }
         }
-        let is_only_matrix_data = data
-            .0
-            .iter()
-            .all(|t| matches!(t, SVGTransform::Matrix(_)));
+        let is_only_matrix_data = data.0.iter().all(|t| matches!(t, SVGTransform::Matrix(_)));
         if is_matrix_data && is_only_matrix_data && number_of_decimals < transform_precision {
             transform_precision = number_of_decimals;
         }
-- 
2.43.0


From 1f985b737e22bff0bb4f29144d15b14a602de9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:12 +0000
Subject: [PATCH 085/151] fix: follow chained references when converting one
 stop gradients

---
 .../src/jobs/convert_one_stop_gradients.rs    | 46 ++++++++++---------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 075436b..4e7a709 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -101,27 +101,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             return Ok(());
         }
 
-        let mut stops = element
-            .children_iter()
-            .filter(|child| is_element!(child, Stop));
-
-        let href = get_attribute!(element, XLinkHref).or_else(|| get_attribute!(element, Href));
-        let effective_node = if stops.next().is_none() {
-            if let Some(href) = href.as_deref() {
-                if href.starts_with('#') {
-                    context.root.breadth_first().find(|element| {
-                        get_attribute!(element, Id).is_some_and(|id| id.0.as_str() == &href[1..])
-                    })
-                } else {
-                    Some(element)
-                }
-            } else {
-                Some(element)
-            }
-        } else {
-            Some(element)
-        };
-        drop(href);
+        let effective_node = find_effective_node(element, context);
 
         let mut gradients_to_detach = self.gradients_to_detach.borrow_mut();
         let Some(effective_node) = effective_node else {
@@ -197,6 +177,30 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
     }
 }
 
+/// Finds the gradient that stops are taken from, by following references.
+fn find_effective_node<'input, 'arena>(
+    element: Element<'input, 'arena>,
+    context: &Context<'input, 'arena, '_>,
+) -> Option<Element<'input, 'arena>> {
+    let mut node = element;
+    let mut visited = vec![];
+    while !node.children_iter().any(|child| is_element!(child, Stop))
+        && !visited.contains(&node.id())
+    {
+        visited.push(node.id());
+        let href = get_attribute!(node, XLinkHref).or_else(|| get_attribute!(node, Href));
+        let Some(id) = href.as_deref().and_then(|href| href.strip_prefix('#')) else {
+            break;
+        };
+        let target = context.root.breadth_first().find(|element| {
+            get_attribute!(element, Id).is_some_and(|node_id| node_id.0.as_str() == id)
+        })?;
+        drop(href);
+        node = target;
+    }
+    Some(node)
+}
+
 fn count_xlink(element: Element) -> usize {
     element
         .attributes()
-- 
2.43.0


From 7a17244b13bbc5d41a36cdcc65c83e4365d4f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:46:33 +0000
Subject: [PATCH 086/151] fix: print css token lists of attributes without a
 colon

---
 crates/oxvg_collections/src/attribute/core_attrs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_collections/src/attribute/core_attrs.rs b/crates/oxvg_collections/src/attribute/core_attrs.rs
index 718df08..1c08550 100644
--- a/crates/oxvg_collections/src/attribute/core_attrs.rs
+++ b/crates/oxvg_collections/src/attribute/core_attrs.rs
@@ -435,7 +435,7 @@ impl ToValue for TokenList<'_> {
             name: CustomPropertyName::Unknown("".into()),
             value: self.0.clone(),
         })
-        .to_css(dest, false)
+        .value_to_css(dest)
     }
 }
 
-- 
2.43.0


From deb9ea70fea9df47a3f5fe1e901043c9bec6b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:46:33 +0000
Subject: [PATCH 087/151] fix: include styles of supports rules in computed
 styles

---
 crates/oxvg_ast/src/style.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 5d2e341..ab3899c 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -329,7 +329,8 @@ impl<'input> ComputedStyles<'input> {
                 Ok(())
             }
             rules::CssRule::Container(rules::container::ContainerRule { rules, .. })
-            | rules::CssRule::Media(rules::media::MediaRule { rules, .. }) => {
+            | rules::CssRule::Media(rules::media::MediaRule { rules, .. })
+            | rules::CssRule::Supports(rules::supports::SupportsRule { rules, .. }) => {
                 for r in &rules.0 {
                     self.with_nested_style(element, r, selector, specificity, Mode::Dynamic)?;
                 }
-- 
2.43.0


From 1fb329d3d97768b9f6046deb5e772e008932277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:54 +0000
Subject: [PATCH 088/151] fix: treat styles of style elements with media as
 dynamic

---
 crates/oxvg_ast/src/style.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index ab3899c..e566f41 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -1,8 +1,8 @@
 //! Style and presentation attribute types.
-use lightningcss::rules::CssRuleList;
+use lightningcss::rules::{CssRule, CssRuleList, Location, media::MediaRule};
 use std::cell::RefCell;
 
-use crate::element::Element;
+use crate::{element::Element, get_attribute};
 
 #[cfg(feature = "selectors")]
 use crate::{error::ComputedStylesError, get_attribute_mut, node};
@@ -150,7 +150,22 @@ fn collect_styles<'input>(
 ) {
     for child in element.children_iter() {
         if let Some(style) = child.first_child().and_then(|node| node.style()) {
-            styles.push(style.clone());
+            let mut style = style.clone();
+            if let Some(media) = get_attribute!(child, Media)
+                && !media.0.always_matches()
+            {
+                let loc = Location {
+                    source_index: 0,
+                    line: 0,
+                    column: 0,
+                };
+                style = RefCell::new(CssRuleList(vec![CssRule::Media(MediaRule {
+                    query: media.0.clone(),
+                    rules: style.into_inner(),
+                    loc,
+                })]));
+            }
+            styles.push(style);
         }
         collect_styles(child, styles);
     }
-- 
2.43.0


From f431341454eabc6d1cfb661b05365bdd99285b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:42 +0000
Subject: [PATCH 089/151] fix: leave style elements with media out when
 inlining styles

---
 crates/oxvg_optimiser/src/jobs/inline_styles.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/inline_styles.rs b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
index 573056a..c679157 100644
--- a/crates/oxvg_optimiser/src/jobs/inline_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
@@ -290,6 +290,20 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
             return Ok(());
         }
 
+        if let Some(media) = get_attribute!(element, Media)
+            && !media.0.always_matches()
+            && !media
+                .0
+                .to_css_string(PrinterOptions::default())
+                .is_ok_and(|media| self.options.use_mqs.contains(&media))
+        {
+            log::debug!("Not merging style: disallowed media");
+            css.borrow_mut()
+                .visit(&mut CollectTokens(&mut self.retained.borrow_mut()))
+                .ok();
+            return Ok(());
+        }
+
         let mut find_removable_tokens = FindRemovableTokens::new(self.options);
         let css = &mut *css.borrow_mut();
         css.visit(&mut CollectReferences(&mut referenced_ids)).ok();
-- 
2.43.0


From c054f25a62947abf98145314e921106f5f8b467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:42 +0000
Subject: [PATCH 090/151] fix: keep attributes of elements whose style may
 inherit from the group

---
 .../src/jobs/move_elems_attrs_to_group.rs          | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 0c7d686..b7ab47e 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -1,5 +1,6 @@
 use std::collections::BTreeMap;
 
+use lightningcss::properties::Property;
 use oxvg_ast::{
     element::Element,
     get_attribute, get_attribute_mut, has_attribute, is_attribute, is_element,
@@ -147,8 +148,17 @@ fn get_common_attributes<'input>(
         .collect();
     parent.children_iter().for_each(|e| {
         let attrs = e.attributes();
-        common_attributes
-            .retain(|name, value| attrs.get_named_item(name).is_some_and(|a| &*a == value));
+        let style = get_attribute!(e, Style);
+        common_attributes.retain(|name, value| {
+            attrs.get_named_item(name).is_some_and(|a| &*a == value)
+                // the style may inherit from the group
+                && !style.as_ref().is_some_and(|style| {
+                    style.iter().any(|(property, _)| {
+                        matches!(property, Property::Unparsed(_) | Property::Custom(_))
+                            && property.property_id().name() == &**name.local_name()
+                    })
+                })
+        });
     });
 
     common_attributes
-- 
2.43.0


From 29c22eed966b14700a462c9538f18f84e53825e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:42 +0000
Subject: [PATCH 091/151] fix: keep styles that a stylesheet or other style
 would override as attributes

---
 .../src/jobs/convert_style_to_attrs.rs        | 45 ++++++++++++++++---
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs b/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
index 176665c..ff908b6 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
@@ -4,7 +4,8 @@ use lightningcss::properties::Property;
 use oxvg_ast::{
     element::Element,
     get_attribute_mut,
-    visitor::{Context, Visitor},
+    style::ComputedStyles,
+    visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{Attr, AttrId};
 #[cfg(feature = "serde")]
@@ -66,11 +67,26 @@ impl Default for ConvertStyleToAttrs {
 impl<'input, 'arena> Visitor<'input, 'arena> for ConvertStyleToAttrs {
     type Error = JobsError<'input>;
 
+    fn prepare(
+        &self,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
+    ) -> Result<PrepareOutcome, Self::Error> {
+        context.query_has_stylesheet(document);
+        Ok(PrepareOutcome::none)
+    }
+
     fn element(
         &self,
         element: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
+        let Ok(stylesheet_styles) =
+            ComputedStyles::default().with_style(element, &context.query_has_stylesheet_result)
+        else {
+            log::debug!("not converting style: stylesheet may take precedence");
+            return Ok(());
+        };
         let Some(mut styles_attr) = get_attribute_mut!(element, Style) else {
             return Ok(());
         };
@@ -81,11 +97,30 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertStyleToAttrs {
         let mut attribute_insertions: HashMap<AttrId<'input>, usize> = HashMap::new();
         let mut new_attributes: Vec<Attr<'input>> = Vec::new();
 
+        let into_presentation_attr = |property: &Property<'input>| match property.clone().try_into()
+        {
+            Err(()) | Ok(Attr::CSSUnknown { .. } | Attr::Unparsed { .. }) => None,
+            // An attribute would be overridden by the stylesheet
+            Ok(attr) if stylesheet_styles.get(attr.name()).is_some() => None,
+            Ok(attr) => Some(attr),
+        };
+        // An attribute would be overridden by any style that's kept
+        let kept: Vec<_> = styles
+            .iter()
+            .filter(|(property, _)| into_presentation_attr(property).is_none())
+            .map(|(property, _)| property.property_id().name().to_string())
+            .collect();
+
         let mut detain_and_collect_presentation_attrs = |property: &Property<'input>| {
-            let attr = match property.clone().try_into().ok() {
-                None | Some(Attr::CSSUnknown { .. } | Attr::Unparsed { .. }) => return true,
-                Some(attr) => attr,
+            let Some(attr) = into_presentation_attr(property) else {
+                return true;
             };
+            if kept
+                .iter()
+                .any(|name| name == property.property_id().name())
+            {
+                return true;
+            }
             let name = attr.name();
             if attribute_insertions.contains_key(name) {
                 let index = attribute_insertions[name];
-- 
2.43.0


From 609bab91501cea42d4e9dde2c8dd10d57360883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:48 +0000
Subject: [PATCH 092/151] fix: keep group attributes that the style of the
 group overrides when collapsing groups

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index b38ff06..8a05677 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -274,6 +274,11 @@ fn is_style_overriding<'input, 'arena>(
     };
     // the styles of both would be merged when equal
     (has_attribute!(node, Style) && has_attribute!(child, Style))
+        // the attribute may be moved while the style overriding it is kept
+        || node
+            .attributes()
+            .into_iter()
+            .any(|attr| is_declared(node, &attr))
         || child
             .attributes()
             .into_iter()
-- 
2.43.0


From 8fb95991b5a75336b10ec5ee1e9bc3357ec56a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:40 +0000
Subject: [PATCH 093/151] fix: keep singular transforms instead of applying
 them to paths

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index 7b91943..0f30dde 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -187,6 +187,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             return Ok(());
         };
         let matrix = matrix32_to_slice(&matrix);
+        if matrix[0] * matrix[3] == matrix[1] * matrix[2] {
+            log::debug!("run: cannot apply singular matrix");
+            return Ok(());
+        }
 
         drop(transform_attr);
         if let Some((Inheritable::Defined(stroke), Mode::Static)) = stroke.option()
-- 
2.43.0


From 01e21f01cc9cc9cb24cfb007225db5107a1d7854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:03 +0000
Subject: [PATCH 094/151] fix: avoid writing NaN when a transform turns an
 ellipse arc into a circle or line

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index 0f30dde..b2e283c 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -464,14 +464,19 @@ fn transform_arc(cursor: [f64; 2], args: &mut [f64; 7], matrix: &[f64; 6]) {
         let term_2 = new_matrix[1] * sub + new_matrix[3] * rows_sum;
         let term = if major { term_1 } else { term_2 };
         args[0] = major_axis_square.sqrt();
-        args[1] = minor_axis_square.sqrt();
+        args[1] = minor_axis_square.max(0.0).sqrt();
         let term_sign = if (major && term_2 < 0.0) || (!major && term_1 > 0.0) {
             -1.0
         } else {
             1.0
         };
-        args[2] = (term_sign * f64::acos(term / f64::hypot(term_1, term_2)) * 180.0)
-            / std::f64::consts::PI;
+        let length = f64::hypot(term_1, term_2);
+        args[2] = if length == 0.0 {
+            0.0
+        } else {
+            (term_sign * f64::acos(f64::clamp(term / length, -1.0, 1.0)) * 180.0)
+                / std::f64::consts::PI
+        };
     }
 
     if matrix[0] * matrix[3] - matrix[1] * matrix[2] < 0.0 {
-- 
2.43.0


From d33eaed1ce427325f77640d7feb0e2cc7ff41de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:48 +0000
Subject: [PATCH 095/151] fix: keep used ids when not minifying ids

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index ee95858..f4db977 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -219,7 +219,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     generated_id.next();
                 }
                 if !is_attribute!(name, Id) {
-                    used_ids.insert(minified_id.clone());
+                    used_ids.insert(if self.options.minify {
+                        minified_id.clone()
+                    } else {
+                        referenced_id.clone()
+                    });
                 }
                 if self.options.minify {
                     log::debug!(
@@ -247,7 +251,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     generated_id.next();
                 }
                 if !is_attribute!(name, Id) {
-                    used_ids.insert(minified_id.clone());
+                    used_ids.insert(if self.options.minify {
+                        minified_id.clone()
+                    } else {
+                        referenced_id.clone()
+                    });
                 }
                 if self.options.minify {
                     log::debug!(
-- 
2.43.0


From 1a4345c1ff340d1ba70529158f8667db63e689c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:48 +0000
Subject: [PATCH 096/151] fix: leave references alone when not prefixing ids

---
 crates/oxvg_optimiser/src/jobs/prefix_ids.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
index fcfdaae..d2ba1c2 100644
--- a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
@@ -141,9 +141,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for PrefixIds {
                     Self::prefix_id(class, &mut prefix_generator);
                 });
             }
-            value.visit_url(|url| {
-                Self::prefix_reference(url, &mut prefix_generator);
-            });
+            if self.prefix_ids {
+                log::debug!("prefixing url");
+                value.visit_url(|url| {
+                    Self::prefix_reference(url, &mut prefix_generator);
+                });
+            }
         }
 
         Ok(())
-- 
2.43.0


From a79aa0fcbbdac4771ae6beef42584bbd100d73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:28 +0000
Subject: [PATCH 097/151] fix: rename each reference once when minifying ids of
 attributes with several references

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 99 +++++++++----------
 1 file changed, 44 insertions(+), 55 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index f4db977..e3c4d7f 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -1,4 +1,5 @@
 use std::{
+    borrow::Cow,
     cell::RefCell,
     collections::{BTreeMap, BTreeSet, HashSet},
 };
@@ -32,7 +33,6 @@ struct GeneratedId {
 struct RefRename<'input, 'arena> {
     element_ref: Element<'input, 'arena>,
     name: AttrId<'input>,
-    referenced_id: String,
 }
 
 #[derive(Debug, Clone)]
@@ -143,31 +143,30 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         // Find references in attributes
         let mut ref_renames = self.ref_renames.borrow_mut();
         let mut generated_id = self.generated_id.borrow_mut();
-        let mut track_reference = |reference: &str, attr: &AttrId<'input>| {
-            if self.replaceable_ids.contains(reference) {
-                ref_renames.push(RefRename {
-                    element_ref: element,
-                    name: attr.clone(),
-                    referenced_id: reference.to_string(),
-                });
-            } else {
-                generated_id.insert_prevent_collision(reference.to_string());
-            }
-        };
         for mut attr in element.attributes().into_iter_mut() {
             let name = attr.name().clone();
+            let mut is_replaceable = false;
             let mut value = attr.value_mut();
             value.visit_url(|reference| {
-                if !reference.starts_with('#') {
-                    return;
+                if self.replaceable_url(&reference).is_some() {
+                    is_replaceable = true;
+                } else if let Some(reference) = reference.strip_prefix('#') {
+                    generated_id.insert_prevent_collision(decode(reference));
                 }
-                if let Ok(reference) = urlencoding::decode(&reference[1..]) {
-                    track_reference(&reference, &name);
+            });
+            value.visit_id(|reference| {
+                if self.replaceable_ids.contains(&*reference) {
+                    is_replaceable = true;
                 } else {
-                    track_reference(&reference[1..], &name);
+                    generated_id.insert_prevent_collision(reference.to_string());
                 }
             });
-            value.visit_id(|reference| track_reference(&reference, &name));
+            if is_replaceable {
+                ref_renames.push(RefRename {
+                    element_ref: element,
+                    name,
+                });
+            }
         }
         Ok(())
     }
@@ -186,34 +185,20 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
         let mut minified_ids = BTreeMap::new();
         let mut used_ids = HashSet::new();
         let mut generated_id = self.generated_id.borrow_mut();
-        for RefRename {
-            element_ref,
-            name,
-            referenced_id,
-        } in &*self.ref_renames.borrow()
-        {
-            if !self.replaceable_ids.contains(referenced_id) {
-                continue;
-            }
+        for RefRename { element_ref, name } in &*self.ref_renames.borrow() {
             let element = element_ref;
             let Some(mut attr) = element.get_attribute_node_mut(name) else {
                 log::debug!("CleanupIds::breakdown: {name:?} attribute missing");
                 continue;
             };
             let mut value = attr.value_mut();
-            value.visit_url(|reference| {
-                if !reference.starts_with('#') {
-                    return;
-                }
-                if &reference[1..] != referenced_id && urlencoding::decode(&reference[1..]).ok().is_none_or(|reference| &*reference != referenced_id) {
-                    return;
-                }
+            let mut rename = |referenced_id: &str| {
                 let minified_id = minified_ids
                     .get(referenced_id)
                     .unwrap_or(&generated_id.current)
                     .clone();
                 let is_new = minified_ids
-                    .insert(referenced_id.clone(), minified_id.clone())
+                    .insert(referenced_id.to_string(), minified_id.clone())
                     .is_none();
                 if is_new {
                     generated_id.next();
@@ -222,9 +207,16 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     used_ids.insert(if self.options.minify {
                         minified_id.clone()
                     } else {
-                        referenced_id.clone()
+                        referenced_id.to_string()
                     });
                 }
+                minified_id
+            };
+            value.visit_url(|reference| {
+                let Some(referenced_id) = self.replaceable_url(&reference) else {
+                    return;
+                };
+                let minified_id = rename(&referenced_id);
                 if self.options.minify {
                     log::debug!(
                         "CleanupIds::breakdown: updating url reference: {name:?}({referenced_id}) <-> {minified_id}"
@@ -237,29 +229,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                 }
             });
             value.visit_id(|reference| {
-                if &*reference != referenced_id {
+                if !self.replaceable_ids.contains(&*reference) {
                     return;
                 }
-                let minified_id = minified_ids
-                    .get(referenced_id)
-                    .unwrap_or(&generated_id.current)
-                    .clone();
-                let is_new = minified_ids
-                    .insert(referenced_id.clone(), minified_id.clone())
-                    .is_none();
-                if is_new {
-                    generated_id.next();
-                }
-                if !is_attribute!(name, Id) {
-                    used_ids.insert(if self.options.minify {
-                        minified_id.clone()
-                    } else {
-                        referenced_id.clone()
-                    });
-                }
+                let minified_id = rename(&reference);
                 if self.options.minify {
                     log::debug!(
-                        "CleanupIds::breakdown: updating id reference: {name:?}({referenced_id}) <-> {minified_id}"
+                        "CleanupIds::breakdown: updating id reference: {name:?}({}) <-> {minified_id}",
+                        &*reference
                     );
                     match reference {
                         Reference::Atom(str) => *str = minified_id.into(),
@@ -285,6 +262,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
 }
 
 impl<'input, 'arena> State<'_, 'input, 'arena> {
+    /// Returns the replaceable id that is referenced by the url, if any
+    fn replaceable_url(&self, url: &str) -> Option<String> {
+        let reference = url.strip_prefix('#')?;
+        [decode(reference), reference.to_string()]
+            .into_iter()
+            .find(|id| self.replaceable_ids.contains(id))
+    }
+
     fn prepare_ignore_document(
         &self,
         root: Element<'input, 'arena>,
@@ -352,6 +337,10 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
     }
 }
 
+fn decode(reference: &str) -> String {
+    urlencoding::decode(reference).map_or_else(|_| reference.to_string(), Cow::into_owned)
+}
+
 impl GeneratedId {
     fn set_prevent_collision(&mut self, ids: Vec<String>) {
         self.prevent_collision = ids.into_iter().collect();
-- 
2.43.0


From b3d2cf59b41814929c57294122d1df5464f6d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:13 +0000
Subject: [PATCH 098/151] fix: keep the first of duplicate ids in document
 order when cleaning up ids

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index e3c4d7f..80bbb31 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -297,8 +297,13 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             self.options.preserve,
             self.options.preserve_prefixes
         );
-        // Find ids
-        for element in root.breadth_first() {
+        // Find ids, in document order as references are to the first of duplicate ids
+        let mut elements: Vec<_> = root.children_iter().collect();
+        elements.reverse();
+        while let Some(element) = elements.pop() {
+            let children = elements.len();
+            elements.extend(element.children_iter());
+            elements[children..].reverse();
             element.attributes().retain(|attr| {
                 let Attr::Id(NonWhitespace(id)) = attr else {
                     return true;
-- 
2.43.0


From 4fc3831d0732b45b3441439c3886a3028ca42a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:21 +0000
Subject: [PATCH 099/151] fix: keep referenced ids made of digits when cleaning
 up ids

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index 80bbb31..9fb62a4 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -310,7 +310,7 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
                 };
                 log::debug!("CleanupIds: prepare_id: found id: {id}");
                 let id = id.to_string();
-                if self.replaceable_ids.contains(&id) || id.chars().all(char::is_numeric) {
+                if self.replaceable_ids.contains(&id) {
                     log::debug!("CleanupIds: prepare_id: removed redundant id: {id}");
                     return false;
                 }
-- 
2.43.0


From 25e752e8051f9bb974c5e0fc0fabc9ead744a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:26 +0000
Subject: [PATCH 100/151] fix: read the includeLegacy parameter of removeXlink

---
 crates/oxvg_optimiser/src/jobs/remove_xlink.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
index 077b7d3..4bb1453 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
@@ -21,6 +21,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Clone, Debug, Default)]
+#[cfg_attr(feature = "serde", serde(rename_all = "camelCase"))]
 /// Replaces `xlink` prefixed attributes to the native SVG equivalent.
 ///
 /// # Correctness
@@ -33,7 +34,10 @@ use crate::error::JobsError;
 ///
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveXlink {
-    #[cfg_attr(feature = "serde", serde(default = "bool::default"))]
+    #[cfg_attr(
+        feature = "serde",
+        serde(default = "bool::default", alias = "include_legacy")
+    )]
     /// Whether to also convert xlink attributes for legacy elements which don't
     /// support the SVG 2 `href` attribute (e.g. `<cursor>`).
     ///
-- 
2.43.0


From 7c5299319db10b7c4c8becf1ee90ae9a12389b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:26 +0000
Subject: [PATCH 101/151] fix: apply the removeUseless parameter of SVGO to
 both kinds of useless segments

---
 crates/oxvg_optimiser/src/jobs/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/mod.rs b/crates/oxvg_optimiser/src/jobs/mod.rs
index daf22da..e498788 100644
--- a/crates/oxvg_optimiser/src/jobs/mod.rs
+++ b/crates/oxvg_optimiser/src/jobs/mod.rs
@@ -177,8 +177,9 @@ macro_rules! jobs {
                                         convert_path_data.tolerance.precision = params.remove("floatPrecision").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.tolerance.precision);
                                         convert_path_data.close_segments = params.remove("convertToZ").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.close_segments);
                                         convert_path_data.join_nodes = params.remove("collapseRepeated").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.join_nodes);
-                                        convert_path_data.remove_empty_segments = params.remove("removeUseless").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.remove_empty_segments);
-                                        convert_path_data.remove_zero_segments = params.remove("removeUseless").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.remove_zero_segments);
+                                        let remove_useless: Option<bool> = params.remove("removeUseless").map(serde_json::from_value).and_then(Result::ok);
+                                        convert_path_data.remove_empty_segments = remove_useless.unwrap_or(convert_path_data.remove_empty_segments);
+                                        convert_path_data.remove_zero_segments = remove_useless.unwrap_or(convert_path_data.remove_zero_segments);
                                         convert_path_data.straight_curves = params.remove("straightCurves").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.straight_curves);
                                         convert_path_data.arc_curves = make_arcs.is_some();
                                         convert_path_data.smart_arc_rounding = params.remove("smartArcRounding").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.smart_arc_rounding);
-- 
2.43.0


From b245945f5ae26f65af4ab6012e7ecd4d4f2ab295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:26 +0000
Subject: [PATCH 102/151] fix: enable jobs that are listed by name in an SVGO
 plugin list

---
 .../oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_dimensions.rs       | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_raster_images.rs    | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_scripts.rs          | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_style_element.rs    | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs        | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/reuse_paths.rs             | 8 +++++++-
 8 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 4e7a709..7f4c363 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -38,7 +38,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Converts `linearGradient` and `radialGradient` nodes that are a solid colour
 /// to the equivalent colour.
@@ -50,6 +50,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct ConvertOneStopGradients(pub bool);
 
+impl Default for ConvertOneStopGradients {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 #[derive(Default)]
 struct State<'input, 'arena> {
     /// Parent defs with removed gradients
diff --git a/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs b/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs
index 71370da..22e2200 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs
@@ -16,7 +16,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes `width` and `height` from the `<svg>` and replaces it with `viewBox` if missing.
 ///
@@ -35,6 +35,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveDimensions(pub bool);
 
+impl Default for RemoveDimensions {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveDimensions {
     type Error = JobsError<'input>;
 
diff --git a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
index 4e1a5e5..7ac2ec0 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
@@ -23,7 +23,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Clone, Default, Debug)]
+#[derive(Clone, Debug)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// For SVGs with a `viewBox` attribute, removes `<path>` element outside of it's bounds.
 ///
@@ -40,6 +40,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveOffCanvasPaths(pub bool);
 
+impl Default for RemoveOffCanvasPaths {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 struct State {
     view_box_data: RefCell<Option<ViewBox>>,
 }
diff --git a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
index e4ab2b1..a6b1911 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
@@ -14,7 +14,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes inline JPEGs, PNGs, and GIFs from the document.
 ///
@@ -29,6 +29,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveRasterImages(pub bool);
 
+impl Default for RemoveRasterImages {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveRasterImages {
     type Error = JobsError<'input>;
 
diff --git a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
index 7f16c73..4a508f2 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
@@ -15,7 +15,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes `<script>` elements, event attributes, and javascript `href`s from the document.
 ///
@@ -34,6 +34,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveScripts(pub bool);
 
+impl Default for RemoveScripts {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveScripts {
     type Error = JobsError<'input>;
 
diff --git a/crates/oxvg_optimiser/src/jobs/remove_style_element.rs b/crates/oxvg_optimiser/src/jobs/remove_style_element.rs
index 450d1c5..231d3c6 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_style_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_style_element.rs
@@ -14,7 +14,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes all `<style>` elements from the document.
 ///
@@ -29,6 +29,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveStyleElement(pub bool);
 
+impl Default for RemoveStyleElement {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveStyleElement {
     type Error = JobsError<'input>;
 
diff --git a/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs b/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs
index 23fecfc..4f9917e 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs
@@ -14,7 +14,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Clone, Default, Debug)]
+#[derive(Clone, Debug)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes the `xmlns` attribute from `<svg>`.
 ///
@@ -33,6 +33,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveXMLNS(pub bool);
 
+impl Default for RemoveXMLNS {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveXMLNS {
     type Error = JobsError<'input>;
 
diff --git a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
index c0bab58..d950ec3 100644
--- a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
@@ -37,7 +37,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Default, Clone, Debug)]
+#[derive(Clone, Debug)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// For duplicate `<path>` elements, replaces it with a `<use>` that references a single
 /// `<path>` definition.
@@ -51,6 +51,12 @@ use crate::error::JobsError;
 /// If a path has an invalid id.
 pub struct ReusePaths(pub bool);
 
+impl Default for ReusePaths {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for ReusePaths {
     type Error = JobsError<'input>;
 
-- 
2.43.0


From 7d76aef4c6bb1408650b92c0f304794cf802a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:39 +0000
Subject: [PATCH 103/151] fix: read the makeArcs and applyTransforms parameters
 of SVGO's convertPathData

---
 crates/oxvg_optimiser/src/jobs/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/mod.rs b/crates/oxvg_optimiser/src/jobs/mod.rs
index e498788..957375f 100644
--- a/crates/oxvg_optimiser/src/jobs/mod.rs
+++ b/crates/oxvg_optimiser/src/jobs/mod.rs
@@ -181,13 +181,13 @@ macro_rules! jobs {
                                         convert_path_data.remove_empty_segments = remove_useless.unwrap_or(convert_path_data.remove_empty_segments);
                                         convert_path_data.remove_zero_segments = remove_useless.unwrap_or(convert_path_data.remove_zero_segments);
                                         convert_path_data.straight_curves = params.remove("straightCurves").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.straight_curves);
-                                        convert_path_data.arc_curves = make_arcs.is_some();
+                                        convert_path_data.arc_curves = make_arcs.as_ref().is_some_and(serde_json::Value::is_object);
                                         convert_path_data.smart_arc_rounding = params.remove("smartArcRounding").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.smart_arc_rounding);
                                         oxvg_config.convert_path_data = Some(convert_path_data);
 
                                         if matches!(
                                             params.remove("applyTransforms"),
-                                            Some(serde_json::Value::Bool(true)),
+                                            None | Some(serde_json::Value::Bool(true)),
                                         ) {
                                             oxvg_config.apply_transforms = Some(ApplyTransforms {
                                                 transform_precision: params.remove("transformPrecision")
-- 
2.43.0


From 39c1e12ff089ea36bc7e21cc1222aadc1dc14291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:11 +0000
Subject: [PATCH 104/151] fix: add classes to documents without a class and
 keep existing classes

---
 .../src/jobs/add_classes_to_s_v_g_element.rs  | 46 +++++--------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
index 23996e4..9fee18b 100644
--- a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
@@ -5,13 +5,6 @@ use oxvg_ast::{
     get_attribute_mut, is_element,
     visitor::{Context, Visitor},
 };
-use oxvg_collections::{
-    atom::Atom,
-    attribute::{
-        core_attrs::NonWhitespace,
-        list_of::{ListOf, Space},
-    },
-};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
@@ -94,35 +87,18 @@ impl<'input, 'arena> Visitor<'input, 'arena> for AddClassesToSVGElement {
             return Ok(());
         }
 
-        let Some(mut class) = get_attribute_mut!(element, Class) else {
-            return Ok(());
+        let names: Vec<&str> = match (&self.class_names, &self.class_name) {
+            (Some(names), _) => names.iter().flat_map(|n| n.split_whitespace()).collect(),
+            (None, Some(name)) => name.split_whitespace().collect(),
+            (None, None) => return Ok(()),
         };
-
-        match &self.class_names {
-            Some(names) => {
-                let mut set = HashSet::new();
-                class.list.retain(|item| set.insert(item.clone()));
-                for name in names {
-                    let name: NonWhitespace = (&*context.info.allocator.alloc_str(name)).into();
-                    if set.insert(name.clone()) {
-                        class.list.push(name);
-                    }
-                }
-            }
-            None => match &self.class_name {
-                Some(name) => {
-                    *class = ListOf {
-                        list: name
-                            .split_whitespace()
-                            .map(Atom::from)
-                            .map(Atom::into_owned)
-                            .map(NonWhitespace)
-                            .collect(),
-                        separator: Space,
-                    }
-                }
-                None => return Ok(()),
-            },
+        if let Some(mut class) = get_attribute_mut!(element, Class) {
+            let mut set = HashSet::new();
+            class.list.retain(|item| set.insert(item.clone()));
+        }
+        let mut class_list = element.class_list();
+        for name in names {
+            class_list.add((&*context.info.allocator.alloc_str(name)).into());
         }
         Ok(())
     }
-- 
2.43.0


From dd213767519b2559046861ef099be553bff1bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:11 +0000
Subject: [PATCH 105/151] fix: decide by the file extension or media type
 whether an image is a raster image

---
 crates/oxvg_optimiser/src/jobs/remove_raster_images.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
index a6b1911..b98320e 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
@@ -58,11 +58,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveRasterImages {
         if !is_element!(element, Image) {
             return Ok(());
         }
-        let Some(xlink_href) = get_attribute!(element, XLinkHref) else {
-            return Ok(());
-        };
+        // `href` takes precedence over `xlink:href`
+        let href = get_attribute!(element, Href).or_else(|| get_attribute!(element, XLinkHref));
 
-        if is_raster_image(&xlink_href) {
+        if href.is_some_and(|href| is_raster_image(&href)) {
             element.remove();
         }
         Ok(())
@@ -71,7 +70,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveRasterImages {
 
 fn is_raster_image(href: &str) -> bool {
     href.split('.')
-        .chain(href.split("image/"))
+        .skip(1)
+        .chain(href.split("image/").skip(1))
         .any(|ext| ext.starts_with("jpeg") || matches!(ext.get(0..3), Some("jpg" | "png" | "gif")))
 }
 
-- 
2.43.0


From ff3fc3fad84c9424dfe6d1227456d6b71374ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:11 +0000
Subject: [PATCH 106/151] fix: remove links with a javascript scheme in any
 case

---
 crates/oxvg_optimiser/src/jobs/remove_scripts.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
index 4a508f2..1b12941 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
@@ -89,7 +89,9 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveScripts {
             let (Attr::Href(href) | Attr::XLinkHref(href)) = attr.unaliased() else {
                 return false;
             };
-            href.trim_start().starts_with("javascript:")
+            href.trim_start()
+                .get(.."javascript:".len())
+                .is_some_and(|scheme| scheme.eq_ignore_ascii_case("javascript:"))
         });
         if !is_href_js {
             return Ok(());
-- 
2.43.0


From cc87899c0ab2d6517b64973f9ffa26449a3c9d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:39 +0000
Subject: [PATCH 107/151] fix: keep the text of script links within text when
 removing scripts

---
 crates/oxvg_optimiser/src/jobs/remove_scripts.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
index 1b12941..a19c5c7 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
@@ -97,7 +97,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveScripts {
             return Ok(());
         }
 
-        element.retain_children(|node| node.node_type() != node::Type::Text);
+        let is_text = std::iter::successors(element.parent_element(), Element::parent_element)
+            .any(|parent| is_element!(parent, Text));
+        if !is_text {
+            element.retain_children(|node| node.node_type() != node::Type::Text);
+        }
         element.flatten();
 
         Ok(())
-- 
2.43.0


From 475ffdbe17358f1cb5898d07526a6e95c2a423d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:30 +0000
Subject: [PATCH 108/151] fix: resolve namespace prefixes in the scope of each
 element

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 67 ++++++++++++++------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 81341af..bcb6ad2 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -36,7 +36,7 @@ pub enum ParseError {
     IO(std::io::Error),
 }
 
-#[derive(Debug, Default)]
+#[derive(Clone, Debug, Default)]
 struct NamespaceMap<'input> {
     prefix_to_uri: HashMap<Option<&'input str>, Option<&'input str>>,
     uri_to_prefix: HashMap<Option<&'input str>, Option<&'input str>>,
@@ -48,14 +48,21 @@ impl<'input> NamespaceMap<'input> {
         Self::default()
     }
 
-    fn insert(
-        &mut self,
-        prefix: Option<&'input str>,
-        uri: Option<&'input str>,
-    ) -> Option<(Option<&'input str>, Option<&'input str>)> {
-        let p = self.uri_to_prefix.insert(uri, prefix);
-        let u = self.prefix_to_uri.insert(prefix, uri);
-        Some((p?, u?))
+    fn insert(&mut self, prefix: Option<&'input str>, uri: Option<&'input str>) {
+        let shadowed = self.prefix_to_uri.insert(prefix, uri);
+        if let Some(shadowed) = shadowed
+            && self.uri_to_prefix.get(&shadowed) == Some(&prefix)
+        {
+            // The prefix can no longer be used for the shadowed uri
+            let other = self.prefix_to_uri.iter().filter(|(_, u)| **u == shadowed);
+            match other.map(|(p, _)| *p).min() {
+                Some(other) => self.uri_to_prefix.insert(shadowed, other),
+                None => self.uri_to_prefix.remove(&shadowed),
+            };
+        }
+        if prefix.is_none() || uri.is_none() || self.get_by_prefix(None) != uri {
+            self.uri_to_prefix.insert(uri, prefix);
+        }
     }
 
     fn get_by_uri(&self, uri: Option<&'input str>) -> Option<&'input str> {
@@ -200,14 +207,17 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         return Err(ParseError::NodesLimitReached);
     }
 
-    let mut popped_ns: Vec<(Option<&'a str>, Option<&'a str>)> = vec![];
+    let mut outer_ns = None;
     let child = match node.node_type() {
         roxmltree::NodeType::Root => create_root(allocator),
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
         roxmltree::NodeType::Element => {
-            let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
+            let (child, style) = parse_element(allocator, node, namespace_map, &mut outer_ns);
             if let Some(style) = style {
                 attach_child(child, style);
+                if let Some(outer_ns) = outer_ns {
+                    *namespace_map = outer_ns;
+                }
                 return Ok(child);
             }
             child
@@ -216,8 +226,8 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::Text => parse_text(allocator, node),
     };
     parse_xml_node_children(child, allocator, node, depth + 1, namespace_map)?;
-    for (prefix, value) in popped_ns {
-        namespace_map.insert(prefix, value);
+    if let Some(outer_ns) = outer_ns {
+        *namespace_map = outer_ns;
     }
     Ok(child)
 }
@@ -226,10 +236,8 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     arena: &mut Allocator<'a, 'arena>,
     xml_node: roxmltree::Node<'a, 'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
+    outer_ns: &mut Option<NamespaceMap<'a>>,
 ) -> (Ref<'a, 'arena>, Option<Ref<'a, 'arena>>) {
-    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
-
     let xml_node_namespaces = xml_node.namespaces();
     let xml_node_attributes = xml_node.attributes();
     #[cfg(feature = "range")]
@@ -237,7 +245,8 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     #[cfg(feature = "range")]
     let range = xml_node.range();
     let mut attrs = Vec::with_capacity(xml_node_attributes.len() + xml_node_namespaces.len());
-    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map, popped_ns)));
+    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map, outer_ns)));
+    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
     attrs.extend(xml_node_attributes.map(|attr| {
         #[cfg(feature = "range")]
         let range = crate::node::Ranges {
@@ -365,18 +374,21 @@ fn parse_expanded_name<'a, 'input: 'a>(
 fn find_new_xmlns<'a, 'input: 'a>(
     ns: &'a roxmltree::Namespace<'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
+    outer_ns: &mut Option<NamespaceMap<'a>>,
 ) -> Option<Attr<'a>> {
     if find_xml_uri(ns, namespace_map) {
         return None;
     }
     let uri = ns.uri();
+    if ns.name().is_none() && uri.is_empty() && namespace_map.get_by_prefix(None).is_none() {
+        // no new xmlns
+        return None;
+    }
+    if outer_ns.is_none() {
+        *outer_ns = Some(namespace_map.clone());
+    }
     if let Some(prefix) = ns.name() {
-        if namespace_map.get_by_prefix(None) != Some(uri)
-            && let Some(popped) = namespace_map.insert(Some(prefix), Some(uri))
-        {
-            popped_ns.push(popped);
-        }
+        namespace_map.insert(Some(prefix), Some(uri));
         // return `xmlns:ns="uri"`
         Some(Attr::Unparsed {
             attr_id: AttrId::Unknown(QualName {
@@ -385,15 +397,10 @@ fn find_new_xmlns<'a, 'input: 'a>(
             }),
             value: uri.into(),
         })
-    } else if !ns.uri().is_empty() {
-        if let Some(popped) = namespace_map.insert(None, Some(uri)) {
-            popped_ns.push(popped);
-        }
+    } else {
+        namespace_map.insert(None, Some(uri));
         // return `xmlns="uri"`
         Some(Attr::XMLNS(uri.into()))
-    } else {
-        // no new xmlns
-        None
     }
 }
 
-- 
2.43.0


From 25d930168bb210e487b2361a0a684474e6e72853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:18 +0000
Subject: [PATCH 109/151] fix: remove event attributes that are not known for
 their element

---
 crates/oxvg_optimiser/src/jobs/remove_scripts.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
index a19c5c7..2664d8a 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
@@ -71,6 +71,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveScripts {
                 .name()
                 .attribute_group()
                 .intersects(AttributeGroup::event())
+                // events which aren't known for the element
+                && !(attr.prefix().is_empty() && attr.local_name().starts_with("on"))
         });
 
         Ok(())
-- 
2.43.0


From c2095a4bebe5fe2248dd15e4aa7737379f2949e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:07:13 +0000
Subject: [PATCH 110/151] fix: write white space that readers would normalise
 as references

---
 crates/oxvg_ast/src/xmlwriter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index c2e2792..5a937a9 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -394,6 +394,10 @@ impl<W: Write> FmtWriter<W> {
                 b'<' => Some(b"&lt;"),
                 b'"' if escape_quotes && !self.use_single_quote => Some(b"&quot;"),
                 b'\'' if escape_quotes && self.use_single_quote => Some(b"&apos;"),
+                // these are normalised by readers unless given by reference
+                b'\r' => Some(b"&#13;"),
+                b'\n' if escape_quotes => Some(b"&#10;"),
+                b'\t' if escape_quotes => Some(b"&#9;"),
                 _ => None,
             };
             if let Some(escaped_char) = escaped_char {
-- 
2.43.0


From eb65e077c717a3fe80560abc247025e7bb847c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:08:50 +0000
Subject: [PATCH 111/151] fix: keep the prefix of attributes in the default
 namespace

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index bcb6ad2..41aedb0 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -69,6 +69,14 @@ impl<'input> NamespaceMap<'input> {
         self.uri_to_prefix.get(&uri).copied().flatten()
     }
 
+    fn get_prefix(&self, uri: &str) -> Option<&'input str> {
+        let prefixes = self.prefix_to_uri.iter();
+        prefixes
+            .filter(|(_, u)| **u == Some(uri))
+            .filter_map(|(p, _)| *p)
+            .min()
+    }
+
     fn get_by_prefix(&self, prefix: Option<&'input str>) -> Option<&'input str> {
         self.prefix_to_uri.get(&prefix).copied().flatten()
     }
@@ -344,7 +352,10 @@ fn parse_attr<'a, 'input: 'a>(
     value: &'input str,
 ) -> Attr<'a> {
     let ns = attr.namespace();
-    let prefix = namespace_map.get_by_uri(ns);
+    // The default namespace doesn't apply to attributes
+    let prefix = namespace_map
+        .get_by_uri(ns)
+        .or_else(|| namespace_map.get_prefix(ns?));
     let ns = ns.map_or_else(
         || namespace_map.get_by_prefix(None).unwrap_or_default().into(),
         Into::into,
-- 
2.43.0


From 63a7cf653edf0e82d63de527d9dd3b93cb6985ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:34 +0000
Subject: [PATCH 112/151] fix: keep white space in scripts and spaces that are
 not XML white space when formatting

---
 crates/oxvg_ast/src/xmlwriter.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 5a937a9..6a25b81 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -836,6 +836,14 @@ impl<'input, W: Write> XmlWriter<'input, W> {
     ///
     /// - When called not after `start_element()`.
     pub fn write_text(&mut self, text: &str, is_first: bool, is_last: bool) -> Result {
+        if self.opt.trim_whitespace != Space::Never && self.is_script_element() {
+            // whitespace has a meaning in scripts
+            let text = text.trim_matches(is_whitespace);
+            if text.is_empty() {
+                return Ok(());
+            }
+            return self.write_text_fmt(format_args!("{text}"));
+        }
         let space = match self.opt.trim_whitespace {
             Space::Auto => {
                 if self.preserve_whitespaces {
@@ -850,7 +858,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
 
         match space {
             Space::Default => {
-                if text.trim_start().is_empty() {
+                if text.trim_start_matches(is_whitespace).is_empty() {
                     if is_first
                         || is_last
                         || self.opt.indent != Indent::None
@@ -866,12 +874,11 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                     return Ok(());
                 }
                 self.before_write_text(false)?;
-                let mut parts = text.split_whitespace();
+                let mut parts = text.split(is_whitespace).filter(|part| !part.is_empty());
                 if let Some(first) = parts.next() {
-                    let mut chars = text.chars();
                     if !is_first
                         && self.opt.indent == Indent::None
-                        && chars.next().is_some_and(char::is_whitespace)
+                        && text.starts_with(is_whitespace)
                     {
                         self.fmt_writer
                             .write_char(' ')
@@ -890,9 +897,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                             .map_err(|_| self.fmt_writer.take_err())?;
                     }
 
-                    if !is_last
-                        && self.opt.indent == Indent::None
-                        && text.chars().next_back().is_some_and(char::is_whitespace)
+                    if !is_last && self.opt.indent == Indent::None && text.ends_with(is_whitespace)
                     {
                         self.fmt_writer
                             .write_char(' ')
@@ -1183,6 +1188,14 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         Ok(())
     }
 
+    fn is_script_element(&self) -> bool {
+        self.depth_stack.last().is_some_and(|data| {
+            data.element_name
+                .as_ref()
+                .is_some_and(|name| is_element!(name, Script))
+        })
+    }
+
     fn is_text_element(&self) -> bool {
         self.depth_stack.iter().any(|data| {
             data.element_name
@@ -1196,6 +1209,11 @@ impl<'input, W: Write> XmlWriter<'input, W> {
     }
 }
 
+/// Whether the character is whitespace in XML, which doesn't include such as no-break spaces
+pub(crate) fn is_whitespace(char: char) -> bool {
+    matches!(char, ' ' | '\t' | '\n' | '\r')
+}
+
 fn is_text_content_element(data: &DepthData) -> bool {
     data.element_name.as_ref().is_some_and(|name| {
         is_element!(
-- 
2.43.0


From 711fcf50f09e62479b535892cfc8394bc05d6bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:34 +0000
Subject: [PATCH 113/151] fix: format text in the same way when white space
 around it has been removed before

---
 crates/oxvg_ast/src/serialize.rs | 53 ++++++++++++++++++++++++++++----
 crates/oxvg_ast/src/xmlwriter.rs |  4 +++
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_ast/src/serialize.rs b/crates/oxvg_ast/src/serialize.rs
index 391aacc..22c6c53 100644
--- a/crates/oxvg_ast/src/serialize.rs
+++ b/crates/oxvg_ast/src/serialize.rs
@@ -1,11 +1,12 @@
 //! Functions for serializing XML trees
 use std::io::Write;
 
+use oxvg_collections::attribute::xml::XmlSpace;
 use oxvg_serialize::error::PrinterError;
 
 use crate::error::XmlWriterError;
-use crate::xmlwriter::XmlWriter;
 pub use crate::xmlwriter::{Indent, Options, Space};
+use crate::xmlwriter::{XmlWriter, is_whitespace};
 
 /// The destination to output serialized attribute and CSS values
 pub type Printer<'a, 'b, W> = lightningcss::printer::Printer<'a, 'b, W>;
@@ -103,7 +104,8 @@ fn serialize_node<'arena, W: Write>(
             if let Some(text) = node.text_content()
                 && !text.is_empty()
             {
-                let (is_first, is_last) = text_edges(node).unwrap_or((is_first, is_last));
+                let (is_first, is_last) =
+                    text_edges(node, xml.is_xml_space_used()).unwrap_or((is_first, is_last));
                 xml.write_text(&text, is_first, is_last)?;
             }
         }
@@ -144,20 +146,59 @@ fn serialize_node<'arena, W: Write>(
 
 /// For a node within a `<text>` element, returns whether it is at the start or the end of that
 /// element. Only there is collapsible whitespace not rendered.
-fn text_edges(node: crate::node::Ref) -> Option<(bool, bool)> {
+fn text_edges(node: crate::node::Ref, use_xml_space: bool) -> Option<(bool, bool)> {
     use crate::{is_element, node};
     let (mut is_first, mut is_last) = (true, true);
     let mut current = node;
     loop {
-        is_first &= current.previous_sibling().is_none();
-        is_last &= current.next_sibling().is_none();
         let parent = current.parent_node()?;
-        if parent.node_type() != node::Type::Element {
+        if parent.node_type() != node::Type::Element
+            || !is_element!(parent, A | Text | TextPath | TSpan)
+        {
             return None;
         }
+        is_first = is_first
+            && std::iter::successors(current.previous_sibling(), |n| n.previous_sibling())
+                .all(|n| is_collapsible(n, use_xml_space));
+        is_last = is_last
+            && std::iter::successors(current.next_sibling(), |n| n.next_sibling())
+                .all(|n| is_collapsible(n, use_xml_space));
         if is_element!(parent, Text) {
             return Some((is_first, is_last));
         }
         current = *parent;
     }
 }
+
+/// Whether nothing of the node is rendered when it is at the start or the end of a `<text>` element
+fn is_collapsible(node: crate::node::Ref, use_xml_space: bool) -> bool {
+    use crate::{is_element, node};
+    match node.node_type() {
+        node::Type::Text | node::Type::CDataSection => {
+            let text = node.text_content().unwrap_or_default();
+            text.chars().all(is_whitespace)
+                && (text.is_empty() || !use_xml_space || !is_space_preserved(node))
+        }
+        node::Type::Element => node.element().is_none_or(|element| {
+            if is_element!(element, A | TextPath | TSpan) {
+                node.child_nodes_iter()
+                    .all(|child| is_collapsible(child, use_xml_space))
+            } else {
+                !is_element!(element, TRef)
+            }
+        }),
+        _ => true,
+    }
+}
+
+fn is_space_preserved(node: crate::node::Ref) -> bool {
+    use crate::{get_attribute, node};
+    let mut parent = node.parent_node();
+    while let Some(element) = parent.filter(|parent| parent.node_type() == node::Type::Element) {
+        if let Some(space) = get_attribute!(element, XmlSpace) {
+            return matches!(*space, XmlSpace::Preserve);
+        }
+        parent = element.parent_node();
+    }
+    false
+}
diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 6a25b81..24df8a8 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -1188,6 +1188,10 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         Ok(())
     }
 
+    pub(crate) fn is_xml_space_used(&self) -> bool {
+        self.opt.trim_whitespace == Space::Auto
+    }
+
     fn is_script_element(&self) -> bool {
         self.depth_stack.last().is_some_and(|data| {
             data.element_name
-- 
2.43.0


From 4b8a014d3f83ec2ded8b03f649dc0e652fc26abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:45 +0000
Subject: [PATCH 114/151] fix: keep lists whose first item is not valid

---
 crates/oxvg_collections/src/attribute/list_of.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/list_of.rs b/crates/oxvg_collections/src/attribute/list_of.rs
index 3dd9dd6..eff6297 100644
--- a/crates/oxvg_collections/src/attribute/list_of.rs
+++ b/crates/oxvg_collections/src/attribute/list_of.rs
@@ -276,17 +276,18 @@ impl<'input, T: Parse<'input> + std::fmt::Debug + PartialEq, S: Separator> Parse
         if input.slice().starts_with('"') || input.slice().starts_with('\'') {
             quote = input.slice().chars().next();
         }
-        let mut start = Parser::new(take_matches(input, quote.as_ref()));
+        let start = take_matches(input, quote.as_ref());
+        if start.is_empty() {
+            return Ok(Self {
+                list: vec![],
+                separator: S::new(),
+            });
+        }
+        let mut start = Parser::new(start);
         quote = None;
         let mut list = match T::parse(&mut start) {
             Ok(first) if start.is_empty() => vec![first],
             Ok(_) => return Err(Error::ExpectedDone),
-            Err(_) if start.is_empty() => {
-                return Ok(Self {
-                    list: vec![],
-                    separator: S::new(),
-                });
-            }
             Err(e) => return Err(e),
         };
         loop {
-- 
2.43.0


From b4921d6dd047c90b74376256b416f9dacb1eea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:49 +0000
Subject: [PATCH 115/151] fix: keep the sign of clock values and of offsets of
 animations

---
 .../src/attribute/animation.rs                |  6 +-
 .../src/attribute/animation_timing.rs         | 67 +++++++++++++------
 2 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/animation.rs b/crates/oxvg_collections/src/attribute/animation.rs
index ca3ed1b..ab32773 100644
--- a/crates/oxvg_collections/src/attribute/animation.rs
+++ b/crates/oxvg_collections/src/attribute/animation.rs
@@ -86,7 +86,7 @@ impl<'input> Parse<'input> for BeginEnd<'input> {
                     input.expect_char('(')?;
                     let character = input.take_matches(|char| char != ')').into();
                     input.expect_char(')')?;
-                    let offset = input.try_parse(ClockValue::parse).ok();
+                    let offset = input.try_parse(ClockValue::parse_signed).ok();
                     Ok(Self::AccessKeyValue { character, offset })
                 })
             })
@@ -116,7 +116,7 @@ impl<'input> Parse<'input> for BeginEnd<'input> {
                     input.expect_char('(')?;
                     let repeat = i32::parse(input)?;
                     input.expect_char(')')?;
-                    let offset = ClockValue::parse(input).ok();
+                    let offset = input.try_parse(ClockValue::parse_signed).ok();
                     return Ok(Self::RepeatValue {
                         id: id.map(Into::into),
                         repeat,
@@ -124,7 +124,7 @@ impl<'input> Parse<'input> for BeginEnd<'input> {
                     });
                 }
                 input.skip_whitespace();
-                let offset = input.try_parse(ClockValue::parse).ok();
+                let offset = input.try_parse(ClockValue::parse_signed).ok();
                 if let (Some(id), "begin" | "end") = (id, event) {
                     Ok(Self::SyncbaseValue {
                         id: id.into(),
diff --git a/crates/oxvg_collections/src/attribute/animation_timing.rs b/crates/oxvg_collections/src/attribute/animation_timing.rs
index 1c76b95..463aac5 100644
--- a/crates/oxvg_collections/src/attribute/animation_timing.rs
+++ b/crates/oxvg_collections/src/attribute/animation_timing.rs
@@ -41,13 +41,25 @@ impl ClockValue {
     /// Returns whether the signed clock-value is negative
     pub fn is_negative(&self) -> bool {
         match self {
-            Self::FullClockValue { hours, .. } => hours.is_negative(),
-            Self::PartialClockValue { minutes, .. } => minutes.is_negative(),
-            Self::TimecountValue { timecount, .. } => timecount.is_sign_negative(),
+            Self::FullClockValue { seconds, .. } | Self::PartialClockValue { seconds, .. } => {
+                seconds.is_sign_negative()
+            }
+            Self::TimecountValue { timecount, .. } => *timecount < 0.0,
         }
     }
 }
 #[cfg(feature = "parse")]
+impl ClockValue {
+    /// Parses a clock-value which must have a sign
+    pub(super) fn parse_signed<'input>(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
+        input.skip_whitespace();
+        if !matches!(input.current()?, '+' | '-') {
+            return Err(Error::InvalidNumber);
+        }
+        Self::parse(input)
+    }
+}
+#[cfg(feature = "parse")]
 impl<'input> Parse<'input> for ClockValue {
     fn parse<'t>(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
         // NOTE: Technically clock-value isn't allowed sign (+/-), but we allow it here for easier parsing
@@ -65,6 +77,12 @@ impl<'input> Parse<'input> for ClockValue {
                 }
             })
             .unwrap_or(1.0);
+        if !input
+            .current()
+            .is_ok_and(|char| char.is_ascii_digit() || char == '.')
+        {
+            return Err(Error::InvalidNumber);
+        }
         let timecount = f32::parse(input)? * sign;
         Ok(input
             .try_parse(|input| {
@@ -81,14 +99,14 @@ impl<'input> Parse<'input> for ClockValue {
                     if input.try_parse(|input| input.expect_char(':')).is_err() {
                         return Ok(Self::PartialClockValue {
                             minutes: timecount,
-                            seconds: minutes_or_seconds,
+                            seconds: minutes_or_seconds * sign,
                         });
                     }
                     if minutes_or_seconds.trunc() != minutes_or_seconds {
                         return Err(Error::InvalidNumber);
                     }
-                    let minutes = minutes_or_seconds as Integer;
-                    let seconds = f32::parse(input)?;
+                    let minutes = (minutes_or_seconds * sign) as Integer;
+                    let seconds = f32::parse(input)? * sign;
                     Ok(Self::FullClockValue {
                         hours: timecount,
                         minutes,
@@ -109,6 +127,16 @@ impl ToValue for ClockValue {
     where
         W: std::fmt::Write,
     {
+        let write_seconds = |seconds: CSSNumber, dest: &mut Printer<W>| {
+            let seconds = seconds.abs();
+            // A fraction must follow two digits
+            if seconds < 1.0 {
+                dest.write_str(if seconds == 0.0 { "0" } else { "00" })?;
+            } else if seconds < 10.0 {
+                dest.write_char('0')?;
+            }
+            seconds.write_value(dest)
+        };
         match self {
             Self::TimecountValue { timecount, metric } => {
                 timecount.write_value(dest)?;
@@ -118,37 +146,38 @@ impl ToValue for ClockValue {
                 Ok(())
             }
             Self::PartialClockValue { minutes, seconds } => {
-                if *minutes < 10 {
+                if self.is_negative() {
+                    dest.write_char('-')?;
+                }
+                let minutes = minutes.abs();
+                if minutes < 10 {
                     dest.write_char('0')?;
                 }
                 minutes.write_value(dest)?;
                 dest.write_char(':')?;
-                if *seconds < 10.0 {
-                    dest.write_char('0')?;
-                }
-                seconds.write_value(dest)?;
-                Ok(())
+                write_seconds(*seconds, dest)
             }
             Self::FullClockValue {
                 hours,
                 minutes,
                 seconds,
             } => {
-                if *hours < 10 {
+                if self.is_negative() {
+                    dest.write_char('-')?;
+                }
+                let hours = hours.abs();
+                let minutes = minutes.abs();
+                if hours < 10 {
                     dest.write_char('0')?;
                 }
                 hours.write_value(dest)?;
                 dest.write_char(':')?;
-                if *minutes < 10 {
+                if minutes < 10 {
                     dest.write_char('0')?;
                 }
                 minutes.write_value(dest)?;
                 dest.write_char(':')?;
-                if *seconds < 10.0 {
-                    dest.write_char('0')?;
-                }
-                seconds.write_value(dest)?;
-                Ok(())
+                write_seconds(*seconds, dest)
             }
         }
     }
-- 
2.43.0


From 399185ebc63e3f05e34d200c913dd818bed48ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:49 +0000
Subject: [PATCH 116/151] fix: do not read transforms after a leading comma and
 do not limit their number

---
 crates/oxvg_collections/src/attribute/transform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/transform.rs b/crates/oxvg_collections/src/attribute/transform.rs
index 7693204..38542de 100644
--- a/crates/oxvg_collections/src/attribute/transform.rs
+++ b/crates/oxvg_collections/src/attribute/transform.rs
@@ -612,15 +612,15 @@ impl TryFrom<&TransformList> for SVGTransformList {
 impl<'input> Parse<'input> for SVGTransformList {
     fn parse<'t>(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
         let mut result = Vec::new();
-        for _ in 0..2048 {
-            skip_comma_and_whitespace(input);
+        input.skip_whitespace();
+        loop {
             if let Ok(item) = input.try_parse(SVGTransform::parse) {
                 result.push(item);
             } else {
                 return Ok(Self(result));
             }
+            skip_comma_and_whitespace(input);
         }
-        panic!("maximum iterations on transform list")
     }
 }
 #[cfg(feature = "serialize")]
-- 
2.43.0


From 8ab7f2bd670885741d49ace27c90630cb90dcc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:49 +0000
Subject: [PATCH 117/151] fix: keep lists with repeated commas as they are
 written

---
 crates/oxvg_collections/src/attribute/list_of.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/list_of.rs b/crates/oxvg_collections/src/attribute/list_of.rs
index eff6297..621b42e 100644
--- a/crates/oxvg_collections/src/attribute/list_of.rs
+++ b/crates/oxvg_collections/src/attribute/list_of.rs
@@ -116,12 +116,11 @@ impl Separator for SpaceOrComma {
     #[cfg(feature = "parse")]
     fn parse<'input>(input: &mut Parser<'input>) -> Result<(), Error<'input>> {
         if input.try_parse(Parser::expect_whitespace).is_ok() {
-            input.skip_whitespace();
-            input.skip_char(',');
+            let _ = input.try_parse(|input| input.expect_char(','));
             input.skip_whitespace();
             return Ok(());
         }
-        Comma::parse(input)?;
+        input.expect_char(',')?;
         input.skip_whitespace();
         Ok(())
     }
-- 
2.43.0


From a32c47a03b3b8923a85c4ca2c402d692366db768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:03:53 +0000
Subject: [PATCH 118/151] fix: count ids that style sheets select as referenced

---
 crates/oxvg_lint/src/rules/mod.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_lint/src/rules/mod.rs b/crates/oxvg_lint/src/rules/mod.rs
index a016456..564acc4 100644
--- a/crates/oxvg_lint/src/rules/mod.rs
+++ b/crates/oxvg_lint/src/rules/mod.rs
@@ -220,7 +220,14 @@ impl<'i> lightningcss::visitor::Visitor<'i> for Reporter<'_, '_> {
     type Error = ();
 
     fn visit_types(&self) -> lightningcss::visitor::VisitTypes {
-        lightningcss::visit_types!(URLS)
+        lightningcss::visit_types!(URLS | SELECTORS)
+    }
+    fn visit_selector(
+        &mut self,
+        selector: &mut lightningcss::selector::Selector<'i>,
+    ) -> Result<(), Self::Error> {
+        self.track_selector_ids(selector);
+        Ok(())
     }
     fn visit_url(
         &mut self,
@@ -233,6 +240,27 @@ impl<'i> lightningcss::visitor::Visitor<'i> for Reporter<'_, '_> {
     }
 }
 impl<'input> Reporter<'_, 'input> {
+    fn track_selector_ids(&self, selector: &lightningcss::selector::Selector<'_>) {
+        use lightningcss::selector::Component;
+        for component in selector.iter_raw_match_order() {
+            match component {
+                Component::ID(id) => {
+                    self.referenced_ids.borrow_mut().insert(id.to_string());
+                }
+                Component::Is(selectors)
+                | Component::Where(selectors)
+                | Component::Negation(selectors)
+                | Component::Any(_, selectors)
+                | Component::Has(selectors) => {
+                    for selector in selectors.iter() {
+                        self.track_selector_ids(selector);
+                    }
+                }
+                _ => {}
+            }
+        }
+    }
+
     fn track_id_references(&self, element: Element<'input, '_>) {
         let mut referenced_ids = self.referenced_ids.borrow_mut();
         let attribute_ranges = element.attribute_ranges();
-- 
2.43.0


From 5927cb2767d8b50d92f721b5fc8e979dac992832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:03:53 +0000
Subject: [PATCH 119/151] fix: do not count shadowed namespace declarations as
 used

---
 crates/oxvg_lint/src/rules/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_lint/src/rules/mod.rs b/crates/oxvg_lint/src/rules/mod.rs
index 564acc4..b672cc4 100644
--- a/crates/oxvg_lint/src/rules/mod.rs
+++ b/crates/oxvg_lint/src/rules/mod.rs
@@ -318,6 +318,7 @@ impl<'input> Reporter<'_, 'input> {
                 } else if let Some(mut xmlns) = set.take(&not_used_group) {
                     xmlns.2 = true;
                     set.insert(xmlns);
+                    break;
                 }
             }
         };
-- 
2.43.0


From c369e2addef741bd5e759a657400d3c1c0515072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:03:53 +0000
Subject: [PATCH 120/151] fix: count characters in the columns of lint reports

---
 crates/oxvg_lint/src/error.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_lint/src/error.rs b/crates/oxvg_lint/src/error.rs
index 0428c0c..4cb4196 100644
--- a/crates/oxvg_lint/src/error.rs
+++ b/crates/oxvg_lint/src/error.rs
@@ -200,7 +200,8 @@ impl Error<'_> {
             std::str::from_utf8(&source_bytes[line_start..line_end]).map_err(|_| fmt::Error)?;
 
         let line_number = bytecount::count(&source_bytes[..range.start], b'\n') + 1;
-        let column = range.start - line_start;
+        let column = source[line_start..range.start].chars().count();
+        let length = source[range.clone()].chars().count();
         let padding = (line_number + lines.split('\n').count()).to_string().len();
         f.write_fmt(format_args!(
             "\n {: <1$} ╭─[\x1b[34m{path}\x1b[0m:{line_number}:{column}]",
@@ -220,11 +221,11 @@ impl Error<'_> {
         }
         if current_line_number > line_number + 1 {
             f.write_fmt(format_args!("\n {: <padding$} · \x1b[35m", ""))?;
-            f.write_fmt(format_args!("{:─<1$}\x1b[0m", "", column + range.len()))?;
+            f.write_fmt(format_args!("{:─<1$}\x1b[0m", "", column + length))?;
         } else {
             f.write_fmt(format_args!("\n {: <1$} · ", "", padding))?;
             f.write_fmt(format_args!("{: <1$}\x1b[35m", "", column))?;
-            f.write_fmt(format_args!("{:─<1$}\x1b[0m", "", range.len()))?;
+            f.write_fmt(format_args!("{:─<1$}\x1b[0m", "", length))?;
         }
 
         if !next_line.is_empty() {
-- 
2.43.0


From df4db839e53e0a942ade2ab2b1cb6ca739521b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:03:53 +0000
Subject: [PATCH 121/151] fix: do not mark the slash of empty elements in lint
 reports

---
 crates/oxvg_lint/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_lint/src/utils.rs b/crates/oxvg_lint/src/utils.rs
index 6a2b81d..6b34c13 100644
--- a/crates/oxvg_lint/src/utils.rs
+++ b/crates/oxvg_lint/src/utils.rs
@@ -27,7 +27,7 @@ pub fn naive_range(source: &[u8], mut start: usize) -> Range<usize> {
     }
     let mut end = start;
     while end < source.len() {
-        if (source[end] as char).is_ascii_whitespace() || source[end] == b'>' {
+        if (source[end] as char).is_ascii_whitespace() || matches!(source[end], b'>' | b'/') {
             break;
         }
         end += 1;
-- 
2.43.0


From b19d9379b49fc9396fc7b6afa3a3bc266866931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:33 +0000
Subject: [PATCH 122/151] fix: leave out omitted jobs when no preset is
 extended

---
 crates/oxvg/src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/config.rs b/crates/oxvg/src/config.rs
index 9ea1f34..4ab9dfb 100644
--- a/crates/oxvg/src/config.rs
+++ b/crates/oxvg/src/config.rs
@@ -67,10 +67,10 @@ impl Optimise {
     /// Creates a job configuration where the user-configured jobs extends the preset
     /// specified in `extends`
     pub fn resolve_jobs(&self) -> oxvg_optimiser::Jobs {
-        let Some(extends) = &self.extends else {
-            return self.jobs.clone();
+        let mut result = match &self.extends {
+            Some(extends) => extends.extend(&self.jobs),
+            None => self.jobs.clone(),
         };
-        let mut result = extends.extend(&self.jobs);
         if let Some(omit) = self.omit.as_ref() {
             for omit in omit {
                 result.omit(omit);
-- 
2.43.0


From 5d3cd5e25b462ea7c05077a781d6f6dba77c0d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:33 +0000
Subject: [PATCH 123/151] fix: write results in place when no output is named

---
 crates/oxvg/src/walk.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 5422beb..85530ca 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -134,9 +134,12 @@ impl Walk {
 
     fn handle_path<F: Fn() -> FnVisitor>(&self, path: &PathBuf, f: F) {
         let output_path = |input: &PathBuf| {
-            let Some(output) = self.output.as_ref().and_then(|output| output.first()) else {
+            let Some(output) = self.output.as_ref() else {
                 return Ok(None);
             };
+            let Some(output) = output.first() else {
+                return Ok(Some(input.clone()));
+            };
             input.strip_prefix(path).map(|p| {
                 Some(if p.as_os_str().is_empty() {
                     output.clone()
-- 
2.43.0


From 2ae2ff5d50317201eab07a3ea65af70076638827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:33 +0000
Subject: [PATCH 124/151] fix: print each document as a whole

---
 crates/oxvg/src/walk.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 85530ca..599f1b8 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -65,7 +65,7 @@ impl Output<'_, '_, '_> {
         if let Some(output) = self.destination {
             if is_stdin && output.metadata().is_ok_and(|f| f.is_dir()) {
                 eprintln!("Cannot use dir as output with stdin. Printing result to stdout instead");
-                self.dom.serialize_into(std::io::stdout(), self.options)?;
+                self.print()?;
             } else {
                 if let Some(parent) = output.parent() {
                     std::fs::create_dir_all(parent)?;
@@ -86,10 +86,17 @@ impl Output<'_, '_, '_> {
                 }
             }
         } else {
-            self.dom.serialize_into(std::io::stdout(), self.options)?;
+            self.print()?;
         }
         Ok(())
     }
+
+    /// Prints the document as a whole, as other threads may be printing theirs.
+    fn print(&self) -> anyhow::Result<()> {
+        let stdout = std::io::stdout().lock();
+        drop(self.dom.serialize_into(stdout, self.options)?);
+        Ok(())
+    }
 }
 
 impl Walk {
-- 
2.43.0


From 0a813534edf790430ffac499c558c5cef30bf31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:33 +0000
Subject: [PATCH 125/151] fix: end with an error when documents could not be
 optimised

---
 crates/oxvg/src/commands/optimise.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg/src/commands/optimise.rs b/crates/oxvg/src/commands/optimise.rs
index 6afc5dd..27eb209 100644
--- a/crates/oxvg/src/commands/optimise.rs
+++ b/crates/oxvg/src/commands/optimise.rs
@@ -1,4 +1,11 @@
-use std::{future, path::PathBuf};
+use std::{
+    future,
+    path::PathBuf,
+    sync::{
+        Arc,
+        atomic::{AtomicBool, Ordering},
+    },
+};
 
 use anyhow::anyhow;
 use oxvg_ast::{
@@ -64,7 +71,9 @@ impl Optimise {
     ///
     /// When invalid options are given
     pub fn walk(self, jobs: Jobs) -> anyhow::Result<()> {
-        self.walk.run(move || {
+        let error = Arc::new(AtomicBool::new(false));
+        self.walk.run(|| {
+            let error = Arc::clone(&error);
             let jobs = jobs.clone();
             let format_options = Options {
                 indent: self.pretty,
@@ -101,13 +110,21 @@ impl Optimise {
                         Ok(())
                     },
                 );
+                if matches!(result, Err(_) | Ok(Err(_))) {
+                    error.store(true, Ordering::Relaxed);
+                }
                 match result {
                     Err(err) => eprintln!("{err}"),
                     Ok(Err(err)) => eprintln!("{err}"),
                     Ok(Ok(())) => {}
                 }
             })
-        })
+        })?;
+        if error.load(Ordering::Relaxed) {
+            Err(anyhow!("Failed to optimise all documents!"))
+        } else {
+            Ok(())
+        }
     }
 
     fn handle_config(&self, config: Config) -> anyhow::Result<Option<Config>> {
-- 
2.43.0


From 8d85765aa936a9cf7d2ec29ead7a99fd27030c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:33 +0000
Subject: [PATCH 126/151] fix: follow the level and the configuration given to
 lint

---
 crates/oxvg/src/commands/lint.rs | 50 +++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg/src/commands/lint.rs b/crates/oxvg/src/commands/lint.rs
index 650aed0..b3f2d2c 100644
--- a/crates/oxvg/src/commands/lint.rs
+++ b/crates/oxvg/src/commands/lint.rs
@@ -1,4 +1,11 @@
-use std::{future, path::PathBuf};
+use std::{
+    future,
+    path::PathBuf,
+    sync::{
+        Arc,
+        atomic::{AtomicBool, Ordering},
+    },
+};
 
 use clap::Subcommand;
 use oxvg_lint::{Rules, Severity, error::LintingError};
@@ -7,6 +14,15 @@ use crate::{args::RunCommand, config::Config, walk::Walk};
 
 mod lsp;
 
+/// Returns the rules of the specified config, or of the inferred config when there is none.
+fn load_rules(path: Option<&Vec<PathBuf>>, inferred: Config) -> anyhow::Result<Rules> {
+    let config = match path.and_then(|path| path.first()) {
+        Some(path) => serde_json::from_reader(std::fs::File::open(path)?)?,
+        None => inferred,
+    };
+    Ok(config.lint.unwrap_or_else(Rules::recommended))
+}
+
 #[derive(clap::Args, Debug)]
 pub struct Check {
     #[clap(flatten)]
@@ -20,23 +36,43 @@ pub struct Check {
 }
 impl RunCommand for Check {
     fn run(self, config: Config) -> impl Future<Output = anyhow::Result<()>> + Send {
-        future::ready(self.walk(&config.lint.unwrap_or_else(Rules::recommended)))
+        future::ready(load_rules(self.config.as_ref(), config).and_then(|rules| self.walk(&rules)))
     }
 }
 impl Check {
     fn walk(mut self, rules: &Rules) -> anyhow::Result<()> {
         self.walk.output = None;
+        let level = self.level;
+        let error = Arc::new(AtomicBool::new(false));
         self.walk.run(|| {
+            let error = Arc::clone(&error);
             let rules = rules.clone();
             Box::new(move |source, path, _| {
                 let result = rules.lint_with_path(source, path);
                 match result {
-                    Err(LintingError::Reported { .. }) => {}
-                    Err(err) => eprintln!("{err}"),
-                    _ => {}
+                    Err(LintingError::Reported { errors, warnings }) => {
+                        let reached = match level {
+                            Severity::Off => false,
+                            Severity::Warn => errors + warnings > 0,
+                            Severity::Error => errors > 0,
+                        };
+                        if reached {
+                            error.store(true, Ordering::Relaxed);
+                        }
+                    }
+                    Err(err) => {
+                        error.store(true, Ordering::Relaxed);
+                        eprintln!("{err}");
+                    }
+                    Ok(()) => {}
                 }
             })
-        })
+        })?;
+        if error.load(Ordering::Relaxed) {
+            Err(anyhow::anyhow!("Problems were found!"))
+        } else {
+            Ok(())
+        }
     }
 }
 
@@ -48,7 +84,7 @@ pub struct Serve {
 }
 impl RunCommand for Serve {
     async fn run(self, config: Config) -> anyhow::Result<()> {
-        lsp::serve(config.lint.unwrap_or_else(Rules::recommended)).await;
+        lsp::serve(load_rules(self.config.as_ref(), config)?).await;
         Ok(())
     }
 }
-- 
2.43.0


From 541f0026c9d329209e4790e324103bb477deb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:33 +0000
Subject: [PATCH 127/151] fix: publish when problems are gone and count UTF-16
 units in positions

---
 crates/oxvg/src/commands/lint/lsp.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/crates/oxvg/src/commands/lint/lsp.rs b/crates/oxvg/src/commands/lint/lsp.rs
index 74e4fbc..fb530c9 100644
--- a/crates/oxvg/src/commands/lint/lsp.rs
+++ b/crates/oxvg/src/commands/lint/lsp.rs
@@ -21,6 +21,13 @@ struct Backend {
 
 static NAME: &str = "oxvg lint";
 
+/// Positions count UTF-16 code units, unless another encoding is agreed on.
+fn to_position(cursor: usize, source: &str) -> Position {
+    let (line, column) = Ranges::to_line_and_col(cursor, source.as_bytes());
+    let column = source[cursor - column..cursor].encode_utf16().count();
+    Position::new(line as u32, column as u32)
+}
+
 fn error_to_diagnostic(
     Error {
         problem,
@@ -32,14 +39,10 @@ fn error_to_diagnostic(
     uri: &Uri,
 ) -> Diagnostic {
     let range = match range {
-        Some(range) => {
-            let start = Ranges::to_line_and_col(range.start, source.as_bytes());
-            let end = Ranges::to_line_and_col(range.end, source.as_bytes());
-            Range {
-                start: Position::new(start.0 as u32, start.1 as u32),
-                end: Position::new(end.0 as u32, end.1 as u32),
-            }
-        }
+        Some(range) => Range {
+            start: to_position(range.start, source),
+            end: to_position(range.end, source),
+        },
         None => Range::default(),
     };
     Diagnostic {
@@ -84,15 +87,18 @@ impl Backend {
 
     async fn lint(&self, uri: &Uri, source: &str) {
         let uri = uri.clone();
-        let Ok(Err(diagnostics)) = parse_with_options(
+        let result = parse_with_options(
             source,
             ParsingOptions {
                 allow_dtd: true,
                 ..ParsingOptions::default()
             },
             |dom, allocator| self.analyse(dom, allocator, source, &uri),
-        ) else {
-            return;
+        );
+        // Former diagnostics stay until others are published
+        let diagnostics = match result {
+            Ok(Err(diagnostics)) => diagnostics,
+            Ok(Ok(())) | Err(_) => vec![],
         };
 
         let result = PublishDiagnosticsParams {
-- 
2.43.0


From 26ec94421b8918b84e129afba7dcc6505fc7ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:30:13 +0000
Subject: [PATCH 128/151] fix: set attributes only on elements that accept them

---
 crates/oxvg_actions/src/actions/manipulate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_actions/src/actions/manipulate.rs b/crates/oxvg_actions/src/actions/manipulate.rs
index 5eafa09..c58243d 100644
--- a/crates/oxvg_actions/src/actions/manipulate.rs
+++ b/crates/oxvg_actions/src/actions/manipulate.rs
@@ -37,7 +37,9 @@ impl<'input> Actor<'input, '_> {
                 continue;
             };
             let attr = element.parse_attr_id(name);
-            if matches!(attr, AttrId::Unknown(_)) {
+            if matches!(attr, AttrId::Unknown(_))
+                || !element.qual_name().is_permitted_attribute(&attr)
+            {
                 continue;
             }
 
-- 
2.43.0


From 3f81c6e8daf3b2e97d9240cf1e11d94a13052455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:30:13 +0000
Subject: [PATCH 129/151] fix: append transforms only to elements that accept
 them

---
 crates/oxvg_actions/src/actions/transform.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_actions/src/actions/transform.rs b/crates/oxvg_actions/src/actions/transform.rs
index 64fed81..5d025b8 100644
--- a/crates/oxvg_actions/src/actions/transform.rs
+++ b/crates/oxvg_actions/src/actions/transform.rs
@@ -124,7 +124,10 @@ impl<'input> Actor<'input, '_> {
             let Some(element) = node.element() else {
                 continue;
             };
-            if !element.qual_name().is_permitted_attribute(&AttrId::Style) {
+            if !element
+                .qual_name()
+                .is_permitted_attribute(&AttrId::Transform)
+            {
                 continue;
             }
             if let Some(transform_list) = get_attribute_mut!(element, Transform)
-- 
2.43.0


From 0030da6bf9dedad8db25ef43a35cab9298c1bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:30:13 +0000
Subject: [PATCH 130/151] fix: insert elements only into parents that accept
 them

---
 crates/oxvg_actions/src/actions/structure/creation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_actions/src/actions/structure/creation.rs b/crates/oxvg_actions/src/actions/structure/creation.rs
index 903dbf8..8e1869d 100644
--- a/crates/oxvg_actions/src/actions/structure/creation.rs
+++ b/crates/oxvg_actions/src/actions/structure/creation.rs
@@ -46,10 +46,16 @@ impl<'input> Actor<'input, '_> {
             .collect::<Vec<_>>();
         let mut new_elements = Vec::with_capacity(selections.len());
         for selected in selections {
+            if !selected.qual_name().is_permitted_child(&element) {
+                continue;
+            }
             let element = document.create_element(element.clone(), &self.allocator);
             new_elements.push(element);
             selected.append(*element);
         }
+        if new_elements.is_empty() {
+            return Ok(());
+        }
 
         self.effect_selection(
             #[allow(clippy::cast_possible_wrap)]
-- 
2.43.0


From 6dd0f0bb8ce9d3b85b240d3d640410de49dbb8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:30:13 +0000
Subject: [PATCH 131/151] fix: embed selections made after deselecting

---
 crates/oxvg_actions/src/effects.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_actions/src/effects.rs b/crates/oxvg_actions/src/effects.rs
index b45badd..b045866 100644
--- a/crates/oxvg_actions/src/effects.rs
+++ b/crates/oxvg_actions/src/effects.rs
@@ -63,6 +63,7 @@ impl<'input> Actor<'input, '_> {
         if selections.list.is_empty() {
             state_selections.remove_attribute(&create_oxvg_attr_id(StateElement::SELECTION_IDS));
             state_selections.remove();
+            self.state.selection = None;
             return Ok(());
         }
 
-- 
2.43.0


From 3825aea600c3dcc73870a7fbdf557f0223e29fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:30:13 +0000
Subject: [PATCH 132/151] fix: read insertions from the history

---
 crates/oxvg_actions/src/state.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index a181c5e..0f28472 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -374,6 +374,12 @@ impl<'input> Action<'input> {
                 };
                 Ok(Self::SkewY(y))
             }
+            Self::INSERT => {
+                let Some(name) = args.next().transpose()? else {
+                    return Err(Error::MissingStateAttribute(Self::ARG));
+                };
+                Ok(Self::Insert(name))
+            }
             Self::FORGET => Ok(Self::Forget),
             Self::SELECT => {
                 let Some(string) = args.next().transpose()? else {
-- 
2.43.0


From ea17409facdd592855076038415d4154881f1014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:10 +0000
Subject: [PATCH 133/151] fix: do not select the elements of the embedded state

---
 crates/oxvg_actions/src/actions/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_actions/src/actions/state.rs b/crates/oxvg_actions/src/actions/state.rs
index 2a5e649..a3767d8 100644
--- a/crates/oxvg_actions/src/actions/state.rs
+++ b/crates/oxvg_actions/src/actions/state.rs
@@ -8,7 +8,7 @@ use oxvg_collections::{
 };
 use oxvg_parse::Parse as _;
 
-use crate::{Action, Actor, Error, OXVG_PREFIX, effects::StateEffect};
+use crate::{Action, Actor, Error, OXVG_PREFIX, effects::StateEffect, utils::is_oxvg_xmlns};
 
 impl<'input> Actor<'input, '_> {
     /// Removes OXVG state from the document
@@ -103,7 +103,10 @@ impl<'input> Actor<'input, '_> {
                 .map_err(|_| Error::InvalidSelector(query.to_string()))?;
 
             #[allow(clippy::cast_possible_wrap)]
-            Ok(elements.map(|e| e.id() as Integer).collect())
+            Ok(elements
+                .filter(|e| !is_oxvg_xmlns(e.qual_name().prefix()))
+                .map(|e| e.id() as Integer)
+                .collect())
         }
     }
 }
-- 
2.43.0


From 44c8cc66278146620c43ba6c5ce4e557b3b6afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:10 +0000
Subject: [PATCH 134/151] fix: keep selections unique and in document order

---
 crates/oxvg_actions/src/effects.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_actions/src/effects.rs b/crates/oxvg_actions/src/effects.rs
index b045866..510ff26 100644
--- a/crates/oxvg_actions/src/effects.rs
+++ b/crates/oxvg_actions/src/effects.rs
@@ -67,6 +67,10 @@ impl<'input> Actor<'input, '_> {
             return Ok(());
         }
 
+        // Keep selections unique and in document order
+        let mut selections = selections.clone();
+        selections.list.sort_unstable();
+        selections.list.dedup();
         let selections: Atom = selections
             .to_value_string(PrinterOptions::default())
             .map_err(|err| Error::SerializeError(err.to_string()))?
-- 
2.43.0


From 94fb365fbcba9398b608c5da402835296585f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:34 +0000
Subject: [PATCH 135/151] fix: keep the fill rule of a path that is not merged

---
 crates/oxvg_actions/src/actions/manipulate/path.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_actions/src/actions/manipulate/path.rs b/crates/oxvg_actions/src/actions/manipulate/path.rs
index b0d1683..3fa3c3c 100644
--- a/crates/oxvg_actions/src/actions/manipulate/path.rs
+++ b/crates/oxvg_actions/src/actions/manipulate/path.rs
@@ -139,10 +139,12 @@ impl<'input> Actor<'input, '_> {
                     None
                 ))
             );
-            set_attribute!(
-                final_element,
-                FillRule(Inheritable::Defined(FillRule::Evenodd))
-            );
+            if cumulative_path.evenodd {
+                set_attribute!(
+                    final_element,
+                    FillRule(Inheritable::Defined(FillRule::Evenodd))
+                );
+            }
         }
         #[allow(clippy::cast_possible_wrap)]
         Ok(previous_element.map(|e| e.id() as Integer))
-- 
2.43.0


From 4910b42027f3ccd97cb403636b77b099f1d6d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:34 +0000
Subject: [PATCH 136/151] fix: do not take undeclared prefixes as the SVG
 namespace

---
 crates/oxvg_ast/src/element.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 1e2048d..1f4857c 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -160,6 +160,9 @@ impl<'input, 'arena> Element<'input, 'arena> {
                 }
             }
         }
+        if prefix.is_some() {
+            return Atom::default();
+        }
         return NS::SVG.uri().clone();
     }
 
-- 
2.43.0


From 266a35fdf64c33f0c224197fc33e6c47218c5cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:35:22 +0000
Subject: [PATCH 137/151] fix: keep white space of recorded arguments

---
 crates/oxvg_actions/src/state.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index 0f28472..0a935cf 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -1,10 +1,11 @@
-use oxvg_ast::{arena::Allocator, element::Element, node::Ref};
+use oxvg_ast::{arena::Allocator, element::Element, node::Ref, set_attribute};
 use oxvg_collections::{
     atom::Atom,
     attribute::{
         Attr, AttrId,
         core_attrs::Integer,
         list_of::{ListOf, SpaceOrComma},
+        xml::XmlSpace,
     },
     name::{Prefix, QualName},
 };
@@ -266,7 +267,12 @@ impl<'input> Action<'input> {
         };
         let mut args = element.children_iter().map(|child| {
             assert_oxvg_element(child, Self::ARG)?;
-            Ok(child.text_content().unwrap_or_default())
+            Ok(child
+                .child_nodes_iter()
+                .filter_map(|node| node.text_content())
+                .map(|text| text.to_string())
+                .collect::<String>()
+                .into())
         });
         let n_args = |value: Result<Atom<'input>, Error<'input>>| {
             value.and_then(|value| {
@@ -465,6 +471,9 @@ impl<'input> Action<'input> {
     ) {
         let document = parent.as_document();
         let arg = document.create_element(create_oxvg_element(Self::ARG), allocator);
+        if arg_atom.split(' ').any(str::is_empty) || arg_atom.contains(['\t', '\n', '\r']) {
+            set_attribute!(arg, XmlSpace(XmlSpace::Preserve));
+        }
         arg.set_text_content(arg_atom, allocator);
         parent.append(*arg);
     }
-- 
2.43.0


From c11b636f6330e1eb6533ab78d9693a41fee1b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:55:57 +0000
Subject: [PATCH 138/151] fix: keep text and style sheets valid as JSX

---
 crates/oxvg_jsx/src/swc.rs | 40 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index 675e2e7..5b1414f 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -94,22 +94,15 @@ pub fn to_jsx<'input>(
             .0
             .to_css_string(PrinterOptions::default())
             .map_err(|_| BuildError::PrinterError)
-            .map(|value| {
-                let value: swc_core::atoms::Atom = value.into();
-                JSXElementChild::JSXText(JSXText {
-                    value: value.clone(),
-                    raw: value,
-                    span: DUMMY_SP,
-                })
-            }),
+            .map(|value| text_to_jsx(&value)),
         NodeData::PI { value, .. } | NodeData::Text(value) => {
             if let Some(value) = value.borrow().as_ref() {
-                let value: swc_core::atoms::Atom = value.trim().into();
-                Ok(JSXElementChild::JSXText(JSXText {
-                    value: value.clone(),
-                    raw: value,
-                    span: DUMMY_SP,
-                }))
+                // White space between elements is only rendered as part of text content
+                let is_rendered = !value.trim().is_empty()
+                    || node
+                        .parent_node()
+                        .is_some_and(|parent| is_element!(parent, Text | TSpan | TextPath));
+                Ok(text_to_jsx(if is_rendered { value } else { "" }))
             } else {
                 Ok(JSXElementChild::JSXExprContainer(JSXExprContainer {
                     expr: JSXExpr::JSXEmptyExpr(JSXEmptyExpr { span: DUMMY_SP }),
@@ -224,6 +217,25 @@ pub fn element_to_jsx<'input>(
     })))
 }
 
+/// Text is only valid as JSX text when it's free of syntax and of white space JSX would drop.
+fn text_to_jsx(value: &str) -> JSXElementChild {
+    if value.contains(['{', '}', '<', '>', '&', '\n', '\r', '\t'])
+        || value.starts_with(' ')
+        || value.ends_with(' ')
+    {
+        return JSXElementChild::JSXExprContainer(JSXExprContainer {
+            expr: JSXExpr::Expr(Box::new(value.into())),
+            span: DUMMY_SP,
+        });
+    }
+    let value: swc_core::atoms::Atom = value.into();
+    JSXElementChild::JSXText(JSXText {
+        value: value.clone(),
+        raw: value,
+        span: DUMMY_SP,
+    })
+}
+
 fn attr_to_jsx<'input>(attr: &Attr<'input>) -> Result<JSXAttrOrSpread, BuildError<'input>> {
     Ok(JSXAttrOrSpread::JSXAttr(JSXAttr {
         name: JSXAttrName::Ident(IdentName::new(
-- 
2.43.0


From c3ac268d438329ffd43b4616330ed4ee8efe1d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:55:59 +0000
Subject: [PATCH 139/151] fix: write strings with quotes, backslashes and
 ampersands as JSX expressions

---
 crates/oxvg_jsx/src/swc.rs        | 20 ++++++++++++++++----
 crates/oxvg_jsx/src/swc/preset.rs | 25 ++++++++++++++++++-------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index 5b1414f..54b0a8b 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -312,14 +312,26 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
                 }))),
             })
         }
-        value => JSXAttrValue::Str(
-            value
+        value => str_to_jsx_value(
+            &value
                 .to_value_string(PrinterOptions {
                     minify: true,
                     ..PrinterOptions::default()
                 })
-                .map_err(|_| BuildError::PrinterError)?
-                .into(),
+                .map_err(|_| BuildError::PrinterError)?,
         ),
     })
 }
+
+/// JSX strings have no escapes but have character references, so any such string is given as an
+/// expression.
+pub(crate) fn str_to_jsx_value(value: &str) -> JSXAttrValue {
+    if value.contains(['"', '\\', '&']) || value.contains(char::is_control) {
+        JSXAttrValue::JSXExprContainer(JSXExprContainer {
+            span: DUMMY_SP,
+            expr: JSXExpr::Expr(Box::new(value.into())),
+        })
+    } else {
+        JSXAttrValue::Str(value.into())
+    }
+}
diff --git a/crates/oxvg_jsx/src/swc/preset.rs b/crates/oxvg_jsx/src/swc/preset.rs
index c0ef524..da80e9a 100644
--- a/crates/oxvg_jsx/src/swc/preset.rs
+++ b/crates/oxvg_jsx/src/swc/preset.rs
@@ -15,6 +15,7 @@ use swc_ecma_lexer::{common::parser::Parser as _, Lexer, Parser, StringInput, Sy
 use crate::{
     config::{ExpandProps, Icon},
     error::{ConfigError, Error},
+    swc::str_to_jsx_value,
     BuildError, Config,
 };
 
@@ -114,8 +115,8 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
         }
         Some(Icon::String(str)) => {
             let str = str.as_str();
-            set_attribute(svg_element, "width", JSXAttrValue::Str(str.into()), true);
-            set_attribute(svg_element, "height", JSXAttrValue::Str(str.into()), true);
+            set_attribute(svg_element, "width", str_to_jsx_value(str), true);
+            set_attribute(svg_element, "height", str_to_jsx_value(str), true);
         }
         Some(Icon::Number(value)) => {
             let attr = JSXAttrValue::JSXExprContainer(JSXExprContainer {
@@ -395,7 +396,18 @@ fn parse_templatable_attr(template: &str) -> Result<JSXAttrValue, ConfigError> {
             expr: JSXExpr::Expr(expr),
         }))
     } else {
-        Ok(JSXAttrValue::Str(template.into()))
+        Ok(str_to_jsx_value(template))
+    }
+}
+
+fn is_str(value: &JSXAttrValue, expected: &str) -> bool {
+    match value {
+        JSXAttrValue::Str(str) => str.value.as_bytes() == expected.as_bytes(),
+        JSXAttrValue::JSXExprContainer(JSXExprContainer {
+            expr: JSXExpr::Expr(expr),
+            ..
+        }) => matches!(&**expr, Expr::Lit(Lit::Str(str)) if str.value.as_bytes() == expected.as_bytes()),
+        _ => false,
     }
 }
 
@@ -406,10 +418,9 @@ fn set_value_recursive(root: &mut JSXElementChild, old_value: &str, new_value: &
                 if let JSXAttrOrSpread::JSXAttr(JSXAttr {
                     value: Some(value), ..
                 }) = attr
-                    && let JSXAttrValue::Str(str) = &value
-                        && str.value.as_bytes() == old_value.as_bytes() {
-                            *value = new_value.clone();
-                        }
+                    && is_str(value, old_value) {
+                        *value = new_value.clone();
+                    }
             }
             for child in &mut element.children {
                 set_value_recursive(child, old_value, new_value);
-- 
2.43.0


From 3f28f0fc2501cfa6ce0cb9dff70d9ae7073dce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:56:18 +0000
Subject: [PATCH 140/151] fix: keep important declarations of styles in JSX

---
 crates/oxvg_jsx/src/swc.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index 54b0a8b..4d1bfe5 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -281,9 +281,8 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
         }
         ContentType::Style(value) => {
             let props = value
-                .declarations
                 .iter()
-                .map(|decl| {
+                .map(|(decl, important)| {
                     let name = match decl.property_id() {
                         PropertyId::Custom(CustomPropertyName::Custom(name)) => {
                             name.0.as_ref().to_string()
@@ -296,11 +295,15 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
                         } else {
                             PropName::Ident(IdentName::new(name.into(), DUMMY_SP))
                         },
-                        value: Box::new(
-                            decl.value_to_css_string(PrinterOptions::default())
-                                .map_err(|_| BuildError::PrinterError)?
-                                .into(),
-                        ),
+                        value: Box::new({
+                            let mut value = decl
+                                .value_to_css_string(PrinterOptions::default())
+                                .map_err(|_| BuildError::PrinterError)?;
+                            if important {
+                                value.push_str(" !important");
+                            }
+                            value.into()
+                        }),
                     }))))
                 })
                 .collect::<Result<Vec<_>, BuildError>>()?;
-- 
2.43.0


From 5295c816bede784eead674ec714dd82b1f7b68e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:56:19 +0000
Subject: [PATCH 141/151] fix: keep data attributes in JSX

---
 crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs b/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
index 7a44aa5..a947b7a 100644
--- a/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
+++ b/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
@@ -289,7 +289,11 @@ pub fn attr_to_jsx_str<'input>(attr: &AttrId<'input>) -> Result<Atom<'input>, Bu
                 "srcset" => "srcSet",
                 "usemap" => "useMap",
                 str => {
-                    if str.chars().all(char::is_alphanumeric) {
+                    let is_custom = str.starts_with("data-") || str.starts_with("aria-");
+                    if str
+                        .chars()
+                        .all(|char| char.is_alphanumeric() || is_custom && char == '-')
+                    {
                         return Ok(local_name.clone());
                     }
                     return Err(BuildError::InvalidJSXName(local_name.clone()));
-- 
2.43.0


From df9ce3db5fc4e6b6362a2b248115c4f420c80aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:56:22 +0000
Subject: [PATCH 142/151] fix: write JSX props and imports in the same order
 every time

---
 crates/oxvg_jsx/src/swc/get_variables.rs | 2 +-
 crates/oxvg_jsx/src/swc/preset.rs        | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc/get_variables.rs b/crates/oxvg_jsx/src/swc/get_variables.rs
index e77311c..75e71f3 100644
--- a/crates/oxvg_jsx/src/swc/get_variables.rs
+++ b/crates/oxvg_jsx/src/swc/get_variables.rs
@@ -87,7 +87,7 @@ impl Variables {
                     is_type_only: false,
                 }));
             }
-            specifiers.extend(opts.native_idents.iter().filter(|i| **i != "Svg").map(|i| {
+            specifiers.extend(opts.native_idents.iter().sorted().filter(|i| **i != "Svg").map(|i| {
                 ImportSpecifier::Named(ImportNamedSpecifier {
                     span: DUMMY_SP,
                     local: i.as_str().into(),
diff --git a/crates/oxvg_jsx/src/swc/preset.rs b/crates/oxvg_jsx/src/swc/preset.rs
index da80e9a..f66572e 100644
--- a/crates/oxvg_jsx/src/swc/preset.rs
+++ b/crates/oxvg_jsx/src/swc/preset.rs
@@ -1,6 +1,7 @@
 //! A reimplementation of `@svgr/babel-preset` and it's `@svgr` dependencies in Rust.
 use std::collections::HashSet;
 
+use itertools::Itertools as _;
 use swc_core::{
     common::{BytePos, DUMMY_SP},
     ecma::ast::{
@@ -39,7 +40,7 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
         .map_err(Error::BuildError)?;
 
     if let Some(svg_props) = &config.svg_props {
-        for (key, value) in svg_props {
+        for (key, value) in svg_props.iter().sorted() {
             let attr = parse_templatable_attr(value).map_err(Error::ConfigError)?;
             set_attribute(svg_element, key, attr, true);
         }
@@ -146,7 +147,7 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
     }
 
     if let Some(replace_attr_values) = &config.replace_attr_values {
-        for (key, value) in replace_attr_values {
+        for (key, value) in replace_attr_values.iter().sorted() {
             let attr = parse_templatable_attr(value).map_err(Error::ConfigError)?;
             set_value_recursive(jsx, key, &attr);
         }
-- 
2.43.0


From 4a9209ffee006b62977936788e51845d69ac40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:05:00 +0000
Subject: [PATCH 143/151] fix: leave processing instructions out of JSX

---
 crates/oxvg_jsx/src/swc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index 4d1bfe5..44b16bc 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -95,7 +95,7 @@ pub fn to_jsx<'input>(
             .to_css_string(PrinterOptions::default())
             .map_err(|_| BuildError::PrinterError)
             .map(|value| text_to_jsx(&value)),
-        NodeData::PI { value, .. } | NodeData::Text(value) => {
+        NodeData::Text(value) => {
             if let Some(value) = value.borrow().as_ref() {
                 // White space between elements is only rendered as part of text content
                 let is_rendered = !value.trim().is_empty()
@@ -110,7 +110,7 @@ pub fn to_jsx<'input>(
                 }))
             }
         }
-        NodeData::Comment(_) => Ok(JSXElementChild::JSXExprContainer(JSXExprContainer {
+        NodeData::PI { .. } | NodeData::Comment(_) => Ok(JSXElementChild::JSXExprContainer(JSXExprContainer {
             expr: JSXExpr::JSXEmptyExpr(JSXEmptyExpr { span: DUMMY_SP }),
             span: DUMMY_SP,
         })),
-- 
2.43.0


From 61494f0366776fe2a8a4cf46574ec350b8193b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:05:34 +0000
Subject: [PATCH 144/151] fix: do not join the rules of style sheets by commas
 in JSX

---
 crates/oxvg_jsx/src/swc.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index 44b16bc..ddf3bf4 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -91,7 +91,6 @@ pub fn to_jsx<'input>(
         },
         NodeData::Style(style) => style
             .borrow()
-            .0
             .to_css_string(PrinterOptions::default())
             .map_err(|_| BuildError::PrinterError)
             .map(|value| text_to_jsx(&value)),
-- 
2.43.0


From bab86c3b74dd184287a4df7e645e9ca10d008e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:06:03 +0000
Subject: [PATCH 145/151] fix: keep white space of links in text in JSX

---
 crates/oxvg_jsx/src/swc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index ddf3bf4..3362d93 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -100,7 +100,7 @@ pub fn to_jsx<'input>(
                 let is_rendered = !value.trim().is_empty()
                     || node
                         .parent_node()
-                        .is_some_and(|parent| is_element!(parent, Text | TSpan | TextPath));
+                        .is_some_and(|parent| is_element!(parent, Text | TSpan | TextPath | A));
                 Ok(text_to_jsx(if is_rendered { value } else { "" }))
             } else {
                 Ok(JSXElementChild::JSXExprContainer(JSXExprContainer {
-- 
2.43.0


From ef620f4591233727ae6ad026177257337741118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:19:35 +0000
Subject: [PATCH 146/151] fix: do not take curves that end where they start for
 arcs

---
 crates/oxvg_path/src/geometry/arc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_path/src/geometry/arc.rs b/crates/oxvg_path/src/geometry/arc.rs
index 70dd17c..6ad6082 100644
--- a/crates/oxvg_path/src/geometry/arc.rs
+++ b/crates/oxvg_path/src/geometry/arc.rs
@@ -659,6 +659,10 @@ impl Arc {
         tolerance: &Tolerance,
         tolerance_squared: ToleranceSquared,
     ) -> Option<Self> {
+        // The sweep of a curve that ends where it starts cannot be told from its ends
+        if start.distance_squared(curve.end_point) < *tolerance_squared {
+            return None;
+        }
         let ellipses = Ellipses::fit_curve(curve, start, tolerance)?;
         let tolerance = ellipses.ellipse_tolerance(tolerance_squared);
         let start_angle = ellipses.angle_at_point(start, tolerance)?;
-- 
2.43.0


From 791981b58d8b4e08109d0b4cca2fdb0ce4da46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:33:03 +0000
Subject: [PATCH 147/151] fix: remove elements without stroke or fill only when
 both are missing

With removeNone, removeUselessStrokeAndFill deleted shapes that have no
stroke but are filled, and shapes that have no fill but are stroked.
---
 .../jobs/remove_useless_stroke_and_fill.rs    | 43 +++++++++++++------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
index cb15c5e..eb5cb40 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
@@ -121,6 +121,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
             .map_err(JobsError::ComputedStylesError)?;
         self.remove_stroke(element, &computed_styles);
         self.remove_fill(element, &computed_styles);
+        if self.options.remove_none {
+            let computed_styles = ComputedStyles::default()
+                .with_all(element, &context.query_has_stylesheet_result)
+                .map_err(JobsError::ComputedStylesError)?;
+            if is_unpainted(&computed_styles) {
+                log::debug!("removing element with no stroke or fill");
+                element.remove();
+            }
+        }
         Ok(())
     }
 
@@ -168,7 +177,7 @@ impl State<'_> {
         }
 
         let stroke = get_computed_style!(computed_styles, Stroke);
-        let mut is_stroke_eq_none = stroke
+        let is_stroke_eq_none = stroke
             .as_ref()
             .option()
             .is_some_and(|(stroke, _)| matches!(stroke.option_ref(), Some(SVGPaint::None)));
@@ -219,14 +228,8 @@ impl State<'_> {
             {
                 log::debug!("stroke is also inherited, setting to `none`");
                 set_attribute!(element, Stroke(Inheritable::Defined(SVGPaint::None)));
-                is_stroke_eq_none = true;
             }
         }
-
-        if is_stroke_eq_none && self.options.remove_none {
-            log::debug!("removing element with no stroke");
-            element.remove();
-        }
     }
 
     fn remove_fill<'input>(
@@ -239,7 +242,7 @@ impl State<'_> {
         }
 
         let fill = get_computed_style!(computed_styles, Fill);
-        let mut is_fill_eq_none = fill.as_ref().option().is_some_and(|fill| {
+        let is_fill_eq_none = fill.as_ref().option().is_some_and(|fill| {
             matches!(fill, (Inheritable::Defined(SVGPaint::None), Mode::Static))
         });
         let is_fill_none = fill
@@ -268,15 +271,29 @@ impl State<'_> {
 
             if fill.entry().is_none() || !is_fill_eq_none {
                 set_attribute!(element, Fill(Inheritable::Defined(SVGPaint::None)));
-                is_fill_eq_none = true;
             }
         }
+    }
+}
 
-        if is_fill_eq_none && self.options.remove_none {
-            log::debug!("removing element with no fill");
-            element.remove();
-        }
+/// Whether neither a stroke, a fill nor markers are painted
+fn is_unpainted(computed_styles: &ComputedStyles) -> bool {
+    if has_computed_style!(computed_styles, MarkerStart | MarkerMid | MarkerEnd) {
+        return false;
     }
+    let stroke = get_computed_style!(computed_styles, Stroke);
+    let is_stroke_none = stroke.entry().is_none_or(|stroke| {
+        matches!(
+            stroke,
+            Some((Inheritable::Defined(SVGPaint::None), Mode::Static))
+        )
+    });
+    let is_fill_none = get_computed_style!(computed_styles, Fill)
+        .option()
+        .is_some_and(|fill| {
+            matches!(fill, (Inheritable::Defined(SVGPaint::None), Mode::Static))
+        });
+    is_stroke_none && is_fill_none
 }
 
 impl Default for RemoveUselessStrokeAndFill {
-- 
2.43.0


From f52fd8c0c631f31e4f8fa9e289aad2d0ec0d5f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:36:07 +0000
Subject: [PATCH 148/151] fix: keep ellipses that a style sheet selects

convertShapeToPath looked for circle selectors instead of ellipse
selectors when it decided whether an ellipse can become a path.
---
 crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
index 5084047..f1ecc5c 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
@@ -181,7 +181,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
             }
 
             ElementId::Ellipse
-                if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Circle) =>
+                if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Ellipse) =>
             {
                 ConvertShapeToPath::ellipse_to_path(element, precision, context.info);
             }
-- 
2.43.0


From 7c19620afcd3b1ff0b8d421ebc90fa01a14531f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:41:35 +0000
Subject: [PATCH 149/151] fix: keep groups whose style would override a style
 sheet rule of the child

---
 crates/oxvg_optimiser/src/jobs/collapse_groups.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 8a05677..85d3975 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -297,6 +297,10 @@ fn is_stylesheet_overriding<'input, 'arena>(
     ComputedStyles::default()
         .with_style(child, &context.query_has_stylesheet_result)
         .map_or(true, |styles| {
+            // the styles of the group would override those of the stylesheet
+            if has_attribute!(node, Style) && !styles.is_empty() {
+                return true;
+            }
             node.attributes().into_iter().any(|attr| {
                 let name = attr.name();
                 name.attribute_group()
-- 
2.43.0


From 51526bfbf7f8c8d591930f53d88cae2b2fe75474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:42:06 +0000
Subject: [PATCH 150/151] fix: keep filter primitives with hidden visibility

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 987088f..0e68fae 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -19,7 +19,7 @@ use oxvg_collections::{
         Attr, core_attrs::NonWhitespace, inheritable::Inheritable, presentation::LengthPercentage,
         uncategorised::Radius,
     },
-    element::{ElementId, ElementInfo},
+    element::{ElementCategory, ElementId, ElementInfo},
 };
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -349,6 +349,14 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
         computed_styles: &ComputedStyles<'input>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> bool {
+        // Filter primitives aren't affected by `visibility` or `display`
+        if element
+            .qual_name()
+            .categories()
+            .contains(ElementCategory::FilterPrimitive)
+        {
+            return false;
+        }
         let mut is_hidden = false;
         // Hidden parts of text still take up space, and stops aren't affected by `visibility`
         if self.options.is_hidden.unwrap_or(true)
-- 
2.43.0


From 3b5059bfaf13466fcc30224cd7d2ee743336eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:01:42 +0000
Subject: [PATCH 151/151] fix: count the attributes of removed gradients only
 once

Leaving a nested svg element and then its parent subtracted the xlink
attributes of the same gradients twice, so the namespace declaration was
removed while it was still needed.
---
 crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 7f4c363..6d20c27 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -159,7 +159,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             return Ok(());
         }
 
-        for gradient in self.gradients_to_detach.borrow().values() {
+        for gradient in self.gradients_to_detach.take().values() {
             self.xlink_count
                 .set(self.xlink_count.get() - count_xlink(*gradient));
             gradient.remove();
-- 
2.43.0

