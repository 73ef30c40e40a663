From 0042fb9ceaf560dbf7af82cafc0e894f558b70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 01/19] fix: drop the deleted cells when deleting table rows or
 columns

Iterator::skip is lazy, so the deleted cells stayed in the grid and every
table row or column deletion (including undoing an insertion) panicked.
---
 aftermath-core/input_tree/src/input_tree.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/input_tree/src/input_tree.rs b/aftermath-core/input_tree/src/input_tree.rs
index 9fc4907..696cabc 100644
--- a/aftermath-core/input_tree/src/input_tree.rs
+++ b/aftermath-core/input_tree/src/input_tree.rs
@@ -123,15 +123,22 @@ impl Editable for InputTree {
                     (EditType::Delete, GridDirection::Row) => {
                         assert!(values.width() == old_size.0);
                         new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));
-                        let _ = old_grid.by_ref().skip(values.width() * values.height());
+                        old_grid
+                            .by_ref()
+                            .take(values.width() * values.height())
+                            .for_each(drop);
                         new_grid.extend(old_grid);
                     }
                     (EditType::Delete, GridDirection::Column) => {
                         assert!(values.height() == old_size.1);
                         for _ in 0..values.height() {
                             new_grid.extend(old_grid.by_ref().take(row_or_column.0));
-                            let _ = old_grid.by_ref().skip(values.width());
-                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));
+                            old_grid.by_ref().take(values.width()).for_each(drop);
+                            new_grid.extend(
+                                old_grid
+                                    .by_ref()
+                                    .take(old_size.0 - row_or_column.0 - values.width()),
+                            );
                         }
                     }
                 }
-- 
2.43.0


From f900ce468358963171ea24f21b490ea2b05ec121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 02/19] fix: move positions inside containers along with edits
 of an outer row

The step of the address that leaves the edited row comes right after the
shared prefix; one before it is an unrelated step (or an underflow when the
top row is edited).
---
 aftermath-core/input_tree/src/focus/row_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus/row_range.rs b/aftermath-core/input_tree/src/focus/row_range.rs
index 844f831..4b673e4 100644
--- a/aftermath-core/input_tree/src/focus/row_range.rs
+++ b/aftermath-core/input_tree/src/focus/row_range.rs
@@ -178,14 +178,14 @@ impl Editable for MinimalInputRowRange {
                     }
                 } else if edit.is_insert() {
                     // Child row insertion, if the edit is before the container, move the container
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if old_offset.0 <= row_index.0 {
                         let delta = new_offset.0 - old_offset.0;
                         row_index.0 += delta;
                     }
                 } else {
                     // Child row deletion
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {
                         // I'm inside the deleted range, move to the start of the edit
                         self.start = new_offset;
-- 
2.43.0


From 579beb169a43506344c2e232780fa9085836fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 03/19] fix: the top row has no index in a parent

InputFocusRow::index_in_parent subtracted one from an empty address.
---
 aftermath-core/input_tree/src/focus.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus.rs b/aftermath-core/input_tree/src/focus.rs
index 576520d..2ccbd47 100644
--- a/aftermath-core/input_tree/src/focus.rs
+++ b/aftermath-core/input_tree/src/focus.rs
@@ -99,9 +99,7 @@ impl<'a> InputFocusRow<'a> {
     }
 
     pub fn index_in_parent(&self) -> Option<usize> {
-        self.row_indices
-            .at(self.row_indices.len() - 1)
-            .map(|row_index| row_index.1)
+        self.row_indices.iter().last().map(|row_index| row_index.1)
     }
 
     pub fn offset_to_index(&self, offset: Offset, direction: HorizontalDirection) -> Option<usize> {
-- 
2.43.0


From 54b86b66d8f17b1ac94aea1acb78cdeb05cc0ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 04/19] fix: make grid selections rectangles

The rectangle of two cells was built from their cell numbers, so dragging
from the top right to the bottom left cell gave a 'rectangle' whose left edge
is right of its right edge, the width of a rectangle was that of the whole
grid, the height was one short unless it ended in the last column, and views
read the wrong cells.
---
 .../input_tree/src/grid/grid_view.rs          | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/aftermath-core/input_tree/src/grid/grid_view.rs b/aftermath-core/input_tree/src/grid/grid_view.rs
index 40c28ca..89e9cd1 100644
--- a/aftermath-core/input_tree/src/grid/grid_view.rs
+++ b/aftermath-core/input_tree/src/grid/grid_view.rs
@@ -16,9 +16,13 @@ impl<'a, T> Grid<T> for GridView<'a, T> {
     }
 
     fn get(&self, xy: Index2D) -> Option<&T> {
-        self.grid
-            .values
-            .get(xy.to_index_checked(self)? + self.range.start)
+        xy.to_index_checked(self)?;
+        let start = self.range.start_index();
+        self.grid.get(Index2D::new(
+            start.x + xy.x,
+            start.y + xy.y,
+            self.grid.width(),
+        ))
     }
 }
 
@@ -67,13 +71,15 @@ impl GridRectangle {
     }
 
     pub fn width(&self) -> usize {
-        self.width
+        self.end_index_inclusive()
+            .map(|end| (end.x + 1).saturating_sub(self.start_index().x))
+            .unwrap_or(0)
     }
 
     pub fn height(&self) -> usize {
-        let start_y = self.start / self.width;
-        let end_y = self.end / self.width;
-        end_y - start_y
+        self.end_index_inclusive()
+            .map(|end| end.y + 1 - self.start_index().y)
+            .unwrap_or(0)
     }
 
     pub fn size(&self) -> (usize, usize) {
@@ -104,11 +110,19 @@ impl GridRectangle {
         end_index: Index2D,
         grid: &impl Grid<T>,
     ) -> Self {
-        let mut start_index = start_index.to_index_checked(grid).unwrap();
-        let mut end_index = end_index.to_index_checked(grid).unwrap();
-        if start_index > end_index {
-            std::mem::swap(&mut start_index, &mut end_index);
-        }
-        Self::new(start_index..(end_index + 1), grid.width())
+        let width = grid.width();
+        let top_left = Index2D::new(
+            start_index.x.min(end_index.x),
+            start_index.y.min(end_index.y),
+            width,
+        );
+        let bottom_right = Index2D::new(
+            start_index.x.max(end_index.x),
+            start_index.y.max(end_index.y),
+            width,
+        );
+        let start = top_left.to_index_checked(grid).unwrap();
+        let end = bottom_right.to_index_checked(grid).unwrap();
+        Self::new(start..(end + 1), width)
     }
 }
-- 
2.43.0


From c24901656d6d7863584d47253bd4a5e5e27dd90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 05/19] fix: don't step to a cell in front of the first one

Moving left out of the first cell of a container subtracted one from
cell index 0.
---
 aftermath-core/caret/src/primitive/movement.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index a875e21..64f73e4 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -184,11 +184,11 @@ impl NavigationSettings {
     ) -> Option<InputRowPosition<'a>> {
         let parent = caret.row_focus.clone().parent()?;
 
-        let adjacent_index = caret.row_focus.index_in_parent().map(|v| {
+        let adjacent_index = caret.row_focus.index_in_parent().and_then(|v| {
             if direction == HorizontalDirection::Left {
-                v - 1
+                v.checked_sub(1)
             } else {
-                v + 1
+                Some(v + 1)
             }
         });
         let adjacent_child =
-- 
2.43.0


From f27eef504f4840ef2da3346d790d45584fef83f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 06/19] fix: recheck the whole autocorrected text

The caret position passed to the matcher was relative to the row instead
of the values that were passed along with it, so that autocorrect
panicked or never applied, depending on where in the row the text was.
---
 aftermath-core/caret/src/math_editor.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index a7c60f5..88317b0 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -307,11 +307,7 @@ impl MathEditor {
         // It might no longer be a perfect match, so we need to check again
         let is_perfect_match = autocorrect
             .rule
-            .matches(
-                autocomplete_range.values(),
-                autocomplete_range.left_offset().0,
-                1,
-            )
+            .matches(autocomplete_range.values(), autocomplete_range.len(), 1)
             .iter()
             .any(|rule_match| rule_match.is_complete_match());
 
-- 
2.43.0


From 1cee705073cc89bb8cf8c8edc01269dfdb495a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 07/19] fix: keep the caret valid when splicing

splice_at_range, which also implements accepting an autocomplete and
autocorrect, put the caret back to where it was in the old document. That
place might no longer exist or hold other content, and redo disagreed
with it. The caret now stays with its content, behind the new content if
it was right behind the replaced content.
---
 aftermath-core/caret/src/math_editor.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index 88317b0..0af9151 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -367,18 +367,25 @@ impl MathEditor {
         // Move caret
         // Apply edit
         // Merge edit into undo stack
-        let caret_before = self.caret.clone();
         let mut caret = self.caret.clone();
         let mut builder = EditorActionBuilder::new(self);
-        let (basic_edit, _) = BasicEdit::replace_range(
+        let (basic_edit, new_range) = BasicEdit::replace_range(
             &InputRowRange::from_minimal(builder.input.root_focus(), &range),
             values,
         );
-        caret.start_position.apply_edits(&basic_edit);
-        caret.end_position.apply_edits(&basic_edit);
+        for position in [&mut caret.start_position, &mut caret.end_position] {
+            if range.start != range.end
+                && position.row_indices == range.row_indices
+                && position.offset == range.start.max(range.end)
+            {
+                // Stay after the content that was replaced
+                position.offset = new_range.end;
+            } else {
+                position.apply_edits(&basic_edit);
+            }
+        }
         builder.add_edits(basic_edit);
         builder.finish(caret);
-        self.caret = caret_before;
     }
 }
 
-- 
2.43.0


From dd128d0d26d50eda3d239a90ce6262a42f4c73db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 08/19] fix: match symbols of any length when autocompleting

Empty symbols and rules with multi-byte characters made the search for
the last symbol panic, and the reported length of the match was wrong
when the last symbol had more than one byte.
---
 aftermath-core/parser/src/autocomplete.rs | 60 ++++++-----------------
 1 file changed, 15 insertions(+), 45 deletions(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index a24121d..02931f4 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -68,18 +68,6 @@ impl AutocompleteRule {
     }
 }
 
-/// Returns the indices of all occurences of needle in haystack.
-/// Can return overlapping ranges.
-fn indices_of(needle: &str, haystack: &str) -> Vec<usize> {
-    let mut indices = Vec::new();
-    let mut i = 0;
-    while let Some(index) = haystack[i..].find(needle).map(|v| v + i) {
-        indices.push(index);
-        i = index + 1;
-    }
-    indices
-}
-
 impl AutocompleteMatcher for AutocompleteRule {
     fn matches<'b>(
         &'b self,
@@ -89,44 +77,26 @@ impl AutocompleteMatcher for AutocompleteRule {
     ) -> Vec<AutocompleteRuleMatch<'b>> {
         assert!(!self.parser.is_empty());
         let input = &input[0..caret_position];
-        // Contains the *exclusive* end indices in the parser
-        // e.g.
-        // parser = "lim"
-        // input = "m slimm"
-        // matching_ranges = [0, 5, 6]
-        let mut potential_matches = vec![];
-        // Initialize matching_ranges
-        if let Some(InputNode::Symbol(starting_symbol)) = input.last() {
-            for i in indices_of(starting_symbol.as_str(), &self.parser) {
-                potential_matches.push(i);
-            }
-        }
-
         let mut matches = Vec::new();
-        for parser_end_index in potential_matches {
-            let mut parser_current_index = parser_end_index;
-            let mut symbol_count = 1; // The init already matched one symbol
-            let mut input_reverse = input.iter().rev().skip(symbol_count);
-            while let Some(InputNode::Symbol(symbol)) = input_reverse.next() {
-                if self.parser[0..parser_current_index].ends_with(symbol) {
-                    // Match
-                    parser_current_index -= symbol.len();
-                    symbol_count += 1;
-                } else {
-                    // Not a match
-                    break;
-                }
+        // The text of the last symbols
+        let mut text = String::new();
+        for (index, node) in input.iter().rev().enumerate() {
+            let InputNode::Symbol(symbol) = node else {
+                break;
+            };
+            text.insert_str(0, symbol);
+            if text.len() > self.parser.len() {
+                break;
             }
 
-            if parser_current_index == 0 {
-                if symbol_count < min_rule_match_length {
-                    continue;
-                }
-
-                // Matched the whole parser
+            let symbol_count = index + 1;
+            if symbol_count >= min_rule_match_length
+                && !text.is_empty()
+                && self.parser.starts_with(&text)
+            {
                 matches.push(AutocompleteRuleMatch {
                     rule: self,
-                    rule_match_length: parser_end_index + 1,
+                    rule_match_length: text.len(),
                     input_match_length: symbol_count,
                 })
             }
-- 
2.43.0


From 0b11a0fea9a86f365aef66c0b2537641e91e5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 09/19] fix: move past repeated matches of a rule in the
 autocomplete

---
 aftermath-core/caret/src/autocomplete.rs | 10 +++++++
 aftermath-core/caret/src/math_editor.rs  | 33 ++++++++++++++----------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/aftermath-core/caret/src/autocomplete.rs b/aftermath-core/caret/src/autocomplete.rs
index 7426646..ddceaf2 100644
--- a/aftermath-core/caret/src/autocomplete.rs
+++ b/aftermath-core/caret/src/autocomplete.rs
@@ -67,6 +67,16 @@ impl<'a> AutocompleteResults<'a> {
         self.matches.get(self.selected_index).unwrap()
     }
 
+    /// The selected rule, and how many matches of the same rule are in front of it
+    pub fn get_selected_occurrence(&self) -> (AutocompleteRule, usize) {
+        let rule = self.get_selected().rule;
+        let occurrence = self.matches[..self.selected_index]
+            .iter()
+            .filter(|v| v.rule == rule)
+            .count();
+        (rule.clone(), occurrence)
+    }
+
     pub fn move_selection(&mut self, direction: VerticalDirection) {
         match direction {
             VerticalDirection::Up => {
diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index 0af9151..91119cc 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -278,8 +278,9 @@ impl MathEditor {
     pub fn move_in_autocomplete(&mut self, direction: VerticalDirection) -> Option<()> {
         let mut autocomplete = self.get_autocomplete()?;
         autocomplete.move_selection(direction);
-        let rule = autocomplete.get_selected().rule.clone();
-        self.autocomplete_state.set_current_autocomplete(Some(rule));
+        let current = autocomplete.get_selected_occurrence();
+        self.autocomplete_state
+            .set_current_autocomplete(Some(current));
         Some(())
     }
 
@@ -390,8 +391,9 @@ impl MathEditor {
 }
 
 pub struct AutocompleteState {
-    /// Autocomplete rule that the main caret was last on
-    current_autocomplete: Option<AutocompleteRule>,
+    /// Autocomplete rule that the main caret was last on.
+    /// A rule can be offered multiple times, so this includes which one of its occurrences it was.
+    current_autocomplete: Option<(AutocompleteRule, usize)>,
 }
 
 impl Default for AutocompleteState {
@@ -422,18 +424,23 @@ impl AutocompleteState {
         let selected_index = self
             .current_autocomplete
             .take()
-            .and_then(|last_rule| matches.iter().position(|v| v.rule == &last_rule))
+            .and_then(|(last_rule, occurrence)| {
+                matches
+                    .iter()
+                    .enumerate()
+                    .filter(|(_, v)| v.rule == &last_rule)
+                    .map(|(index, _)| index)
+                    .take(occurrence + 1)
+                    .last()
+            })
             .unwrap_or(0);
 
-        self.current_autocomplete = matches.get(selected_index).map(|v| v.rule.clone());
-        Some(AutocompleteResults::new(
-            selected_index,
-            matches,
-            caret_position,
-        ))
+        let results = AutocompleteResults::new(selected_index, matches, caret_position);
+        self.current_autocomplete = Some(results.get_selected_occurrence());
+        Some(results)
     }
 
-    pub fn set_current_autocomplete(&mut self, rule: Option<AutocompleteRule>) {
-        self.current_autocomplete = rule;
+    pub fn set_current_autocomplete(&mut self, current: Option<(AutocompleteRule, usize)>) {
+        self.current_autocomplete = current;
     }
 }
-- 
2.43.0


From b6e7e3fe8b9b97fdf8f91a30ae0099ea5d488a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 10/19] fix: reject serialized containers with the wrong number
 of cells

---
 aftermath-core/input_tree/src/grid.rs   |  5 +++++
 aftermath-core/input_tree/src/node.rs   | 23 ++++++++++++++++++++++-
 aftermath-core/serialization/src/lib.rs |  5 +++++
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/aftermath-core/input_tree/src/grid.rs b/aftermath-core/input_tree/src/grid.rs
index b4ab251..c7383fd 100644
--- a/aftermath-core/input_tree/src/grid.rs
+++ b/aftermath-core/input_tree/src/grid.rs
@@ -73,6 +73,11 @@ impl<T> GridVec<T> {
         self.values.is_empty()
     }
 
+    /// Do the values fill the rows of the grid? Always true, except for grids that were just deserialized.
+    pub fn is_valid(&self) -> bool {
+        self.width > 0 && self.values.len() % self.width == 0
+    }
+
     pub fn get_view(&self, range: GridRectangle) -> GridView<'_, T> {
         GridView::new(self, range)
     }
diff --git a/aftermath-core/input_tree/src/node.rs b/aftermath-core/input_tree/src/node.rs
index 7375313..c2da51e 100644
--- a/aftermath-core/input_tree/src/node.rs
+++ b/aftermath-core/input_tree/src/node.rs
@@ -3,7 +3,7 @@ use std::fmt;
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    grid::{GridVec, Index2D},
+    grid::{Grid, GridVec, Index2D},
     print_helpers::write_with_escaped_double_quotes,
 };
 
@@ -110,6 +110,27 @@ impl InputNode {
         }
     }
 
+    /// Do this node and all nodes inside it have the cells that their types need?
+    /// Always true, except for nodes that were just deserialized.
+    pub fn is_valid(&self) -> bool {
+        match self {
+            InputNode::Container(variant, grid) => {
+                let is_valid_size = grid.is_valid()
+                    && match variant {
+                        InputNodeVariant::Fraction => grid.size() == (1, 2),
+                        InputNodeVariant::Root => grid.size() == (2, 1),
+                        InputNodeVariant::Sup | InputNodeVariant::Sub => grid.size() == (1, 1),
+                        InputNodeVariant::Table => !grid.is_empty(),
+                    };
+                is_valid_size
+                    && grid
+                        .values()
+                        .all(|row| row.values.iter().all(InputNode::is_valid))
+            }
+            InputNode::Symbol(_) => true,
+        }
+    }
+
     pub fn has_resizable_grid(&self) -> bool {
         match self {
             InputNode::Container(variant, _) => variant.has_resizable_grid(),
diff --git a/aftermath-core/serialization/src/lib.rs b/aftermath-core/serialization/src/lib.rs
index bf2e4af..cdfcbef 100644
--- a/aftermath-core/serialization/src/lib.rs
+++ b/aftermath-core/serialization/src/lib.rs
@@ -22,6 +22,8 @@ struct SerializedData<T> {
 pub enum SerializationError {
     #[error("Could not serialize as JSON")]
     JsonInputTree(#[from] serde_json::Error),
+    #[error("The data contains a container with the wrong number of cells")]
+    InvalidInputTree,
 }
 
 // Later we could also serialize the parse tree, and do smort things like "warning: definition of e has changed"
@@ -46,6 +48,9 @@ pub fn deserialize_input_nodes(
         Some(SerializedDataType::JsonInputTree) => {
             let data: SerializedData<Vec<InputNode>> = serde_json::from_str(&data)?;
             // TODO: Migrate data to latest version?
+            if !data.data.iter().all(InputNode::is_valid) {
+                return Err(SerializationError::InvalidInputTree);
+            }
             Ok(data.data)
         }
         None => {
-- 
2.43.0


From eacab1117c0d933313bde446e3a13d8c6225646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 11/19] fix: don't record edits that change nothing

---
 aftermath-core/caret/src/editor_action_builder.rs   | 6 ++++--
 aftermath-core/input_tree/src/editing/basic_edit.rs | 8 ++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/caret/src/editor_action_builder.rs b/aftermath-core/caret/src/editor_action_builder.rs
index ee17d2d..6358a34 100644
--- a/aftermath-core/caret/src/editor_action_builder.rs
+++ b/aftermath-core/caret/src/editor_action_builder.rs
@@ -25,11 +25,13 @@ impl<'editor> EditorActionBuilder<'editor> {
     }
 
     pub fn add_edit(&mut self, edit: BasicEdit) {
-        self.edits.push(edit);
+        self.add_edits(vec![edit]);
     }
 
     pub fn add_edits(&mut self, edits: Vec<BasicEdit>) {
-        self.edits.extend(edits);
+        // Edits that don't change anything shouldn't end up on the undo stack
+        self.edits
+            .extend(edits.into_iter().filter(|edit| !edit.is_empty()));
     }
 
     pub fn discard(self) {
diff --git a/aftermath-core/input_tree/src/editing/basic_edit.rs b/aftermath-core/input_tree/src/editing/basic_edit.rs
index 51ad079..c5ecd3d 100644
--- a/aftermath-core/input_tree/src/editing/basic_edit.rs
+++ b/aftermath-core/input_tree/src/editing/basic_edit.rs
@@ -88,6 +88,14 @@ impl BasicEdit {
         )
     }
 
+    /// Does this edit not change anything?
+    pub fn is_empty(&self) -> bool {
+        match self {
+            BasicEdit::Row(edit) => edit.values.is_empty(),
+            BasicEdit::Grid(edit) => edit.values.is_empty(),
+        }
+    }
+
     pub fn get_row_indices_edit(&self) -> RowIndicesEdit<'_> {
         match self {
             BasicEdit::Row(edit) => edit.get_row_indices_edit(),
-- 
2.43.0


From 2f8ac953e91213c10f0748108f74256551a94bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 12/19] fix: keep the symbols of operators apart

A leaf's symbols are its grapheme clusters, but the letters of lim, limsup and
liminf were joined into one, so the caret was shown at the end of the operator
while it was inside.
---
 aftermath-core/parser/src/make_parser.rs       | 2 +-
 aftermath-core/parser/src/parser_extensions.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/parser/src/make_parser.rs b/aftermath-core/parser/src/make_parser.rs
index bf2412f..079e73c 100644
--- a/aftermath-core/parser/src/make_parser.rs
+++ b/aftermath-core/parser/src/make_parser.rs
@@ -70,7 +70,7 @@ impl MakeParser for MakeSymbolsParser {
     fn build<'a>(&self, _parser: RcPrattParserType<'a, 'a>) -> BoxedTokenParser<'a, 'a> {
         let node_type = self.node_type;
         just_symbols(&self.symbols)
-            .map(move |v| SyntaxNodeBuilder::new_leaf_node(vec![v], node_type))
+            .map(move |v| SyntaxNodeBuilder::new_leaf_node(v, node_type))
             .with_ctx(())
             .boxed()
     }
diff --git a/aftermath-core/parser/src/parser_extensions.rs b/aftermath-core/parser/src/parser_extensions.rs
index d2f6a51..5a262a6 100644
--- a/aftermath-core/parser/src/parser_extensions.rs
+++ b/aftermath-core/parser/src/parser_extensions.rs
@@ -12,7 +12,7 @@ pub fn just_symbol<'a, E: ParserExtra<'a, &'a [InputNode]>>(
 
 pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
     symbols: &[String],
-) -> impl chumsky::Parser<'a, &'a [InputNode], String, E> {
+) -> impl chumsky::Parser<'a, &'a [InputNode], Vec<String>, E> {
     let symbol_nodes = symbols
         .iter()
         .map(|v| InputNode::Symbol(v.clone()))
@@ -23,6 +23,6 @@ pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
                 InputNode::Symbol(v) => v,
                 _ => panic!("Expected symbol"),
             })
-            .collect::<String>()
+            .collect::<Vec<_>>()
     })
 }
-- 
2.43.0


From ea2bde9169b7d1404ac080e8fac912630990cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 13/19] fix: show tables without cells

They can be pasted or come from an empty mtable.
---
 src/mathml/renderer/rendered-table-element.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mathml/renderer/rendered-table-element.ts b/src/mathml/renderer/rendered-table-element.ts
index 96297e7..409969d 100644
--- a/src/mathml/renderer/rendered-table-element.ts
+++ b/src/mathml/renderer/rendered-table-element.ts
@@ -15,7 +15,6 @@ export class TableMathMLElement implements RenderedElement<MathMLElement> {
     public rowIndex: RowIndex | null,
     renderer: Renderer<MathMLElement>
   ) {
-    assert(syntaxTree.children.NewRows.values.length > 0, "Needs at least one child");
     this.element = new RenderedMathML(createMathElement("mtable", []));
     this.startBaselineReader = createMathElement("mphantom", []);
     this.endBaselineReader = createMathElement("mphantom", []);
@@ -38,11 +37,10 @@ export class TableMathMLElement implements RenderedElement<MathMLElement> {
     }
     this.element.setChildrenCustom(tableCells, children);
     assert(
-      children.length === Math.floor(this.syntaxTree.children.NewRows.values.length / this.syntaxTree.children.NewRows.width),
+      children.length * this.syntaxTree.children.NewRows.width === this.syntaxTree.children.NewRows.values.length,
       "Invalid number of children"
     );
     assert(this.element.getChildren().length === this.syntaxTree.children.NewRows.values.length, "Invalid number of children");
-    assert(this.element.getChildren().length > 0, "Needs at least one rendered child");
   }
 
   getCaretSize() {
-- 
2.43.0


From 5c43091f252660a4adfcb69ff5fc470a6ea87057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 14/19] fix: show sub and superscripts next to spaces

The operator is inside a whitespaces node then, its children aren't new rows.
---
 src/mathml/renderer.ts | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index e36f556..1fe4089 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -83,7 +83,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
@@ -93,7 +92,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-- 
2.43.0


From 5a42f5184d0ee14cb1dec866d92604b1d9f1626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 15/19] fix: give scripts their own row index

In a nested row, the script took over the index of the row that it stands in. It
got added twice when clicking, which resulted in invalid positions.
---
 src/mathml/renderer.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index 1fe4089..201776b 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -84,18 +84,18 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, operatorRowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-            return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
+            return new RowsContainerMathMLElement(node, operatorRowIndex, "mrow", this);
           },
         });
       });
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, operatorRowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-            return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
+            return new RowsContainerMathMLElement(node, operatorRowIndex, "mrow", this);
           },
         });
       });
-- 
2.43.0


From 359481b05996db7811b8e1570c84fec29bc1d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 16/19] fix: report scripts without children

---
 src/mathml/parsing.ts | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 3574fd6..36940b3 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -102,25 +102,23 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
       root([wrapInRow(toMathLayout(children[1], errors)), wrapInRow(toMathLayout(children[0], errors))])
     );
   } else if (tagIs(element, "msub")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
-    return expectNChildren(element, 2, errors) ?? [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
+    return (
+      expectNChildren(element, 2, errors) ?? [
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
+        sub(wrapInRow(toMathLayout(children[1], errors))),
+      ]
+    );
   } else if (tagIs(element, "msup")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
-    return expectNChildren(element, 2, errors) ?? [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
+    return (
+      expectNChildren(element, 2, errors) ?? [
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
+        sup(wrapInRow(toMathLayout(children[1], errors))),
+      ]
+    );
   } else if (tagIs(element, "msubsup")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
     return (
       expectNChildren(element, 3, errors) ?? [
-        ...base,
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
         sub(wrapInRow(toMathLayout(children[1], errors))),
         sup(wrapInRow(toMathLayout(children[2], errors))),
       ]
-- 
2.43.0


From fb454f8c200aded5df401783f5afc2f743bfc02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 17/19] fix: keep what is in an mstyle element

---
 src/mathml/parsing.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 36940b3..6dcce65 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -78,7 +78,7 @@ function table(values: InputRow[], width: number): InputNode {
 function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode) | (InputRow | InputNode)[] {
   let children = [...element.children];
 
-  if (tagIs(element, "math", "mrow", "mtd")) {
+  if (tagIs(element, "math", "mrow", "mtd", "mstyle")) {
     // Uses flatMap so that msub can return two elements...
     return wrapInRow(children.flatMap((c) => toMathLayout(c, errors)));
   } else if (tagIs(element, "semantics") && children.length > 0) {
@@ -161,8 +161,6 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     );
 
     return table(tableCells, tableWidth);
-  } else if (tagIs(element, "mstyle")) {
-    return [];
   } else {
     errors.push(new Error("Unknown element " + element.tagName));
     return symbol("Error");
-- 
2.43.0


From 93e0a4c67982457859eb51a7030fd643bab943e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 18/19] fix: don't select when a pointer was pressed elsewhere

---
 src/component/math-editor.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 9607db6..3f3d39d 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -244,6 +244,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointerup", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       isPointerDown = false;
       const newPosition = getPointerPosition(e);
       if (newPosition) {
@@ -255,6 +256,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       isPointerDown = false;
 
       const newPosition = getPointerPosition(e);
-- 
2.43.0


From f19d4e1e7190178f887a548cae05ee26c34d071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:10 +0000
Subject: [PATCH 19/19] fix: show what an autocorrection during a selection
 changed

---
 src/component/math-editor.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 3f3d39d..34c8828 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -252,7 +252,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
@@ -265,7 +265,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     // For double clicking
     // - The dblclick event fires too late for text selection (text selection should happen on pointerdown)
@@ -280,11 +280,11 @@ export class MathEditor extends HTMLElement {
       if (clickCount === 2) {
         // double click select
         this.mathEditor.start_selection(newPosition, "Word");
-        this.renderCarets();
+        this.updateInput();
       } else if (clickCount === 3) {
         // triple click select
         this.mathEditor.start_selection(newPosition, "Line");
-        this.renderCarets();
+        this.updateInput();
       }
     });
     container.addEventListener("pointermove", (e) => {
@@ -294,7 +294,7 @@ export class MathEditor extends HTMLElement {
       const newPosition = getPointerPosition(e);
       if (!newPosition) return;
       this.mathEditor.extend_selection(newPosition);
-      this.renderCarets();
+      this.updateInput();
     });
   }
 
-- 
2.43.0

