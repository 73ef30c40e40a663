#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
IT="aftermath-core/input_tree/src/"; CA="aftermath-core/caret/src/"; PA="aftermath-core/parser/src/"; SE="aftermath-core/serialization/src/"
P=[]
def where(sym,files):
    tail=sym.split("::")[-1].split(" for ")[-1]
    for f in files:
        try: lines=open("/repo/"+f).read().split("\n")
        except OSError: continue
        for pat in ("fn "+tail,"struct "+tail,"trait "+tail,"enum "+tail,"for "+tail,tail):
            for i,l in enumerate(lines):
                if pat in l: return "%s:%d"%(f,i+1)
    return files[0]
def p(id,title,statement,over,text,why,files,symbols):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
                  why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=where(x,files)) for x in symbols])))
p("C01","Row edits change exactly the named nodes",
 "Applying an insert (delete) edit at a valid position of a row yields a document in which exactly the given nodes appear after (are gone from) that position, while every other node, row and container dimension keeps its content and order. The edit builders (remove a range, insert at a position, replace a range) return edits that perform exactly that change, together with the position or range that delimits the affected content.",
 ["inputs"],"every document, every row of it, every offset and range, every list of nodes",
 "the edit tests apply two hand-written edits to one-level documents; a splice that is wrong only in a nested row, at the end of a row, or for a multi-node edit passes them",
 [IT+"input_tree.rs",IT+"editing/basic_edit.rs"],["InputTree::apply_edit","BasicEdit::remove_range","BasicEdit::insert_at_position","BasicEdit::replace_range"])
p("C02","Table row and column edits change exactly the named cells",
 "Inserting (deleting) whole rows or columns of a table at a valid place gives a table of the correspondingly grown (shrunk) size that contains exactly the given cells at that place, and every other cell of the table keeps its content and relative order. Nothing outside the table changes.",
 ["inputs"],"every document containing a table, every table size, every row or column place and count, both directions, insert and delete",
 "the existing tests insert one row and one column into small tables and never delete a table row or column",
 [IT+"input_tree.rs",IT+"editing/basic_edit.rs",IT+"grid.rs"],["InputTree::apply_edit","GridEdit::new_grid_size","GridVec"])
p("C03","Inverting edits restores the document",
 "For any sequence of valid edits (row edits and table edits, in nested places), applying the inverses of the edits in reverse order restores the document exactly, and inverting an edit twice gives the same edit back. Applying the sequence again afterwards reproduces the edited document exactly.",
 ["inputs","histories"],"every document and every sequence of valid edits on it",
 "tests invert single inserts on tiny documents; sequences, deletes of containers and table deletes are not sampled",
 [IT+"editing/basic_edit.rs",IT+"editing/invertible.rs",IT+"input_tree.rs"],["Invertible","RowEdit::inverse","GridEdit::inverse"])
p("C04","Positions and ranges follow the content through row edits",
 "A position or range that was valid before a row edit is valid in the edited document and still lies at the same surviving content: places before the edit stay, places after it (including everything inside later containers) shift with the content, and places inside deleted content move to the point of the deletion. A range keeps its direction, and content inserted exactly at one of the boundaries of a range becomes part of it, while a position where content is inserted stays in front of that content.",
 ["inputs","histories"],"every document, every row edit in it, every position and range of the document (same row, ancestor row, descendant row, sibling cell)",
 "the range tests track three ranges that sit in the edited row itself; nothing tracks a position in a nested row across an edit of an outer row",
 [IT+"focus/row_range.rs",IT+"focus/row_position.rs",IT+"editing/row_indices_edit.rs"],["MinimalInputRowRange::apply_edit","MinimalInputRowPosition::apply_edit","RowEdit::get_row_indices_edit"])
p("C05","Positions are totally ordered in document order",
 "Comparing two positions of the same document agrees with their order in a left-to-right, depth-first walk through the document: before a container, then through its cells in order, then after it. The comparison is a strict total order (distinct positions are never equal, and it is antisymmetric and transitive), and range membership tests agree with it.",
 ["inputs"],"every document and every pair of its positions",
 "the order tests compare a handful of pairs in one fixed document",
 [IT+"row.rs",IT+"focus/row_position.rs",IT+"focus/row_range.rs"],["RowIndices::cmp_indices_and_offset","InputRowPosition::cmp","InputRowRange::contains"])
p("C06","Two positions span the smallest enclosing range",
 "The range built from two positions lies in the innermost row that contains both of them, encloses both, and is the smallest such range of whole nodes. It points forwards exactly when the first position is not after the second one.",
 ["inputs"],"every document and every ordered pair of its positions",
 "a few selections of one document are tested; pairs in different cells of nested containers are not",
 [IT+"input_tree.rs",IT+"row.rs",IT+"focus/row_range.rs"],["InputTree::range_from_positions","RowIndices::get_shared","InputRowRange"])
p("C07","Addresses and the content they denote agree",
 "Walking down an address reaches exactly the row stored there and reports that same address back; going to a child and then to its parent returns to where the walk started, at every level. Every cell, node and offset that exists is reachable by index, every index that does not exist is reported as absent without failing, and reading and modifying a cell through its index touch the same cell.",
 ["inputs"],"every document, every row, node and cell of it, and every index including out-of-range ones",
 "the focus test walks one path down and up in one document",
 [IT+"focus.rs",IT+"node.rs",IT+"row.rs"],["InputFocusRow","InputFocusNode","InputNode::row_mut","InputRow::offset_to_index"])
p("C08","The text form of a document is exact and unambiguous",
 "Printing a document lists every node in order with its kind, its table dimensions (width x height) and its cells, and quotes symbol text so that quotes and backslashes inside symbols cannot be confused with the surrounding syntax. Two different documents never print the same text.",
 ["inputs"],"every document, every symbol text including quotes, backslashes, spaces, parentheses and non-ASCII",
 "the printing tests compare a few fixed strings",
 [IT+"node.rs",IT+"row.rs",IT+"grid.rs",IT+"print_helpers.rs"],["Display for InputRow","Display for InputNode","Display for GridVec","write_with_escaped_double_quotes"])
p("C09","Serialized formulas round-trip and malformed ones are rejected",
 "Serializing any list of well-formed nodes and reading it back gives the same list, in the documented versioned envelope. Text that does not describe well-formed nodes (broken syntax, missing fields, a grid whose size does not match its cells, a container with the wrong number of cells, a table without cells) is rejected with an error instead of being turned into a document.",
 ["inputs","fault_sequences"],"every list of nodes, and every corruption of a serialized text (truncation, deleted or altered fields, wrong sizes)",
 "there are no tests of serialization at all",
 [SE+"lib.rs",IT+"grid.rs",IT+"node.rs"],["serialize_input_nodes","deserialize_input_nodes"])
p("C10","Grid cell indexing is a bijection with exact bounds",
 "For a grid of any size, linear cell numbers and (column, row) coordinates convert into each other without loss, in row-major order. Reading, writing and stepping to a coordinate succeed exactly when the target lies inside the grid and then touch exactly that cell; anything outside, or belonging to a grid of another width, is reported as absent.",
 ["inputs"],"every grid size, every coordinate inside and outside, every step",
 "no test addresses a grid cell by coordinates",
 [IT+"grid.rs",IT+"grid/index2d.rs"],["Index2D","GridVec::get","GridVec::set","GridVec::get_mut"])
p("C11","A table selection is the rectangle spanned by its two cells",
 "Selecting from one table cell to another, in either order and in any relative arrangement, selects the rectangle spanned by the two cells: its top-left and bottom-right corners, its width and its height are those of the smallest rectangle containing both cells. A view of that rectangle shows exactly the cells of the table inside it.",
 ["inputs"],"every table size and every ordered pair of cells",
 "the only grid selection test drags from the top-left to the bottom-right cell",
 [IT+"grid/grid_view.rs",IT+"focus/grid_range.rs",CA+"caret.rs"],["GridRectangle::from_indices_inclusive","GridView","InputGridRange","CaretSelection::from_positions"])
p("C12","Undo and redo restore earlier states exactly",
 "Undo restores exactly the document and caret that existed before the most recent not-yet-undone change, and redo restores exactly the document and caret that existed right after it; going back n changes and forward n changes ends where it began. A new change discards the changes that could have been redone, and neither moving the caret, selecting, copying nor looking at autocomplete affects what can be undone or redone.",
 ["histories"],"every history of commands (typing, pasting, removing, splicing, accepting autocomplete, moving, selecting, undo, redo)",
 "no test drives the editor or its undo stack",
 [CA+"undo_redo_manager.rs",CA+"primitive/caret_edit.rs",CA+"editor_action_builder.rs",CA+"math_editor.rs"],["UndoRedoManager","CaretEdit::inverse","MathEditor::undo","MathEditor::redo"])
p("C13","No command history can break the editor",
 "After any sequence of implemented commands the editor has not failed, both ends of the caret denote existing places of the current document, and the document is well formed (every container keeps the number of cells its kind requires). Commands documented as not implemented yet (word and line movement; typing, pasting, removing, extending by keys or copying while a rectangle of table cells is selected; pasting without naming the data type) are exempt.",
 ["histories","inputs"],"every sequence of implemented commands on every document reachable by them",
 "no test runs a history of editor commands",
 [CA+"math_editor.rs",CA+"editor_action_builder.rs",CA+"primitive/movement.rs",CA+"primitive/primitive_edit.rs"],["MathEditor"])
p("C14","Left and right visit every place exactly once, in order",
 "From the start of any document, repeatedly moving right visits every caret position exactly once in document order and stops at the end; moving left does the same backwards, and each undoes one step of the other. With a selection, moving left or right ends next to the corresponding edge of the selection as if moved from that edge, or collapses onto that edge when no further movement is possible.",
 ["inputs","histories"],"every document with at least one cell per container, every position and row selection",
 "no test moves the caret",
 [CA+"primitive/movement.rs"],["NavigationSettings::move_caret_range","move_horizontal_into","move_horizontal_beyond_edge"])
p("C15","Up and down move between vertically adjacent cells",
 "Moving up or down goes to the vertically adjacent cell (same column) of the innermost enclosing container that has one, entering at its end when moving up and at its start when moving down; down inside a subscript or up inside a superscript leaves that script to the place just before it. If no enclosing container has such a neighbour the caret does not move (a selection collapses to its left edge for up and to its right edge for down).",
 ["inputs"],"every document, every position and row selection",
 "no test moves the caret vertically",
 [CA+"primitive/movement.rs"],["NavigationSettings::move_vertical"])
p("C16","Typing and pasting replace exactly the selection",
 "Inserting content replaces exactly the selected nodes by the inserted ones, changes nothing else, and leaves the caret collapsed right after the inserted content. Without a selection nothing is removed.",
 ["inputs","histories"],"every document, every position and row selection in either direction, every inserted list (including the empty one)",
 "no test inserts through the caret",
 [CA+"primitive/primitive_edit.rs",CA+"math_editor.rs",IT+"editing/basic_edit.rs"],["insert_at_range","MathEditor::insert_at_caret","MathEditor::paste"])
p("C17","Removing at the caret never loses unrelated content",
 "Removing with a selection deletes exactly the selected nodes. Without a selection, backspace/delete next to a symbol deletes exactly that symbol; at the edge of a script, in the middle of a fraction or root, or at the outer edge of an entirely empty container it dissolves that container while keeping all its contents in order at its place; in every other case it only moves the caret as the arrow key would. The caret ends at the place of the removal: between the parts that were before and after it.",
 ["inputs"],"every document, every position and row selection, both directions",
 "no test removes through the caret",
 [CA+"primitive/primitive_edit.rs",CA+"math_editor.rs"],["remove_at_caret","remove_at_caret_position","flatten_node"])
p("C18","The reported selection encloses both ends of the drag",
 "Starting a selection at one position and extending it to another (by mouse or by arrow keys) selects the smallest enclosing range in the innermost common row, in the direction of the drag, or a rectangle of cells when both ends lie in cells of the same table; extending again always counts from the original starting position. Selecting all selects the whole top row.",
 ["inputs","histories"],"every document, every pair or sequence of drag positions",
 "four fixed selections are tested",
 [CA+"caret.rs",CA+"math_editor.rs"],["CaretSelection::from_positions","MathEditor::start_selection","MathEditor::extend_selection","MathEditor::select_with_caret","MathEditor::select_all"])
p("C19","Autocomplete offers exactly the matching rules",
 "A rule is offered at a caret position exactly when a non-empty prefix of the rule text equals the text of the last k symbols in front of the caret, for some k of at least the requested minimum; it is reported once per such k together with how much of the rule and how many symbols matched. Content behind the caret and containers never take part in a match, and no input makes matching fail.",
 ["inputs"],"every row content (multi-character and non-ASCII symbols included), caret position, set of rules with non-empty text, and minimum length",
 "eight fixed ASCII examples with single-character symbols are tested",
 [PA+"autocomplete.rs",PA+"parser.rs"],["AutocompleteRule::matches","AutocompleteRules::matches","MathParser::matches"])
p("C20","The autocomplete popup keeps a valid choice and replaces only the match",
 "While the popup is open its selected entry is always one of the offered entries, moving in it goes up or down by one and stops at the ends, and the chosen rule stays chosen for as long as it is offered. Accepting replaces exactly the symbols that matched by the rule's result, as one undoable change, and leaves the caret right behind the result; dismissing changes nothing.",
 ["histories"],"every sequence of typing, popup navigation, accepting and dismissing at every caret position",
 "no test opens the popup",
 [CA+"autocomplete.rs",CA+"math_editor.rs"],["AutocompleteState::get_autocomplete","AutocompleteResults::move_selection","MathEditor::finish_autocomplete","MathEditor::move_in_autocomplete"])
p("C21","Autocorrect replaces exactly a completed token the caret has left",
 "When a caret command takes the caret out of text that was a complete match of the selected rule, that text (and nothing else) is replaced by the rule's result as a separately undoable change; the caret stays at the same content. While the caret is still inside or at the edge of that text, or the match was only partial, nothing is replaced.",
 ["histories"],"every document, rule set, and sequence of caret commands",
 "no test exercises autocorrect",
 [CA+"math_editor.rs",CA+"autocomplete.rs"],["MathEditor::apply_autocorrect","AutocompleteResults::start_autocorrect","AutocorrectActionBuilder::finish"])
p("C22","Commands that fail or do nothing leave no trace",
 "A command that reports failure or that has nothing to do (undo or redo with nothing left, pasting unreadable data, accepting when nothing is offered, removing or moving where nothing can be removed or reached, dismissing the popup) leaves the document, the caret and the undo/redo history as they were.",
 ["histories","fault_sequences"],"every history followed by a command that cannot take effect",
 "no test checks a failing command",
 [CA+"math_editor.rs",CA+"editor_action_builder.rs"],["MathEditor"])
p("C23","The syntax tree always belongs to the current document",
 "The syntax tree reported by the editor after any history of commands equals the syntax tree of a fresh parse of the current document. Asking for it never changes the document, the caret or the history.",
 ["histories"],"every history of commands with queries at arbitrary points",
 "no test queries the syntax tree after edits",
 [CA+"math_editor.rs",CA+"editor_action_builder.rs"],["MathEditor::get_syntax_tree","EditorActionBuilder::finish"])
p("C24","Copy returns exactly the selected nodes, and paste reproduces them",
 "Copying yields a serialized form of exactly the selected nodes in document order, whichever way the selection was made, and changes nothing in the editor. Pasting that text at any position inserts equal nodes there.",
 ["histories","inputs"],"every document, every row selection, every paste position",
 "no test copies or pastes",
 [CA+"math_editor.rs",SE+"lib.rs"],["MathEditor::copy","MathEditor::paste"])
p("C25","Every document parses, and the syntax tree accounts for all of it",
 "Parsing any document, however ill-formed mathematically, gives a syntax tree without failing. Every node of the parsed row is covered by exactly one leaf or container of the syntax tree, the ranges of sibling subtrees are disjoint and in order, and each subtree's range encloses its children.",
 ["inputs"],"every document",
 "the parser tests check a dozen fixed formulas and cannot be built in isolation from them",
 [PA+"math_parser.rs",PA+"parser/pratt_parser.rs",PA+"syntax_tree/syntax_node.rs"],["MathParser::parse","SyntaxNode"])
p("C26","Operators group by binding power and associativity",
 "In an expression made of atoms and the supported prefix, infix and postfix operators, operators with higher binding power group tighter, equal ones group to the side given by their associativity, and the resulting tree has the same atoms and operators in the same left-to-right order. Operands next to each other group as if an operator that binds like a sum stood between them, which is marked as missing.",
 ["inputs"],"every expression over the supported operators and atoms",
 "only a few operator combinations are tested",
 [PA+"parser/pratt_parser.rs",PA+"rule_collections/arithmetic_rules.rs",PA+"math_parser.rs"],["pratt_parser","BindingPower"])
p("C27","Brackets group their content and unbalanced ones stay local errors",
 "A balanced bracket pair groups exactly the content between its brackets, whatever surrounds it. An unmatched bracket or stray operator is reported as an error node at its place, while the rest of the expression is still represented.",
 ["inputs"],"every sequence of brackets, atoms and operators",
 "four fixed malformed inputs are tested",
 [PA+"parser/pratt_parser.rs",PA+"parse_modules.rs",PA+"rule_collections/core_rules.rs"],["pratt_parser"])
p("C28","Nested rows parse like documents of their own",
 "The syntax tree of the content of a container's cell equals the syntax tree of a document consisting of just that content, and depends on nothing outside the cell. Parsing is deterministic: parsing the same document again gives the same tree.",
 ["inputs","histories"],"every container in every document, and every repetition",
 "nested rows occur in two fixed examples only",
 [PA+"math_parser.rs",PA+"rule_collections/built_in_rules.rs"],["CachedMathParser","BuiltInRules"])
p("C29","The page shows the document, all of it and nothing else",
 "The formula on the page for a document, read as MathML, spells exactly the document: every symbol except spaces once, in reading order, each fraction, root, superscript, subscript and table with its cells in their places, and a placeholder where a row is empty. Every document can be shown, and what the syntax tree reports as missing or unknown is marked on the page, once each.",
 ["inputs"],"every document",
 "the frontend has no tests",
 ["src/mathml/renderer.ts","src/mathml/renderer/","src/core/index.ts"],["MathMLRenderer"])
p("C30","Places on the page and places in the document agree",
 "Every position of the document has a place on the page, behind everything in front of it and in front of everything behind it in its row and within its row's height, and a selection is shown by a box that reaches from its start to its end, covers what is selected and is as high as that. A click gives a position of the document: on a symbol the one at the symbol's nearer side, in an empty row the one in it, and outside of the formula the one whose place is nearest.",
 ["inputs"],"every document, every position and selection in it, every click",
 "the frontend has no tests",
 ["src/mathml/render-result.ts","src/rendering/render-result.ts","src/mathml/renderer/"],["MathMLRenderResult","getLayoutPosition","getViewportSelection"])
p("C31","Reading MathML gives the document it stands for, or reports why not",
 "Reading a MathML formula gives the document with the same symbols in the same order (texts in quotes, split into user-perceived characters in decomposed form) and the same fractions, roots, scripts and tables, rows of tables filled up to equal length. What has no meaning (unknown elements, wrong numbers of children) becomes a visible error symbol and is reported; nothing else is reported, nothing is dropped silently, and no formula makes reading fail.",
 ["inputs"],"every MathML tree",
 "the frontend has no tests",
 ["src/mathml/parsing.ts"],["fromElement"])
p("C32","Events on the page do what they stand for, and the page keeps up",
 "Keys, typed text, the clipboard, pointer gestures and a new formula (or none, or one that can only be read in part) each have the effect of the editor commands they stand for, once and in the order in which they happened, text that is handled later included; a pointer selects only from being pressed to being released. After every event the page shows the editor's document, the caret at the moving end of its selection, and what is selected.",
 ["histories","schedules"],"every sequence of events and every moment at which typed text is handled",
 "the frontend has no tests",
 ["src/component/math-editor.ts","src/component/caret/single-caret-element.ts","aftermath-core/web/src/math_editor.rs"],["MathEditor"])
p("C33","The page gets the editor, whole and unchanged",
 "Every call of the bindings that a page can make does to the document, selection, history and popup exactly what that command of the editor does, and what a page reads back (document, selection, offers with rule, replacement and matched lengths, place of the popup, copied text, syntax tree) is exactly the editor's state. A call with something that is not what it takes is refused and changes nothing; gaining or losing the focus changes nothing. An editor made with a choice of grammar modules understands and offers exactly what these modules bring along, later ones first.",
 ["inputs","histories"],"every history of calls with the rules of the page, and every malformed argument in between",
 "the web crate's only test is a placeholder",
 ["aftermath-core/web/src/math_editor.rs","aftermath-core/web/src/math_parser.rs","src/core/index.ts"],["MathEditorBindings","MathEditorHelper"])
p("C34","The text form of a syntax tree shows exactly that tree",
 "Printing a syntax tree gives, for every node in order, its name in parentheses with the width and height of a grid and its subtrees in order, or the quoted symbols of a leaf, in which quotes and backslashes are escaped so that they cannot be confused with the surrounding text, and behind these its value, if it has one, as two hexadecimal digits per byte. A node whose name is not known is marked as unknown and otherwise printed like any other. Nothing else is printed, nothing is left out, and no tree makes printing fail.",
 ["inputs"],"every syntax tree, of every document or built by hand",
 "the parser tests print a handful of trees, without quotes, backslashes or nested grids",
 [PA+"syntax_tree/display_syntax_tree.rs",PA+"syntax_tree/node_identifier.rs",IT+"print_helpers.rs"],["SyntaxNodeWithDisplay","Display for SyntaxLeafNode"])
p("C35","Marked formulas on a page become editors of their own",
 "When a page is loaded, every formula marked for editing is replaced in its place by an editor that holds and shows exactly that formula, and everything else on the page stays as it was. What happens at one editor changes that editor only.",
 ["inputs","histories"],"every page and every history of events at its editors",
 "the frontend has no tests",
 ["src/main.ts","src/component/math-editor.ts"],["document.querySelectorAll","MathEditor"])
p("C36","A parser knows exactly the rules of its modules",
 "A parser built from any selection of grammar modules, in any order, knows the rules of those modules and no others: rows parse by exactly the operators, atoms and brackets of the selected modules, where two modules claim the same symbols the one added later wins, and what only other modules understand is reported as unknown. Autocomplete offers exactly the rules of the selected modules, and the name of every rule leads to that rule and back.",
 ["inputs","configurations"],"every selection of modules in every order, modules of the user's own included, and every row",
 "the tests build a parser with all modules in one order only",
 [PA+"math_parser.rs",PA+"parse_modules.rs",PA+"parse_module.rs",PA+"parser.rs",PA+"syntax_tree/node_type_id.rs",PA+"rule_collections/"],["CachedMathParser","ParseModuleCollection","ParseModule","MathParser","SyntaxNodeNameMap"])
p("C37","An address means the same row in the document, the syntax tree and on the page",
 "Every row of a document has one address, and looking that address up gives exactly the part of the syntax tree, and the piece of the page, that belong to that row. Every part of the syntax tree that is not a leaf has exactly one piece of the page, in the same place. An address that the document does not have is refused instead of being answered with another row.",
 ["inputs"],"every document, every address in it and every address that is not in it",
 "the frontend has no tests",
 ["src/core/index.ts","src/mathml/render-result.ts","src/mathml/renderer.ts","src/mathml/renderer/","src/input-tree/row-indices.ts"],["getNodeWithRowIndices","getElement","RowIndices"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
