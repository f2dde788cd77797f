p("C01","Rectangle and padding geometry is exact",
 "For every pair of rectangles, the intersection contains a position exactly when both rectangles do; the inner area of a rectangle under a padding contains exactly the positions of the rectangle that lie at least the padding's distance from each side, and is empty when the padding does not fit. The rows (columns) of a rectangle are one-cell-high (wide) strips in order that cover each of its positions exactly once. Each padding setter changes the side it names and no other.",
 ["inputs"],"all rectangles and paddings whose coordinates and sizes are within +-2^30 (sizes and paddings not negative), all positions",
 "The repository has no test of rectangles or paddings; a test samples a few rectangles, the claim is about every pair and every position.",
 ["rect.go","padding.go","position.go"],
 [("Rect.Intersection/Inner/Contains/IndentX","rect.go"),("Rect.Rows/Columns","rect.go"),("NewPadding and Padding.With*","padding.go")])
p("C02","Buffer cells map one-to-one to area positions, and nothing outside is reachable",
 "A buffer made for an area holds exactly one cell per position of that area: every position inside addresses its own cell, the cell's position can be recovered from its index, and asking for a position outside the area panics instead of touching another cell. Resetting blanks every cell, and resizing leaves a buffer for exactly the new area whose surviving cells keep their order and whose added cells are blank.",
 ["inputs"],"all areas with non-negative sizes whose cell count fits an int, all positions inside and outside, all buffer contents",
 "Tests use a handful of fixed small buffers at the origin; the bijection and the refusal are claims about every area offset, size and position.",
 ["buffer.go","cell.go"],[("Buffer.indexOf / CellAt / PosOf","buffer.go"),("Buffer.Reset / Resize / NewBufferFilled","buffer.go")],
 [("Buffer.content","row-major cells of the area","buffer.go")])
p("C03","Printing a string never leaves its line and places graphemes by width",
 "Printing a string at a position of a buffer writes only cells of that row, starting at that column, at most the requested width and never past the right edge of the buffer; a grapheme that does not fit completely is not printed, and zero-width graphemes are skipped. Each printed grapheme occupies as many cells as its display width: the first holds the grapheme in the given style, the rest are blank. The returned position is the column after the last printed grapheme, on the same row.",
 ["inputs"],"all buffers, all start positions inside the buffer's rows, all strings (any graphemes of any width), all width limits, all styles",
 "Tests print a few short strings; wide graphemes at the right edge and zero-width graphemes are never sampled.",
 ["buffer.go"],[("Buffer.SetStringN / SetString","buffer.go")])
p("C04","Styling a region touches exactly the cells of that region",
 "Applying a style to a region of a buffer changes, for exactly the cells of the buffer that lie in the region, the colours the style sets and the modifiers it adds or removes, and leaves their symbols alone; every other cell is unchanged. It accepts regions that stick out of the buffer or miss it altogether.",
 ["inputs"],"all buffers, all regions (inside, overlapping, outside, empty), all styles",
 "No test styles a region; the frame condition ranges over every cell of every buffer.",
 ["buffer.go","cell.go","style.go"],[("Buffer.SetStyle","buffer.go"),("Cell.SetStyle","cell.go")])
p("C05","Style patching equals applying the styles one after the other",
 "Applying a style patched with another to any cell gives the same cell as applying the first and then the second. Adding a modifier to a style makes every styled cell have it, removing one makes every styled cell lack it, and neither affects other modifiers or colours; named style shorthands set exactly the colour or modifier they name.",
 ["inputs"],"all styles that can be built through the public interface, all cells, all modifier sets",
 "The interaction of added and removed modifiers is a statement over all pairs of 9-bit sets and all colours; no test patches styles.",
 ["style.go","cell.go","internal/bit/bit.go"],[("Style.Patched / WithModifier / WithoutModifier","style.go"),("Cell.SetStyle","cell.go")])
p("C06","The buffer difference turns the old screen into the new one",
 "The difference of two well-formed buffers of the same area lists changed cells in row-major order, each at its own position and with the new buffer's content. Every cell that is not marked to be skipped, that is not hidden behind a wide grapheme of the new buffer, and that differs from the old buffer or was covered by one of its wide graphemes is listed, and no cell that is marked to be skipped or covered by a wide grapheme of the new buffer is listed; equal buffers of single-width symbols have an empty difference.",
 ["inputs","histories"],"all pairs of buffers of equal area, all cell contents with symbol widths 0 to 2",
 "Tests do not touch the difference at all; the wide-grapheme bookkeeping depends on every combination of neighbouring old and new widths.",
 ["buffer.go"],[("Buffer.Diff","buffer.go")])
p("C07","Drawing cells emits escape codes that reproduce them on the terminal",
 "After the bytes written for a list of cells are interpreted by a terminal, each listed cell's symbol has been printed at its position with exactly its colours and modifiers, whatever cells were drawn before it. Changing from any set of modifiers to any other turns on and off exactly the right terminal attributes. After drawing, all attributes and colours are back to default.",
 ["inputs","histories"],"all sequences of positioned cells, all pairs of modifier sets, all colours including unset ones",
 "There are no backend tests; the attribute transitions are a property of all pairs of modifier sets and the cursor bookkeeping of all cell sequences.",
 ["terminal_backend.go","internal/ansi/command.go","internal/ansi/attr.go"],[("DefaultBackend.Draw","terminal_backend.go"),("_StyleModifierDiff.queue","terminal_backend.go"),("SetColors.WriteANSI, MoveTo.WriteANSI, ...","internal/ansi/command.go")])
p("C08","Each terminal frame starts blank and remembers what is on screen",
 "Between frames the terminal's drawing buffer is blank and its other buffer holds what the last frame drew, both for exactly the viewport area; drawing a frame sends the backend the difference between those two, then shows or hides the cursor as the frame asked, then flushes. After a resize both buffers are blank and have the new area and the screen has been cleared, so the next frame repaints everything. The frame counter grows by one per completed frame, and a failing backend call is reported as an error.",
 ["histories","fault_sequences"],"every history of draws, resizes and clears, with any backend call allowed to fail",
 "No test builds a terminal; the invariant must survive every operation order and every failing backend call.",
 ["terminal.go","frame.go","buffer.go"],[("Terminal.Draw / Flush / SwapBuffers","terminal.go"),("Terminal.Resize / Clear","terminal.go")],
 [("Terminal.buffers/current","double buffer","terminal.go")])
p("C09","Input decoding consumes every byte once and never panics",
 "Decoding any non-empty chunk of terminal input produces messages without panicking and without looping: each step consumes at least one byte and at most the bytes that are there. A chunk that is one of the documented key sequences decodes to exactly that key; printable text decodes to key messages whose runes spell out that text in order, and control bytes to their control key.",
 ["inputs"],"all byte strings of any length",
 "No input tests exist; inputs come from the outside world and any byte sequence, including invalid UTF-8 and truncated sequences, may arrive.",
 ["input.go"],[("detectOneMsg / readInputs","input.go"),("key sequence tables","input.go")])
p("C10","Mouse reports decode to the right button, action, modifiers and cell",
 "Every well-formed mouse report, in the SGR or the X10 encoding, decodes to a mouse event whose position is the reported one translated to zero-based coordinates and whose button, action and shift/alt/ctrl flags are those the report's bits state. A wheel event is always a press, a release report is a release, and motion reports are motion.",
 ["inputs"],"all button codes, all coordinates, both encodings",
 "No mouse tests exist; the bit layout gives hundreds of codes times two encodings.",
 ["mouse.go","input.go"],[("parseMouseButton","mouse.go"),("parseSGRMouseEvent / parseX10MouseEvent","mouse.go")])
p("C11","Layout splits stay inside the area and do not overlap",
 "Splitting an area yields one rectangle per constraint, in order along the layout's direction, each spanning the area's inner size across it. No rectangle leaves the area, no two overlap, and consecutive rectangles are separated by the layout's spacing when the constraints leave room for it. Fixed-size constraints that fit get exactly their size, minimums and maximums that fit are kept to, percentages and ratios that fit get their share, and fill segments of positive weight share what is left in proportion to their weights, each to within one cell.",
 ["inputs","configurations"],"all areas, directions, paddings, spacings, flex modes and constraint lists",
 "The existing layout tests are a table of fixed examples; the claim is about every combination of constraints.",
 ["layout.go","internal/casso/solver.go","internal/casso/casso.go"],[("Layout.Split / split","layout.go"),("constraint configuration","layout.go"),("casso solver","internal/casso")])
p("C12","Solver expressions and rows keep the linear meaning of their constraints",
 "Arithmetic on solver expressions (adding, subtracting, scaling, comparing) yields an expression with the corresponding linear value for every assignment of its variables. Inserting a symbol or a row into a solver row, solving a row for a symbol and substituting a row for a symbol all preserve the set of assignments that satisfy the row.",
 ["inputs"],"all expressions and rows with real coefficients, all variable assignments",
 "Tests only run whole layouts; the algebra has to hold for every row the solver can build.",
 ["internal/casso/casso.go","internal/casso/operators.go","internal/casso/solver.go"],[("Expression operators","internal/casso/casso.go"),("_Row operations","internal/casso/casso.go")])
p("C13","Widgets paint only inside the area they are given and never panic",
 "Rendering any widget into an area, for every buffer, changes only cells that lie in both the area and the buffer, whatever the widget's contents and even if the area is empty, tiny or sticks out of the buffer. Rendering never panics. A gauge refuses (panics on) exactly the ratios outside 0 to 1 and the percentages outside 0 to 100, when it is configured.",
 ["inputs","configurations"],"all areas, all buffers, all widget configurations and contents: block, clear, fill, text, line, span, gauge, popup, tabs, scrollbar, list, paragraph, input, throbber",
 "Only list and text have tests, with a few fixed areas; clipping bugs show at sizes and offsets nobody samples.",
 ["widget/blockwidget/block.go","widget/clearwidget/clear.go","widget/fillwidget/fill.go","widget/gaugewidget/gauge.go","widget/popupwidget/popup.go","widget/tabswidget/tabs.go","widget/scrollwidget/scroll.go","widget/textwidget/line.go","widget/textwidget/text.go","widget/textwidget/span.go","widget/listwidget/list.go","widget/paragraphwidget/paragraph.go","widget/inputwidget/input.go","widget/throbberwidget/throbber.go"],
 [("Render methods","widget/*")])
p("C14","List selection stays valid and the selected item is visible",
 "After rendering, a list's selection is either absent or an existing item, and an empty list has no selection. The window of items shown starts at the stored offset, never exceeds the height available, and contains the whole selected item when that item fits. Moving the selection never leaves the non-negative range and moves by exactly the amount asked, saturating at the first item.",
 ["inputs","histories"],"all item heights, list heights, offsets, paddings, scroll paddings and selections; all sequences of selection moves",
 "The list tests are fixed examples; the window computation has to be right for every combination of heights and offsets.",
 ["widget/listwidget/list.go","widget/listwidget/state.go"],[("getItemsBounds / applyScrollPaddingToSelectedIndex","widget/listwidget/list.go"),("State.Select*/Scroll*","widget/listwidget/state.go")])
p("C15","The text input behaves like a string with a cursor",
 "For every sequence of edits, the input's text is the text obtained by applying the same insertions and deletions at the cursor to a sequence of characters. The cursor is always between the start and the end of the text; moving it never changes the text, and deleting removes exactly the addressed characters. Rendering the input changes neither its text nor its cursor, and an input with at least one cell shows the part of its text around the cursor.",
 ["histories","inputs"],"all sequences of edit and cursor operations from the empty input, all texts",
 "The input widget has no tests; the cursor and text invariants are about every editing history.",
 ["widget/inputwidget/state.go"],[("State editing operations","widget/inputwidget/state.go")])
p("C16","Lines are aligned and truncated within their width",
 "Rendering a line of text in an area shows, on one row, the whole line shifted according to its alignment when it fits, and otherwise the part of the line that the alignment selects, filling at most the area's width. The width reported for spans, lines and texts is the total display width of what they contain, and the height of a text is its number of lines. A line or text made from a string contains that string, split at its line breaks.",
 ["inputs","configurations"],"all lines of spans, all widths, all alignments, all areas",
 "Tests sample a few strings; truncation interacts with every alignment, span boundary and grapheme width.",
 ["widget/textwidget/line.go","widget/textwidget/span.go","widget/textwidget/text.go"],[("Line.Render / renderSpans / spansAfterWidth","widget/textwidget/line.go"),("Width / Height","widget/textwidget")])
p("C17","Wrapping keeps the text and respects the width",
 "Wrapping a paragraph yields lines no wider than the requested width, whose concatenation is the original graphemes in order except for white space dropped at line breaks and graphemes wider than the whole width. Truncation without wrapping yields one output line per input line.",
 ["inputs"],"all texts, all widths, trimming on and off",
 "There are no tests of wrapping; the claim ranges over every text and width.",
 ["internal/reflow/wrapper.go","internal/reflow/truncator.go","widget/paragraphwidget/paragraph.go"],[("WordWrapper","internal/reflow/wrapper.go"),("LineTruncator","internal/reflow/truncator.go")])
p("C18","The terminal is restored on every way out of the application",
 "Once the application has switched the terminal to raw mode or the alternate screen, every return from running it (normal quit, error, cancelled context, failed initialisation, recovered panic) has first left raw mode and the alternate screen. An error on the way is reported to the caller.",
 ["fault_sequences","histories"],"every combination of failing initialisation steps, backend errors, model panics, quit messages and cancellation",
 "No test runs the application; exits happen at many points and under injected failures.",
 ["app.go","tty.go","tty_unix.go"],[("appRunner.Run / init / restore / shutdown / recoverFromPanic","app.go")])
p("C19","Batched and sequenced commands all deliver their messages",
 "Batching keeps exactly the non-nil commands given to it, in order, and sequencing keeps them all. Every message produced by a batched or sequenced command reaches the model's update function unless the application ends first, and a sequence delivers its messages in order.",
 ["schedules","histories"],"all command lists (with nil commands anywhere, batches inside sequences) and all interleavings",
 "No tests; delivery depends on goroutine schedules.",
 ["cmd.go","app.go"],[("Batch / Sequence","cmd.go"),("appRunner.eventLoop / handleCmd","app.go")])
p("C20","The scrollbar thumb stays within its track and reflects the position",
 "For every content length, viewport length, track length and position, the thumb's start and size fit the track, the thumb is at least one cell when there is something to scroll, it touches the start when the position is the first and the end when it is the last, and it moves monotonically with the position. The scrollbar is drawn on the side it names. Scroll-state operations keep the position between the first and the last item.",
 ["inputs","histories"],"all content, viewport and track lengths and positions up to 2^20; all sequences of scroll operations",
 "The scrollbar has no tests; rounding errors show at a few combinations out of very many.",
 ["widget/scrollwidget/scroll.go","widget/scrollwidget/state.go"],[("Scroll.partsLength / barSymbols / barArea","widget/scrollwidget/scroll.go"),("State.Next/Prev/First/Last/Scroll","widget/scrollwidget/state.go")])
p("C21","Solver variables created concurrently are distinct",
 "Variables created at any time, from any number of goroutines, all have different identities, so two layouts computed at the same time cannot confuse their unknowns.",
 ["schedules"],"all interleavings of any number of variable creations",
 "Tests create variables from one goroutine at a time; the claim quantifies over interleavings.",
 ["internal/casso/casso.go"],[("NewVariable's atomic counter","internal/casso/casso.go")])
p("C22","Builders return modified copies and leave earlier values alone",
 "Configuring a widget, style, layout, rectangle or line through its With-style methods returns a value that differs from the receiver only in what the method names; the receiver and every value built from it earlier keep their meaning. In particular adding spans, lines, titles or constraints to two copies of the same value never lets one see the other's additions.",
 ["histories","inputs"],"all values and all sequences of builder calls on shared prefixes",
 "Aliasing through spare slice capacity shows only for particular lengths and call orders.",
 ["widget/textwidget/line.go","widget/textwidget/text.go","widget/blockwidget/block.go","layout.go"],[("With*/Add* builders","layout.go, widget/*")])
p("C23","Block borders, titles and inner area fit together",
 "The inner area of a block lies within the block's area and leaves out exactly one row or column for each side that has a border or a title, plus the padding. Rendering a block into the visible part of its area draws border symbols only on sides that have a border and never draws inside the inner area apart from its base style.",
 ["inputs","configurations"],"all areas, border side sets, title positions and alignments, paddings",
 "The block has no tests; the relation between what is drawn and what is left free holds over all combinations of sides, titles and sizes.",
 ["widget/blockwidget/block.go","widget/blockwidget/border.go"],[("Block.Inner","widget/blockwidget/block.go"),("Block.renderBorders / renderTitles","widget/blockwidget/block.go")])
