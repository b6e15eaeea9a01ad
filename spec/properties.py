"""The properties (source of properties.jsonl and MANIFEST.json; run spec/build.py)."""
NOTE = ("Every execution of the workload was watched by the oracle and none violated it; says nothing "
        "about inputs that were not generated. Trusts rustc, the standard library and the monitor.")
NA = {}
P = [
 dict(id="C01", title="Parsing and rendering never panic, hang or abort",
  statement="For every UTF-8 text, iterating the parser (with or without offsets) to the end, rendering it to "
            "HTML in every layout, and parsing it as an attribute list returns normally: no panic, no arithmetic "
            "overflow or failed internal assertion, no endless loop, no stack overflow and no abort. "
            "An exhausted iterator stays exhausted.",
  over=["inputs"], forall="every &str handed to the public entry points (block nesting below the depth that "
       "exhausts an 8 MiB stack, see known findings)",
  why="Panics and endless loops sit on combinations of constructs and on sizes no example list contains; the "
      "tests only assert outputs of a few hundred chosen documents.",
  files=["src/lib.rs", "src/block.rs", "src/inline.rs", "src/lex.rs", "src/attr.rs", "src/html.rs"],
  where=[("Parser::next / OffsetIter::next", "src/lib.rs"), ("block::TreeParser", "src/block.rs"),
         ("inline::Parser", "src/inline.rs"), ("attr::Validator / Parser", "src/attr.rs"),
         ("html::Renderer", "src/html.rs")],
  technique="runtime monitoring under overflow/assertion/step/memory sanitizer build, coverage-guided stress",
  note=NOTE + " Panics, overflow, assertion failures, step budget, memory budget and fatal signals are the oracle."),
 dict(id="C02", title="Event streams are well nested and follow the content model",
  statement="For every text the event stream starts and ends with the document, every start event is closed by "
            "an end event of the same container in the right order, and nothing follows the end of the document. "
            "Containers only occur where their kind allows: inline events only inside leaf blocks, list items only "
            "in lists of their kind, description terms and details only in description lists, rows only in tables, "
            "cells only in rows (with matching head flag), sections only at the top level and each starting with "
            "its heading.",
  over=["inputs"], forall="every &str",
  why="A renderer or filter relies on nesting for arbitrary documents; tests compare full event lists of chosen "
      "documents and cannot show that no other document breaks the nesting.",
  files=["src/lib.rs", "src/block.rs", "src/inline.rs"],
  where=[("Parser::block / Parser::inline", "src/lib.rs"), ("TreeParser::enter / exit / close_list", "src/block.rs"),
         ("inline container handling", "src/inline.rs")],
  technique="online pushdown-automaton monitor over the event stream",
  note=NOTE),
 dict(id="C03", title="Source ranges are valid, ordered, disjoint and leave no text out",
  statement="For every text each event's range lies within the text, on character boundaries; ranges of "
            "successive events are ordered and do not overlap (attributes and the markup they belong to excepted "
            "where documented). The bytes between successive ranges are only white space, container prefixes, "
            "table pipes and other markup, never document text.",
  over=["inputs"], forall="every &str",
  why="Offsets are derived in many places of the block and inline parser; a slip shows only on particular "
      "combinations of multi-line elements and containers.",
  files=["src/lib.rs", "src/block.rs", "src/inline.rs"],
  where=[("Parser::into_offset_iter / next_span", "src/lib.rs"), ("event spans", "src/block.rs"),
         ("Input::span", "src/inline.rs")],
  technique="online trace monitor of spans against the source text",
  note=NOTE + ""),
 dict(id="C04", title="Every event agrees with the source slice it claims to come from",
  statement="For every text the source slice of an event's range is what produces the event: text events equal "
            "their slice, quotes, dashes, ellipses, breaks, symbols and footnote references are the characters "
            "that denote them, and opening and closing ranges of containers hold the markup (with label, "
            "destination, language, class or format) the container reports.",
  over=["inputs"], forall="every &str",
  why="Agreement of two independently computed values (payload and range) has to hold for every construct in "
      "every context; tests check ranges only in a handful of cases.",
  files=["src/lib.rs", "src/inline.rs", "src/block.rs"],
  where=[("Parser::inline", "src/lib.rs"), ("OffsetIter", "src/lib.rs"), ("inline::Parser", "src/inline.rs")],
  technique="online monitor relating each event to its source slice",
  note=NOTE),
 dict(id="C09", title="Inline markup yields exactly the structure that was written",
  statement="A paragraph written from any tree of inline elements (styles, braces, spans, links, images, "
            "autolinks, verbatim, math, raw, quotes, dashes, symbols, footnote references, breaks, escapes, "
            "attributes) in unambiguous notation yields exactly the events of that tree: the same containers in "
            "the same nesting, with the same text, destinations and attributes.",
  over=["inputs"], forall="every inline tree within the generator's grammar (bounded size and depth), written "
       "on one or several lines",
  why="The number of combinations of nested and adjacent inline constructs is unbounded; tests list single ones.",
  files=["src/inline.rs", "src/lex.rs", "src/lib.rs", "src/attr.rs"],
  where=[("inline::Parser::parse_event", "src/inline.rs"), ("Lexer::token", "src/lex.rs"),
         ("Parser::inline", "src/lib.rs")],
  technique="constructive reference model: generated trees, monitored event trace compared with the model's",
  note=NOTE + " The model covers unambiguous notation only; precedence between overlapping markup is not judged."),
 dict(id="C11", title="Block markup yields exactly the structure that was written",
  statement="A document written from any tree of blocks (paragraphs, headings, block quotes, lists of every "
            "kind, description lists, tables with captions, divs, code and raw blocks, thematic breaks, link "
            "definitions, footnotes, each optionally with attributes), with one or no blank line where the "
            "syntax allows it, yields exactly the events of that tree.",
  over=["inputs"], forall="every block tree within the generator's grammar (bounded size and depth)",
  why="Interruption, indentation, lazy continuation and nesting rules interact for every pair of adjacent and "
      "nested block kinds; tests cover chosen pairs.",
  files=["src/block.rs", "src/lib.rs"],
  where=[("TreeParser::parse_block / parse_container", "src/block.rs"), ("IdentifiedBlock::new", "src/block.rs"),
         ("Kind::continues", "src/block.rs"), ("Parser::block", "src/lib.rs")],
  technique="constructive reference model: generated trees, monitored event trace compared with the model's",
  note=NOTE + " The model covers unambiguous notation only."),
 dict(id="C19", title="HTML output is well formed",
  statement="For every text and every layout (default, minified, indented) the HTML is lexically strict and "
            "balanced: tags and attributes are complete and quoted, no element carries an attribute twice, every "
            "element that is opened is closed in order, and list items, rows, cells, captions, terms and block "
            "elements occur only inside parents that admit them. (Raw HTML written by the author is taken as one unit.)",
  over=["inputs"], forall="every &str and layout",
  why="Well-formedness is a global property of the output of every document; the tests compare whole outputs of "
      "chosen documents.",
  files=["src/html.rs", "src/lib.rs", "src/block.rs", "src/inline.rs"],
  where=[("Renderer::render_event", "src/html.rs"), ("Renderer::render_epilogue", "src/html.rs")],
  technique="online strict HTML tokenizer and stack monitor over the output", note=NOTE),
 dict(id="C20", title="Text, attributes and names cannot break out of the HTML they are written into",
  statement="For every text, whatever a document puts into text, attribute values, classes, destinations, "
            "identifiers, languages or symbols arrives in the HTML as exactly those characters: decoding the text "
            "and the attribute values of the output gives back the content of the events, and no element or "
            "attribute name comes from text. Only raw HTML elements write markup.",
  over=["inputs"], forall="every &str without raw HTML; raw HTML elements are masked",
  why="Escaping must hold at each of the many places the renderer writes document content and for every content; "
      "a single unescaped place is an injection.",
  files=["src/html.rs"],
  where=[("write_text / write_attr", "src/html.rs"), ("Renderer::render_event", "src/html.rs")],
  technique="information-flow style monitor: strict decoding of the output compared with the event payloads",
  note=NOTE),
 dict(id="C21", title="The HTML is exactly the rendering of the events",
  statement="For every event stream the parser produces, the HTML consists of exactly the elements, attributes "
            "and text that the documented rendering assigns to the events, in order: element names, heading "
            "levels, list types and start numbers, task boxes, table cell kinds and alignment, language and math "
            "classes, identifiers, link destinations, alternative text of images, tight paragraphs without tags, "
            "and footnotes at the end with numbers and back links.",
  over=["inputs"], forall="every event stream the parser produces from a &str",
  why="The renderer keeps state (tight lists, image nesting, footnotes, raw) across events; only an independent "
      "second rendering can judge arbitrary streams.",
  files=["src/html.rs"],
  where=[("Renderer::render_event", "src/html.rs"), ("Footnotes", "src/html.rs"),
         ("Renderer::render_epilogue", "src/html.rs")],
  technique="independent reference renderer; output tokens compared online",
  note=NOTE),
 dict(id="C22", title="Layout options change white space between elements only",
  statement="For every text the minified, default and indented outputs have the same elements, attributes and "
            "text up to line breaks and indentation between them, and preformatted text is identical. In the "
            "default and indented layouts every block element starts its own line, indented by the configured "
            "string once per open block container plus the initial level; indenting with an empty string is the "
            "default layout; the minified layout adds no line breaks.",
  over=["inputs"], forall="every &str, indentation string and initial level",
  why="Relates several outputs of the same unbounded input space; tests show a few indented examples.",
  files=["src/html.rs"],
  where=[("Indentation", "src/html.rs"), ("Renderer::block", "src/html.rs")],
  technique="differential (metamorphic) monitor over the layouts of one document",
  note=NOTE),
 dict(id="C23", title="Rendering into any sink delivers the whole output or reports the failure",
  statement="For every text and layout all rendering entry points (to a string, pushing or writing all "
            "events or one by one) deliver the same output; through a sink that accepts "
            "only parts of a write or is interrupted the output is complete; when a write fails, the error is "
            "reported as it was raised, what was delivered before is a prefix of the output and nothing is written "
            "after it.",
  over=["inputs", "fault_sequences"], forall="every &str, layout and point of failure of the sink",
  why="Faults can strike at each of the writes of each document; the tests never render into a failing sink.",
  files=["src/lib.rs", "src/html.rs"],
  where=[("Render::push_events / write_events", "src/lib.rs"), ("Render::write_event", "src/lib.rs")],
  technique="fault injection into instrumented sinks with a prefix/error monitor", note=NOTE),
 dict(id="C05", title="Parsing is deterministic and clones are independent",
  statement="For every text, parsing and rendering it again, from another address, with or without offsets, or in "
            "another process with other hash seeds gives the same events, ranges and HTML. A parser cloned after any "
            "number of events and its original each deliver the remaining events, in whatever order they are "
            "advanced, and offsets may be requested at any point of the iteration.",
  over=["inputs", "histories"], forall="every &str, every number of events before the clone, every interleaving of "
       "advancing clone and original (three orders sampled)",
  why="Hash maps, caches and shared buffers make results depend on the process or on a second user only for "
      "certain inputs; tests parse each document once.",
  files=["src/lib.rs", "src/inline.rs", "src/block.rs", "src/html.rs"],
  where=[("Parser (Clone) / into_offset_iter", "src/lib.rs"), ("Parser::new", "src/lib.rs"),
         ("inline::Parser (Clone)", "src/inline.rs")],
  technique="repeated and interleaved execution with trace comparison, cross-process comparison of builds with "
            "fixed and random hashing", note=NOTE),
 dict(id="C06", title="Output and cost of parsing are bounded by the size of the text",
  statement="For every text of n bytes the parser delivers at most 8n+2 events and uses memory proportional to n. "
            "Repeating complete blocks or complete inline elements makes the work, the memory in use and "
            "the total of memory allocated over time grow in proportion to the length of the text; repeating any "
            "other markup makes them grow no faster than the square of the length.",
  over=["inputs"], forall="every &str; growth for texts of up to a few kilobytes",
  why="Cost is a property of sizes and repetitions; the tests only look at the results of short documents.",
  files=["src/inline.rs", "src/block.rs", "src/lib.rs", "src/attr.rs"],
  where=[("inline::Parser::ahead / lookahead", "src/inline.rs"), ("TreeParser::parse_block", "src/block.rs"),
         ("Parser::inline", "src/lib.rs")],
  technique="step (executed edge) and allocation counters compiled into the parser, growth monitor over pumped inputs",
  note=NOTE + " Limits leave a factor of about two to what was measured on the pinned commit."),
 dict(id="C07", title="Escaped text arrives as exactly the characters that were written",
  statement="Text of arbitrary characters in which every ASCII punctuation character is preceded by a backslash "
            "yields those characters as text and nothing else: in every block that holds text, within any inline "
            "element, in events and in decoded HTML. A backslash before a letter, a digit or a "
            "non-ASCII character is itself text.",
  over=["inputs"], forall="every sequence of characters except line breaks (sampled over classes of characters, "
       "including control and non-ASCII ones)",
  why="Escaping has to neutralise every construct at every position; tests escape a few characters at a few "
      "positions.",
  files=["src/lex.rs", "src/inline.rs", "src/block.rs", "src/html.rs"],
  where=[("Lexer escape handling", "src/lex.rs"), ("Event::Escape", "src/lib.rs"), ("write_escape", "src/html.rs")],
  technique="constructive reference model with hostile text; monitored events and decoded HTML compared", note=NOTE),
 dict(id="C08", title="Code, verbatim, math and raw content is delivered unchanged",
  statement="The content of code blocks, raw blocks, verbatim, math and raw inline elements arrives exactly as "
            "written, whatever characters it contains, less the documented trimming and the indentation and markers of "
            "its containers; no markup in it is recognised. Raw HTML is written to the output unchanged and content "
            "for other formats is left out.",
  over=["inputs"], forall="every content free of the closing fence, in containers nested up to the generator's depth",
  why="Contents are arbitrary and pass through prefix removal, trimming and escaping in each container; tests use "
      "a handful of contents.",
  files=["src/block.rs", "src/inline.rs", "src/lib.rs", "src/html.rs"],
  where=[("code block / raw block lines", "src/block.rs"), ("inline verbatim", "src/inline.rs"),
         ("Renderer raw output", "src/html.rs")],
  technique="constructive reference model with arbitrary contents; events and HTML compared", note=NOTE),
 dict(id="C10", title="Smart punctuation follows the documented arithmetic and pairs quotes",
  statement="A run of n hyphens becomes em dashes only if n is a multiple of three, else en dashes only if n is even, "
            "else as many em dashes as possible with one or two en dashes after them; a single hyphen stays. A run of "
            "n periods becomes n/3 ellipses and the remaining periods. Quotes around inline content open and "
            "close as a pair, also nested and with braces, a double quote between white space opens nothing, and an "
            "apostrophe within a word is a right single quote.",
  over=["inputs"], forall="every run length (sampled up to 300) in every context of inline and block containers",
  why="Arithmetic over unbounded run lengths and pairing over unbounded nesting; tests list lengths below ten.",
  files=["src/inline.rs", "src/lex.rs"],
  where=[("dash and ellipsis events", "src/inline.rs"), ("quote openers", "src/inline.rs"),
         ("Lexer::token hyphens / ellipsis", "src/lex.rs")],
  technique="constructive reference model with run-length arithmetic", note=NOTE),
 dict(id="C12", title="Lists group, number and space their items as documented",
  statement="Items whose markers have the same type (bullet character, task box, description, number or letter or "
            "numeral with delimiters) form one list and any other marker starts a new one; the list takes kind and "
            "start number from its first item, and a sequence of letters that may also be Roman numerals is read as "
            "the syntax documentation says. A list is tight exactly if no blank line lies between its items or "
            "between the blocks of an item, and task boxes are reported checked as written. This holds at any "
            "nesting depth and with any number of items.",
  over=["inputs"], forall="every sequence of item markers (letters, decimals below 10^18, numerals up to 13 digits) and "
       "tree of lists; tightness with blank lines within the last item or next to a nested list's last item excepted, where documentation is ambiguous",
  why="Whether an item continues a list depends on the history of its markers; tests sample a few sequences of two "
      "or three items.",
  files=["src/block.rs"],
  where=[("IdentifiedBlock list markers, OrderedListNumbering", "src/block.rs"),
         ("TreeParser::open_list / close_list, tightness", "src/block.rs")],
  technique="constructive reference model of list continuation; monitored events compared", note=NOTE),
 dict(id="C13", title="Tables have the rows, cells, alignments and caption that were written",
  statement="A sequence of pipe-delimited lines is one table with one row per line that is not a separator and one "
            "cell per column, each with its inline content, whatever padding is used and whatever escaped or verbatim "
            "pipes the cells contain. A separator line makes the row before it a head row and sets "
            "the alignment of the cells of that row and of those after it, until the next separator. A "
            "caption following the table belongs to it.",
  over=["inputs"], forall="every table of up to 7 rows and 6 columns with generated cells, in nested containers",
  why="Cell boundaries interact with verbatim, escapes and padding, and alignment with the sequence of rows; tests "
      "use a few small tables.",
  files=["src/block.rs", "src/inline.rs", "src/lib.rs", "src/html.rs"],
  where=[("TreeParser::parse_table", "src/block.rs"), ("table cells", "src/lib.rs")],
  technique="constructive reference model of tables; monitored events compared", note=NOTE),
 dict(id="C14", title="Headings open sections by level and get unique identifiers",
  statement="Every heading at the top level opens a section that ends before the next heading of the same or a higher "
            "rank, and nested sections have increasing levels; headings within containers open none. Its identifier "
            "is its id attribute, else derived from its text (runs of white space to a hyphen, ASCII punctuation other than "
            "- and _ removed), made unique among automatic identifiers by the smallest number that is free. Section "
            "and heading report the same identifier.",
  over=["inputs", "histories"], forall="every &str for the monitor, every generated document for the model",
  why="Identifiers depend on all headings seen before; tests have documents of two or three headings.",
  files=["src/lib.rs", "src/block.rs", "src/html.rs"],
  where=[("PrePass::new", "src/lib.rs"), ("Parser::block sections", "src/lib.rs"), ("TreeParser::enter sections", "src/block.rs")],
  technique="online monitor recomputing sections and identifiers, constructive reference model", note=NOTE),
 dict(id="C15", title="Reference links and images resolve to definitions or headings",
  statement="A full or collapsed reference link or image gets the destination of the link definition with its label, "
            "whether that comes before or after it and in whatever containers, and the attributes of "
            "definition and link together, those of the definition coming first. Without a definition it refers to the "
            "heading with that text, and without either it stays unresolved, with its label. Labels match exactly, "
            "except for line breaks, and without regard to markup in the text of a collapsed reference.",
  over=["inputs"], forall="every document of generated definitions (with distinct labels), headings and references",
  why="Resolution is a whole-document relation between positions, containers and labels; tests cover single pairs.",
  files=["src/lib.rs", "src/inline.rs"],
  where=[("PrePass", "src/lib.rs"), ("Container::Link / Image destinations", "src/lib.rs"),
         ("reference tags", "src/inline.rs")],
  technique="constructive reference model of label resolution; monitored events compared", note=NOTE),
 dict(id="C16", title="Footnotes are numbered by first use and rendered once, at the end",
  statement="Footnotes are numbered from one in the order of their first reference, those referred to only within "
            "footnotes after the ones before them; every reference shows and links to the number of its label. "
            "Exactly the referenced labels are rendered, once each, in that order, in one section at the end of the "
            "document, with the content of their definition or empty if there is none, and a back link. Definitions "
            "that nobody refers to leave no trace.",
  over=["inputs"], forall="every document with at most one definition per label and no reference within an image",
  why="Numbering is a global function of the order of references across text and nested notes; tests have documents "
      "of one or two notes.",
  files=["src/html.rs", "src/lib.rs", "src/block.rs"],
  where=[("Footnotes", "src/html.rs"), ("Writer::render_epilogue", "src/html.rs"), ("footnote events", "src/lib.rs")],
  technique="offline checker recomputing order, numbers and content of notes from the events against the HTML",
  note=NOTE),
 dict(id="C17", title="Attribute sets are read, looked up and shown as documented",
  statement="A text is accepted as attributes exactly if it consists of adjoining well-formed sets, and otherwise the "
            "error names the position of the first byte that does not fit; the elements are those written, in order, "
            "with comments and duplicates. contains_key, get_value and unique_pairs agree with the elements: one pair "
            "per key, in order of first occurrence, with the last value, or all classes joined by spaces. Values are "
            "shown without the backslashes of escapes and with line breaks as spaces, the debug form reads back as the "
            "same set, and conversions to and from vectors lose nothing.",
  over=["inputs"], forall="every &str and every sequence of elements pushed by hand",
  why="A state machine over all byte strings and lookups over all sequences with duplicates; tests cover some thirty "
      "strings.",
  files=["src/attr.rs"],
  where=[("Parser / State::step", "src/attr.rs"), ("Attributes::get_value / unique_pairs / contains_key", "src/attr.rs"),
         ("AttributeValueParts", "src/attr.rs")],
  technique="differential monitor against a recursive-descent reference and a list model of the collection", note=NOTE),
 dict(id="C18", title="Attributes belong to the element they are written at",
  statement="Attribute lines belong to the block that follows them directly, whatever its kind, and several lines "
            "and elements add up in order; attributes directly after an inline element or word belong to it, "
            "also as several sets or over several lines. "
            "Attributes that follow or precede nothing they could belong to are reported on their own and change "
            "no other element.",
  over=["inputs"], forall="every generated tree of blocks and inline elements with generated attributes",
  why="Attributes are collected ahead of or behind their element and have to survive containers, blank lines and line "
      "ends; tests attach one set to a few elements.",
  files=["src/lib.rs", "src/block.rs", "src/inline.rs", "src/attr.rs"],
  where=[("Parser::block_attributes", "src/lib.rs"), ("block attributes", "src/block.rs"),
         ("inline attributes", "src/inline.rs")],
  technique="constructive reference model of attachment; monitored events compared", note=NOTE),
 dict(id="C24", title="The command-line program delivers the library's rendering or fails visibly",
  statement="For every UTF-8 input, from a file or standard input however it is split into reads, the program writes "
            "exactly the library's rendering in the layout chosen by its options to standard output or the "
            "output file and exits with zero. If the input cannot be read or is not UTF-8, the options are wrong, or "
            "the output cannot be opened or completely written, it exits nonzero with a message; input and option "
            "errors leave no output behind and do not touch the output file.",
  over=["inputs", "configurations", "fault_sequences"], forall="every input, layout options, input and output channels, "
       "single faults of input and output",
  why="The test suite does not run the program at all; buffering and error paths only show with large outputs and "
      "failing devices.",
  files=["src/main.rs", "src/html.rs"],
  where=[("run", "src/main.rs")],
  technique="differential monitor of process runs under fault injection (full device, closed pipe, split reads)",
  note=NOTE),
 dict(id="C25", title="Containers are transparent to the blocks within them",
  statement="A text put into a block quote, div, list item, footnote or description, with the prefix or indentation "
            "of that container on every line, yields exactly the events it yields on its own, sections and tightness of "
            "lists aside. No prefix or indentation of the container shows up in text, code, labels, destinations or "
            "attributes.",
  over=["inputs"], forall="every text with at least one character that is not white space, in one container",
  why="Every construct that spans lines has its own code for skipping prefixes; tests combine few constructs with "
      "few containers.",
  files=["src/block.rs", "src/inline.rs", "src/lib.rs"],
  where=[("TreeParser::parse_container", "src/block.rs"), ("Kind::continues", "src/block.rs"),
         ("Input::lines, multi-line elements", "src/inline.rs")],
  technique="metamorphic monitor: events of a text alone against its events within a container", note=NOTE),
 dict(id="C26", title="Blocks are parsed independently of the text before and after them",
  statement="The events and source ranges of a text that follows a thematic break at the top level are those the text "
            "has on its own, moved by its position, and those of the text before the break do not change by what "
            "follows. Only resolution of references, identifiers of headings and extent of sections depend on the rest "
            "of the document.",
  over=["inputs"], forall="every pair of texts of which the first leaves no container open",
  why="Parsers for inline text, attributes and lists are reused from block to block; state that is not reset shows only "
      "for particular successions of constructs.",
  files=["src/lib.rs", "src/inline.rs", "src/block.rs", "src/lex.rs"],
  where=[("inline::Parser::reset", "src/inline.rs"), ("TreeParser state", "src/block.rs"),
         ("Parser::next_span", "src/lib.rs")],
  technique="metamorphic monitor: events and ranges of two texts apart against their events together", note=NOTE), dict(id="C27", title="Events edited by the user are rendered faithfully",
  statement="The events of any parse, edited (text replaced, elements removed, duplicated, wrapped, unwrapped or "
            "changed, attributes replaced) so that they stay well nested, are rendered to exactly the elements, "
            "attributes and escaped text they describe, in every layout, as if they had been parsed. Events that "
            "have no rendering of their own (blank lines, escapes, attributes on their own) do not change the output.",
  over=["inputs", "programs"], forall="every text and every sequence of up to eight edits that keeps the stream well nested",
  why="Filtering events is the documented use of the interface; the renderer keeps state across events "
      "(footnotes, alternative text, tightness, raw output) that parsed streams drive only in some orders.",
  files=["src/html.rs", "src/lib.rs", "src/attr.rs"],
  where=[("Renderer::render_event / render_epilogue", "src/html.rs"), ("Footnotes", "src/html.rs"),
         ("Event, Container", "src/lib.rs")],
  technique="mutation of event streams; differential monitor against a reference renderer", note=NOTE),
dict(id="C28", title="Blank lines and indentation between blocks carry no information",
  statement="More blank lines where a text has some, at its start or at its end, all of its lines indented alike, or "
            "the continuation lines of a paragraph or heading indented, leave its events as they are, blank line "
            "events aside (each line added next to one brings one): structure, text, attributes and tightness. Excepted are "
            "the text of code blocks, a bare list marker at the very end and quote lines that lack their prefix.",
  over=["inputs"], forall="every text and every choice of blank lines and indentation to add",
  why="Each kind of block decides by its own rule which lines continue it (items, footnotes, tables with captions, "
      "headings); tests use single blank lines and little indentation.",
  files=["src/block.rs", "src/lib.rs"],
  where=[("Kind::continues", "src/block.rs"), ("MeteredBlock", "src/block.rs"), ("TreeParser::parse_block / parse_container", "src/block.rs")],
  technique="metamorphic monitor: events of a text against those of the same text with more blank space", note=NOTE),
 dict(id="C29", title="Events do not depend on how many bytes characters take",
  statement="Replacing the characters outside ASCII of a text by others, of any width, outside the labels of footnote "
            "definitions, changes its events and its HTML by those characters only, and moves the source ranges by the "
            "difference of their widths.",
  over=["inputs"], forall="every text and every replacement of characters outside ASCII",
  why="The parser works on bytes and cuts texts by computed lengths; a length in characters, or a cut in the middle "
      "of one, shows only where a wide character meets a certain construct.",
  files=["src/block.rs", "src/inline.rs", "src/lex.rs", "src/attr.rs", "src/lib.rs"],
  where=[("Lexer::eat_while / token", "src/lex.rs"), ("parse_autolink / parse_symbol / apply_word_attributes", "src/inline.rs"),
         ("indentation, lines", "src/block.rs"), ("Validator / Parser", "src/attr.rs")],
  technique="metamorphic monitor: events, ranges and HTML under a permutation of wide characters", note=NOTE),
 dict(id="C30", title="Inline content means the same in every block that holds text",
  statement="The text of a paragraph yields the same inline elements, text, punctuation and attributes when it is the "
            "text of a heading, caption, description term or list item, or, on one line and without pipes, of a head or "
            "body cell of a table. Only what references resolve to is left out of this, lines that start a block end a "
            "heading, and in cells backticks outside verbatim count as verbatim.",
  over=["inputs"], forall="every text of a paragraph and every kind of leaf block",
  why="Each kind of leaf block cuts and hands over its lines in its own code; whether inline parsing starts, continues "
      "and ends the same everywhere depends on what stands at the joints, which samples of plain words do not show.",
  files=["src/block.rs", "src/inline.rs", "src/lib.rs"],
  where=[("TreeParser::parse_leaf / parse_table", "src/block.rs"), ("Parser::feed_line / reset", "src/inline.rs"),
         ("Parser::next", "src/lib.rs")],
  technique="metamorphic monitor: inline events of one text in different leaf blocks", note=NOTE),
 dict(id="C31", title="A line break within a paragraph is white space",
  statement="A line break in place of a single space within a paragraph, or a space in place of a line break, changes "
            "nothing but that white space: the elements, their nesting, text, attributes, destinations and labels stay, "
            "as do identifiers of headings, and what is not in verbatim, attributes or destinations shows as a soft break. Excepted are white space "
            "after a backslash, labels of footnote references, and single quotes next to attributes.",
  over=["inputs"], forall="every text of a paragraph and every choice of its single spaces and line breaks",
  why="Inline content is parsed line by line from slices that are joined later; any state dropped or any offset "
      "taken wrongly between two lines shows only if the break is at that very place of some construct.",
  files=["src/inline.rs", "src/attr.rs", "src/lib.rs", "src/block.rs"],
  where=[("Input::reset / feed_line / resume_attributes", "src/inline.rs"), ("Parser / Validator", "src/attr.rs"),
         ("parse_inline_link / reference labels", "src/inline.rs")],
  technique="metamorphic monitor: inline events of one text under different line breaks", note=NOTE),
]
P.sort(key=lambda p: p["id"])
