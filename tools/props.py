"""Every property: text for properties.jsonl, and claim ('note') or reason not to ('na')."""
TODO = "no contract discharged for it yet"
INP = ["inputs"]
PROPS = []


def P(id, title, statement, over, for_all, why, files, mech, note=None, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, why=why, files=files, mech=mech, note=note, na=na, observe=observe))


P("C01", "Arena allocations are in bounds and mutually disjoint",
  "Every pointer handed out by the arena allocator denotes memory of at least the requested size that lies inside memory owned by the arena and overlaps no earlier allocation; earlier allocations stay valid and are never touched by later ones, whatever the block size and the sequence of request sizes (including zero-sized and oversized requests).",
  ["inputs", "histories"], "every block size, every sequence of allocation requests of any size",
  "The only test uses one block size and ints; block-boundary and oversized-request interactions are unbounded combinations.",
  ["bant/util/arena.h"], [("bump allocation with end check", "Arena::Alloc"), ("block replacement", "Arena::NewBlock"), ("placement construction", "Arena::New")],
  note="Proof for all block sizes and histories: the representation invariant is established by the constructor and preserved by every allocation. Assumes operator new[] returns fresh memory and std::deque keeps the blocks it owns alive; alignment is not part of the property.")

P("C02", "The arena deque is a faithful append-only sequence with stable elements",
  "After any number of appends the arena-backed deque holds exactly the appended values in order: its size, its iteration and its random access all agree with that sequence, element references stay valid and keep their value across later appends, and no element is stored outside the memory of its block.",
  ["histories", "inputs"], "every append history and every length, for several element types and minimum/maximum block sizes",
  "The one stable test appends a few hundred ints to one instantiation; block growth is a function of length and of the two template parameters.",
  ["bant/util/arena-container.h"], [("doubling blocks", "ArenaDeque::Append"), ("walk by block sizes", "ArenaDeque::operator[]"), ("iterator", "ArenaDeque::iterator")],
  note="Proof per instantiation (5 combinations of element type and block sizes, among them the ones the program and its test use), for every history and all lengths below 2^48: representation invariant over ghost block and content sequences, loop invariants inferred and checked. Assumes the arena contract (C01).")

P("C03", "Reported line/column positions and surrounding lines are exact",
  "For every file content and every sub-range of it, the reported line number is the number of newlines before the position, the column is the distance from the start of that line, and the surrounding line returned is exactly the maximal newline-free text that encloses the range's ends; asking never reads outside the content.",
  INP, "every byte content and every sub-range of it",
  "Tests sample a few short contents; the property quantifies over contents, newline positions and ranges.",
  ["bant/frontend/linecolumn-map.cc", "bant/frontend/named-content.cc"],
  [("ordered line starts", "LineColumnMap::PushNewline/InitializeFromStringView"), ("binary search", "LineColumnMap::GetPos"), ("line expansion", "NamedLineIndexedContent::GetSurroundingLine")],
  note="Proof for all contents below 2^31 bytes and all sub-ranges: the line index's contract (ordered list of line starts) is established by initialisation and by PushNewline, position lookup and line expansion are proved against it; newline counting by two inductive lemmas, both discharged.")

P("C04", "Locations print as file:line:column, one-based, with the last character as end",
  "A position prints as its one-based line and column; a range (start inclusive, end exclusive) prints its start and then, only if it covers more than one character, '-<one-based column of its last character>' when it ends on the line it starts on, or ':<line>:<column>' otherwise, where the end column shown is the exclusive end column (the one-based column of the last character); always followed by ':'. A file location prefixes this with the file name and ':'. The string-returning and the stream-writing forms of a locator print the same text.",
  INP, "every line/column pair, every range and file name",
  "Output formats editors parse; tests sample four ranges.",
  ["bant/frontend/source-locator.cc", "bant/frontend/source-locator.h"], [("stream operators", "operator<<"), ("Loc()", "SourceLocator::Loc")],
  note="Proof on the stream operators with the text of the stream as ghost state; numbers are rendered by one uninterpreted decimal function shared by code and specification. Lines and columns are taken to be non-negative and below 2^31 - 1.")

P("C05", "Tokenising any byte sequence is safe, total and covers the content in order",
  "For every byte content the scanner terminates, reads only inside the content, and returns tokens whose texts are consecutive, non-overlapping, non-empty pieces of the content, ending with end-of-file; between two tokens there is only whitespace, backslashes and '#' comments. When end-of-file is reached the line index holds exactly the start of the content and the position after every newline of it.",
  INP, "every byte content of any length", "Scanner tests use a couple of dozen short snippets; memory safety and coverage quantify over all byte strings.",
  ["bant/frontend/scanner.cc", "bant/frontend/scanner.h"], [("whitespace/comment skipping", "Scanner::SkipSpace"), ("token handlers", "Scanner::Next")], note="Proof for all contents below 2^31 bytes: every read in bounds, every loop terminates, and the contract of Next (position to position) inductively gives gap-free coverage and an exact line index. isdigit/isxdigit are taken to accept every char value, as the C library here does.")

P("C06", "Tokens are classified correctly and maximally; peeking does not consume",
  "Every token's kind matches its text: keywords are recognised only as complete identifiers, 'not' followed by the complete word 'in' is the not-in operator, '==', '!=', '<=', '>=' are single tokens, a string literal extends to its first matching unescaped closing quote (or triple quote), identifiers and numbers extend as far as possible. Peek returns exactly the token the following Next returns and has no other effect on the token sequence.",
  INP, "every byte content and every interleaving of Peek and Next", "Tests cover a handful of token sequences.",
  ["bant/frontend/scanner.cc", "bant/frontend/scanner.h"], [("keyword table", "HandleIdentifierKeywordRawStringOrInvalid"), ("string scanning", "HandleString"), ("numbers", "HandleNumber"), ("look-ahead", "Scanner::Peek")], note="Proof for all contents below 2^31 bytes: the kind and extent of every token Next returns, and the look-ahead contract of Peek and Next. Words are made of the ASCII letters, digits and underscore, as in the code.")

P("C07", "Literal tokens convert to the right value",
  "A string literal token converts to exactly the text between its quotes, for single, double, triple quotes and raw strings, and remembers whether it was raw; a number token converts to its decimal, octal (0o) or hexadecimal (0x) value, is rejected rather than misread when its digits do not belong to its base or its value is out of range, and a fractional decimal token converts to its integer part.",
  INP, "every literal token", "Tests sample a few literals.", ["bant/frontend/ast.cc", "bant/frontend/ast.h"], [("IntScalar::FromLiteral", "bant/frontend/ast.cc"), ("StringScalar::FromLiteral", "bant/frontend/ast.cc")], note="Proof for every token text: both conversions are executed on every shape of literal (quote kind, prefix, base) and every content, the value compared with the positional value of its digits. Trusts std::from_chars (a value exactly when a digit sequence of the base is there and the value fits) and the theory of strings for string_view.")

P("C08", "Bazel labels parse to their parts and print back to an equivalent label",
  "Parsing a label yields the project ('@name' without its '~version'), the package path (no leading, trailing or doubled slashes) and the target name (after the colon, else the last path element or the project's name); labels without a project or package are completed from the context package. Printing a target, absolute or relative to a package, gives a label that parses back to the same target, and parsing never crashes on any text.",
  INP, "every label text and every context package", "Tests sample about thirty labels.", ["bant/types-bazel.cc"], [("BazelPackage::ParseFrom", "bant/types-bazel.cc"), ("BazelTarget::ParseFrom", "bant/types-bazel.cc"), ("ToString", "bant/types-bazel.cc")], note="Proof for every label text and context: package parsing is proved against the label grammar for any text, target parsing for each label form and (cleanliness, no crash) for any text, and printing composed with parsing is the identity on every target. Trusts the documented behaviour of absl::StrSplit, StrCat, StrContains and string searches.")

P("C09", "Target patterns match exactly the targets and packages they denote",
  "An exact pattern matches only that target, a package pattern (':all', ':*', ':__pkg__') matches exactly the targets of that package, a recursive pattern ('...', '__subpackages__') matches exactly the targets in that package and in packages below it of the same project - never a sibling whose name merely starts with the same text - and the default pattern matches everything.",
  INP, "every pattern and every target", "Tests sample a few dozen pattern/target pairs.", ["bant/types-bazel.cc", "bant/types-bazel.h"], [("BazelPattern::ParseFrom", "bant/types-bazel.cc"), ("BazelPattern::Match", "bant/types-bazel.cc")], note="Proof for every pattern text and every target: parsing is proved against the label contract of the pattern's package, matching against the relation the property states. Trusts the regular-expression library (a full match of the quoted literal pieces joined by '.*') and the label contract where a pattern starts from a label.")

P("C10", "Header lookup by path suffix finds the entry agreeing on most path elements",
  "Looking up an include path finds the entry with exactly that path and its providers; otherwise an entry that agrees with it on at least the requested number of complete trailing path elements, and on no fewer than any other entry does, reported as a fuzzy match with that number and the entry's own path; and nothing when no entry agrees on that many.",
  INP, "every index and every queried path", "Tests sample a small index.", ["bant/explore/header-providers.cc"], [("FindBySuffix", "bant/explore/header-providers.cc"), ("CommonSlashes, CommonPrefix", "bant/explore/header-providers.cc"), ("KeyTransform", "bant/explore/header-providers.cc")], note="Proof for every index, key and threshold: a lemma shows that in lexicographic order the neighbours share most, and the lookup is proved with it; counting common elements has loop invariants. Trusts the ordered map and std::count_if.")

P("C11", "External projects resolve to an installed directory of that project",
  "A project name resolves to a directory registered for a project of the same name (ignoring the leading '@' and a version or bzlmod suffix) or to nothing; it never resolves to a different project. Projects are registered only with an existing directory named after them, and looking for further directories changes no project known before.",
  ["inputs", "configurations"], "every set of registered external projects and every queried project", "Tests use a three-line workspace.", ["bant/workspace.cc", "bant/workspace.h"], [("FindEntryByProject", "bant/workspace.cc"), ("BestEffortAugmentFromExternalDir", "bant/workspace.cc"), ("LoadWorkspace", "bant/workspace.cc")], note="Proof for every index and every query: lookup against the ordered-map contract with the key's real (memberwise) order, registration of directories and of declared projects against their naming rules. Trusts the ordered map, the file system queries as functions of the path text, and Glob().")

P("C12", "File paths join and split consistently",
  "Joining a directory and a name gives the directory without trailing slashes, one slash and the name; the file name of any path is the text after its last slash (the whole path when there is none), regardless of how the path was constructed and of what was asked before.",
  ["inputs", "histories"], "every path text, every way of constructing it, every order of queries", "Tests sample a few paths.", ["bant/util/file-utils.cc", "bant/util/file-utils.h"], [("FilesystemPath", "bant/util/file-utils.cc")], note="Proof for every path text, every constructor and every order of queries: representation invariant of the path with its memoised offset, established and preserved by every operation. std::string and string_view operations are modelled by the theory of strings.")

P("C13", "Tabular output contains every row and cell, in order, in every format",
  "Every row added is printed exactly once and in order with all its cells in column order, in each output format; the aligned format pads every column but the last to the widest cell, and formats that quote print every cell so that its quotes and separators cannot be confused with the table's own.",
  ["inputs", "histories"], "every sequence of rows of any text", "Tests print two small tables.", ["bant/util/table-printer.cc"], [("printers", "bant/util/table-printer.cc")], na="no contract discharged: the printers' output is text built by stream insertion, absl::StrFormat's padding and absl::CEscape, whose contracts (and which quoting each format promises) would all have to be assumed, so that little of the claim would be decided by a proof about this code")

P("C14", "Minimal dependency sets keep exactly one way to reach everything needed",
  "The reduced dependency set contains every target that is the only provider of something needed, contains at least one provider for each needed header, and contains nothing that was not a candidate.",
  INP, "every collection of candidate sets", "Tests sample one set.", ["bant/tool/dwyu.cc", "bant/tool/dwyu-internal.h"], [("MinimizeDependencySet", "bant/tool/dwyu.cc"), ("intersect", "bant/tool/dwyu.cc")], note="Proof for every sequence of non-empty candidate sets: loop invariants show that every given set contains a kept non-empty set (so whichever member is chosen, it serves), from which the claim about only providers follows. Trusts std::set_intersection and the set contracts.")

P("C15", "Dependency removal is only suggested when every include is accounted for",
  "A dependency is suggested for removal only if every source and header listed by the target can be read and every header included there is one of its own or has a known provider it may use; and only if that dependency is not among the alternatives that remain for what is included, is a known library that is not alwayslink, and its line has no keep comment (unless these are to be ignored).",
  ["inputs", "programs"], "every project tree and source text", "dwyu tests sample small projects.", ["bant/tool/dwyu.cc"], [("DWYUGenerator", "bant/tool/dwyu.cc")], note="Proof for every project and source text: which includes are looked up, when all count as accounted for, what alternatives remain, and every condition of a removal, over the real dwyu.cc; own headers, source locations, known libraries, the choice of targets and the disjointness of what minimisation keeps are proved with it. Trusts the include scanner's regular expression, the header index and the search for rules; visibility, labels and suffix lookup by their contracts (C29, C08, C10).")

P("C16", "Suggested new dependencies are needed, visible and not there yet",
  "Each dependency suggested for addition is the only choice left to provide a header the target includes, is visible from the target, is not testonly unless the target is testonly or a test, is not the target itself, is not what any label in its deps list means, and is written canonically for the package of the target.",
  ["inputs", "programs"], "every project tree", "dwyu tests sample small projects.", ["bant/tool/dwyu.cc"], [("DWYUGenerator", "bant/tool/dwyu.cc")], note="The contracts of C15 read for additions: the sole remaining alternative, visibility, testonly rules, no label of the list that already means it, never the target itself, canonical text. Same trust as C15.")

P("C17", "Canonicalisation edits keep the meaning of every label",
  "For every rule the pattern matches, each readable label in its deps whose text is not the canonical one is suggested to be replaced, once and in order, by the canonical text of the same target seen from the rule's package; nothing else is suggested, and the number of suggestions is returned.",
  INP, "every label in every package", "Tests sample a few labels.", ["bant/tool/canon-targets.cc"], [("CreateCanonicalizeEdits", "bant/tool/canon-targets.cc"), ("ToStringRelativeTo", "bant/types-bazel.cc")], note="Proof for every project, pattern and label: per-rule ghost counters and loop invariants show that exactly the non-canonical labels are suggested, in order, and packages are only skipped when no target of theirs can match; the label and pattern contracts it rests on are proved along with it. Trusts the search for rules (C28) and the file map.")

P("C18", "Dependency graph edges are exactly the resolved deps of the explored rules",
  "The graph reports for each explored target exactly its direct dependencies, and its reverse relation is the exact inverse; exploration terminates on cyclic graphs.",
  ["inputs", "programs"], "every project, including cyclic ones", "Tests sample two small graphs.", ["bant/explore/dependency-graph.cc"], [("BuildDependencyGraph", "bant/explore/dependency-graph.cc")], na='no contract discharged: the exploration is a worklist over projects loaded on the way, whose bound (finitely many targets) is a fact about the files on disk, not about this code; resolving labels and finding the rules, on which the edges rest, are decided by C08 and C28')

P("C19", "Elaborating constant expressions preserves their meaning",
  "Concatenating two lists yields the elements of the first followed by those of the second, concatenating two strings yields their joined text, and expressions that are not constant are left as they are.",
  ["inputs", "programs"], "every expression tree", "Elaboration tests sample a few expressions.", ["bant/frontend/elaboration.cc"], [("SimpleElaborator", "bant/frontend/elaboration.cc")], na="no contract discharged: the elaborator rewrites the tree in place while walking it, so the subtrees seen by a caller change under it; the frame conditions needed (which nodes are shared) were not brought within the verifier's reach. The crash found on the way is repaired (7d78bad)")

P("C20", "glob() patterns match what bazel documents",
  "A file matches iff it matches an include and no exclude pattern, where '*' matches within one path element and '**' any number of complete path elements, and all other characters match themselves.",
  INP, "every pattern and every file path", "Tests sample a few patterns.", ["bant/util/glob-match-builder.cc"], [("GlobMatchBuilder", "bant/util/glob-match-builder.cc")], na="patterns are turned into the text of a regular expression which RE2 interprets; the meaning of a computed regular expression is outside of the verifier's theory of text, which leaves nothing but the rewriting itself to prove")

P("C21", "Recursive file collection visits every wanted file once and terminates",
  "Recursively collecting files reads the start and every directory accepted by the directory predicate that is found in a directory read (through links, too), each once (told apart by inode), breadth first; it returns exactly the entries found there that are no directories and are accepted by the file predicate, once each in the order found, and terminates despite symbolic-link cycles.",
  ["inputs", "configurations"], "every directory tree", "Tests create one small tree.", ["bant/util/file-utils.cc"], [("CollectFilesRecursive", "bant/util/file-utils.cc")], note="Proof for every directory tree, links and predicates: ghost sequences of the files to return and the directories to read, determined entry by entry, are the loop invariants of the real function; a lemma shows that these sequences mean what is stated. Trusts POSIX's opendir/readdir/stat and that the tree does not change meanwhile; directories without inode numbers are told apart by nothing.")

P("C22", "Reading a file returns its complete content or nothing",
  "Reading a file returns exactly the bytes of the file when all of them could be read, however the system splits the reads, and reports failure otherwise; the file descriptor is always closed.",
  ["inputs", "fault_sequences"], "every file size and every sequence of short, failing and interrupted reads", "Tests read one small file; short reads and errors never happen there.", ["bant/util/file-utils.cc"], [("ReadFileToString", "bant/util/file-utils.cc")], note="Proof for every file size and every sequence of read results: loop invariant over the bytes read so far. Trusts the contract of open/fstat/read/close (read returns -1, 0 at the end, or between 1 and the requested number of the file's next bytes).")

P("C23", "Parsing malformed BUILD text never crashes",
  "For every byte content (nested no deeper than the stack allows) parsing ends without reading invalid memory and hands back a tree. Either all the text was read or an error is reported. No list in the tree has a missing element, every call has a name and its argument list, every assignment has something to assign to; a missing operand, value or condition is always reported as an error (the sides of a slice and 'else' may be left out).",
  INP, "every byte content", "Parser tests sample well-formed snippets and a few errors.", ["bant/frontend/parser.cc", "bant/frontend/scanner.cc", "bant/frontend/ast.cc"], [("recursive descent", "bant/frontend/parser.cc"), ("List::Append", "bant/frontend/ast.h"), ("Scanner::Next", "bant/frontend/scanner.cc")],
  note="Proof for every token sequence: each production of the parser against its contract (a caller sees only the contract), with a lexicographic measure (tokens left, production) for the recursion and loop measures; together with the scanner's (C05) and the literals' (C07) proofs for every byte content. Depth of recursion is not modelled.")

P("C24", "A command-line command is chosen only when it is unambiguous",
  "A command word selects the command it names exactly, otherwise the only command it is a prefix of; an ambiguous, missing or unknown word runs nothing and is reported. The command is run with the one pattern given (or none), never with an invalid pattern or further arguments ignored; print, dwyu and canonicalize only run with an explicit pattern.",
  INP, "every command line", "No test.", ["bant/cli-commands.cc"], [("RunCliCommand", "bant/cli-commands.cc")], note="Proof for every argument list: the function as a whole, with running a command recorded as an event; the command table is the one in the source. Trusts std::map's lookup in lexicographic order.")

P("C25", "Sub-range lookup returns exactly the value of the enclosing registered range",
  "In the map from disjoint text ranges to values, looking up any non-empty sub-range of a registered range returns that range's value, and looking up a range that is not completely inside one registered range returns nothing; registering a further disjoint range keeps all earlier associations.",
  ["inputs", "histories"], "every set of disjoint ranges and every query", "The test registers two or three ranges.", ["bant/util/disjoint-range-map.h"], [("ordered by range end", "DisjointRangeMap::Insert"), ("lower_bound", "DisjointRangeMap::FindBySubrange")],
  note="Proof for every set of disjoint non-empty ranges and every query, for the instantiation the program uses. Trusts the ordered-map contract (lower_bound/insert) of absl::btree_map.")

P("C26", "The prewarm cache never changes results and is safe to use concurrently",
  "Remembering and prewarming file accesses affects only performance, and can be used from several threads.",
  ["schedules"], "every schedule", "No test.", ["bant/util/filesystem-prewarm-cache.cc"], [("prewarm", "bant/util/filesystem-prewarm-cache.cc")], na="a statement about thread schedules and timing; sequential function contracts cannot express it and no concurrent C++ verifier is available here")

P("C27", "Edit commands name exactly the requested change",
  "Every requested edit produces one command line that names the kind of edit, the affected target and the old and new values, in the order requested.",
  ["inputs", "histories"], "every sequence of edit requests", "No test.", ["bant/tool/edit-callback.cc"], [("edit callback", "bant/tool/edit-callback.cc")], note="Proof for every request and every text already written: the callback is built by the real code and called once per kind with arbitrary values; a sequence is its repetition since the text written before is arbitrary. The commands written are buildozer 'remove deps', 'add deps' and 'replace deps' lines.")

P("C28", "Finding targets visits exactly the matching rule calls",
  "Searching a parsed file calls back once, in the order of the text, for each call of a wanted rule (all if none is given) that has a non-empty name (unless nameless ones are asked for), and for nothing else. What is reported is what that call says: each text, number, list or True given to a known attribute, the last if given twice, nothing of other calls; a cc_library without headers counts as alwayslink, and a rule without visibility gets the default of the package call before it. The texts of a list are its non-empty literals, in order. (Calls within another call or in an assigned value are not looked for.)",
  ["inputs", "programs"], "every parsed file", "Tests sample two rules.", ["bant/explore/query-utils.cc"], [("TargetFinder", "bant/explore/query-utils.cc"), ("AppendStringList", "bant/explore/query-utils.cc")],
  note="Proof for every syntax tree: what walking a node does to the search is a function defined by cases of the node; each visit function is proved to do just that, seeing the nodes below only by that function, with invariants for the loops; accepting a visitor, starting the search and extracting texts are proved, too. Trusts that a node's accessors return what it was made with.")

P("C29", "Visibility is granted exactly when a visibility pattern matches the user",
  "A known, non-deprecated target is visible from another one iff they are in the same package, or one entry of its visibility list (its own or its package default) grants it, where private means the target's own package, :__pkg__ that package, :__subpackages__ and /... that package and everything below, and an entry that is no package pattern (public, a package group) means everybody; relative entries are read in the target's own package. A target with no visibility list, or with a list without a single interpretable entry, and an unknown target count as visible. (A deprecated target, or protobuf_headers of another package, is never offered.)",
  INP, "every pair of targets and visibility lists", "Tests sample small projects.", ["bant/tool/dwyu.cc"], [("CanSee", "bant/tool/dwyu.cc"), ("ParseVisibility and Match", "bant/types-bazel.cc")], note="Proof for every pair of targets and every visibility list: loop invariant over the list entries seen so far; parsing an entry and matching its pattern are proved with their real bodies. Trusts the ordered-map lookup and that syntax-tree accessors return what the node was built with.")

P("C30", "The syntax tree is exactly what the text spells out",
  "For every text parsed without error, the tree is exactly the one its tokens spell out: every identifier, literal, call with its arguments, element of a list, map or tuple (as key and value), operator (binary operators group to the right, without precedence), conditional, access or slice, comprehension clause and statement appears once, in the order and place it has in the text, and nothing else does. (As implemented, an opening parenthesis on a new line continues the previous expression.)",
  INP, "every token sequence", "Parser tests sample a few dozen snippets.", ["bant/frontend/parser.cc", "bant/frontend/ast.h"], [("recursive descent", "bant/frontend/parser.cc"), ("node constructors", "bant/frontend/ast.h")],
  note="Proof for every token sequence: each production's contract says that the node it returns is built from exactly the tokens it consumed, by introduction rules of a grammar with the tree as index; a caller only sees the contract. Same measure as C23. Trusts that a node's fields are what its constructor was given.")
