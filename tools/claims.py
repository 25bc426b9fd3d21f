CLAIMS = {
 "C01": ("field-sensitive Andersen points-to analysis (call-site contexts) of every store on SSA, shared-object closure from globals and the receiver, lockset at each store and load of parser state",
         "Every store reachable from an entry point is resolved to abstract objects and must be call-local, initialisation-time or inside the parser's lock. Assumes the listed standard-library types are safe for concurrent use and that caller-supplied callbacks are the caller's business."),
 "C02": ("interprocedural lock typestate analysis over SSA (CFG paths incl. panics in callbacks)",
         "Path-insensitive but flow- and context-sensitive over lock state; every exit of every function that touches the parser lock is examined. Assumes sync.Mutex semantics and that panics other than callback panics are excluded by C17."),
 "C03": ("points-to and escape analysis: no store reaches an object the caller owns, no caller object is reachable from parser or global state after the call, defensive-copy freshness",
         "Covers configuration, option slices, formats and callback results; slices are tracked per element."),
 "C04": ("points-to analysis of writes to globals, parser-field read/write dependence (only the previous-locale memory and validated caches), path analysis of cache validity tests",
         "Decides that no run-time write reaches tables and that remembered state is only read under its option or after a validity test on the request; the memory's own ordering is not modelled."),
 "C05": ("classification of every map-range loop on SSA (commutative effects, exclusive early exits), interprocedural taint of lists filled in map order until sorted, effect scan for randomness, scheduling and addresses",
         "Sound for the loop forms it accepts; anything it cannot classify as order-independent is reported. Third-party packages are scanned for chance only through their calls."),
 "C06": ("interprocedural taint analysis on SSA from every clock read and local-zone source to results, branches and lasting state, with the branches for an unset reference time cut off; constant propagation of time layouts",
         "Taint is per variable, struct field and local; explicit-zone conversions clean. Assumes package time consults the machine only through Now, Since, Until, Local, Parse with zones, Unix*, LoadLocation."),
 "C07": ("copy-flow analysis of every construction, copy and update of a configuration on SSA; enumeration alignment; def-before-use of the date order; per-component option readership over the call graph",
         "Decides that options arrive unchanged and are read by the component that honours them; what a component computes from an option is the matter of other properties."),
 "C08": ("finite value-set dataflow of each enumerated option from entry point to every parsing call, context-sensitive through helpers; loop coverage and branch precision analysis for list options",
         "Exact on the abstraction (documented constants plus 'anything else'); every parsing call and every rejecting branch is an obligation."),
 "C09": ("path-sensitive typestate analysis on SSA of (date, error) pairs: every exit of every parser and of the API is enumerated over zero/non-zero dates, nil/non-nil errors and the locale named in the result",
         "Interprocedural abstract execution of the result-building code; dates themselves are abstracted to zero or not. Assumes a parsed time from package time is non-zero unless compared with IsZero."),
 "C10": ("path-cut analysis of the checking function on SSA, dataflow of the set of missing parts at each check, path-sensitive typestate (checked / unchecked) of every date leaving the component-based parsers, taint of recorded parts by the clock",
         "Decides that no date leaves without the check and that the check sees exactly the parts not read from the text; which part a token is taken for is not modelled."),
 "C11": ("guard and value-equality analysis on SSA of the year, month and day operands of every date construction reachable from the API, through helpers and merged values; decision of the leap-year rule over every residue class its divisibility tests can distinguish",
         "Every date construction and every shift by years or months is an obligation: the day is proved to exist in exactly the month and year it is combined with. Calendar libraries and package time are trusted."),
 "C12": ("case-split provenance dataflow on SSA: under each way of naming locales or languages (tests of the option lists folded), every locale handed to a translation and every language a search settles on is traced back to where it came from; path exploration with failing look-ups for unknown codes",
         "Decides where locales come from and that an unknown code is an error; which of the allowed locales fits a text is not modelled. A source of unrecognised origin is counted but not judged."),
 "C13": ("string-set dataflow of the lookup function, folding of every code table from its literal and cross-comparison, initialisation-order and parent analysis of each locale",
         "Exhaustive over all 504 codes and all tables."),
 "C14": ("folding of every locale literal from the typed syntax tree, the merge function's field-by-field dataflow, syntax-tree analysis of patterns and replacement templates, word-list and combined-pattern set comparison",
         "Exhaustive over all locale tables; decides vocabulary and structure, not linguistic truth. Unit agreement compares a pattern's unit words with the locale's own unit words."),
 "C15": ("folding of the zone table, static expansion of its patterns, first-match decision over the ordered entry list; dataflow check of the builder (same key for name, pattern, offset; quick search covers every entry; no map order)",
         "Exhaustive over every name and its documented numeric spellings. The expansion mirrors the builder, whose dataflow is checked separately."),
 "C16": ("comparison of the folded digit ranges with the Unicode tables of the toolchain's own source; dataflow over the conversion and the table search",
         "Exhaustive over all decimal digits of the Unicode version the build uses."),
 "C17": ("abstract interpretation with difference bounds: every index, slice, division, size, dereference and table write is proved safe from branch conditions, definitions, callers, returns and induction over loops",
         "Lists filled side by side are taken to have the same length when every append to both is in the same block; parameters of exported functions other than the entry points are not constrained."),
 "C18": ("termination analysis: every loop gets a ranking measure (bounded counter, range over a finite collection, text or list that gets shorter on every way through the body, bounded calendar search, finite cyclic search) proved with difference bounds; every recursive call graph component gets a measure that shrinks between calls",
         "Loops with no recognised measure are reported. Calls into the standard library and the regular expression engine are taken to return; callbacks are the user's."),
 "C19": ("sibling-diff of the two build-tag variants: method sets, delegation of each method to the engine method of the same name with parameters in order; regex literal syntax check",
         "Decides wiring of both engine wrappers and syntax of all literal patterns; the engines' own matching semantics are trusted."),
 "C20": ("effect analysis: call-graph reachability (VTA) from every exported entry point to side-effecting standard library functions, goroutines, process exits",
         "Sound over the VTA call graph; third-party packages are analysed down to the standard library boundary, reviewed exceptions are listed in the evidence."),
 "C21": ("flow- and context-sensitive evaluation on SSA of the location behind every date returned by the API, under each combination of (zone in the text, default zone configured) with the branches that test for them pruned; slot analysis of every rebuilt clock time",
         "Every source of a result's zone is compared with the prescribed one. A zone value of unrecognised origin is counted but not judged; none exists on the current tree."),
 "C22": ("dataflow: provenance of every text bound back to a search of the same text",
         "Every slice bound of a text (and every byte taken as a character) reached from an entry point is traced through variables, arithmetic, helpers and callers to a search of that very text, the length of what was found there, or an ASCII byte known from a branch."),
 "C23": ("provenance and lockstep analysis: reported texts are traced back to the text parameter through cutting and joining operations only; every pair of lists indexed together is proved to be extended, split, cut, returned and passed together, coinductively over loops and calls",
         "Element order inside one text is not tracked beyond indexes. A loop that makes two token lists equally long is taken to succeed."),
 "C24": ("value-set dataflow of parser kinds from configuration to parser dispatch, dispatch-table completeness, loop order and first-hit-exit analysis",
         "Decides dispatch, order and early exit structurally on SSA."),
 "C25": ("case-split dataflow on SSA: constant folding and branch pruning under every combination of parts present in the text and preferences, origin analysis of the year, month and day of each date construction and shift that stays live",
         "Exhaustive over the combinations of parts and preferences; which token is read as which part is not modelled. A part of unrecognised origin is counted but not judged."),
 "C26": ("calendar-unit inference on SSA: interprocedural walk of the code each calendar's parser runs, with its function fields bound and branches on them pruned; unit analysis of every date part at conversions, date constructions, comparisons and leap-year rules; constant folding of the accepted ranges",
         "Every call context reached from the parser's set-up is walked; a part of unrecognised origin has no unit and is not judged. The conversion libraries themselves are trusted."),
 "C27": ("unit inference and sign analysis on SSA: amounts followed from the map of units through factors, fractions and helpers to the calls that move the date, each use compared with the unit of its slot; direction and period decided by cutting the control flow at the branches that ask for 'ago', 'in', the preference or a finer unit",
         "Every path of the relative parser; amounts of unrecognised origin are counted but not judged, and overflow of huge amounts is excluded (N04). Which texts match the unit pattern is not modelled."),
 "C28": ("origin analysis on SSA of every part of a time of day that reaches a date construction or a part map; linear forms over match groups for timestamps; constant folding of layouts and patterns",
         "Every date construction reachable from the exported functions; a number of unrecognised origin is not judged. The layouts themselves are interpreted by package time, which is trusted."),
}
NOT_APPLICABLE = {
 "N01": "Numerical exactness of table-driven calendar arithmetic over all days: no static argument short of executing the conversion decides it.",
 "N02": "Nearest matching date depends on runtime calendar arithmetic relative to the reference time; a static rule could only pin the code's shape.",
 "N03": "A statistical ranking over runtime word counts; no source-level rule decides that the winner is the true language.",
 "N04": "Exactness for every n depends on integer overflow and float truncation of runtime amounts; existing tests pin the saturating behaviour for huge amounts, so no overflow-free statement holds.",
 "N05": "A cost bound over runtime text length; permutation expansion of ambiguous words is exponential in the number of ambiguous words by design and no static bound is in reach.",
 "N06": "Round-trip of formatting and parsing quantifies over run-time matching of regular expressions against locale words; not decidable from source without executing the parser.",
}
