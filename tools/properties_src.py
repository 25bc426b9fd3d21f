p("C01","Concurrent calls are free of data races",
"Any number of goroutines may call the parsing and search entry points at the same time, on one shared parser, on the default parser or on separate parsers, without any unsynchronised access to shared memory. Process-wide state is only written during program initialisation, stateful helpers (text transformers, buffers, hashers, random sources) are never shared between calls, and the state kept inside a parser is only touched while that parser's lock is held (or is never modified again once published).",
["schedules"],"Every interleaving of any set of concurrent Parse, Search, SearchWithLanguage, ParseHijri, ParseJalali, PopTzOffset and IsKnownLocale calls.",
"Tests are single-threaded and run without the race detector; even with it, only the sampled interleavings are seen.",
["parser.go","search.go","root.go","internal/strutil/strutil.go","internal/language","internal/timezone","internal/data"],
[("parser mutex held around Parse and around the charset cache","parser.go, search.go"),("package-level tables are read-only after init","internal/*"),("transformers shared by all calls","internal/strutil/strutil.go")],
[("usedLocales, usedLocalesTracker, uniqueCharsets, ParserTypes","per-parser mutable state","parser.go")])
p("C02","A parser's lock is always released and never re-acquired by its holder",
"Every call on a parser returns with the parser's lock released, on success, on every error return and when a callback supplied by the caller panics. The library itself never tries to acquire a parser's lock while already holding it, and never releases a lock it does not hold.",
["inputs","schedules","fault_sequences"],"All return paths of every method on the parser, all panics raised by user callbacks, all call chains between the parser's own methods.",
"A leaked or doubly taken lock only shows as a hang of a later call on one particular error path; tests do not follow error returns with a second call on the same parser.",
["parser.go","search.go"],[("Lock with deferred Unlock","parser.go Parse, search.go initUniqueCharsets")])
p("C03","Caller-owned inputs are never modified or retained",
"No call modifies the caller's configuration, any slice inside it, the list of formats or a slice returned by a caller's callback. Nothing the caller passed in stays referenced by the parser or by process-wide state after the call returns, so changing the configuration between calls affects only later calls and the same configuration can be reused and shared.",
["inputs","configurations","histories"],"All configurations, formats and callbacks, any sequence of calls sharing them.",
"Tests never compare the configuration before and after a call and never mutate it between calls; aliasing of slices with spare capacity is invisible to them.",
["config.go","parser.go","search.go","hijri-parser.go","jalali-parser.go","internal/setting/config.go","internal/language"],
[("configuration is deep-copied before use","config.go Clone/initiate/toInternalConfig"),("slices are cloned before being sorted or extended","internal/language")])
p("C04","Results do not depend on what was parsed before",
"Built-in locale, timezone and digit tables are never changed once the program has started, whatever is parsed. A call's outcome does not depend on earlier calls: the memory of previously used locales influences a result only when the caller asks for previous locales to be tried first, and a cached value computed for an earlier request is only reused for a request it was computed for.",
["histories"],"All sequences of calls on one parser or one process, in any order.",
"Each test uses fixed, short histories; corrupting a shared table or a stale cache needs a specific earlier call to show up.",
["parser.go","search.go","internal/data","internal/language","internal/timezone"],
[("previous locales only read and recorded under the opt-in option","parser.go"),("charset cache regenerated when the language set differs","search.go initUniqueCharsets"),("translations are cloned before use","internal/language/utils.go")],
[("usedLocales","locales that parsed an earlier string","parser.go"),("uniqueCharsets","per language-set cache for detection","parser.go")])
p("C05","Same input, same result: nothing depends on iteration order or chance",
"Given the same configuration with a fixed reference time and the same text, every call in every process returns the same result. No outcome depends on the iteration order of a hash map, on random numbers, on goroutine scheduling or on memory addresses.",
["inputs","schedules"],"All inputs and all map iteration orders, including those used while the tables are built at start-up.",
"A test run samples one iteration order per run and most inputs are insensitive to it, so an order dependence shows up as a rare flake at best.",
["internal/timezone/tz-offsets.go","internal/language","internal/parser","internal/data/00-locale-data.go","internal/strutil/dict.go"],
[("order-insensitive or sorted traversal of maps","internal/*")])
p("C06","With a reference time set, the machine's clock and time zone are never used",
"When the caller supplies a reference time, no result depends on the machine's current time. No result ever depends on the machine's local time zone: times are expressed in UTC, in the zone found in the text, in the configured default zone or in the zone of the reference time.",
["inputs","configurations"],"All inputs and configurations with a reference time; all machine clocks and local zones.",
"Tests run at one moment, usually in UTC, with inputs whose answer does not change between the clock and the reference time.",
["config.go","internal/parser","internal/timezone"],
[("clock read only as the default for an unset reference time","config.go initiate, internal/parser/*")])
p("C07","Every configuration option reaches the parsers unchanged",
"Every option the caller sets arrives at the component that honours it with the value the caller gave, whichever entry point is used; an option is replaced by its documented default only when the caller left it empty. Copies and conversions of the configuration made along the way lose no option, mix up no two options and keep the meaning of every enumerated value.",
["configurations"],"All configurations, all entry points, all internal copies and conversions.",
"Each test sets one or two options through one entry point; a dropped or crossed option in one of the copies is only visible for the untested combination.",
["config.go","internal/setting/config.go","parser.go","search.go","hijri-parser.go","jalali-parser.go"],
[("Clone, initiate, toInternalConfig, configFromInternal, internal Clone","config.go, internal/setting/config.go")])
p("C08","Invalid configurations are always rejected before parsing, valid ones never",
"Every entry point that takes a configuration validates it before it parses anything. A configuration is rejected with an error if one of its enumerated options is outside the documented values, or a required part is something other than day, month or year, and a parser with an unknown parser type rejects every parsing call; no configuration made only of documented values is rejected.",
["configurations"],"All values of the enumerated options and of the required parts; all entry points.",
"Tests exercise only a few valid configurations and never an out-of-range one.",
["config.go","parser.go","search.go","hijri-parser.go","jalali-parser.go"],
[("validate","config.go"),("parser type check","parser.go Parse")])
p("C09","A nil error means a real date, an error means no date",
"Every parsing entry point returns either a non-zero date with a nil error or the zero date with a non-nil error, never both or neither. A date produced through a locale names that locale, and every search result carries a non-zero date.",
["inputs","configurations"],"All inputs and configurations, every return of every entry point.",
"Tests check a handful of successes and failures; a single early return that breaks the pairing is reached by few inputs.",
["parser.go","search.go","hijri-parser.go","jalali-parser.go","internal/parser"],
[("IsZero test before each success return","parser.go, search.go")])
p("C10","Strict parsing and required parts are enforced on every absolute date",
"When strict parsing is on, no date read from the components written in the text (with or without separators, in any calendar) is returned unless day, month and year were all present; when required parts are given, none is returned with one of those parts missing. (Dates read through a format the caller supplies follow that format and are outside this property.) A date in which all parts are present is never rejected for missing parts.",
["inputs","configurations"],"All inputs that reach the component-based parsers, all combinations of strict parsing and required parts.",
"Tests cover a few strings; a success path that skips the check, or a part that is wrongly recorded as present, needs one specific format.",
["internal/parser/absolute/parser.go","internal/parser/nospace/parser.go","internal/parser/common/strict-check.go","internal/parser/hijri","internal/parser/jalali"],
[("CheckStrictParsing on the success path","internal/parser/common/strict-check.go")])
p("C11","Dates never silently roll over into a neighbouring month",
"Whenever a missing part of a date is filled in from the reference date or a preference, or a year or month is changed because of a preference, the resulting day is limited to the last day of the resulting month. A combination such as 31 February is either limited to the end of that month or rejected; it never becomes a day of the following month. Relative amounts of months and years stay within the target month whenever the caller asks to preserve the end of the month.",
["inputs","configurations"],"All dates, reference times and preference options; every place where a calendar date is assembled from parts.",
"Rollover needs a reference day of 29-31 together with a shorter target month, or a leap day; tests use a few fixed reference dates.",
["internal/parser/common","internal/parser/absolute/parser.go","internal/parser/formatted/parser.go","internal/parser/relative/parser.go","internal/dateutil/dateutil.go"],
[("day limited to the last day of the month","internal/parser/common/apply-day.go, internal/parser/absolute/parser.go, internal/parser/relative/parser.go")])
p("C12","Only the locales the caller allows are used",
"When the caller names locales or languages, a date is only ever produced with one of those locales, one of their languages' locales or one of the caller's default languages, also when previously used locales are tried first. Unknown locale or language codes are reported as an error and never silently replaced by other locales. A search only parses its finds in the detected language, in one of the caller's default languages, or in English for text translated from one of these.",
["configurations","histories"],"All lists of locales, languages, regions and default languages, and any earlier use of the same parser.",
"Tests use fixed lists and fresh parsers, so a locale leaking in from elsewhere does not show.",
["parser.go","internal/language/loader.go","internal/language/languages.go"],
[("candidate locales come from the configured lists","parser.go getApplicableLocales, internal/language/loader.go")])
p("C13","The locale registry is complete and consistent",
"Every known locale code yields the data of exactly that locale, and every language and regional locale offered for detection is known. Every language has a distinct rank in the detection order, and each regional locale is built on top of its own language's data after that data is complete.",
["inputs"],"All locale codes in the registry and all entries of the language, region and order tables.",
"Tests touch a fraction of the 504 locales and never compare the tables with each other.",
["internal/data/00-locale-data.go","internal/data/01-language-order.go","internal/data/02-language-map.go","internal/data/03-language-locales-map.go","internal/data/04-locale-order.go","internal/data"],
[("lookup by locale code","internal/data/00-locale-data.go GetLocaleData"),("parent data merged into regional data","internal/data/00-locale-data.go merge")])
p("C14","Every locale's translation tables are well-formed",
"In every locale all twelve months, all seven weekdays and all time units can be recognised, every word translates only into words the date parsers understand, and a relative-time pattern never turns one time unit into another. Every pattern compiles and only refers to groups it has, the combined patterns and the word list cover exactly the locale's own vocabulary, the preferred date order is a permutation of day, month and year, and regional locales inherit everything their language defines.",
["inputs"],"Every entry of every one of the locale tables.",
"There are hundreds of thousands of entries; tests sample a few words per language.",
["internal/data","scripts/codegen/05-templates.go","scripts/codegen/03-structs.go","data-supplementary"],
[("generated tables","internal/data/*.go"),("table merge","internal/data/00-locale-data.go merge")])
p("C15","The time zone table is consistent with itself",
"Every numeric zone entry's offset equals the offset its name spells out, every offset lies between -12 and +14 hours and is a whole number of minutes, and no name carries two different offsets. Every entry of the table can be recognised in text, and the order in which entries are tried is fixed.",
["inputs"],"Every zone name and alternative spelling in the table.",
"Tests check some thirty of about five hundred entries.",
["internal/timezone/timezones.go","internal/timezone/tz-offsets.go","internal/timezone/parser.go"],
[("zone table and generated patterns","internal/timezone/timezones.go, internal/timezone/tz-offsets.go")])
p("C16","Every decimal digit of every script maps to its own value",
"Each decimal digit character covered by the digit table is converted to the ASCII digit of the same numeric value, and no character that is not a decimal digit is changed. The table covers all decimal digits known to the Unicode version in use and its ranges never overlap.",
["inputs"],"All Unicode characters.",
"Tests try a few scripts out of more than seventy.",
["internal/digit/digit.go","scripts/digit"],
[("digit range table and its application","internal/digit/digit.go")])
p("C17","No input makes a call panic",
"No text, format list or configuration makes any entry point panic: every index and slice stays within bounds, no nil table or value is dereferenced, nothing is divided by zero and no allocation size is negative or overflows. A panic can only come from a callback supplied by the caller.",
["inputs","configurations"],"All byte strings (including invalid UTF-8), all configurations.",
"A crash needs one specific token arrangement in one specific locale; tests sample a few thousand strings out of all strings.",
["parser.go","search.go","root.go","hijri-parser.go","jalali-parser.go","internal/language","internal/parser","internal/timezone","internal/strutil","internal/digit"],
[("length and membership tests in front of each index","all parsing packages")])
p("C18","Every call terminates",
"Every loop and every recursion reachable from an entry point makes progress towards its end on each round, whatever the input. In particular loops that consume the text consume at least one character per round and searches over years or weekdays are bounded.",
["inputs","configurations"],"All inputs and configurations; every loop and recursive call reachable from an entry point.",
"A non-terminating case needs one particular input and shows up as a hang, not as a failed assertion.",
["internal/language","internal/parser","search.go"],
[("bounded loops","internal/parser/absolute/parser.go, internal/parser/hijri/parser.go, internal/parser/jalali/parser.go, internal/language/split.go")])
p("C19","Both regular expression engines are wired identically",
"The library behaves the same whichever regular expression engine is selected at build time: both variants offer the same operations, and each operation is the engine's own operation of that name with the arguments passed through unchanged and in order. Exactly one variant is active in every build, and every built-in pattern is accepted by both engines' common syntax.",
["programs","inputs"],"All build tag combinations and all operations of the regular expression layer.",
"The test run builds only one variant, so the other can be broken without any test noticing.",
["internal/regexp/regexp.go","internal/regexp/regexp-re2.go"],
[("build-tagged wrappers","internal/regexp")])
p("C20","The library has no side effects outside its return values",
"No entry point writes to the standard streams, the file system, the network, the environment or process-wide runtime settings, starts goroutines or processes, installs handlers or terminates the program. Apart from the optional clock read and the parser's own remembered locales, a call's only effect is its return value.",
["inputs","configurations","histories"],"All calls with all inputs.",
"Tests do not watch for output, files, goroutines or environment access.",
["parser.go","search.go","internal"],
[("pure computation over in-memory tables","all packages reachable from the entry points")])
p("C21","The time zone of a result follows a fixed precedence",
"A time zone written in the text always decides the zone of the result; without one, the configured default time zone does; without either, the zone of the reference time does. This holds for every kind of date, and the wall clock time written in the text is kept as written wherever it exists in that zone; a Unix timestamp names an instant and never carries a zone: it is shown in the default or else the reference zone.",
["inputs","configurations"],"All dates with and without zones, all default time zones and reference zones, all parser kinds.",
"Tests combine a zone in the text, a default zone and a reference zone only for a few strings and kinds.",
["parser.go","internal/parser/formatted/parser.go","internal/parser/relative/parser.go","internal/parser/timestamp/parser.go","internal/parser/hijri/parser.go","internal/parser/jalali/parser.go","internal/timezone"],
[("zone popped from the text, then default zone","parser.go applyTimezone, internal/parser/*")])
p("C22","Text is only ever cut at character boundaries",
"Valid UTF-8 text stays valid UTF-8: no part of the text handed to a parser, returned by the time zone helper or reported by a search starts or ends inside a multi-byte character. Every cut position is a position found by searching the text, the start or end of the text, or the end of a separator that was found.",
["inputs"],"All texts containing multi-byte characters next to the places where text is cut.",
"Only one test text has a multi-byte character adjacent to a cut.",
["internal/timezone/parser.go","internal/strutil/strutil.go","internal/language","search.go"],
[("cut positions taken from searches","internal/timezone/parser.go, internal/strutil/strutil.go")])
p("C23","Search keeps original text and translation aligned",
"Each text reported by a search consists of consecutive pieces of the text the caller passed in (with white space collapsed and trimmed), never of its translation, and it belongs to the same position as the date reported with it. Original and translated pieces are always split, filtered and collected in lockstep.",
["inputs"],"All texts and languages; every place where pieces of original and translated text are collected side by side.",
"The tests' texts translate word by word; misalignment needs words that vanish, merge or multiply in translation.",
["search.go","internal/language/translate-search.go","internal/language/split.go"],
[("parallel lists extended together","internal/language/translate-search.go, search.go")])
p("C24","Exactly the selected parser kinds run, in the caller's order",
"For each candidate locale exactly the parser kinds the caller selected are tried, in the order given, and each kind runs its own parser; when none is selected, all kinds are tried in the documented order. The first kind that yields a date decides the result and no later one is consulted.",
["configurations","inputs"],"All lists of parser kinds and all inputs.",
"Tests select one or two kinds; a kind wired to another parser, skipped or tried out of order is masked by the other kinds accepting the same text.",
["parser.go"],
[("dispatch on the parser kind","parser.go Parse")])
p("C25","Preferences only fill in what the text leaves out",
"A day, month or year written in the text is never replaced. The preferred day of month is only applied to dates whose text names no day, the preferred month of year only to dates whose text names no month, and the correction towards past or future dates only changes a year, month or day that the text left out: a preference for past dates never moves a date forward, one for future dates never backward. In the parsers that work on the parts of a date, every date with a missing part gets the configured preference, a time without a date is never moved to another month, and a day that is filled in never changes the year.",
["inputs","configurations"],"All dates with any part missing, all combinations of the preferences, all component-based parsers.",
"Each preference is tested with a few strings; a preference applied under the wrong condition shows only for one combination of parts and preferences.",
["internal/parser/absolute/parser.go","internal/parser/formatted/parser.go","internal/parser/common","internal/parser/jalali/parser.go","internal/parser/hijri/parser.go","internal/parser/nospace/parser.go"],
[("guards around the preference helpers","internal/parser/absolute/parser.go, internal/parser/formatted/parser.go, parser.go")])
p("C26","Calendars are never mixed",
"In Hijri and Jalali dates, missing parts are filled in from the reference date converted to the same calendar in the reference zone, and limits and leap years are those of that calendar. A year, month or day of the Gregorian calendar is never used as a part of a Hijri or Jalali date, or the other way round, except through a conversion of a complete date.",
["inputs","configurations"],"All Hijri and Jalali texts with missing parts, all reference dates.",
"Tests mostly use complete dates; a part taken from the wrong calendar needs a text with that part missing.",
["internal/parser/hijri/parser.go","internal/parser/jalali/parser.go","internal/parser/absolute/parser.go","hijri-parser.go","jalali-parser.go"],
[("reference date converted before its parts are used","internal/parser/hijri/parser.go, internal/parser/jalali/parser.go")])
p("C27","Relative amounts move the date the stated way, each in its own unit",
"A relative expression ('2 weeks ago', 'in 1 year 3 hours') is applied backwards from the reference time, unless the text says 'in' or future dates are preferred, in which case it is applied forwards; 'ago' always means backwards. Every amount written is applied, in the unit written next to it: a decade is ten years, a week seven days, and fractions are carried into smaller units by 12 months a year, 30 days a month, 24 hours a day, 60 minutes and 60 seconds. The period reported is that of the finest unit. (Amounts too large for the arithmetic are excluded, see N04.)",
["inputs","configurations"],"All combinations of units, directions and preferences, whole and fractional.",
"Tests mostly sample one or two units per text and rarely combine a preference with 'in' or 'ago'; a slip in one unit of one direction shows up only there.",
["internal/parser/relative/parser.go"],
[("units to parts of the date, signs","internal/parser/relative/parser.go parseDate, addDate"),("conversion between units","internal/parser/relative/parser.go getRelativeDurations")])
p("C28","Times of day and timestamps are carried over exactly",
"The hour, minute, second and nanosecond of a time that was read arrive in the result each in its own place, through every step that rebuilds the date, and none is dropped. A clock time is reported with the period of its finest part, and a twelve-hour clock is never read without AM or PM. A Unix timestamp is ten digits of seconds, optionally a sign before them, and optionally three of milliseconds and three of microseconds, which are added to the seconds.",
["inputs","configurations"],"All times of day and timestamps, in every calendar and parser.",
"Tests rarely have seconds or fractions together with the step at fault (a time zone, a preference, a calendar).",
["internal/parser/common/time.go","internal/parser/timestamp/parser.go","internal/parser/absolute","internal/parser/hijri/parser.go","internal/parser/jalali/parser.go","parser.go"],
[("layouts and their periods","internal/parser/common/time.go"),("parts of a timestamp","internal/parser/timestamp/parser.go"),("time.Date calls","parser.go, internal/parser")])
# not claimed (see DESIGN.md and MANIFEST.not_applicable)
p("N01","Calendar conversions are numerically exact",
"A Hijri (Umm al-Qura) or Jalali date converts to the Gregorian date of the same day for every supported year.",
["inputs"],"All supported dates.","Tests sample a few dates per calendar.",
["internal/parser/hijri/parser.go","internal/parser/jalali/parser.go"],[("third-party conversion","internal/parser/hijri, internal/parser/jalali")])
p("N02","Past and future preferences select the nearest matching date on that side",
"With a preference for past or future dates, an incomplete date resolves to the nearest matching date before or after the reference time.",
["inputs","configurations"],"All incomplete dates and reference times.","Tests sample a few reference times.",
["internal/parser/absolute/parser.go"],[("correction for the time frame","internal/parser/absolute/parser.go")])
p("N03","Language detection picks the language the text is written in",
"The language reported for a text is the language in which most of its words are known.",
["inputs"],"All texts.","Tests sample one text per language.",
["internal/language/detector.go"],[("scoring by known words","internal/language/detector.go")])
p("N04","Relative expressions are numerically exact",
"A relative expression of n units yields the reference time moved by exactly n units, for every n, without overflow.",
["inputs"],"All amounts and combinations of units.","Tests sample small amounts.",
["internal/parser/relative/parser.go"],[("duration arithmetic","internal/parser/relative/parser.go")])
p("N05","Work is bounded by a polynomial in the length of the text",
"Time and memory used by a call grow at most polynomially with the length of the text.",
["inputs"],"All texts.","Tests use short texts only.",
["internal/language/utils.go","internal/language/translate.go"],[("combination of alternative translations","internal/language/utils.go createPermutation")])
p("N06","A date formatted in a known layout is parsed back to itself",
"Formatting a date with a locale's own month and weekday names and parsing the result with that locale returns the same date.",
["inputs","configurations"],"All dates, layouts and locales.","Tests sample a few strings per locale.",
["parser.go","internal/language","internal/data"],[("translation followed by parsing","parser.go")])
