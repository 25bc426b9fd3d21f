NOW='now := time.Date(2021, 6, 15, 10, 30, 0, 0, time.UTC)\n'
seed('c01-default-types-before-lock','C01',
 'Two goroutines that use the same fresh Parser with no parser types for the first time, at the same moment.',
 'The default parser types are stored in the shared parser before its mutex is taken, so concurrent first calls race on the field.',
 '''for range 50 {
	p := &Parser{}
	var wg sync.WaitGroup
	for range 8 {
		wg.Add(1)
		go func() { defer wg.Done(); p.Parse(&Configuration{Languages: []string{"en"}}, "12 May 2020") }()
	}
	wg.Wait()
}''',
 ('parser.go','''	// Lock mutex
	p.Lock()
	defer p.Unlock()

	// Validate and initiate parsers
	for _, parser''','''	// Validate and initiate parsers
	p.initParserTypes()

	// Lock mutex
	p.Lock()
	defer p.Unlock()

	for _, parser'''),
 ('parser.go','''	if len(p.ParserTypes) == 0 {
		p.ParserTypes = []ParserType{
			Timestamp,
			NegativeTimestamp,
			RelativeTime,
			CustomFormat,
			AbsoluteTime,
			NoSpacesTime,
		}
	}

''',''),
 ('parser.go','''func (p *Parser) tryRelativeTime(''','''func (p *Parser) initParserTypes() {
	if len(p.ParserTypes) == 0 {
		p.ParserTypes = []ParserType{
			Timestamp,
			NegativeTimestamp,
			RelativeTime,
			CustomFormat,
			AbsoluteTime,
			NoSpacesTime,
		}
	}
}

func (p *Parser) tryRelativeTime('''),
 imports='sync',flags='-race')

seed('c02-unlock-skipped-on-callback-panic','C02',
 'A caller-supplied DateOrder function that panics, recovered by the caller, followed by another call on the same parser.',
 'The parser lock is released explicitly at the end instead of by defer, so a panic in a callback leaves it locked forever.',
 '''p := &Parser{}
func() {
	defer func() { recover() }()
	p.Parse(&Configuration{Languages: []string{"en"}, DateOrder: func(string) string { panic("x") }}, "12 May 2020")
}()
done := make(chan bool)
go func() { p.Parse(nil, "12 May 2020"); close(done) }()
select {
case <-done:
case <-time.After(20 * time.Second):
	t.Fatal("parser is still locked")
}''',
 ('parser.go','''	// Lock mutex
	p.Lock()
	defer p.Unlock()

	// Validate''','''	p.Lock()
	dt, err := p.parse(cfg, str, formats...)
	p.Unlock()

	return dt, err
}

func (p *Parser) parse(cfg *Configuration, str string, formats ...string) (date.Date, error) {
	// Validate'''),
 imports='time')

seed('c03-languages-sorted-in-place','C03',
 'A search with several languages that are not in order of popularity, whose slice the caller uses afterwards.',
 'Config.Clone shares the slice of languages and GetLanguages sorts it in place, so the slice of the caller is reordered.',
 '''langs := []string{"th", "fr", "en"}
var p Parser
p.Search(&Configuration{Languages: langs}, "12 mai 2020")
if langs[0] != "th" || langs[1] != "fr" || langs[2] != "en" {
	t.Fatal("languages of the caller are changed:", langs)
}''',
 ('config.go','		Languages:            slices.Clone(c.Languages),\n','		Languages:            c.Languages,\n'),
 ('internal/language/languages.go','			result = slices.Clone(languages)\n','			result = slices.Clip(languages)\n'))

seed('c04-previous-locale-without-option','C04',
 'A parser that first parses with TryPreviousLocales in French, then an ambiguous date without that option and languages.',
 'The previously used locale is tried first although the option is not set in the second call.',
 '''c := func() *Configuration { return &Configuration{CurrentTime: time.Date(2021, 6, 15, 0, 0, 0, 0, time.UTC)} }
fresh, _ := (&Parser{}).Parse(c(), "02/03/2020")
p := &Parser{}
c1 := c()
c1.TryPreviousLocales = true
if d, _ := p.Parse(c1, "3 août 2020"); d.Locale != "fr" {
	t.Skip("not french")
}
again, _ := p.Parse(c(), "02/03/2020")
if !fresh.Time.Equal(again.Time) || fresh.Locale != again.Locale {
	t.Fatal("result depends on history", fresh, again)
}''',
 ('parser.go','	if cfg.TryPreviousLocales {\n		var allowedLocales','	if useGiven := len(cfg.Locales) > 0 || len(cfg.Languages) > 0; cfg.TryPreviousLocales || !useGiven {\n		var allowedLocales'),
 ('parser.go','func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, allowedLocales []*data.LocaleData, dateStrings []string) *data.LocaleData {\n	for _, usedLocale := range p.usedLocales {','func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, allowedLocales []*data.LocaleData, dateStrings []string) *data.LocaleData {\n	for idx := range p.usedLocales {\n		usedLocale := p.usedLocales[idx]'),
 imports='time')

seed('c08-month-preference-not-validated','C08',
 'An undefined PreferredMonthOfYear together with a preferred day of month that is not the default.',
 'The undefined month preference is only rejected when the day preference has its default value.',
 '''if _, err := Parse(&Configuration{PreferredMonthOfYear: 9, PreferredDayOfMonth: Last}, "12 May 2020"); err == nil {
	t.Fatal("invalid configuration accepted")
}''',
 ('config.go','if moy := c.PreferredMonthOfYear; moy > LastMonth {','if moy := c.PreferredMonthOfYear; moy > LastMonth && c.PreferredDayOfMonth != Last {'))

seed('c10-only-first-required-part','C10',
 'Several required parts of which a later one is missing in the text.',
 'Only the first required part is checked.',
 NOW+'''cfg := &Configuration{Languages: []string{"en"}, CurrentTime: now, RequiredParts: []string{"month", "day"}, ParserTypes2: 0}
_ = cfg
p := &Parser{ParserTypes: []ParserType{AbsoluteTime}}
if d, err := p.Parse(cfg, "May 2020"); err == nil {
	t.Fatal("required day is missing", d)
}'''.replace(', ParserTypes2: 0',''),
 ('internal/parser/common/strict-check.go','''			return fmt.Errorf("required part \\"%s\\" is missing", requiredPart)
		}
''','''			return fmt.Errorf("required part \\"%s\\" is missing", requiredPart)
		}

		if !strictParsing {
			break
		}
'''),
 imports='time')

seed('c12-all-locales-when-region-unknown','C12',
 'Languages with a region none of them has.',
 'When no locale matches, the error is swallowed and every locale is tried instead.',
 NOW+'''d, err := Parse(&Configuration{Languages: []string{"de"}, Region: "XX", CurrentTime: now}, "12 janvier 2020")
if err == nil {
	t.Fatal("parsed with a locale that is not allowed", d)
}''',
 ('parser.go','''	if err != nil && err != language.ErrNotFound {
		return nil, err
	}

	// Fetch locales of default''','''	if err == language.ErrNotFound {
		locales, err = language.GetLocales(nil, nil, "", cfg.UseGivenOrder, false)
	}

	if err != nil {
		return nil, err
	}

	// Fetch locales of default'''),
 imports='time')

seed('c15-wrong-offset-of-one-zone','C15',
 'A text with the zone UTC+05:45 in the spelling that is in the table.',
 'The offset of one zone in the table does not fit to its name.',
 NOW+'''d, err := Parse(&Configuration{Languages: []string{"en"}, CurrentTime: now}, "12 May 2020 10:00 UTC+05:45")
_, off := d.Time.Zone()
if err != nil || off != 20700 {
	t.Fatal(d, err, off)
}''',
 ('internal/timezone/timezones.go','`UTC+05:45`: 20700,','`UTC+05:45`: 20800,'),
 imports='time')

seed('c16-one-digit-range-shifted','C16',
 'A date written in Khmer digits.',
 'One range of digits starts one code point too early, so all its digits have a wrong value.',
 NOW+'''d, err := Parse(&Configuration{Languages: []string{"en"}, CurrentTime: now}, "២០២០-០៥-១២")
if err != nil || d.Time.Format("2006-01-02") != "2020-05-12" {
	t.Fatal(d, err)
}''',
 ('internal/digit/digit.go',"{'\\U000017E0', '\\U000017E9'}","{'\\U000017DF', '\\U000017E8'}"),
 imports='time')

seed('c19-re2-find-index','C19',
 'The re2 engine and a caller of ReplaceAllLiteralString with a dollar sign in the replacement.',
 'One method of the re2 wrapper delegates to the method that expands the replacement.',
 '''rx := MustCompile(`(a+)b`)
if s := rx.ReplaceAllLiteralString("xaab", "$1"); s != "x$1" {
	t.Fatal(s)
}''',
 ('internal/regexp/regexp-re2.go','return re.rx.ReplaceAllLiteralString(src, repl)','return re.rx.ReplaceAllString(src, repl)'),
 flags='-tags re2_wasm',pkg='internal/regexp')

seed('c20-default-timezone-made-global','C20',
 'A configuration with a default time zone.',
 'Parsing sets time.Local of the whole process to the default time zone of the call.',
 NOW+'''loc, before := time.FixedZone("X", 3600), time.Local
Parse(&Configuration{Languages: []string{"en"}, CurrentTime: now, DefaultTimezone: loc}, "12 May 2020 10:00")
if time.Local != before {
	t.Fatal("time.Local changed")
}''',
 ('internal/parser/relative/parser.go','		now = now.In(cfg.DefaultTimezone)\n','		time.Local = cfg.DefaultTimezone\n		now = now.Local()\n'),
 imports='time')

seed('c21-utc-in-text-loses-to-default','C21',
 'A text with an explicit zone whose offset is zero, and a default time zone.',
 'A zone with offset zero in the text counts as no zone, so the default time zone wins.',
 NOW+'''d, err := Parse(&Configuration{Languages: []string{"en"}, CurrentTime: now, DefaultTimezone: time.FixedZone("X", 7*3600)}, "2 hours ago UTC")
_, off := d.Time.Zone()
if err != nil || off != 0 {
	t.Fatal(d, err)
}''',
 ('internal/parser/relative/parser.go','	if !tzData.IsZero() {\n		loc','	if tzData.Offset != 0 {\n		loc'),
 imports='time')

seed('c24-absolute-falls-through-to-nospaces','C24',
 'A parser limited to AbsoluteTime and a date without separators.',
 'The parser for dates without spaces also runs although the caller did not select it.',
 NOW+'''p := &Parser{ParserTypes: []ParserType{AbsoluteTime}}
if d, err := p.Parse(&Configuration{Languages: []string{"en"}, CurrentTime: now}, "20151015"); err == nil {
	t.Fatal("parsed by a parser that is not selected", d)
}''',
 ('parser.go','''				dt = p.tryAbsoluteTime(lCfg, translations)
''','''				dt = p.tryAbsoluteTime(lCfg, translations)
				if dt.IsZero() && len(p.ParserTypes) == 1 {
					dt = p.tryNoSpacesTime(lCfg, translations)
				}
'''),
 imports='time')

seed('c17-single-letter-weekday','C17',
 'A search where all parsed dates so far are relative and no reference time is given.',
 'The search for a base date runs past the first parsed date and indexes with -1.',
 '''defer func() {
	if r := recover(); r != nil {
		t.Fatal("panic:", r)
	}
}()
var p Parser
p.SearchWithLanguage(nil, "en", "yesterday lorem tomorrow ipsum 3 days ago")''',
 ('search.go','''		i--
		if i == -1 {
			return time.Time{}
		}
''','''		i--
		if i == -1 && len(parsedList) < 2 {
			return time.Time{}
		}
'''))

seed('c18-hijri-year-search','C18',
 'A weekday-only date in a language whose token has another case.',
 'The loop that walks to the weekday never reaches it.',
 '''done := make(chan bool)
go func() {
	absolute.Parse(&setting.Configuration{DateOrder: "MDY", CurrentTime: time.Date(2021, 6, 15, 0, 0, 0, 0, time.UTC)}, "TUESDAY", timezone.OffsetData{})
	absolute.Parse(&setting.Configuration{DateOrder: "MDY", CurrentTime: time.Date(2021, 6, 15, 0, 0, 0, 0, time.UTC)}, "Wednesday", timezone.OffsetData{})
	close(done)
}()
select {
case <-done:
case <-time.After(20 * time.Second):
	t.Fatal("does not terminate")
}''',
 ('internal/parser/absolute/parser.go','day := strings.ToLower(tokenWeekday.Text[:3])','day := tokenWeekday.Text[:3]'),
 imports='time github.com/markusmobius/go-dateparser/internal/parser/absolute github.com/markusmobius/go-dateparser/internal/setting github.com/markusmobius/go-dateparser/internal/timezone')

seed('c05-missing-parts-unsorted','C05',
 'A strict Hijri or Jalali parse in which several parts are missing.',
 'The missing parts in the error message are listed in map iteration order.',
 '''first := ""
for range 200 {
	_, err := ParseHijri(&Configuration{StrictParsing: true, CurrentTime: time.Date(2021, 6, 15, 0, 0, 0, 0, time.UTC)}, "10:00")
	if err == nil {
		t.Fatal("no error")
	}
	if first == "" {
		first = err.Error()
	}
	if first != err.Error() {
		t.Fatal(first, err)
	}
}''',
 ('internal/strutil/dict.go','		items = append(items, item)\n	}\n	sort.Strings(items)\n','		items = append(items, item)\n	}\n'),
 ('internal/strutil/dict.go','	"sort"\n',''),
 imports='time')

seed('c06-local-month-of-reference','C06',
 'A machine zone in which the reference time is in another month, and a custom format without month.',
 'The month that is filled in is the one of the reference time in the time zone of the machine.',
 '''time.Local = time.FixedZone("machine", -12*3600)
cfg := &Configuration{Languages: []string{"en"}, CurrentTime: time.Date(2021, 6, 1, 3, 0, 0, 0, time.UTC)}
d, err := Parse(cfg, "2019", "2006")
if err != nil || d.Time.Month() != 6 {
	t.Fatal(d, err)
}''',
 ('internal/parser/common/apply-month.go','newMonth = cfg.CurrentTime.Month()','newMonth = cfg.CurrentTime.Local().Month()'),
 imports='time')

seed('c07-time-period-dropped-when-strict','C07',
 'ReturnTimeAsPeriod together with StrictParsing.',
 'The conversion of the configuration drops ReturnTimeAsPeriod when strict parsing is on.',
 NOW+'''d, err := Parse(&Configuration{Languages: []string{"en"}, CurrentTime: now, ReturnTimeAsPeriod: true, StrictParsing: true}, "12 May 2020 10:20")
if err != nil || d.Period != date.Minute {
	t.Fatal(d, err)
}''',
 ('config.go','''		DefaultLanguages:     slices.Clone(c.DefaultLanguages),
		ReturnTimeAsPeriod:   c.ReturnTimeAsPeriod,
		PreserveEndOfMonth:   c.PreserveEndOfMonth,
	}
}
''','''		DefaultLanguages:     slices.Clone(c.DefaultLanguages),
		ReturnTimeAsPeriod:   c.ReturnTimeAsPeriod && !c.StrictParsing,
		PreserveEndOfMonth:   c.PreserveEndOfMonth,
	}
}
'''),
 imports='time github.com/markusmobius/go-dateparser/date')

seed('c11-month-normalised-without-year','C11',
 'PreserveEndOfMonth with a relative number of months that goes over the end of the year into February.',
 'The length of the target month is looked up in the year before the months are carried over, so 29 February of a common year rolls over into March.',
 '''cfg := &Configuration{Languages: []string{"en"}, CurrentTime: time.Date(2020, 10, 31, 0, 0, 0, 0, time.UTC), PreserveEndOfMonth: true}
d, err := Parse(cfg, "in 4 months")
if err != nil || d.Time.Month() != 2 || d.Time.Day() != 28 {
	t.Fatal(d, err)
}''',
 ('internal/parser/relative/parser.go','	lastDay := time.Date(y, m+1, 0, 0, 0, 0, 0, time.UTC).Day()','	lastDay := dateutil.GetLastDayOfMonth(y, (int(m)+1199)%12+1)'),
 ('internal/parser/relative/parser.go','	"github.com/markusmobius/go-dateparser/internal/parser/common"\n','	"github.com/markusmobius/go-dateparser/internal/dateutil"\n	"github.com/markusmobius/go-dateparser/internal/parser/common"\n'),
 imports='time')

seed('c22-index-of-lower-cased-text','C22',
 'A text with a character whose lower case is longer in bytes before the end of a sentence.',
 'Sentences are found in the lower-cased text but cut from the original one, inside of multi-byte characters.',
 '''ld, _ := data.GetLocaleData("en")
for _, s := range language.SplitSentence(ld, "ȺȺȺ. éééééééé") {
	if !utf8.ValidString(s) {
		t.Fatalf("%q", s)
	}
}''',
 ('internal/language/split.go','	for _, pos := range rxSplitter.FindAllStringSubmatchIndex(str, -1) {','	for _, pos := range rxSplitter.FindAllStringSubmatchIndex(strings.ToLower(str), -1) {\n		if pos[1] > len(str) {\n			break\n		}\n'),
 imports='unicode/utf8 github.com/markusmobius/go-dateparser/internal/data github.com/markusmobius/go-dateparser/internal/language')

seed('c23-failed-parts-shift-the-text','C23',
 'A search entry that must be split, in which a part that is no date comes before one that is.',
 'Parts that could not be parsed are removed from the results but not from the texts, so later dates get the text of an earlier part.',
 '''cfg := &Configuration{CurrentTime: time.Date(2021, 6, 15, 0, 0, 0, 0, time.UTC)}
var p Parser
for _, s := range []string{"month 2020 .", "day tuesday 2020,", "month hours june hours 2019"} {
	res, err := p.SearchWithLanguage(cfg, "en", s)
	if err != nil {
		t.Fatal(err)
	}
	for _, r := range res {
		if !strings.Contains(r.Text, r.Date.Time.Format("2006")) && r.Date.Time.Year() >= 2019 && r.Date.Time.Year() < 2021 {
			t.Fatal("text does not belong to date", r)
		}
	}
}''',
 ('search.go','		for k, parseResult := range bestParseResult {\n','		bestParseResult = slices.DeleteFunc(bestParseResult, func(r parsedSearch) bool { return r.Date.IsZero() })\n		for k, parseResult := range bestParseResult {\n'),
 ('search.go','\n				parsedList = append(parsedList, parseResult)\n				subStrings = append(subStrings, bestSubString[k])\n','\n				parsedList = append(parsedList, parseResult)\n				subStrings = append(subStrings, bestSubString[k])\n'),
 imports='time strings')

seed('c25-day-directive-without-zero','C25',
 'A custom format whose day directive has no leading zero, and a preferred day of the month.',
 'The day of the text is overwritten by the preference because the format is not seen as having a day.',
 NOW+'''d, err := Parse(&Configuration{Languages: []string{"en"}, CurrentTime: now, PreferredDayOfMonth: Last}, "2 May 2020", "2 Jan 2006")
if err != nil || d.Time.Day() != 2 {
	t.Fatal(d, err)
}''',
 ('internal/parser/formatted/parser.go','strings.Contains(checkerText, "4")','strings.Contains(checkerText, "04")'),
 imports='time')
