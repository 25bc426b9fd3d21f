From 743e9d563186eb63f35b765f8f6dcf740a3ce352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 01/36] fix: do not share stateful text transformers between
 concurrent calls

---
 internal/strutil/strutil.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 4a95223..0575737 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -13,8 +13,7 @@ import (
 )
 
 var (
-	nfkcTransformer    = transform.Chain(norm.NFKD, norm.NFKC)
-	unicodeTransformer = transform.Chain(norm.NFKD, runes.Remove(runes.In(unicode.Mn)), norm.NFKC)
+	markRemover = runes.Remove(runes.In(unicode.Mn))
 
 	aposthropeTransformer = runes.Map(func(r rune) rune {
 		switch r {
@@ -58,6 +57,8 @@ func SanitizeSpaces(s string) string {
 // NormalizeUnicode removes Nonspacing Mark (Mn) characters then
 // use NFKC as the normal forms.
 func NormalizeUnicode(str string) string {
+	// A chained transformer keeps an internal state, so it must not be shared between goroutines.
+	unicodeTransformer := transform.Chain(norm.NFKD, markRemover, norm.NFKC)
 	normalized, _, err := transform.String(unicodeTransformer, str)
 	if err != nil {
 		return str
@@ -74,6 +75,8 @@ func NormalizeAposthrope(s string) string {
 // NormalizeCharset is used to normalize charset in a string. Used before
 // detecting language of a string.
 func NormalizeCharset(str string) string {
+	// A chained transformer keeps an internal state, so it must not be shared between goroutines.
+	nfkcTransformer := transform.Chain(norm.NFKD, norm.NFKC)
 	normalized, _, err := transform.String(nfkcTransformer, str)
 	if err == nil {
 		str = normalized
-- 
2.43.0


From f4de166de529136f9007e045036dd284e1037ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 02/36] fix: do not read the charset cache of a parser without
 holding its lock

---
 search.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/search.go b/search.go
index 84d0be9..30feca1 100644
--- a/search.go
+++ b/search.go
@@ -65,11 +65,11 @@ func (p *Parser) Search(cfg *Configuration, text string) (string, []SearchResult
 	}
 
 	// Generate charsets
-	p.initUniqueCharsets(languages)
+	uniqueCharsets := p.initUniqueCharsets(languages)
 
 	// Detect language of the text
 	iCfg := cfg.toInternalConfig()
-	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, p.uniqueCharsets)
+	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, uniqueCharsets)
 	if err != nil {
 		return "", nil, err
 	}
@@ -140,18 +140,15 @@ func (p *Parser) initSearchConfig(cfg *Configuration) (*Configuration, error) {
 	return cfg, nil
 }
 
-func (p *Parser) initUniqueCharsets(languages []string) {
+// initUniqueCharsets returns the unique charsets of the specified languages. The returned
+// map is never modified once generated, so it can be read without holding the lock.
+func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	// Lock parser
 	p.Lock()
 	defer p.Unlock()
 
-	// Prepare map
-	if p.uniqueCharsets == nil {
-		p.uniqueCharsets = map[string][]rune{}
-	}
-
 	// Check if charsets need to be generated
-	mustGenerate := len(p.uniqueCharsets) != len(languages)
+	mustGenerate := len(p.uniqueCharsets) != len(strutil.NewDict(languages...))
 	if !mustGenerate {
 		for _, lang := range languages {
 			if _, exist := p.uniqueCharsets[lang]; !exist {
@@ -164,6 +161,8 @@ func (p *Parser) initUniqueCharsets(languages []string) {
 	if mustGenerate {
 		p.uniqueCharsets = language.GetUniqueCharsets(languages)
 	}
+
+	return p.uniqueCharsets
 }
 
 func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
-- 
2.43.0


From 7ffb5e746592b070559dd04f700ce96c8075c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 03/36] fix: accept day, month and year as required parts and
 reject anything else

---
 config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config.go b/config.go
index cb8a2c6..eaf4608 100644
--- a/config.go
+++ b/config.go
@@ -194,6 +194,7 @@ func (c Configuration) validate() error {
 	for _, part := range c.RequiredParts {
 		switch strings.ToLower(part) {
 		case "day", "month", "year":
+		default:
 			return fmt.Errorf("invalid component in required parts: %s", part)
 		}
 	}
-- 
2.43.0


From e5037b547294c3dd3b4466551506e8071ffe2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 04/36] fix: do not report the year as missing from dates
 without spaces

---
 internal/parser/nospace/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index ac023d2..7db30ef 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -71,10 +71,10 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 					continue
 				}
 
-				missingParts := strutil.NewDict()
+				missingParts := strutil.NewDict("day", "month", "year")
 				for key, part := range formatMapping {
-					if !strings.Contains(format, key) {
-						missingParts.Add(part)
+					if strings.Contains(format, key) {
+						missingParts.Remove(part)
 					}
 				}
 
-- 
2.43.0


From e4d7a29ee9c3a4fe2f7cda8bd376184aafe68d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 05/36] fix: do not use the machine clock to validate two digit
 years

---
 internal/parser/nospace/constants.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/parser/nospace/constants.go b/internal/parser/nospace/constants.go
index 30d6aac..f10dceb 100644
--- a/internal/parser/nospace/constants.go
+++ b/internal/parser/nospace/constants.go
@@ -5,7 +5,6 @@ import (
 	"sort"
 	"strconv"
 	"strings"
-	"time"
 
 	"slices"
 
@@ -226,12 +225,11 @@ func candidateIsValid(mapValues map[string]int) bool {
 			return false
 		}
 
-		currentYear := time.Now().Year()
-		currentCentury := (currentYear / 1000) * 1000
-		if year < currentYear-currentCentury {
-			year += currentCentury
+		// Use the same pivot as the Go layout, since it's the one used to parse the candidate
+		if year >= 69 {
+			year += 1900
 		} else {
-			year += currentCentury - 100
+			year += 2000
 		}
 	}
 
-- 
2.43.0


From addb8f28d8c3d26df86968b2633336398c1a9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 06/36] fix: enforce required parts whatever their letter case,
 as the validation does

---
 internal/parser/common/strict-check.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/parser/common/strict-check.go b/internal/parser/common/strict-check.go
index 271ec2b..8d08b76 100644
--- a/internal/parser/common/strict-check.go
+++ b/internal/parser/common/strict-check.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
@@ -23,7 +24,7 @@ func CheckStrictParsing(cfg *setting.Configuration, missingParts strutil.Dict) e
 
 	// Check if there are any missing required parts
 	for _, requiredPart := range requiredParts {
-		if missingParts.Contain(requiredPart) {
+		if missingParts.Contain(strings.ToLower(requiredPart)) {
 			return fmt.Errorf("required part \"%s\" is missing", requiredPart)
 		}
 	}
-- 
2.43.0


From 60cb08764a02ada8e78c0e0fda8a11f002bceab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 07/36] fix: try timezones in a fixed order instead of the
 random order of map iteration

---
 internal/timezone/timezones.go  | 26 ++++++++++++++++----------
 internal/timezone/tz-offsets.go | 19 +++++++++++++------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/internal/timezone/timezones.go b/internal/timezone/timezones.go
index 3dd841a..cb997c1 100644
--- a/internal/timezone/timezones.go
+++ b/internal/timezone/timezones.go
@@ -5,10 +5,16 @@ import "github.com/markusmobius/go-dateparser/internal/regexp"
 // Info is the data for parsing timezone from a string.
 type Info struct {
 	RegexPatterns       []string
-	AlternativePatterns map[*regexp.Regexp]string
+	AlternativePatterns []AlternativePattern
 	Timezones           map[string]int
 }
 
+// AlternativePattern is the rule to create an alternative pattern of a timezone.
+type AlternativePattern struct {
+	Rx          *regexp.Regexp
+	Replacement string
+}
+
 // These timezone list are taken fromseveral sources:
 // - http://stackoverflow.com/q/1703546
 // - http://en.wikipedia.org/wiki/List_of_time_zone_abbreviations
@@ -19,20 +25,20 @@ var timezoneInfoList = []Info{
 		RegexPatterns: []string{
 			`(.)%s$`,
 		},
-		AlternativePatterns: map[*regexp.Regexp]string{
+		AlternativePatterns: []AlternativePattern{
 			// UTC+n, UTC-n, GMT+n, GMT-n:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+n:mm, UTC-n:mm, GMT+n:mm, GMT-n:mm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`): `(?:UTC|GMT)\$1$2:$3`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`), `(?:UTC|GMT)\$1$2:$3`},
 			// UTC+nn, UTC-nn, GMT+nn, GMT-nn:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+nnmm, UTC-nnmm, GMT+nnmm, GMT-nnmm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`): `(?:UTC|GMT)\$1$2:?$3.*`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`), `(?:UTC|GMT)\$1$2:?$3.*`},
 			// Others:
-			regexp.MustCompile(`UTC`):   "",
-			regexp.MustCompile(`:`):     "",
-			regexp.MustCompile(`:|UTC`): "",
-			regexp.MustCompile(`UTC`):   "GMT",
+			{regexp.MustCompile(`UTC`), ""},
+			{regexp.MustCompile(`:`), ""},
+			{regexp.MustCompile(`:|UTC`), ""},
+			{regexp.MustCompile(`UTC`), "GMT"},
 		},
 		Timezones: map[string]int{
 			`UTC-12:00`: -43200,
diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index b53a382..140b281 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -2,6 +2,8 @@ package timezone
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"sort"
 	"strings"
 
@@ -25,38 +27,43 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	searchPatterns := map[string]struct{}{}
 
 	for _, tzInfo := range timezoneInfoList {
+		// Offsets are tried in order, so the order must not depend on map iteration
+		tzNames := slices.Sorted(maps.Keys(tzInfo.Timezones))
+
 		for _, pattern := range tzInfo.RegexPatterns {
 			// Main pattern
-			for tzName, offset := range tzInfo.Timezones {
+			for _, tzName := range tzNames {
 				searchPattern := regexp.QuoteMeta(tzName)
 				regexPattern := fmt.Sprintf(pattern, searchPattern)
 				if _, exist := regexPatterns[regexPattern]; exist {
 					continue
 				}
 
+				regexPatterns[regexPattern] = struct{}{}
 				searchPatterns[searchPattern] = struct{}{}
 				offsets = append(offsets, OffsetData{
 					Name:   tzName,
 					Regex:  regexp.MustCompile(`(?i)` + regexPattern),
-					Offset: offset,
+					Offset: tzInfo.Timezones[tzName],
 				})
 			}
 
 			// Alternative patterns
-			for replacer, replacement := range tzInfo.AlternativePatterns {
-				for tzName, offset := range tzInfo.Timezones {
+			for _, alternative := range tzInfo.AlternativePatterns {
+				for _, tzName := range tzNames {
 					searchPattern := regexp.QuoteMeta(tzName)
-					searchPattern = replacer.ReplaceAllString(searchPattern, replacement)
+					searchPattern = alternative.Rx.ReplaceAllString(searchPattern, alternative.Replacement)
 					regexPattern := fmt.Sprintf(pattern, searchPattern)
 					if _, exist := regexPatterns[regexPattern]; exist {
 						continue
 					}
 
+					regexPatterns[regexPattern] = struct{}{}
 					searchPatterns[searchPattern] = struct{}{}
 					offsets = append(offsets, OffsetData{
 						Name:   tzName,
 						Regex:  regexp.MustCompile(`(?i)` + regexPattern),
-						Offset: offset,
+						Offset: tzInfo.Timezones[tzName],
 					})
 				}
 			}
-- 
2.43.0


From 9a5815aa2b5ea1d2a23facb8b372c646fe853740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 08/36] fix: do not cut a multi-byte character in front of a
 popped timezone

---
 internal/timezone/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index 7893109..90ab057 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -5,12 +5,13 @@ package timezone
 func PopTzOffset(str string) (string, OffsetData) {
 	if rxSearchIgnoreCase.MatchString(str) {
 		for _, offsetData := range timezoneOffsets {
-			idxs := offsetData.Regex.FindStringIndex(str)
-			if len(idxs) == 0 {
+			idxs := offsetData.Regex.FindStringSubmatchIndex(str)
+			if len(idxs) < 4 {
 				continue
 			}
 
-			str = str[:idxs[0]+1] + str[idxs[1]:]
+			// The first group is the character before the timezone, which must be kept
+			str = str[:idxs[3]] + str[idxs[1]:]
 			return str, offsetData
 		}
 	}
-- 
2.43.0


From 6b05cf196345958d8928a4692c3be2f2d1c8ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 09/36] fix: do not read past the last token while searching in
 languages without word spacing

---
 internal/language/translate-search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 3812bba..8c00262 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -47,7 +47,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalTokens[i])
-			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
+			} else if i < lastTokenIndex && isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
 				translations, _ := translateWord(ld, currentAndNextJoined)
 				joinedOriginalToken := joinChunk(ld, originalTokens[i], originalTokens[i+1])
 
-- 
2.43.0


From 80296ac542db1eb2b3d10c7cb539c60294aa185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 10/36] fix: do not panic on Spanish sentences that start with
 a punctuation

---
 internal/language/split.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/language/split.go b/internal/language/split.go
index 01e9238..579b82e 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -65,8 +65,13 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	var lastPosition int
 	useDigitAbbrs := langWithDigitAbbrs.Contain(ld.Name)
 	for _, pos := range rxSplitter.FindAllStringSubmatchIndex(str, -1) {
-		// Fetch end of sentence from this match
-		eos := str[pos[2]:pos[3]]
+		// Fetch end of sentence from this match. The match might consist only of
+		// punctuations, in which case the sentence ends right before the match.
+		eosStart, eosEnd := pos[2], pos[3]
+		if eosStart < 0 {
+			eosStart, eosEnd = pos[0], pos[0]
+		}
+		eos := str[eosStart:eosEnd]
 
 		// If end of sentence is abbreviation, continue
 		if isAbbreviation(eos) {
@@ -79,7 +84,7 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 		}
 
 		// Extract this sentence
-		sentence := strings.TrimSpace(str[lastPosition:pos[3]])
+		sentence := strings.TrimSpace(str[lastPosition:eosEnd])
 		if sentence != "" {
 			sentences = append(sentences, sentence)
 		}
-- 
2.43.0


From f32c19ca0b7ab08f622b92e4d7df6ead53cbd75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 11/36] fix: do not roll over into the next month when a month
 or year is filled in

---
 internal/parser/absolute/parser.go    | 15 +++++++++++++--
 internal/parser/common/apply-month.go |  6 +++++-
 internal/parser/formatted/parser.go   |  4 +++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 71a5708..10dd884 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -519,11 +519,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	if tokenYearExist && len(tokenYear.Text) == 2 {
 		if p.Now.Before(t) {
 			if dateSource == setting.Past {
-				t = t.AddDate(-100, 0, 0)
+				t = addYears(t, -100)
 			}
 		} else {
 			if dateSource == setting.Future {
-				t = t.AddDate(100, 0, 0)
+				t = addYears(t, 100)
 			}
 		}
 	}
@@ -618,3 +618,14 @@ func (p Parser) getCorrectLeapYear(currentYear int) int {
 		}
 	}
 }
+
+// addYears moves the time by the specified number of years without
+// rolling over to the next month.
+func addYears(t time.Time, years int) time.Time {
+	year := t.Year() + years
+	day := min(t.Day(), dateutil.GetLastDayOfMonth(year, int(t.Month())))
+
+	return time.Date(year, t.Month(), day,
+		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+		t.Location())
+}
diff --git a/internal/parser/common/apply-month.go b/internal/parser/common/apply-month.go
index 3aeddd4..9a8de53 100644
--- a/internal/parser/common/apply-month.go
+++ b/internal/parser/common/apply-month.go
@@ -3,6 +3,7 @@ package common
 import (
 	"time"
 
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 )
 
@@ -29,7 +30,10 @@ func ApplyMonthFromConfig(cfg *setting.Configuration, t time.Time, currentMonth
 		}
 	}
 
-	return time.Date(t.Year(), newMonth, t.Day(),
+	// Make sure the day is not bigger than max day of the new month
+	day := min(t.Day(), dateutil.GetLastDayOfMonth(t.Year(), int(newMonth)))
+
+	return time.Date(t.Year(), newMonth, day,
 		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 		t.Location())
 }
diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index d436d07..2dbcfe3 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
@@ -62,7 +63,8 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 
 		// Check if format has year
 		if t.Year() == 0 {
-			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
+			lastDayOfMonth := dateutil.GetLastDayOfMonth(currentTime.Year(), int(t.Month()))
+			t = time.Date(currentTime.Year(), t.Month(), min(t.Day(), lastDayOfMonth),
 				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 				t.Location())
 		}
-- 
2.43.0


From bed21a781631d27fb6d7f9762825c2ea1932f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 12/36] fix: do not move a time without date to another month

---
 internal/parser/absolute/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 10dd884..3f9d6d8 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -576,6 +576,13 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 		return t
 	}
 
+	// The same goes if only a time is provided, since its date is either today or the
+	// adjacent day which also has been handled by `correctForTimeFrame`
+	_, tokenTimeExist := p.ComponentTokens["time"]
+	if tokenTimeExist && !tokenYearExist && !tokenDayExist {
+		return t
+	}
+
 	return common.ApplyMonthFromConfig(p.Config, t, p.Now.Month())
 }
 
-- 
2.43.0


From c644719d385bb1878a212e9e654f75d87b1b955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 13/36] fix: do not replace an explicit year to reach a leap
 day

---
 internal/parser/absolute/root.go | 5 +++--
 internal/parser/hijri/parser.go  | 5 +++--
 internal/parser/jalali/parser.go | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 8853c0f..ad34006 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -53,8 +53,9 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
-	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
+	// Fix leap year, unless the year is explicitly specified
+	_, yearExist := p.ComponentValues["year"]
+	if !yearExist && D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
 		Y = p.getCorrectLeapYear(Y)
 	}
 
diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index e2e0e6b..85223c6 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -130,8 +130,9 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
-	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
+	// Fix leap year, unless the year is explicitly specified
+	_, yearExist := p.ComponentValues["year"]
+	if !yearExist && D == 30 && M == 12 && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
 	}
 
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 45e9bf7..12c05e3 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -133,13 +133,14 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
+	// Fix leap year, unless the year is explicitly specified
 	isLeapYear, err := jalaali.IsLeapYear(Y)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	if D == 30 && M == 12 && !isLeapYear {
+	_, yearExist := p.ComponentValues["year"]
+	if !yearExist && D == 30 && M == 12 && !isLeapYear {
 		Y = getCorrectLeapYear(p.Config, Y)
 	}
 
-- 
2.43.0


From ca29e299b927debfa93b1bfa70d78ce0e8001871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 14/36] fix: fill the missing parts of a Jalali date from the
 Jalali calendar

---
 internal/parser/jalali/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 12c05e3..1145b99 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -61,22 +61,22 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
 	// Get current time in Jalali
-	jd := jalaali.From(p.Now)
+	nowYear, nowMonth, nowDay, _ := jalaali.ToJalaali(p.Now.Date())
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
 	if !dayExist || day == 0 {
-		day = jd.Day()
+		day = nowDay
 	}
 
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
-		month = int(jd.Month())
+		month = int(nowMonth)
 	}
 
 	year, yearExist := p.ComponentValues["year"]
 	if !yearExist || year == 0 {
-		year = jd.Year()
+		year = nowYear
 	}
 
 	return map[string]int{
-- 
2.43.0


From ab9a7320085068f23a0b9beb4de4ea7755c2eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 15/36] fix: accept the 31st day of a Jalali month

---
 internal/parser/jalali/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 1145b99..6c0f30c 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -121,7 +121,7 @@ func getDatePartValue(p *absolute.Parser, component, token, directive string) (i
 
 	if component == "day" && tokenLength <= 2 && tokenIsDigit {
 		day, _ := strconv.Atoi(token)
-		if day >= 1 && day <= 30 {
+		if day >= 1 && day <= 31 {
 			return day, true
 		}
 	}
-- 
2.43.0


From f3d7a8e7bbf90071951fadd45bc80c4b65480bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 16/36] fix: reject Hijri dates outside of the Umm al-Qura
 calendar instead of panicking

---
 internal/parser/hijri/parser.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 85223c6..47edfdc 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -1,6 +1,7 @@
 package hijri
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 	"time"
@@ -15,6 +16,12 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
 
+// Umm al-Qura calendar is only defined between these years.
+const (
+	minYear = 1356
+	maxYear = 1500
+)
+
 var timeConventions = map[string]string{
 	"am": "صباحا",
 	"pm": "مساء",
@@ -130,6 +137,11 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
+	// Make sure the date is within the scope of Umm al-Qura calendar
+	if Y < minYear || Y > maxYear || M < 1 || M > 12 || D < 1 {
+		return time.Time{}, fmt.Errorf("date is outside Umm al-Qura scope: %d-%d-%d", Y, M, D)
+	}
+
 	// Fix leap year, unless the year is explicitly specified
 	_, yearExist := p.ComponentValues["year"]
 	if !yearExist && D == 30 && M == 12 && !isHijriLeapYear(Y) {
@@ -170,12 +182,13 @@ func getHijriLeapYear(year int, toFuture bool) int {
 		step = -1
 	}
 
-	for {
-		year += step
-		if isHijriLeapYear(year) {
-			return year
+	for i := year + step; i >= minYear && i <= maxYear; i += step {
+		if isHijriLeapYear(i) {
+			return i
 		}
 	}
+
+	return year
 }
 
 func getCorrectHijriLeapYear(cfg *setting.Configuration, currentYear int) int {
-- 
2.43.0


From 7368cd859e2677c581b0a4044e9f5f6c6fc23549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 17/36] fix: do not use an impossible number as the missing day
 or month

---
 internal/parser/absolute/parser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 3f9d6d8..c27010d 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -252,7 +252,11 @@ func (p *Parser) Init(str string) error {
 		if _, exist := p.ComponentValues[component]; !exist {
 			for _, ut := range p.UnsetTokens {
 				if ut.Type == tokenizer.Digit {
-					newValue, _ := strconv.Atoi(ut.Text)
+					newValue, err := strconv.Atoi(ut.Text)
+					if err != nil || !isValidValue(component, newValue) {
+						continue
+					}
+
 					p.ComponentTokens[component] = ut
 					p.ComponentValues[component] = newValue
 				}
@@ -636,3 +640,15 @@ func addYears(t time.Time, years int) time.Time {
 		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 		t.Location())
 }
+
+// isValidValue check if the value is possible for the specified component.
+func isValidValue(component string, value int) bool {
+	switch component {
+	case "day":
+		return value >= 1 && value <= 31
+	case "month":
+		return value >= 1 && value <= 12
+	default:
+		return true
+	}
+}
-- 
2.43.0


From 8d018cee9d5a884783bb0a45e9505ce65a79b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 18/36] fix: use the reference date in its own timezone for
 Hijri dates

---
 internal/parser/hijri/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 47edfdc..829713e 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -71,8 +71,11 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 }
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
-	// Get current time in Hijri
-	hd, _ := hijri.CreateUmmAlQuraDate(p.Now)
+	// Get current date in Hijri. The conversion is done in UTC, so the
+	// date is moved there to make sure it is not shifted by its timezone.
+	nowYear, nowMonth, nowDay := p.Now.Date()
+	now := time.Date(nowYear, nowMonth, nowDay, 12, 0, 0, 0, time.UTC)
+	hd, _ := hijri.CreateUmmAlQuraDate(now)
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
-- 
2.43.0


From 718c1e3bbd973f4284ef1387af6542f76c9015f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 19/36] fix: do not cut a multi-byte character while
 translating a word with punctuation

---
 internal/language/translate-search.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 8c00262..b3bf9fa 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -2,6 +2,7 @@ package language
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"slices"
 
@@ -59,7 +60,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 				translatedChunk = append(translatedChunk, translations)
 				originalChunk = append(originalChunk, originalTokens[i])
 			} else if isInDictionary(ld, cleanedWord) && !dashes.Contain(word) {
-				punct := word[len(cleanedWord):]
+				punct := string([]rune(word)[utf8.RuneCountInString(cleanedWord):])
 				translations, _ := translateWord(ld, cleanedWord)
 				for i, translation := range translations {
 					translations[i] = translation + punct
-- 
2.43.0


From 73b22a8335d5bf26dc0a60cb116e81f904abf9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 20/36] fix: search with all options of the caller and only in
 the detected language

---
 config.go | 16 ----------------
 search.go | 17 ++++++++---------
 2 files changed, 8 insertions(+), 25 deletions(-)

diff --git a/config.go b/config.go
index eaf4608..d2be19e 100644
--- a/config.go
+++ b/config.go
@@ -232,19 +232,3 @@ func (c Configuration) toInternalConfig() *setting.Configuration {
 		PreserveEndOfMonth:   c.PreserveEndOfMonth,
 	}
 }
-
-func configFromInternal(c *setting.Configuration) *Configuration {
-	return &Configuration{
-		CurrentTime:          c.CurrentTime,
-		DefaultTimezone:      c.DefaultTimezone,
-		PreferredDayOfMonth:  PreferredDayOfMonth(c.PreferredDayOfMonth),
-		PreferredMonthOfYear: PreferredMonthOfYear(c.PreferredMonthOfYear),
-		PreferredDateSource:  PreferredDateSource(c.PreferredDateSource),
-		StrictParsing:        c.StrictParsing,
-		RequiredParts:        slices.Clone(c.RequiredParts),
-		SkipTokens:           slices.Clone(c.SkipTokens),
-		DefaultLanguages:     slices.Clone(c.DefaultLanguages),
-		ReturnTimeAsPeriod:   c.ReturnTimeAsPeriod,
-		PreserveEndOfMonth:   c.PreserveEndOfMonth,
-	}
-}
diff --git a/search.go b/search.go
index 30feca1..10c6fc0 100644
--- a/search.go
+++ b/search.go
@@ -13,7 +13,6 @@ import (
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/language"
-	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
 )
 
@@ -106,7 +105,9 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 	}
 
 	// Parse the text
-	parsedSearch, subStrings := p.parseFoundObjects(iCfg, languages, translation, original)
+	parserCfg := cfg.Clone()
+	parserCfg.Locales, parserCfg.Languages, parserCfg.Region = nil, languages, ""
+	parsedSearch, subStrings := p.parseFoundObjects(parserCfg, languages, translation, original)
 
 	// Create final result
 	result := make([]SearchResult, len(parsedSearch))
@@ -165,7 +166,7 @@ func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	return p.uniqueCharsets
 }
 
-func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
+func (p *Parser) parseFoundObjects(cfg *Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
 	// Specify entries to parse
 	var parserEntries []string
 	if languages[0] == "en" {
@@ -177,14 +178,14 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 	// Parse each entries
 	var parsedList []parsedSearch
 	var subStrings []string
-	needRelativeBase := iCfg.CurrentTime.IsZero()
+	needRelativeBase := cfg.CurrentTime.IsZero()
 
 	for i, entry := range parserEntries {
 		if utf8.RuneCountInString(entry) <= 2 {
 			continue
 		}
 
-		parsedEntry, isRelative := p.parseEntry(iCfg, entry, translation[i], parsedList, needRelativeBase)
+		parsedEntry, isRelative := p.parseEntry(cfg, entry, translation[i], parsedList, needRelativeBase)
 		if !parsedEntry.IsZero() {
 			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
 			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
@@ -208,7 +209,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 						continue
 					}
 
-					parsedJEntry, jIsRelative := p.parseEntry(iCfg, jEntry,
+					parsedJEntry, jIsRelative := p.parseEntry(cfg, jEntry,
 						split.EntryParts[j], currentParseResult, needRelativeBase)
 
 					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
@@ -234,13 +235,12 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 	return parsedList, subStrings
 }
 
-func (p *Parser) parseEntry(iCfg *setting.Configuration, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
+func (p *Parser) parseEntry(cfg *Configuration, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
 	entry = strings.ReplaceAll(entry, "am", "")
 
 	// Parse entry
-	cfg := configFromInternal(iCfg)
 	parsedEntry, _ := p.Parse(cfg, entry)
 
 	// If needed, generate relative base and parse the entry
@@ -251,7 +251,6 @@ func (p *Parser) parseEntry(iCfg *setting.Configuration, entry, translation stri
 
 	if !relativeBase.IsZero() {
 		cfg.CurrentTime = relativeBase
-		iCfg.CurrentTime = relativeBase
 		parsedEntry, _ = p.Parse(cfg, entry)
 	}
 
-- 
2.43.0


From 19d7cbb464ebdb4d13e4e5b710767b617bb93f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 21/36] fix: never use a previous locale the caller does not
 allow, report unknown default languages

---
 parser.go | 49 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/parser.go b/parser.go
index 0dc6ace..3d1efe5 100644
--- a/parser.go
+++ b/parser.go
@@ -225,15 +225,6 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 		dateStrings = append(dateStrings, poppedTz)
 	}
 
-	// Fetch previously used locales first
-	if cfg.TryPreviousLocales {
-		ld := p.checkPreviousLocales(iCfg, dateStrings)
-		if ld != nil {
-			results = append(results, ld)
-			resultTracker.Add(ld.Name)
-		}
-	}
-
 	// If specified, use external detector to fetch languages
 	languages := slices.Clone(cfg.Languages)
 	if p.DetectLanguagesFunction != nil && len(cfg.Locales) == 0 && len(languages) == 0 {
@@ -247,6 +238,31 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 		return nil, err
 	}
 
+	// Fetch locales of default languages
+	var defaultLocales []*data.LocaleData
+	if len(cfg.DefaultLanguages) > 0 {
+		defaultLocales, err = language.GetLocales(nil, cfg.DefaultLanguages, cfg.Region, cfg.UseGivenOrder, false)
+		if err != nil && err != language.ErrNotFound {
+			return nil, err
+		}
+	}
+
+	// Put the previously used locale first, as long as it's allowed by the caller
+	if cfg.TryPreviousLocales {
+		var allowedLocales []*data.LocaleData
+		if len(cfg.Locales) > 0 || len(cfg.Languages) > 0 {
+			allowedLocales = slices.Concat(locales, defaultLocales)
+		} else {
+			allowedLocales = p.usedLocales
+		}
+
+		ld := p.checkPreviousLocales(iCfg, allowedLocales, dateStrings)
+		if ld != nil {
+			results = append(results, ld)
+			resultTracker.Add(ld.Name)
+		}
+	}
+
 	for _, locale := range locales {
 		if resultTracker.Contain(locale.Name) {
 			continue
@@ -268,20 +284,21 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 	}
 
 	// Finally, append locales of default languages
-	if len(iCfg.DefaultLanguages) > 0 {
-		locales, _ := language.GetLocales(nil, cfg.DefaultLanguages, cfg.Region, cfg.UseGivenOrder, false)
-		for _, locale := range locales {
-			if !resultTracker.Contain(locale.Name) {
-				results = append(results, locale)
-			}
+	for _, locale := range defaultLocales {
+		if !resultTracker.Contain(locale.Name) {
+			results = append(results, locale)
 		}
 	}
 
 	return results, nil
 }
 
-func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, dateStrings []string) *data.LocaleData {
+func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, allowedLocales []*data.LocaleData, dateStrings []string) *data.LocaleData {
 	for _, usedLocale := range p.usedLocales {
+		if !slices.Contains(allowedLocales, usedLocale) {
+			continue
+		}
+
 		for _, ds := range dateStrings {
 			if p.localeIsApplicable(iCfg, usedLocale, ds) {
 				return usedLocale
-- 
2.43.0


From 16a2e93504e569b55bdaaa1be3c18d726daff021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 22/36] fix: use the offset that the default timezone has at
 the parsed date

---
 parser.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parser.go b/parser.go
index 3d1efe5..bb8d7f7 100644
--- a/parser.go
+++ b/parser.go
@@ -334,18 +334,14 @@ func (p *Parser) applyTimezone(iCfg *setting.Configuration, dt date.Date, tz tim
 		return dt
 	}
 
-	var tzName string
-	var tzOffset int
-
+	loc := iCfg.DefaultTimezone
 	if !tz.IsZero() {
-		tzName, tzOffset = tz.Name, tz.Offset
-	} else {
-		tzName, tzOffset = dt.Time.In(iCfg.DefaultTimezone).Zone()
+		loc = time.FixedZone(tz.Name, tz.Offset)
 	}
 
 	dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
 		dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
-		time.FixedZone(tzName, tzOffset))
+		loc)
 
 	return dt
 }
-- 
2.43.0


From e40b6d6cb137abf7eb25e2bf1e93fd0fbb88ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 23/36] fix: use the timezone of the reference time for
 formatted, numeric and Unix dates

---
 internal/parser/formatted/parser.go |  2 +-
 internal/parser/nospace/parser.go   | 14 ++++++++++----
 internal/parser/timestamp/parser.go | 13 +++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index 2dbcfe3..2bcfdd7 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -22,7 +22,7 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		if cfg.DefaultTimezone != nil {
 			timeLoc = cfg.DefaultTimezone
 		} else {
-			timeLoc = time.UTC
+			timeLoc = cfg.CurrentTime.Location()
 		}
 	} else {
 		timeLoc = time.FixedZone(tzData.Name, tzData.Offset)
diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index 7db30ef..4e698e4 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -27,6 +27,12 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		return date.Date{}, fmt.Errorf("string is empty")
 	}
 
+	// Fetch location for the date
+	loc := time.UTC
+	if cfg != nil {
+		loc = cfg.CurrentTime.Location()
+	}
+
 	// Fetch date order
 	var order string
 	if cfg != nil && cfg.DateOrder != "" {
@@ -34,7 +40,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 	} else {
 		order = strings.ToLower("MDY")
 		if rxEightDigit.MatchString(str) {
-			dt := findBestMatchingDate(str)
+			dt := findBestMatchingDate(str, loc)
 			if !dt.IsZero() {
 				return dt, nil
 			}
@@ -60,7 +66,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 			candidates, goFormat := createParseCandidates(token.Text, format)
 
 			for _, candidate := range candidates {
-				t, _ := time.Parse(goFormat, candidate)
+				t, _ := time.ParseInLocation(goFormat, candidate, loc)
 				if t.IsZero() {
 					continue
 				}
@@ -99,9 +105,9 @@ func isEligible(str string) bool {
 	return match == "" || match == ":"
 }
 
-func findBestMatchingDate(str string) date.Date {
+func findBestMatchingDate(str string, loc *time.Location) date.Date {
 	for _, format := range preferredFormatsOrdered8Digit {
-		t, _ := time.Parse(format, str)
+		t, _ := time.ParseInLocation(format, str, loc)
 		if !t.IsZero() && t.Year() >= 1000 {
 			period := getPeriodFromFormat(format)
 			return date.Date{Time: t, Period: period}
diff --git a/internal/parser/timestamp/parser.go b/internal/parser/timestamp/parser.go
index d10121f..bec9821 100644
--- a/internal/parser/timestamp/parser.go
+++ b/internal/parser/timestamp/parser.go
@@ -36,8 +36,21 @@ func Parse(cfg *setting.Configuration, str string, negative bool) date.Date {
 		nanos := micros*1_000 + millis*1_000_000
 
 		t := time.Unix(seconds, nanos)
+		if cfg != nil {
+			t = t.In(getLocation(cfg))
+		}
+
 		return date.Date{Time: t, Period: period}
 	}
 
 	return date.Date{}
 }
+
+// getLocation returns the timezone for the date, since it's never specified in timestamp.
+func getLocation(cfg *setting.Configuration) *time.Location {
+	if cfg.DefaultTimezone != nil {
+		return cfg.DefaultTimezone
+	}
+
+	return cfg.CurrentTime.Location()
+}
-- 
2.43.0


From facf251ba879266e3cc8cfac77310940693a6225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 24/36] fix: use the default timezone for Hijri and Jalali
 dates

---
 internal/parser/hijri/parser.go  | 13 ++++++++++---
 internal/parser/jalali/parser.go | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 829713e..953ea62 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -60,11 +60,18 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		return date.Date{}, err
 	}
 
-	// Apply the popped timezone
-	if !dt.IsZero() && !tz.IsZero() {
+	// Apply the popped timezone, or the default one if there is none
+	var loc *time.Location
+	if !tz.IsZero() {
+		loc = time.FixedZone(tz.Name, tz.Offset)
+	} else if cfg != nil {
+		loc = cfg.DefaultTimezone
+	}
+
+	if !dt.IsZero() && loc != nil {
 		dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
 			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
-			time.FixedZone(tz.Name, tz.Offset))
+			loc)
 	}
 
 	return dt, nil
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 6c0f30c..900c951 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -49,11 +49,18 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		return date.Date{}, err
 	}
 
-	// Apply the popped timezone
-	if !dt.IsZero() && !tz.IsZero() {
+	// Apply the popped timezone, or the default one if there is none
+	var loc *time.Location
+	if !tz.IsZero() {
+		loc = time.FixedZone(tz.Name, tz.Offset)
+	} else if cfg != nil {
+		loc = cfg.DefaultTimezone
+	}
+
+	if !dt.IsZero() && loc != nil {
 		dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
 			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
-			time.FixedZone(tz.Name, tz.Offset))
+			loc)
 	}
 
 	return dt, nil
-- 
2.43.0


From ba9b5c303b8b33944ffed53ec0d98c7535eb92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 25/36] fix: compare a time without date with the reference
 time in its own timezone

---
 internal/parser/absolute/parser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index c27010d..d5e6706 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -533,12 +533,15 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		tzOffset := tz.Offset
-		if tz.IsZero() && p.Config.DefaultTimezone != nil {
-			_, tzOffset = t.In(p.Config.DefaultTimezone).Zone()
+		loc := t.Location()
+		if !tz.IsZero() {
+			loc = time.FixedZone(tz.Name, tz.Offset)
+		} else if p.Config != nil && p.Config.DefaultTimezone != nil {
+			loc = p.Config.DefaultTimezone
 		}
 
-		tmp := t.Add(-time.Duration(tzOffset) * time.Second)
+		tmp := time.Date(t.Year(), t.Month(), t.Day(),
+			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
 
 		if dateSource == setting.Past && p.Now.Before(tmp) {
 			t = t.AddDate(0, 0, -1)
-- 
2.43.0


From c697805be6719dc75ed150a554f7d7cf0ae1e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 26/36] fix: let regional locales inherit the known words of
 their language

---
 internal/data/00-locale-data.go | 11 +++++++++++
 scripts/codegen/05-templates.go | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/internal/data/00-locale-data.go b/internal/data/00-locale-data.go
index 873ed96..ead1fb4 100755
--- a/internal/data/00-locale-data.go
+++ b/internal/data/00-locale-data.go
@@ -76,6 +76,17 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 		child.RxExactCombined = parent.RxExactCombined
 	}
 
+	// Inherit the values that are identical to the parent
+	if child.DateOrder == "" {
+		child.DateOrder = parent.DateOrder
+	}
+
+	if len(child.KnownWords) == 0 {
+		child.KnownWords = parent.KnownWords
+	}
+
+	child.NoWordSpacing = child.NoWordSpacing || parent.NoWordSpacing
+
 	return child
 }
 
diff --git a/scripts/codegen/05-templates.go b/scripts/codegen/05-templates.go
index 0a33237..47f8a3a 100644
--- a/scripts/codegen/05-templates.go
+++ b/scripts/codegen/05-templates.go
@@ -264,6 +264,17 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 		child.RxExactCombined = parent.RxExactCombined
 	}
 
+	// Inherit the values that are identical to the parent
+	if child.DateOrder == "" {
+		child.DateOrder = parent.DateOrder
+	}
+
+	if len(child.KnownWords) == 0 {
+		child.KnownWords = parent.KnownWords
+	}
+
+	child.NoWordSpacing = child.NoWordSpacing || parent.NoWordSpacing
+
 	return child
 }
 
-- 
2.43.0


From c7763a40864ec56ef0e9c2fd23b6e56f9337cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 27/36] fix: use a valid date order for every locale

---
 internal/data/bg.go                 | 2 +-
 internal/data/bs-cyrl.go            | 2 +-
 internal/data/bs-latn.go            | 2 +-
 internal/data/bs.go                 | 2 +-
 internal/data/hr.go                 | 4 ++--
 internal/data/hu.go                 | 2 +-
 internal/data/ko.go                 | 4 ++--
 internal/data/sr-cyrl.go            | 8 ++++----
 internal/data/sr-latn.go            | 8 ++++----
 internal/data/sr.go                 | 2 +-
 parser.go                           | 4 ++++
 scripts/codegen/data-cldr-parser.go | 6 +++++-
 12 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/internal/data/bg.go b/internal/data/bg.go
index c9dd6d3..a1052ab 100755
--- a/internal/data/bg.go
+++ b/internal/data/bg.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	bg_Locale = merge(nil, LocaleData{
 		Name:                  "bg",
-		DateOrder:             "DMY 'Г'.",
+		DateOrder:             "DMY",
 		Charset:               []rune(`cgtuzабвгдезийклмнопрстуфхцчщъюя`),
 		SentenceSplitterGroup: 1,
 		Simplifications: []ReplacementData{
diff --git a/internal/data/bs-cyrl.go b/internal/data/bs-cyrl.go
index 380f3c2..ad7d3f1 100755
--- a/internal/data/bs-cyrl.go
+++ b/internal/data/bs-cyrl.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	bs_Cyrl_Locale = merge(nil, LocaleData{
 		Name:      "bs-Cyrl",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`ceghinorstuwzабвгдеиклмнопрстуфцчшјљћ`),
 		Translations: map[string][]string{
 			"понедељак": {"monday"},
diff --git a/internal/data/bs-latn.go b/internal/data/bs-latn.go
index 3ce0224..b269053 100755
--- a/internal/data/bs-latn.go
+++ b/internal/data/bs-latn.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	bs_Latn_Locale = merge(nil, LocaleData{
 		Name:      "bs-Latn",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`bcdefghijklnorstuvzćčš`),
 		Translations: map[string][]string{
 			"ponedjeljak": {"monday"},
diff --git a/internal/data/bs.go b/internal/data/bs.go
index de7f1d6..558a1f4 100755
--- a/internal/data/bs.go
+++ b/internal/data/bs.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	bs_Locale = merge(nil, LocaleData{
 		Name:      "bs",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`bcdefghijklnorstuvzćčš`),
 		Translations: map[string][]string{
 			"ponedjeljak": {"monday"},
diff --git a/internal/data/hr.go b/internal/data/hr.go
index 6407b2a..f8a68d3 100755
--- a/internal/data/hr.go
+++ b/internal/data/hr.go
@@ -12,7 +12,7 @@ var (
 func init() {
 	hr_Locale = merge(nil, LocaleData{
 		Name:      "hr",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`bcdeghijklnorstuvzćčšž`),
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])podne(\z|[^\pL\pM\d_])`), "${1}12:00${2}"},
@@ -264,6 +264,6 @@ func init() {
 
 	hr_BA_Locale = merge(&hr_Locale, LocaleData{
 		Name:      "hr-BA",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 	})
 }
diff --git a/internal/data/hu.go b/internal/data/hu.go
index 718cd13..ac68655 100755
--- a/internal/data/hu.go
+++ b/internal/data/hu.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	hu_Locale = merge(nil, LocaleData{
 		Name:                  "hu",
-		DateOrder:             "YMD.",
+		DateOrder:             "YMD",
 		Charset:               []rune(`-bcdefghijklnorstuvxzáéóöúüő`),
 		SentenceSplitterGroup: 1,
 		Simplifications: []ReplacementData{
diff --git a/internal/data/ko.go b/internal/data/ko.go
index ea51b3b..6978263 100755
--- a/internal/data/ko.go
+++ b/internal/data/ko.go
@@ -12,7 +12,7 @@ var (
 func init() {
 	ko_Locale = merge(nil, LocaleData{
 		Name:      "ko",
-		DateOrder: "YMD.",
+		DateOrder: "YMD",
 		Charset:   []rune(`cgtuz간금난내년늘다달목번분수시어오올요월음이일작재전제주지초토해현화후`),
 		Translations: map[string][]string{
 			"10월": {"october"},
@@ -107,6 +107,6 @@ func init() {
 
 	ko_KP_Locale = merge(&ko_Locale, LocaleData{
 		Name:      "ko-KP",
-		DateOrder: "YMD.",
+		DateOrder: "YMD",
 	})
 }
diff --git a/internal/data/sr-cyrl.go b/internal/data/sr-cyrl.go
index f58fab6..ed28f85 100755
--- a/internal/data/sr-cyrl.go
+++ b/internal/data/sr-cyrl.go
@@ -14,7 +14,7 @@ var (
 func init() {
 	sr_Cyrl_Locale = merge(nil, LocaleData{
 		Name:      "sr-Cyrl",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`cgtuzабвгдеиклмнопрстуфцчшјљћ`),
 		Translations: map[string][]string{
 			"понедељак": {"monday"},
@@ -163,7 +163,7 @@ func init() {
 
 	sr_Cyrl_BA_Locale = merge(&sr_Cyrl_Locale, LocaleData{
 		Name:      "sr-Cyrl-BA",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"прије подне": {"am"},
 			"недјеља":     {"sunday"},
@@ -177,7 +177,7 @@ func init() {
 
 	sr_Cyrl_ME_Locale = merge(&sr_Cyrl_Locale, LocaleData{
 		Name:      "sr-Cyrl-ME",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"прије подне": {"am"},
 			"недјеља":     {"sunday"},
@@ -191,7 +191,7 @@ func init() {
 
 	sr_Cyrl_XK_Locale = merge(&sr_Cyrl_Locale, LocaleData{
 		Name:      "sr-Cyrl-XK",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"септ": {"september"},
 			"ср":   {"wednesday"},
diff --git a/internal/data/sr-latn.go b/internal/data/sr-latn.go
index a4e3f08..3e058fe 100755
--- a/internal/data/sr-latn.go
+++ b/internal/data/sr-latn.go
@@ -14,7 +14,7 @@ var (
 func init() {
 	sr_Latn_Locale = merge(nil, LocaleData{
 		Name:      "sr-Latn",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`bcdefgijklnorstuvzćčš`),
 		Translations: map[string][]string{
 			"ponedeljak": {"monday"},
@@ -163,7 +163,7 @@ func init() {
 
 	sr_Latn_BA_Locale = merge(&sr_Latn_Locale, LocaleData{
 		Name:      "sr-Latn-BA",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"prije podne": {"am"},
 			"nedjelja":    {"sunday"},
@@ -177,7 +177,7 @@ func init() {
 
 	sr_Latn_ME_Locale = merge(&sr_Latn_Locale, LocaleData{
 		Name:      "sr-Latn-ME",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"prije podne": {"am"},
 			"nedjelja":    {"sunday"},
@@ -191,7 +191,7 @@ func init() {
 
 	sr_Latn_XK_Locale = merge(&sr_Latn_Locale, LocaleData{
 		Name:      "sr-Latn-XK",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"sept": {"september"},
 			"sr":   {"wednesday"},
diff --git a/internal/data/sr.go b/internal/data/sr.go
index 347a9d6..11a5018 100755
--- a/internal/data/sr.go
+++ b/internal/data/sr.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	sr_Locale = merge(nil, LocaleData{
 		Name:      "sr",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`cgtuzабвгдеиклмнопрстуфцчшјљћ`),
 		Translations: map[string][]string{
 			"понедељак": {"monday"},
diff --git a/parser.go b/parser.go
index bb8d7f7..3cd53cb 100644
--- a/parser.go
+++ b/parser.go
@@ -122,6 +122,10 @@ func (p *Parser) Parse(cfg *Configuration, str string, formats ...string) (date.
 	for _, locale := range locales {
 		// Create date order for this locale
 		dateOrder := locale.DateOrder
+		if dateOrder == "" {
+			dateOrder = "MDY"
+		}
+
 		if cfg.DateOrder != nil {
 			do := cfg.DateOrder(locale.Name)
 			if do, valid := validateDateOrder(do); valid {
diff --git a/scripts/codegen/data-cldr-parser.go b/scripts/codegen/data-cldr-parser.go
index 203d401..a85e4d4 100644
--- a/scripts/codegen/data-cldr-parser.go
+++ b/scripts/codegen/data-cldr-parser.go
@@ -46,9 +46,13 @@ func parseCldrData(locale string) (*LocaleData, error) {
 	// 3. Prepare initial locale data
 	dateOrder := strings.ToUpper(gregorianData.DateFormats.Short.Value)
 
+	if parts := rxDateOrderPattern.FindStringSubmatch(dateOrder); parts != nil {
+		dateOrder = strings.Join(parts[1:], "")
+	}
+
 	data := LocaleData{
 		Name:      locale,
-		DateOrder: rxDateOrderPattern.ReplaceAllString(dateOrder, "$1$2$3"),
+		DateOrder: dateOrder,
 	}
 
 	// 4. Save all local month names to locale data
-- 
2.43.0


From d237fa130312781b145358528d9af1f046f8b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 28/36] fix: normalize digits of ranges that hold several sets
 of digits

---
 internal/digit/digit.go    | 3 ++-
 scripts/digit/templates.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/digit/digit.go b/internal/digit/digit.go
index ff9fbfa..570b310 100755
--- a/internal/digit/digit.go
+++ b/internal/digit/digit.go
@@ -45,7 +45,8 @@ type digitRange struct {
 
 func (dr digitRange) apply(r rune) (rune, bool) {
 	if r >= dr.Start && r <= dr.End {
-		number := int32(r - dr.Start)
+		// Some ranges consist of several consecutive sets of ten digits
+		number := (r - dr.Start) % 10
 		return '0' + number, true
 	}
 
diff --git a/scripts/digit/templates.go b/scripts/digit/templates.go
index 9e8adec..c413958 100644
--- a/scripts/digit/templates.go
+++ b/scripts/digit/templates.go
@@ -52,7 +52,8 @@ type digitRange struct {
 
 func (dr digitRange) apply(r rune) (rune, bool) {
 	if r >= dr.Start && r <= dr.End {
-		number := int32(r - dr.Start)
+		// Some ranges consist of several consecutive sets of ten digits
+		number := (r - dr.Start) % 10
 		return '0' + number, true
 	}
 
-- 
2.43.0


From 79fc6af0d6002a5186f202e733af87c54bece126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 29/36] fix: use the right unit for two relative patterns of af
 and ms

---
 internal/data/af.go                 | 2 +-
 internal/data/ms.go                 | 2 +-
 scripts/codegen/02-constants.go     | 6 ++++++
 scripts/codegen/data-cldr-parser.go | 7 ++++++-
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/data/af.go b/internal/data/af.go
index 5771ef7..ee89e24 100755
--- a/internal/data/af.go
+++ b/internal/data/af.go
@@ -123,7 +123,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) min gelede`), "$1 minute ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) sek gelede`), "$1 second ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) uur gelede`), "$1 hour ago"},
-			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) minuut`), "in $1 month"},
+			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) minuut`), "in $1 minute"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) md gelede`), "$1 month ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) w gelede`), "$1 week ago"},
 			{regexp.MustCompile(`(?i)oor (\d+[.,]?\d*) jaar`), "in $1 year"},
diff --git a/internal/data/ms.go b/internal/data/ms.go
index 7c173ba..c08f137 100755
--- a/internal/data/ms.go
+++ b/internal/data/ms.go
@@ -119,7 +119,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) minit lalu`), "$1 minute ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) tahun lalu`), "$1 year ago"},
 			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) hari`), "in $1 day"},
-			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) saat`), "in $1 year"},
+			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) saat`), "in $1 second"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) hari lalu`), "$1 day ago"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*) saat lalu`), "$1 second ago"},
 			{regexp.MustCompile(`(?i)dalam (\d+[.,]?\d*) jam`), "in $1 hour"},
diff --git a/scripts/codegen/02-constants.go b/scripts/codegen/02-constants.go
index 7fb60c4..99b62d5 100644
--- a/scripts/codegen/02-constants.go
+++ b/scripts/codegen/02-constants.go
@@ -24,6 +24,12 @@ var (
 	nfkcTransformer    = transform.Chain(norm.NFKD, norm.NFKC)
 	unicodeTransformer = transform.Chain(norm.NFKD, runes.Remove(runes.In(unicode.Mn)), norm.NFKC)
 
+	// cldrCorrections contains the relative patterns that CLDR puts under a wrong unit.
+	cldrCorrections = map[string]map[string]string{
+		"af": {"oor {0} minuut": "in $1 minute"},
+		"ms": {"dalam {0} saat": "in $1 second"},
+	}
+
 	apostropheLookAlikeChars = []string{
 		`\x{2019}`, // right single quotation mark
 		`\x{02bc}`, // modifier letter apostrophe
diff --git a/scripts/codegen/data-cldr-parser.go b/scripts/codegen/data-cldr-parser.go
index a85e4d4..6e0b64e 100644
--- a/scripts/codegen/data-cldr-parser.go
+++ b/scripts/codegen/data-cldr-parser.go
@@ -172,7 +172,12 @@ func parseCldrData(locale string) (*LocaleData, error) {
 		}
 
 		for _, localPattern := range localPatterns {
-			fnAdder(localPattern, fieldName, true)
+			translation := fieldName
+			if correction, exist := cldrCorrections[data.Name][localPattern]; exist {
+				translation = correction
+			}
+
+			fnAdder(localPattern, translation, true)
 		}
 	}
 
-- 
2.43.0


From 27ca772ebbdbc251d30e41376e40da4bf7e97154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 30/36] fix: do not replace a year that is written as zero by
 the reference year

---
 internal/parser/absolute/parser.go | 2 ++
 internal/parser/absolute/root.go   | 2 +-
 internal/parser/hijri/parser.go    | 2 +-
 internal/parser/jalali/parser.go   | 2 +-
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index d5e6706..e155eaf 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -651,6 +651,8 @@ func isValidValue(component string, value int) bool {
 		return value >= 1 && value <= 31
 	case "month":
 		return value >= 1 && value <= 12
+	case "year":
+		return value >= 1
 	default:
 		return true
 	}
diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index ad34006..62686ba 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -79,7 +79,7 @@ func getDatePartValue(p *Parser, component, token, directive string) (int, bool)
 		case "month":
 			return int(t.Month()), true
 		case "year":
-			return t.Year(), true
+			return t.Year(), t.Year() > 0
 		}
 	}
 
diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 953ea62..ad7c047 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -113,7 +113,7 @@ func getDatePartValue(p *absolute.Parser, component, token, directive string) (i
 
 	if component == "year" && tokenLength == 4 && tokenIsDigit {
 		year, _ := strconv.Atoi(token)
-		if year >= 0 {
+		if year > 0 {
 			return year, true
 		}
 	}
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 900c951..3bc4f73 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -99,7 +99,7 @@ func getDatePartValue(p *absolute.Parser, component, token, directive string) (i
 
 	if component == "year" && tokenLength == 4 && tokenIsDigit {
 		year, _ := strconv.Atoi(token)
-		if year >= 0 {
+		if year > 0 {
 			return year, true
 		}
 	}
-- 
2.43.0


From e810edc0730deb15b3185ca6c0af93662f7b4112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 31/36] fix: use the actual length of Umm al-Qura months

---
 internal/parser/hijri/parser.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index ad7c047..1a95359 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -180,10 +180,7 @@ func isDigit(s string) bool {
 }
 
 func isHijriLeapYear(year int) bool {
-	hd := hijri.UmmAlQuraDate{Year: int64(year), Month: 12, Day: 30}
-	gd := hd.ToGregorian()
-	rhd, _ := hijri.CreateUmmAlQuraDate(gd)
-	return rhd.Day == 30
+	return getLastDayOfHijriMonth(year, 12) == 30
 }
 
 func getHijriLeapYear(year int, toFuture bool) int {
@@ -224,15 +221,16 @@ func getCorrectHijriLeapYear(cfg *setting.Configuration, currentYear int) int {
 	}
 }
 
+// getLastDayOfHijriMonth returns the number of days in the month. Umm al-Qura months follow
+// the moon, so whether a month has 29 or 30 days doesn't depend on its number.
 func getLastDayOfHijriMonth(year, month int) int {
-	switch {
-	case month == 12 && isHijriLeapYear(year):
-		return 30
-	case month%2 == 0:
-		return 29
-	default:
+	hd := hijri.UmmAlQuraDate{Year: int64(year), Month: int64(month), Day: 30}
+	rhd, _ := hijri.CreateUmmAlQuraDate(hd.ToGregorian())
+	if rhd.Day == 30 {
 		return 30
 	}
+
+	return 29
 }
 
 func handleTwoDigitYear(year int) int {
-- 
2.43.0


From 22fd4a0f69cb6e127b9395ffad2cb18648bb64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:07 +0000
Subject: [PATCH 32/36] fix: keep a year written as zero in custom formats

---
 internal/parser/formatted/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index 2bcfdd7..65c9462 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -48,6 +48,7 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		checkerText := checker.Format(format)
 		formatHasDay := strings.Contains(checkerText, "4")
 		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
+		formatHasYear := strings.Contains(checkerText, "12")
 
 		if !formatHasMonth && !formatHasDay {
 			period = date.Year
@@ -62,7 +63,7 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		}
 
 		// Check if format has year
-		if t.Year() == 0 {
+		if !formatHasYear {
 			lastDayOfMonth := dateutil.GetLastDayOfMonth(currentTime.Year(), int(t.Month()))
 			t = time.Date(currentTime.Year(), t.Month(), min(t.Day(), lastDayOfMonth),
 				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-- 
2.43.0


From b5cc66696b37b4a295fb4ec5687346343b5ce241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:07 +0000
Subject: [PATCH 33/36] fix: keep the month given by a day of the year in
 custom formats

---
 internal/parser/formatted/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index 65c9462..942af9e 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -50,6 +50,11 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
 		formatHasYear := strings.Contains(checkerText, "12")
 
+		// Day of the year specifies the month as well
+		if strings.Contains(format, "002") || strings.Contains(format, "__2") {
+			formatHasDay, formatHasMonth = true, true
+		}
+
 		if !formatHasMonth && !formatHasDay {
 			period = date.Year
 			t = common.ApplyMonthFromConfig(cfg, t)
-- 
2.43.0


From 3d33793252e961c37ad6d0463fcb0a1ab0737b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 34/36] fix: fill in missing parts of Hijri and Jalali dates in
 their own calendar

---
 internal/parser/absolute/calendar.go | 82 ++++++++++++++++++++++++++++
 internal/parser/absolute/parser.go   | 34 +++++++-----
 internal/parser/hijri/parser.go      | 22 +++++---
 internal/parser/jalali/parser.go     | 11 +++-
 4 files changed, 125 insertions(+), 24 deletions(-)
 create mode 100644 internal/parser/absolute/calendar.go

diff --git a/internal/parser/absolute/calendar.go b/internal/parser/absolute/calendar.go
new file mode 100644
index 0000000..5035d10
--- /dev/null
+++ b/internal/parser/absolute/calendar.go
@@ -0,0 +1,82 @@
+package absolute
+
+import (
+	"time"
+
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
+	"github.com/markusmobius/go-dateparser/internal/setting"
+)
+
+// getCalendarDate returns the date of the time in the calendar used by the parser.
+func (p *Parser) getCalendarDate(t time.Time) (year, month, day int) {
+	if p.FnGetCalendarDate != nil {
+		return p.FnGetCalendarDate(t)
+	}
+
+	return t.Year(), int(t.Month()), t.Day()
+}
+
+// setCalendarDate replaces the date of the time with the specified date in the calendar used
+// by the parser, without rolling over to the next month. If there is no such date in that
+// calendar the time is returned as it is.
+func (p *Parser) setCalendarDate(t time.Time, year, month, day int) time.Time {
+	if p.FnGetCalendarDate == nil {
+		day = min(day, dateutil.GetLastDayOfMonth(year, month))
+		return time.Date(year, time.Month(month), day,
+			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+			t.Location())
+	}
+
+	newTime, err := p.FnCreateDateTime(p, map[string]int{
+		"year":       year,
+		"month":      month,
+		"day":        day,
+		"hour":       t.Hour(),
+		"minute":     t.Minute(),
+		"second":     t.Second(),
+		"nanosecond": t.Nanosecond(),
+	}, t.Location())
+	if err != nil {
+		return t
+	}
+
+	return newTime
+}
+
+// applyCalendarDay is the counterpart of common.ApplyDayFromConfig for the calendars
+// other than Gregorian.
+func (p *Parser) applyCalendarDay(t time.Time) time.Time {
+	if p.Config == nil {
+		return t
+	}
+
+	year, month, _ := p.getCalendarDate(t)
+	_, _, day := p.getCalendarDate(p.Now)
+	switch p.Config.PreferredDayOfMonth {
+	case setting.First:
+		day = 1
+	case setting.Last:
+		day = 31 // reduced to the last day of the month
+	}
+
+	return p.setCalendarDate(t, year, month, day)
+}
+
+// applyCalendarMonth is the counterpart of common.ApplyMonthFromConfig for the calendars
+// other than Gregorian.
+func (p *Parser) applyCalendarMonth(t time.Time) time.Time {
+	if p.Config == nil {
+		return t
+	}
+
+	year, _, day := p.getCalendarDate(t)
+	_, month, _ := p.getCalendarDate(p.Now)
+	switch p.Config.PreferredMonthOfYear {
+	case setting.FirstMonth:
+		month = 1
+	case setting.LastMonth:
+		month = 12
+	}
+
+	return p.setCalendarDate(t, year, month, day)
+}
diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index e155eaf..2bf4585 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -46,6 +46,10 @@ type Parser struct {
 	FnCreateDateTime    func(p *Parser, params map[string]int, loc *time.Location) (time.Time, error)
 	FnGetDatePartValue  func(p *Parser, component, token, directive string) (int, bool)
 
+	// FnGetCalendarDate converts a time to a date in the calendar used by the parser.
+	// It's only needed for the calendars other than Gregorian.
+	FnGetCalendarDate func(t time.Time) (year, month, day int)
+
 	Tokens           []tokenizer.Token
 	FilteredTokens   []FilteredToken
 	Components       []string
@@ -499,7 +503,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if monthExist && !yearExist {
-		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
+		tYear, tMonth, tDay := p.getCalendarDate(t)
 
 		if p.Now.Before(t) {
 			if dateSource == setting.Past {
@@ -511,23 +515,21 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 			}
 		}
 
-		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
+		if p.FnGetCalendarDate == nil && tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
 			tYear = p.getCorrectLeapYear(tYear)
 		}
 
-		t = time.Date(tYear, tMonth, tDay,
-			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-			t.Location())
+		t = p.setCalendarDate(t, tYear, tMonth, tDay)
 	}
 
 	if tokenYearExist && len(tokenYear.Text) == 2 {
 		if p.Now.Before(t) {
 			if dateSource == setting.Past {
-				t = addYears(t, -100)
+				t = p.addYears(t, -100)
 			}
 		} else {
 			if dateSource == setting.Future {
-				t = addYears(t, 100)
+				t = p.addYears(t, 100)
 			}
 		}
 	}
@@ -563,6 +565,10 @@ func (p *Parser) correctForDay(t time.Time) time.Time {
 		return t
 	}
 
+	if p.FnGetCalendarDate != nil {
+		return p.applyCalendarDay(t)
+	}
+
 	t = common.ApplyDayFromConfig(p.Config, t, p.Now.Day())
 	return t
 }
@@ -590,6 +596,10 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 		return t
 	}
 
+	if p.FnGetCalendarDate != nil {
+		return p.applyCalendarMonth(t)
+	}
+
 	return common.ApplyMonthFromConfig(p.Config, t, p.Now.Month())
 }
 
@@ -635,13 +645,9 @@ func (p Parser) getCorrectLeapYear(currentYear int) int {
 
 // addYears moves the time by the specified number of years without
 // rolling over to the next month.
-func addYears(t time.Time, years int) time.Time {
-	year := t.Year() + years
-	day := min(t.Day(), dateutil.GetLastDayOfMonth(year, int(t.Month())))
-
-	return time.Date(year, t.Month(), day,
-		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-		t.Location())
+func (p *Parser) addYears(t time.Time, years int) time.Time {
+	year, month, day := p.getCalendarDate(t)
+	return p.setCalendarDate(t, year+years, month, day)
 }
 
 // isValidValue check if the value is possible for the specified component.
diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 1a95359..fb89517 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -48,6 +48,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		FnGetDateTimeParams: getDateTimeParams,
 		FnGetDatePartValue:  getDatePartValue,
 		FnCreateDateTime:    createDateTime,
+		FnGetCalendarDate:   getCalendarDate,
 	}
 
 	if err := parser.Init(str); err != nil {
@@ -78,26 +79,23 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 }
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
-	// Get current date in Hijri. The conversion is done in UTC, so the
-	// date is moved there to make sure it is not shifted by its timezone.
-	nowYear, nowMonth, nowDay := p.Now.Date()
-	now := time.Date(nowYear, nowMonth, nowDay, 12, 0, 0, 0, time.UTC)
-	hd, _ := hijri.CreateUmmAlQuraDate(now)
+	// Get current date in Hijri
+	nowYear, nowMonth, nowDay := getCalendarDate(p.Now)
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
 	if !dayExist || day == 0 {
-		day = int(hd.Day)
+		day = nowDay
 	}
 
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
-		month = int(hd.Month)
+		month = nowMonth
 	}
 
 	year, yearExist := p.ComponentValues["year"]
 	if !yearExist || year == 0 {
-		year = int(hd.Year)
+		year = nowYear
 	}
 
 	return map[string]int{
@@ -107,6 +105,14 @@ func getDateTimeParams(p *absolute.Parser) map[string]int {
 	}
 }
 
+// getCalendarDate converts the time to Hijri date. The conversion is done in UTC, so
+// the date is moved there to make sure it is not shifted by its timezone.
+func getCalendarDate(t time.Time) (year, month, day int) {
+	gYear, gMonth, gDay := t.Date()
+	hd, _ := hijri.CreateUmmAlQuraDate(time.Date(gYear, gMonth, gDay, 12, 0, 0, 0, time.UTC))
+	return int(hd.Year), int(hd.Month), int(hd.Day)
+}
+
 func getDatePartValue(p *absolute.Parser, component, token, directive string) (int, bool) {
 	tokenLength := len(token)
 	tokenIsDigit := isDigit(token)
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 3bc4f73..5ae9665 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -37,6 +37,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		FnGetDateTimeParams: getDateTimeParams,
 		FnGetDatePartValue:  getDatePartValue,
 		FnCreateDateTime:    createDateTime,
+		FnGetCalendarDate:   getCalendarDate,
 	}
 
 	if err := parser.Init(str); err != nil {
@@ -68,7 +69,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
 	// Get current time in Jalali
-	nowYear, nowMonth, nowDay, _ := jalaali.ToJalaali(p.Now.Date())
+	nowYear, nowMonth, nowDay := getCalendarDate(p.Now)
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
@@ -78,7 +79,7 @@ func getDateTimeParams(p *absolute.Parser) map[string]int {
 
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
-		month = int(nowMonth)
+		month = nowMonth
 	}
 
 	year, yearExist := p.ComponentValues["year"]
@@ -93,6 +94,12 @@ func getDateTimeParams(p *absolute.Parser) map[string]int {
 	}
 }
 
+// getCalendarDate converts the time to Jalali date.
+func getCalendarDate(t time.Time) (year, month, day int) {
+	jYear, jMonth, jDay, _ := jalaali.ToJalaali(t.Date())
+	return jYear, int(jMonth), jDay
+}
+
 func getDatePartValue(p *absolute.Parser, component, token, directive string) (int, bool) {
 	tokenLength := len(token)
 	tokenIsDigit := isDigit(token)
-- 
2.43.0


From b15fb0195d938462b6c82f20e68793c1e6187644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:53 +0000
Subject: [PATCH 35/36] fix: don't change the year of a month because of the
 current day

---
 internal/parser/absolute/parser.go | 3 ++-
 internal/parser/absolute/root.go   | 5 +++--
 internal/parser/hijri/parser.go    | 5 +++--
 internal/parser/jalali/parser.go   | 5 +++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 2bf4585..d98ba31 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -515,7 +515,8 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 			}
 		}
 
-		if p.FnGetCalendarDate == nil && tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
+		_, dayExist := p.ComponentValues["day"]
+		if p.FnGetCalendarDate == nil && dayExist && tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
 			tYear = p.getCorrectLeapYear(tYear)
 		}
 
diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 62686ba..b35c460 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -53,9 +53,10 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year, unless the year is explicitly specified
+	// Fix leap year for day from the text, unless the year is explicitly specified
+	_, dayExist := p.ComponentValues["day"]
 	_, yearExist := p.ComponentValues["year"]
-	if !yearExist && D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
+	if dayExist && !yearExist && D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
 		Y = p.getCorrectLeapYear(Y)
 	}
 
diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index fb89517..9f1eedc 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -158,9 +158,10 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 		return time.Time{}, fmt.Errorf("date is outside Umm al-Qura scope: %d-%d-%d", Y, M, D)
 	}
 
-	// Fix leap year, unless the year is explicitly specified
+	// Fix leap year for day from the text, unless the year is explicitly specified
+	_, dayExist := p.ComponentValues["day"]
 	_, yearExist := p.ComponentValues["year"]
-	if !yearExist && D == 30 && M == 12 && !isHijriLeapYear(Y) {
+	if dayExist && !yearExist && D == 30 && M == 12 && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
 	}
 
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 5ae9665..6a3ee55 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -147,14 +147,15 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year, unless the year is explicitly specified
+	// Fix leap year for day from the text, unless the year is explicitly specified
 	isLeapYear, err := jalaali.IsLeapYear(Y)
 	if err != nil {
 		return time.Time{}, err
 	}
 
+	_, dayExist := p.ComponentValues["day"]
 	_, yearExist := p.ComponentValues["year"]
-	if !yearExist && D == 30 && M == 12 && !isLeapYear {
+	if dayExist && !yearExist && D == 30 && M == 12 && !isLeapYear {
 		Y = getCorrectLeapYear(p.Config, Y)
 	}
 
-- 
2.43.0


From 406f6165337e4591eccc2bc91d7b295e79346659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:15 +0000
Subject: [PATCH 36/36] fix: limit the permutations of ambiguous words

The permutations of the translations grow exponentially with the number of
ambiguous words: 16 of them take minutes, and with 63 the count overflows and
creating the result panics.
---
 internal/language/utils.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/language/utils.go b/internal/language/utils.go
index c496b97..b76786a 100644
--- a/internal/language/utils.go
+++ b/internal/language/utils.go
@@ -60,11 +60,20 @@ func isInDictionary(ld *data.LocaleData, word string) bool {
 	return exist
 }
 
+// maxPermutation is the maximum count of permutations that will be created.
+const maxPermutation = 1024
+
 func createPermutation[T comparable](input [][]T) [][]T {
-	// Calculate count of possible permutation
+	// Calculate count of possible permutation. The count grows exponentially, so once
+	// it reached the limit the remaining inputs only use their first entry.
 	nPermutation := 1
-	for _, entries := range input {
-		nPermutation *= len(entries)
+	input = slices.Clone(input)
+	for i, entries := range input {
+		n := nPermutation * len(entries)
+		if n > maxPermutation {
+			n, input[i] = nPermutation, entries[:1]
+		}
+		nPermutation = n
 	}
 
 	// Create result container
-- 
2.43.0

