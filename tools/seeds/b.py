seed('c26-jalali-leap-year-search','C26',
 'A Jalali text that names 30 Esfand without a year, when the current Jalali year is a common one.',
 'The search for the nearest leap year applies the Gregorian rule to a Jalali year, so it ends in a year whose Esfand has 29 days.',
 '''d, err := ParseJalali(&Configuration{CurrentTime: time.Date(2022, 6, 15, 0, 0, 0, 0, time.UTC)}, "30 اسفند")
if err != nil || d.Time.Format("2006-01-02") != "2021-03-20" {
	t.Fatal(d, err)
}''',
 ('internal/parser/jalali/parser.go','		isLeap, err := jalaali.IsLeapYear(year)\n','		_, err := jalaali.IsLeapYear(year)\n		isLeap := dateutil.IsLeapYear(year)\n'),
 ('internal/parser/jalali/parser.go','	"github.com/markusmobius/go-dateparser/internal/digit"\n','	"github.com/markusmobius/go-dateparser/internal/dateutil"\n	"github.com/markusmobius/go-dateparser/internal/digit"\n'),
 imports='time')

seed('c13-region-of-another','C13',
 'A rarely used regional locale code.',
 'The code of one regional locale yields the data of another region.',
 '''ld, ok := data.GetLocaleData("sw-UG")
if !ok || ld.Name != "sw-UG" {
	t.Fatal(ld, ok)
}''',
 ('internal/data/00-locale-data.go','	case "sw-KE":\n		return &sw_KE_Locale, true\n	case "sw-UG":\n		return &sw_UG_Locale, true\n','	case "sw-KE", "sw-UG":\n		return &sw_KE_Locale, true\n'),
 imports='github.com/markusmobius/go-dateparser/internal/data')

seed('c14-weeks-become-months','C14',
 'A text in Western Frisian about a number of weeks, with the plural and the word for ago.',
 'One pattern of the locale turns weeks into months.',
 '''d, err := Parse(&Configuration{Languages: []string{"fy"}, CurrentTime: time.Date(2021, 6, 15, 0, 0, 0, 0, time.UTC)}, "3 wiken lyn")
if err != nil || d.Time.Format("2006-01-02") != "2021-05-25" {
	t.Fatal(d, err)
}''',
 ('internal/data/fy.go','(\\d+[.,]?\\d*) wiken lyn`), "$1 week ago"}','(\\d+[.,]?\\d*) wiken lyn`), "$1 month ago"}'),
 imports='time')

seed('c09-timestamp-without-locale','C09',
 'A text that is a timestamp.',
 'The locale through which a timestamp was found is not recorded in the result.',
 '''d, err := Parse(&Configuration{Languages: []string{"en"}, CurrentTime: time.Date(2021, 6, 15, 0, 0, 0, 0, time.UTC)}, "1570308760263")
if err != nil || d.Locale != "en" {
	t.Fatal(d, err)
}''',
 ('parser.go','				dt.Locale = locale.Name\n','				if parserType != Timestamp {\n					dt.Locale = locale.Name\n				}\n'),
 imports='time')

