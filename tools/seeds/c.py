seed('c27-carried-minutes-as-seconds','C27',
 'A fractional number of months whose fraction amounts to minutes and seconds.',
 'The minutes and seconds carried over from a fraction of a month are entered under each other\'s unit.',
 '''d, err := Parse(&Configuration{Languages: []string{"en"}, CurrentTime: time.Date(2021, 6, 15, 12, 0, 0, 0, time.UTC)}, "1.001 months ago")
if err != nil || d.Time.Format("2006-01-02 15:04") != "2021-05-15 11:16" {
	t.Fatal(d, err)
}''',
 ('internal/parser/relative/parser.go','			addMapValue(floatDurations, "hour", hour)\n			addMapValue(floatDurations, "minute", minute)\n			addMapValue(floatDurations, "second", second)\n\n		case "day":','			addMapValue(floatDurations, "hour", hour)\n			addMapValue(floatDurations, "minute", second)\n			addMapValue(floatDurations, "second", minute)\n\n		case "day":'),
 imports='time')

seed('c27-ago-in-the-future','C27',
 'A text that says both "in" and "ago", or "ago" with a preference for future dates.',
 'A preference for future dates wins over the word "ago".',
 '''d, err := Parse(&Configuration{Languages: []string{"en"}, PreferredDateSource: Future, CurrentTime: time.Date(2021, 6, 15, 12, 0, 0, 0, time.UTC)}, "2 days ago")
if err != nil || d.Time.Format("2006-01-02") != "2021-06-13" {
	t.Fatal(d, err)
}''',
 ('internal/parser/relative/parser.go','(rxIn.MatchString(str) || cfg.PreferredDateSource == setting.Future) && !rxAgo.MatchString(str)','rxIn.MatchString(str) && !rxAgo.MatchString(str) || cfg.PreferredDateSource == setting.Future'),
 imports='time')

seed('c28-fraction-lost-with-the-month','C28',
 'A format with a fraction of a second but without a month.',
 'The fraction of a second is dropped when the missing month is filled in.',
 '''d, err := Parse(&Configuration{Languages: []string{"en"}, CurrentTime: time.Date(2021, 6, 15, 12, 0, 0, 0, time.UTC)}, "2015 10:11:12.000005", "2006 15:04:05.000000")
if err != nil || d.Time.Nanosecond() != 5000 {
	t.Fatal(d, err)
}''',
 ('internal/parser/common/apply-month.go','t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),','t.Hour(), t.Minute(), t.Second(), 0,'),
 imports='time')

seed('c28-nanosecond-becomes-second','C28',
 'A format with a fraction of a second but without a day.',
 'When the missing day is filled in, the seconds are also used as the fraction of a second.',
 '''d, err := Parse(&Configuration{Languages: []string{"en"}, CurrentTime: time.Date(2021, 6, 15, 12, 0, 0, 0, time.UTC)}, "2015-03 10:11:12.000005", "2006-01 15:04:05.000000")
if err != nil || d.Time.Nanosecond() != 5000 {
	t.Fatal(d, err)
}''',
 ('internal/parser/common/apply-day.go','t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),','t.Hour(), t.Minute(), t.Second(), t.Second(),'),
 imports='time')
