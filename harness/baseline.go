package main

// baseline has the constants of the package, and how often they occur.
var baseline = map[string]int{
	"\"+\"":                 3,
	"\",\"":                 62,
	"\"-\"":                 2,
	"\"0123456789\"":        7,
	"\"20060102T150405Z\"":  1,
	"\"59\"":                1,
	"\"60\"":                1,
	"\"8BIT\"":              2,
	"\":\"":                 16,
	"\";\"":                 4,
	"\";AGENT-ID=\"":        1,
	"\";ALTREP=\"":          1,
	"\";BYDAY=\"":           1,
	"\";BYHOUR=\"":          1,
	"\";BYMINUTE=\"":        1,
	"\";BYMONTH=\"":         1,
	"\";BYMONTHDAY=\"":      1,
	"\";BYSECOND=\"":        1,
	"\";BYSETPOS=\"":        1,
	"\";BYWEEKNO=\"":        1,
	"\";BYYEARDAY=\"":       1,
	"\";CN=\"":              1,
	"\";COUNT=\"":           1,
	"\";CUTYPE=\"":          1,
	"\";DELEGATED-FROM=\"":  1,
	"\";DELEGATED-TO=\"":    1,
	"\";DIR=\"":             1,
	"\";ENCODING=\"":        1,
	"\";ENCODING=BASE64:\"": 1,
	"\";FBTYPE=\"":          1,
	"\";FMTTYPE=\"":         1,
	"\";ID=\"":              1,
	"\";INTERVAL=\"":        1,
	"\";LANGUAGE=\"":        1,
	"\";MEMBER=\"":          1,
	"\";PARTSTAT=\"":        1,
	"\";RANGE=\"":           1,
	"\";RELATED=\"":         1,
	"\";RELTYPE=\"":         1,
	"\";ROLE=\"":            1,
	"\";RSVP=\"":            1,
	"\";SENT-BY=\"":         1,
	"\";TZID=\"":            2,
	"\";UNTIL=\"":           1,
	"\";URI=\"":             1,
	"\";VALUE=\"":           1,
	"\";VALUE=BINARY\"":     1,
	"\";VALUE=DATE\"":       6,
	"\";VALUE=DATE-TIME\"":  1,
	"\";VALUE=PERIOD\"":     1,
	"\";WKST=\"":            1,
	"\"=\"":                 1,
	"\"=,\"":                1,
	"\"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-\"": 1,
	"\"ACCEPTED\"":                  2,
	"\"ACKNOWLEDGED\"":              5,
	"\"ACTION\"":                    1,
	"\"ACTION:\"":                   1,
	"\"ACTION:AUDIO\\r\\n\"":        1,
	"\"ACTION:DISPLAY\\r\\n\"":      1,
	"\"ACTION:EMAIL\\r\\n\"":        1,
	"\"ACTION:NONE\\r\\n\"":         1,
	"\"ACTION:URI\\r\\n\"":          1,
	"\"ACTIVE\"":                    2,
	"\"AGENT-ID\"":                  1,
	"\"ALARM-AGENT\"":               5,
	"\"ALTREP\"":                    6,
	"\"ATTACH\"":                    5,
	"\"ATTENDEE\"":                  6,
	"\"AUDIO\"":                     4,
	"\"Acknowledged\"":              1,
	"\"Action\"":                    1,
	"\"AgentID\"":                   1,
	"\"Alarm\"":                     1,
	"\"AlarmAgent\"":                1,
	"\"AlarmAudio\"":                1,
	"\"AlarmDisplay\"":              1,
	"\"AlarmEmail\"":                1,
	"\"AlarmNone\"":                 1,
	"\"AlarmStatus\"":               1,
	"\"AlarmURI\"":                  1,
	"\"AlternativeRepresentation\"": 1,
	"\"Attachment\"":                1,
	"\"Attendee\"":                  1,
	"\"BASE64\"":                    3,
	"\"BEGIN\"":                     16,
	"\"BEGIN:DAYLIGHT\\r\\n\"":      1,
	"\"BEGIN:STANDARD\\r\\n\"":      1,
	"\"BEGIN:VALARM\\r\\n\"":        1,
	"\"BEGIN:VCALENDAR\\r\\n\"":     1,
	"\"BEGIN:VEVENT\\r\\n\"":        1,
	"\"BEGIN:VFREEBUSY\\r\\n\"":     1,
	"\"BEGIN:VJOURNAL\\r\\n\"":      1,
	"\"BEGIN:VTIMEZONE\\r\\n\"":     1,
	"\"BEGIN:VTODO\\r\\n\"":         1,
	"\"BINARY\"":                    3,
	"\"BOOLEAN\"":                   2,
	"\"BUSY\"":                      2,
	"\"BUSY-TENTATIVE\"":            2,
	"\"BUSY-UNAVAILABLE\"":          2,
	"\"BYDAY\"":                     1,
	"\"BYHOUR\"":                    1,
	"\"BYMINUTE\"":                  1,
	"\"BYMONTH\"":                   1,
	"\"BYMONTHDAY\"":                1,
	"\"BYSECOND\"":                  1,
	"\"BYSETPOS\"":                  1,
	"\"BYWEEKNO\"":                  1,
	"\"BYYEARDAY\"":                 1,
	"\"Binary\"":                    1,
	"\"CAL-ADDRESS\"":               2,
	"\"CALSCALE:\"":                 1,
	"\"CANCELLED\"":                 4,
	"\"CATEGORIES\"":                4,
	"\"CHAIR\"":                     2,
	"\"CHILD\"":                     2,
	"\"CLASS\"":                     3,
	"\"CLASS:\"":                    1,
	"\"CN\"":                        2,
	"\"COMMENT\"":                   7,
	"\"COMPLETED\"":                 8,
	"\"CONFIDENTIAL\"":              2,
	"\"CONFIRMED\"":                 2,
	"\"CONTACT\"":                   5,
	"\"COUNT\"":                     2,
	"\"CREATED\"":                   4,
	"\"CUTYPE\"":                    1,
	"\"Calendar\"":                  1,
	"\"CalendarAddress\"":           1,
	"\"CalendarScale\"":             1,
	"\"CalendarUserType\"":          1,
	"\"Categories\"":                1,
	"\"Class\"":                     1,
	"\"Comment\"":                   1,
	"\"CommonName\"":                1,
	"\"Completed\"":                 1,
	"\"Contact\"":                   1,
	"\"Created\"":                   1,
	"\"D\"":                         1,
	"\"DAILY\"":                     1,
	"\"DATE\"":                      8,
	"\"DATE-TIME\"":                 9,
	"\"DAYLIGHT\"":                  2,
	"\"DECLINED\"":                  2,
	"\"DEFAULT-ALARM\"":             5,
	"\"DELEGATED\"":                 2,
	"\"DELEGATED-FROM\"":            1,
	"\"DELEGATED-TO\"":              1,
	"\"DESCRIPTION\"":               6,
	"\"DIR\"":                       2,
	"\"DISPLAY\"":                   4,
	"\"DRAFT\"":                     2,
	"\"DTEND\"":                     3,
	"\"DTSTAMP\"":                   5,
	"\"DTSTART\"":                   7,
	"\"DUE\"":                       2,
	"\"DURATION\"":                  10,
	"\"Date\"":                      1,
	"\"DateTime\"":                  1,
	"\"DateTimeEnd\"":               1,
	"\"DateTimeStamp\"":             1,
	"\"DateTimeStart\"":             1,
	"\"Daylight\"":                  1,
	"\"DefaultAlarm\"":              1,
	"\"Delagatee\"":                 1,
	"\"Delegator\"":                 1,
	"\"Description\"":               1,
	"\"DirectoryEntry\"":            1,
	"\"Due\"":                       1,
	"\"Duration\"":                  1,
	"\"EMAIL\"":                     4,
	"\"ENCODING\"":                  1,
	"\"END\"":                       17,
	"\"END:DAYLIGHT\\r\\n\"":        1,
	"\"END:STANDARD\\r\\n\"":        1,
	"\"END:VALARM\\r\\n\"":          1,
	"\"END:VCALENDAR\\r\\n\"":       1,
	"\"END:VEVENT\\r\\n\"":          1,
	"\"END:VFREEBUSY\\r\\n\"":       1,
	"\"END:VJOURNAL\\r\\n\"":        1,
	"\"END:VTIMEZONE\\r\\n\"":       1,
	"\"END:VTODO\\r\\n\"":           1,
	"\"EXDATE\"":                    4,
	"\"Encoding\"":                  1,
	"\"Event\"":                     1,
	"\"ExceptionDateTime\"":         1,
	"\"FBTYPE\"":                    1,
	"\"FINAL\"":                     2,
	"\"FLOAT\"":                     2,
	"\"FMTTYPE\"":                   1,
	"\"FR\"":                        2,
	"\"FREE\"":                      2,
	"\"FREEBUSY\"":                  2,
	"\"FREQ\"":                      2,
	"\"FREQ=DAILY\"":                1,
	"\"FREQ=HOURLY\"":               1,
	"\"FREQ=MINUTELY\"":             1,
	"\"FREQ=MONTHLY\"":              1,
	"\"FREQ=SECONDLY\"":             2,
	"\"FREQ=WEEKLY\"":               1,
	"\"FREQ=YEARLY\"":               1,
	"\"FormatType\"":                1,
	"\"FreeBusy\"":                  1,
	"\"FreeBusyType\"":              1,
	"\"GEO\"":                       3,
	"\"GEO-LOCATION\"":              5,
	"\"GREGORIAN\"":                 2,
	"\"GROUP\"":                     2,
	"\"Geo\"":                       1,
	"\"GeoLocation\"":               1,
	"\"H\"":                         1,
	"\"HOURLY\"":                    1,
	"\"ID\"":                        2,
	"\"IN-PROCESS\"":                4,
	"\"INDIVIDUAL\"":                2,
	"\"INTEGER\"":                   2,
	"\"INTERVAL\"":                  1,
	"\"Journal\"":                   1,
	"\"LANGUAGE\"":                  10,
	"\"LAST-MODIFIED\"":             5,
	"\"LAST-TRIGGERED\"":            5,
	"\"LOCATION\"":                  3,
	"\"Language\"":                  1,
	"\"LastModified\"":              1,
	"\"LastTriggered\"":             1,
	"\"Location\"":                  1,
	"\"M\"":                         1,
	"\"MEMBER\"":                    1,
	"\"METHOD\"":                    1,
	"\"MINUTELY\"":                  1,
	"\"MO\"":                        2,
	"\"MONTHLY\"":                   1,
	"\"MText\"":                     1,
	"\"Member\"":                    1,
	"\"Method\"":                    1,
	"\"NEEDS-ACTION\"":              4,
	"\"NON-PARTICIPANT\"":           2,
	"\"NONE\"":                      2,
	"\"OPAQUE\"":                    2,
	"\"OPT-PARTICIPANT\"":           2,
	"\"ORGANIZER\"":                 5,
	"\"Organizer\"":                 1,
	"\"P\"":                         1,
	"\"PARENT\"":                    2,
	"\"PARTSTAT\"":                  1,
	"\"PERCENT-COMPLETE\"":          2,
	"\"PERIOD\"":                    3,
	"\"PRIORITY\"":                  3,
	"\"PRIVATE\"":                   2,
	"\"PRODID\"":                    2,
	"\"PROXIMITY\"":                 5,
	"\"PUBLIC\"":                    2,
	"\"ParticipationRole\"":         1,
	"\"ParticipationStatus\"":       1,
	"\"PercentComplete\"":           1,
	"\"Period\"":                    1,
	"\"Priority\"":                  1,
	"\"ProductID\"":                 1,
	"\"Proximity\"":                 1,
	"\"RANGE\"":                     1,
	"\"RDATE\"":                     6,
	"\"RECUR\"":                     2,
	"\"RECURRENCE-ID\"":             4,
	"\"RELATED-TO\"":                8,
	"\"RELTYPE\"":                   1,
	"\"REPEAT\"":                    5,
	"\"REQ-PARTICIPANT\"":           2,
	"\"REQUEST-STATUS\"":            5,
	"\"RESOURCE\"":                  2,
	"\"RESOURCES\"":                 4,
	"\"ROLE\"":                      1,
	"\"ROOM\"":                      2,
	"\"RRULE\"":                     5,
	"\"RSVP\"":                      2,
	"\"Range\"":                     1,
	"\"RecurrenceDateTimes\"":       1,
	"\"RecurrenceID\"":              1,
	"\"RecurrenceRule\"":            1,
	"\"Related\"":                   1,
	"\"RelatedTo\"":                 1,
	"\"RelationshipType\"":          1,
	"\"Repeat\"":                    1,
	"\"RequestStatus\"":             1,
	"\"Resources\"":                 1,
	"\"S\"":                         1,
	"\"SA\"":                        2,
	"\"SECONDLY\"":                  1,
	"\"SENT-BY\"":                   2,
	"\"SEQUENCE\"":                  4,
	"\"SIBLING\"":                   2,
	"\"STANDARD\"":                  2,
	"\"START\"":                     2,
	"\"STATUS\"":                    7,
	"\"STATUS:\"":                   2,
	"\"SU\"":                        2,
	"\"SUMMARY\"":                   5,
	"\"SentBy\"":                    1,
	"\"Sequence\"":                  1,
	"\"Standard\"":                  1,
	"\"Status\"":                    1,
	"\"Summary\"":                   1,
	"\"T\"":                         1,
	"\"TENTATIVE\"":                 4,
	"\"TEXT\"":                      2,
	"\"TH\"":                        2,
	"\"THISANDFUTURE\"":             2,
	"\"TIME\"":                      2,
	"\"TRANSP\"":                    1,
	"\"TRANSP:\"":                   1,
	"\"TRANSPARENT\"":               2,
	"\"TRIGGER\"":                   4,
	"\"TU\"":                        2,
	"\"TZID\"":                      4,
	"\"TZNAME\"":                    3,
	"\"TZOFFSETFROM\"":              3,
	"\"TZOFFSETTO\"":                3,
	"\"TZURL\"":                     2,
	"\"Text\"":                      1,
	"\"TimeTransparency\"":          1,
	"\"Timezone\"":                  1,
	"\"TimezoneID\"":                1,
	"\"TimezoneName\"":              1,
	"\"TimezoneOffsetFrom\"":        1,
	"\"TimezoneOffsetTo\"":          1,
	"\"TimezoneURL\"":               1,
	"\"Todo\"":                      1,
	"\"Trigger\"":                   1,
	"\"UID\"":                       10,
	"\"UNKNOWN\"":                   6,
	"\"UNTIL\"":                     2,
	"\"URI\"":                       9,
	"\"URL\"":                       6,
	"\"UTC-OFFSET\"":                2,
	"\"VALARM\"":                    7,
	"\"VALUE\"":                     8,
	"\"VCALENDAR\"":                 2,
	"\"VERSION\"":                   2,
	"\"VEVENT\"":                    2,
	"\"VFREEBUSY\"":                 2,
	"\"VJOURNAL\"":                  2,
	"\"VTIMEZONE\"":                 2,
	"\"VTODO\"":                     2,
	"\"Value\"":                     1,
	"\"Version\"":                   1,
	"\"W\"":                         1,
	"\"WE\"":                        2,
	"\"WEEKLY\"":                    1,
	"\"WKST\"":                      1,
	"\"YEARLY\"":                    1,
	"\"[A-Za-z0-9!#$&.+-^_]/[A-Za-z0-9!#$&.+-^_]\"": 1,
	"\"\\\"\"":     28,
	"\"\\\\\"":     1,
	"\"\\\\,;\"":   1,
	"\"\\n\"":      1,
	"\"\\n^\\\"\"": 1,
	"\"\\r\"":      1,
	"\"\\r\\n\"":   54,
	"\"\\x00\\x01\\x02\\x03\\x04\\x05\\x06\\a\\b\\v\\f\\r\\x0e\\x0f\\x10\\x11\\x12\\x13\\x14\\x15\\x16\\x17\\x18\\x19\\x1a\\x1b\\x1c\\x1d\\x1e\\x1f\\x7f\\n\\\";:,\"": 1,
	"\"^\"":                                               2,
	"\"duplicate param\"":                                 1,
	"\"error decoding %s->%s: %w\"":                       1,
	"\"error decoding %s: %w\"":                           2,
	"\"error decoding %s: multiple %s\"":                  1,
	"\"error decoding URI: %w\"":                          1,
	"\"error decoding duration: %w\"":                     1,
	"\"error loading timezone for DateTime: %w\"":         1,
	"\"error loading timezone for Time: %w\"":             1,
	"\"error parsing CalendarAddress: %w\"":               1,
	"\"error parsing Date: %w\"":                          1,
	"\"error parsing Float: %w\"":                         1,
	"\"error parsing TFloat[0]: %w\"":                     1,
	"\"error parsing TFloat[1]: %w\"":                     1,
	"\"error parsing local time for DateTime: %w\"":       1,
	"\"error parsing local time for Time: %w\"":           1,
	"\"error parsing time in UTC for DateTime: %w\"":      1,
	"\"error parsing time in UTC for Time: %w\"":          1,
	"\"error parsing time in location for DateTime: %w\"": 1,
	"\"error parsing time in location for Time: %w\"":     1,
	"\"error validating %s->%s: %w\"":                     1,
	"\"error while decoding Period End: %w\"":             1,
	"\"error while decoding Period Start: %w\"":           1,
	"\"error while decoding Period: %w\"":                 1,
	"\"error while decoding binary data: %w\"":            1,
	"\"invalid Binary encoding\"":                         1,
	"\"invalid Boolean\"":                                 1,
	"\"invalid Duration\"":                                1,
	"\"invalid Period duration\"":                         1,
	"\"invalid Period\"":                                  1,
	"\"invalid Recur ByDay\"":                             1,
	"\"invalid Recur ByHour\"":                            1,
	"\"invalid Recur ByMinute\"":                          1,
	"\"invalid Recur ByMonth\"":                           1,
	"\"invalid Recur ByMonthDay\"":                        1,
	"\"invalid Recur BySecond\"":                          1,
	"\"invalid Recur BySetPos\"":                          1,
	"\"invalid Recur ByWeekNum\"":                         1,
	"\"invalid Recur ByYearDay\"":                         1,
	"\"invalid Recur WeekStart\"":                         1,
	"\"invalid Recur frequency\"":                         1,
	"\"invalid Recur\"":                                   1,
	"\"invalid Time\"":                                    1,
	"\"invalid UTC Offset\"":                              1,
	"\"invalid alarm type\"":                              1,
	"\"invalid calendar\"":                                1,
	"\"invalid content line name\"":                       1,
	"\"invalid content line param name\"":                 1,
	"\"invalid content line param value\"":                1,
	"\"invalid content line quoted param value\"":         1,
	"\"invalid content line value\"":                      1,
	"\"invalid content line\"":                            1,
	"\"invalid encoded text\"":                            1,
	"\"invalid end of Period\"":                           1,
	"\"invalid end of section\"":                          1,
	"\"invalid float\"":                                   1,
	"\"invalid number of floats\"":                        1,
	"\"invalid param value\"":                             1,
	"\"invalid start of Period\"":                         1,
	"\"invalid structure\"":                               1,
	"\"invalid value\"":                                   1,
	"\"missing alarm action\"":                            1,
	"\"required property missing\"":                       1,
	"\"requirement not met\"":                             1,
	"-1":                                                  41,
	"-100":                                                1,
	"-31":                                                 2,
	"-360000":                                             1,
	"-366":                                                4,
	"-53":                                                 3,
	"0":                                                   368,
	"1":                                                   274,
	"10":                                                  44,
	"100":                                                 2,
	"102":                                                 3,
	"110":                                                 4,
	"12":                                                  2,
	"13":                                                  6,
	"15":                                                  10,
	"16":                                                  3,
	"2":                                                   12,
	"20":                                                  2,
	"23":                                                  2,
	"256":                                                 1,
	"3":                                                   2,
	"31":                                                  14,
	"32":                                                  13,
	"33":                                                  1,
	"34":                                                  3,
	"3600":                                                3,
	"360000":                                              1,
	"366":                                                 8,
	"39":                                                  2,
	"4":                                                   3,
	"43":                                                  2,
	"44":                                                  7,
	"45":                                                  3,
	"47":                                                  2,
	"48":                                                  12,
	"53":                                                  7,
	"57":                                                  2,
	"58":                                                  2,
	"59":                                                  8,
	"60":                                                  9,
	"61":                                                  1,
	"64":                                                  9,
	"65":                                                  3,
	"68":                                                  2,
	"69":                                                  4,
	"7":                                                   4,
	"70":                                                  3,
	"72":                                                  4,
	"75":                                                  1,
	"76":                                                  1,
	"77":                                                  5,
	"78":                                                  1,
	"79":                                                  2,
	"8":                                                   9,
	"80":                                                  2,
	"82":                                                  3,
	"83":                                                  9,
	"84":                                                  6,
	"85":                                                  5,
	"87":                                                  4,
	"9":                                                   7,
	"90":                                                  2,
	"92":                                                  11,
	"94":                                                  10,
	"99":                                                  1,
	"9999":                                                1,
}
