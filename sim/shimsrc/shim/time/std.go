// Generated from the export list of the standard package.
package time

import std "time"

type (
	Duration   = std.Duration
	Location   = std.Location
	Month      = std.Month
	ParseError = std.ParseError
	Time       = std.Time
	Weekday    = std.Weekday
)

const (
	ANSIC       = std.ANSIC
	April       = std.April
	August      = std.August
	DateOnly    = std.DateOnly
	DateTime    = std.DateTime
	December    = std.December
	February    = std.February
	Friday      = std.Friday
	Hour        = std.Hour
	January     = std.January
	July        = std.July
	June        = std.June
	Kitchen     = std.Kitchen
	Layout      = std.Layout
	March       = std.March
	May         = std.May
	Microsecond = std.Microsecond
	Millisecond = std.Millisecond
	Minute      = std.Minute
	Monday      = std.Monday
	Nanosecond  = std.Nanosecond
	November    = std.November
	October     = std.October
	RFC1123     = std.RFC1123
	RFC1123Z    = std.RFC1123Z
	RFC3339     = std.RFC3339
	RFC3339Nano = std.RFC3339Nano
	RFC822      = std.RFC822
	RFC822Z     = std.RFC822Z
	RFC850      = std.RFC850
	RubyDate    = std.RubyDate
	Saturday    = std.Saturday
	Second      = std.Second
	September   = std.September
	Stamp       = std.Stamp
	StampMicro  = std.StampMicro
	StampMilli  = std.StampMilli
	StampNano   = std.StampNano
	Sunday      = std.Sunday
	Thursday    = std.Thursday
	TimeOnly    = std.TimeOnly
	Tuesday     = std.Tuesday
	UnixDate    = std.UnixDate
	Wednesday   = std.Wednesday
)

var (
	Date                   = std.Date
	FixedZone              = std.FixedZone
	LoadLocation           = std.LoadLocation
	LoadLocationFromTZData = std.LoadLocationFromTZData
	Parse                  = std.Parse
	ParseDuration          = std.ParseDuration
	ParseInLocation        = std.ParseInLocation
	UTC                    = std.UTC
	Unix                   = std.Unix
	UnixMicro              = std.UnixMicro
	UnixMilli              = std.UnixMilli
)
