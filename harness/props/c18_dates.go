package props

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strconv"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

type (
	instant struct {
		Day    int // YYYYMMDD, in the zone
		Sec    int // of the day
		Nsec   int
		Offset int // of the zone, seconds
	}
	frameCase struct{ From, To int } // YYYYMMDD, 0: not set
	dateText  struct{ A, B string }
)

func (c instant) zone() *time.Location { return time.FixedZone("zone", c.Offset) }
func (c instant) time() time.Time {
	return time.Date(c.Day/10000, time.Month(c.Day/100%100), c.Day%100, c.Sec/3600, c.Sec/60%60, c.Sec%60, c.Nsec, c.zone())
}

func isoDay(d int) string { return fmt.Sprintf("%04d-%02d-%02d", d/10000, d/100%100, d%100) }

// validDay tells whether s holds a day, as n digits with the given separator.
func validDay(s, sep string) (int, bool) {
	if len(s) != 8+2*len(sep) {
		return 0, false
	}
	l := len(sep)
	if s[4:4+l] != sep || s[6+l:6+2*l] != sep {
		return 0, false
	}
	s = s[:4] + s[4+l:6+l] + s[6+2*l:]
	n := 0
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = 10*n + int(c-'0')
	}
	y, m, d := n/10000, n/100%100, n%100
	return n, m >= 1 && m <= 12 && d >= 1 && d <= daysIn(y, m)
}

func shortDate(day int) domain.ShortDate {
	if day == 0 {
		return domain.ShortDate{}
	}
	return domain.Date(day/10000, time.Month(day/100%100), day%100, time.UTC)
}

func sameShort(what string, got domain.ShortDate, day int) error {
	if !got.Equal(shortDate(day).Time) || got.Location() != time.UTC && day != 0 {
		return fmt.Errorf("%s: got %v, want %d", what, got.Time, day)
	}
	return nil
}

func init() {
	genAnyDay := rapid.OneOf(rapid.Custom(func(t *rapid.T) int { return genDay(t, "near") }), rapid.Custom(func(t *rapid.T) int {
		y, m := rapid.IntRange(1, 9999).Draw(t, "year"), rapid.IntRange(1, 12).Draw(t, "month")
		return y*10000 + m*100 + rapid.IntRange(1, daysIn(y, m)).Draw(t, "day")
	}))
	pbt.Add(pbt.Spec[instant]{
		Prop: "C18", Name: "dates", Quick: 600000, Thorough: 12000000,
		Rule: "any time of any day of the years 1-9999 in any zone: its short date is that day at midnight UTC and survives JSON and text, alone, by reference and inside other values; non-trivial: all (labelled when the day differs from the one in UTC)",
		Gen: func(t *rapid.T) instant {
			return instant{genAnyDay.Draw(t, "day"), rapid.OneOf(rapid.IntRange(0, 86399), rapid.SampledFrom([]int{0, 86399})).Draw(t, "sec"), rapid.SampledFrom([]int{0, 1, 999999999}).Draw(t, "nsec"), rapid.IntRange(-56, 56).Draw(t, "zone") * 900}
		},
		Classify: func(c instant) []string {
			l := []string{"date"}
			if u := c.time().UTC(); dayInt(u) != c.Day {
				l = append(l, "other-day-in-utc")
			}
			return l
		},
		Check: func(c instant) error {
			s := domain.NewShortDate(c.time())
			if err := first(sameShort("NewShortDate", s, c.Day), sameShort("Date", domain.Date(c.Day/10000, time.Month(c.Day/100%100), c.Day%100, c.zone()), c.Day), eq("String", (&s).String(), isoDay(c.Day)), eq("printed", fmt.Sprintf("%s", s), isoDay(c.Day))); err != nil {
				return err
			}
			text, err := s.MarshalText()
			if err != nil {
				return err
			}
			var back domain.ShortDate
			if err := back.UnmarshalText(text); err != nil {
				return err
			}
			if err := first(eq("text", string(text), isoDay(c.Day)), sameShort("text", back, c.Day)); err != nil {
				return err
			}
			if c.Day == 10101 {
				return nil // the zero time, see the facet zero
			}
			type holder struct {
				D domain.ShortDate
				P *domain.ShortDate
				L []domain.ShortDate
			}
			for _, v := range []any{s, &s} {
				b, err := json.Marshal(v)
				if err != nil {
					return err
				}
				var back domain.ShortDate
				if err := json.Unmarshal(b, &back); err != nil {
					return fmt.Errorf("%T as JSON: %s: %v", v, b, err)
				}
				if err := first(eq(fmt.Sprintf("%T as JSON", v), string(b), strconv.Quote(isoDay(c.Day))), sameShort("JSON", back, c.Day)); err != nil {
					return err
				}
			}
			h := holder{s, &s, []domain.ShortDate{s}}
			for _, v := range []any{h, &h} {
				b, err := json.Marshal(v)
				if err != nil {
					return err
				}
				var back holder
				if err := json.Unmarshal(b, &back); err != nil {
					return fmt.Errorf("%T as JSON: %s: %v", v, b, err)
				}
				if back.P == nil || len(back.L) != 1 {
					return fmt.Errorf("%T as JSON: %s", v, b)
				}
				if err := first(sameShort("JSON", back.D, c.Day), sameShort("JSON", *back.P, c.Day), sameShort("JSON", back.L[0], c.Day)); err != nil {
					return err
				}
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[frameCase]{
		Prop: "C18", Name: "timeframes", Quick: 600000, Thorough: 12000000,
		Rule: "any two dates, one or both possibly not set: the timeframe survives a URL query and JSON, by value and by reference; if a date is not set, JSON holds no timeframe and the query is refused; non-trivial: all (labelled when a date is not set)",
		Gen: func(t *rapid.T) frameCase {
			d := rapid.OneOf(genAnyDay, genAnyDay, genAnyDay, rapid.Just(0))
			return frameCase{d.Draw(t, "from"), d.Draw(t, "to")}
		},
		Classify: func(c frameCase) []string {
			if c.From == 0 || c.To == 0 {
				return []string{"not-set"}
			}
			return []string{"set"}
		},
		Check: func(c frameCase) error {
			if c.From == 10101 || c.To == 10101 {
				return nil
			}
			tf := domain.Timeframe{StartDate: shortDate(c.From), EndDate: shortDate(c.To)}
			if err := eq("IsZero", tf.IsZero(), c.From == 0 && c.To == 0); err != nil {
				return err
			}
			whole := c.From != 0 && c.To != 0
			want := frameCase{}
			if whole {
				want = c
				q, err := url.ParseQuery(tf.ToQuery().Encode())
				if err != nil {
					return err
				}
				back, err := domain.TimeframeFromQuery(q)
				if err != nil {
					return fmt.Errorf("%v: %v", q, err)
				}
				if err := first(eq("from", q.Get("from"), fmt.Sprintf("%08d", c.From)), eq("to", q.Get("to"), fmt.Sprintf("%08d", c.To)), sameShort("query from", back.StartDate, c.From), sameShort("query to", back.EndDate, c.To)); err != nil {
					return err
				}
			}
			type holder struct{ T domain.Timeframe }
			for _, v := range []any{tf, &tf, holder{tf}, &holder{tf}} {
				b, err := json.Marshal(v)
				if err != nil {
					return err
				}
				back := holder{domain.Timeframe{StartDate: shortDate(20010101), EndDate: shortDate(20020202)}}
				var into any = &back.T
				if len(b) > 0 && b[0] == '{' {
					into = &back
				}
				if err := json.Unmarshal(b, into); err != nil {
					return fmt.Errorf("%T as JSON: %s: %v", v, b, err)
				}
				if err := first(sameShort("JSON from", back.T.StartDate, want.From), sameShort("JSON to", back.T.EndDate, want.To)); err != nil {
					return fmt.Errorf("%T as JSON: %s: %v", v, b, err)
				}
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[dateText]{
		Prop: "C18", Name: "texts", Quick: 600000, Thorough: 12000000,
		Rule: "texts that look like dates: they are read as a date exactly if they are one, and as that date; a query needs two of them; non-trivial: all (labelled by whether they are dates)",
		Gen: func(t *rapid.T) dateText {
			one := rapid.OneOf(rapid.Map(genAnyDay, isoDay), rapid.Map(genAnyDay, func(d int) string { return fmt.Sprintf("%08d", d) }), rapid.StringMatching(`\d{4}-?[01]\d-?[0-3]\d`), rapid.StringMatching(`\d{3,5}-?\d{1,2}-?\d{1,3}( |T00:00:00Z)?`), anyText(12))
			return dateText{one.Draw(t, "a"), one.Draw(t, "b")}
		},
		Classify: func(c dateText) []string {
			if _, ok := validDay(c.A, "-"); ok {
				return []string{"date"}
			}
			if _, ok := validDay(c.A, ""); ok {
				return []string{"query-date"}
			}
			return []string{"no-date"}
		},
		Check: func(c dateText) error {
			day, ok := validDay(c.A, "-")
			var s domain.ShortDate
			err := s.UnmarshalText([]byte(c.A))
			if (err == nil) != ok {
				return fmt.Errorf("text %q: %v", c.A, err)
			}
			if ok {
				if err := sameShort("text", s, day); err != nil {
					return err
				}
			}
			b, _ := json.Marshal(c.A)
			s = domain.ShortDate{}
			err = json.Unmarshal(b, &s)
			if c.A != "" && (err == nil) != ok {
				return fmt.Errorf("JSON %s: %v", b, err)
			}
			if ok {
				if err := sameShort("JSON", s, day); err != nil {
					return err
				}
			}
			a, okA := validDay(c.A, "")
			z, okZ := validDay(c.B, "")
			tf, err := domain.TimeframeFromQuery(url.Values{"from": {c.A}, "to": {c.B}})
			if (err == nil) != (okA && okZ) {
				return fmt.Errorf("query %q %q: %v", c.A, c.B, err)
			}
			if err == nil {
				return first(sameShort("from", tf.StartDate, a), sameShort("to", tf.EndDate, z))
			}
			if _, err := domain.TimeframeFromQuery(url.Values{"from": {c.A}}); err == nil {
				return fmt.Errorf("no error without an end date")
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[instant]{
		Prop: "C18", Name: "until-today", Quick: 50000, Thorough: 1000000,
		Rule: "the timeframe from any date reaches until the current day in the zone of the date; non-trivial: all",
		Gen: func(t *rapid.T) instant {
			return instant{Day: genAnyDay.Draw(t, "day"), Offset: rapid.IntRange(-56, 56).Draw(t, "zone") * 900}
		},
		Classify: func(c instant) []string { return []string{"date"} },
		Check: func(c instant) error {
			before := time.Now().In(c.zone())
			tf := domain.TimeframeFromDate(domain.ShortDate{Time: c.time()})
			after := time.Now().In(c.zone())
			if !tf.StartDate.Equal(c.time()) {
				return fmt.Errorf("start %v", tf.StartDate.Time)
			}
			if e := sameShort("end", tf.EndDate, dayInt(before)); e != nil && sameShort("end", tf.EndDate, dayInt(after)) != nil {
				return e
			}
			return nil
		},
	})
	pbt.AddEnum(pbt.EnumSpec[int]{
		Prop: "C18", Name: "zero", Rule: "the date that is not set survives JSON and text; non-trivial: all",
		Enum: func(_ bool, yield func(int) bool) {
			for i := 0; i < 3 && yield(i); i++ {
			}
		},
		Classify: func(int) []string { return []string{"zero"} },
		Check: func(i int) error {
			s := domain.ShortDate{}
			back := shortDate(20200202)
			var err error
			switch i {
			case 0, 1:
				var b []byte
				if b, err = json.Marshal(s); i == 1 {
					b, err = json.Marshal(&s)
				}
				if err == nil {
					err = json.Unmarshal(b, &back)
				}
			case 2:
				var b []byte
				if b, err = s.MarshalText(); err == nil {
					err = back.UnmarshalText(b)
				}
			}
			if err != nil {
				return err
			}
			return eq("zero", back.IsZero(), true)
		},
	})
}
