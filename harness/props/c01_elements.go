package props

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

type de interface {
	MarshalHBCI() ([]byte, error)
	UnmarshalHBCI([]byte) error
}

// carried checks that enc marshals to wire, that wire decodes into dec without
// an error, and that what was decoded marshals to wire again.
func carried(enc, dec de, wire []byte) error {
	if enc != nil {
		got, err := enc.MarshalHBCI()
		if err != nil {
			return fmt.Errorf("marshal: %v", err)
		}
		if err := bytesEq("marshal", got, wire); err != nil {
			return err
		}
	}
	in := append([]byte{}, wire...)
	if err := dec.UnmarshalHBCI(in); err != nil {
		return fmt.Errorf("unmarshal %q: %v", wire, err)
	}
	if err := bytesEq("input after unmarshal", in, wire); err != nil {
		return err
	}
	again, err := dec.MarshalHBCI()
	if err != nil {
		return fmt.Errorf("marshal decoded: %v", err)
	}
	if err := bytesEq("marshal of the decoded element", again, wire); err != nil {
		return err
	}
	// the element is the caller's, whatever becomes of the bytes it was read from
	for i := range in {
		in[i] = '#'
	}
	if again, err = dec.MarshalHBCI(); err != nil {
		return fmt.Errorf("marshal decoded: %v", err)
	}
	return bytesEq("marshal of the decoded element, its source overwritten,", again, wire)
}

type textCase struct {
	Kind string
	Val  string
}

func init() {
	kinds := []string{"an", "txt", "id", "cur", "code"}
	pbt.Add(pbt.Spec[textCase]{
		Prop: "C01", Name: "text", Quick: 600000, Thorough: 12000000,
		Rule: "text of 0-40 ISO 8859-1 characters, heavy in the syntax characters, through every text-like data element; non-trivial when it holds syntax, non-ASCII, line break or number-like characters",
		Gen: func(t *rapid.T) textCase {
			k := rapid.SampledFrom(kinds).Draw(t, "kind")
			g := anyText(40)
			if k == "txt" {
				g = multiline(40)
			}
			return textCase{k, g.Draw(t, "val")}
		},
		Classify: func(c textCase) []string { return textLabels(c.Val) },
		Check: func(c textCase) error {
			wire := ref.Text(c.Val)
			switch c.Kind {
			case "txt":
				d := &element.TextDataElement{}
				return carriedVal(element.NewText(c.Val, 40), d, wire, func() string { return d.Val() }, c.Val)
			case "id":
				d := &element.IdentificationDataElement{}
				return carriedVal(element.NewIdentification(c.Val), d, wire, func() string { return d.Val() }, c.Val)
			case "cur":
				d := &element.CurrencyDataElement{}
				return carriedVal(element.NewCurrency(c.Val), d, wire, func() string { return d.Val() }, c.Val)
			case "code":
				d := &element.CodeDataElement{}
				return carriedVal(element.NewCode(c.Val, 40, []string{c.Val}), d, wire, func() string { return d.Val() }, c.Val)
			default:
				d := &element.AlphaNumericDataElement{}
				return carriedVal(element.NewAlphaNumeric(c.Val, 40), d, wire, func() string { return d.Val() }, c.Val)
			}
		},
	})

	pbt.Add(pbt.Spec[struct {
		Kind  string
		Val   int
		Width int
	}]{
		Prop: "C01", Name: "numbers", Quick: 300000, Thorough: 6000000,
		Rule: "non-negative numbers up to 12 digits as number, digits, country code and virtual date; non-trivial when zero, zero-padded or more than 6 digits",
		Gen: func(t *rapid.T) (c struct {
			Kind  string
			Val   int
			Width int
		}) {
			c.Kind = rapid.SampledFrom([]string{"num", "dig", "ctr", "vdat"}).Draw(t, "kind")
			digits := rapid.IntRange(1, 12).Draw(t, "digits")
			if c.Kind == "ctr" {
				digits = rapid.IntRange(1, 3).Draw(t, "ctrdigits")
			}
			max := 1
			for i := 0; i < digits; i++ {
				max *= 10
			}
			c.Val = rapid.IntRange(0, max-1).Draw(t, "val")
			c.Width = rapid.IntRange(digits, 14).Draw(t, "width")
			return
		},
		Classify: func(c struct {
			Kind  string
			Val   int
			Width int
		}) (l []string) {
			if c.Val == 0 {
				l = append(l, "zero")
			}
			if c.Kind == "dig" && len(fmt.Sprint(c.Val)) < c.Width || c.Kind == "ctr" && c.Val < 100 {
				l = append(l, "padded")
			}
			if c.Val > 999999 {
				l = append(l, "large")
			}
			return
		},
		Check: func(c struct {
			Kind  string
			Val   int
			Width int
		}) error {
			switch c.Kind {
			case "dig":
				d := &element.DigitDataElement{}
				return carriedVal(element.NewDigit(c.Val, c.Width), d, ref.Digits(c.Val, c.Width), func() int { return d.Val() }, c.Val)
			case "ctr":
				d := &element.CountryCodeDataElement{}
				return carriedVal(element.NewCountryCode(c.Val), d, ref.Digits(c.Val, 3), func() int { return d.Val() }, c.Val)
			case "vdat":
				d := &element.NumberDataElement{}
				return carriedVal(element.NewVirtualDate(c.Val), d, ref.Num(c.Val), func() int { return d.Val() }, c.Val)
			}
			d := &element.NumberDataElement{}
			return carriedVal(element.NewNumber(c.Val, c.Width), d, ref.Num(c.Val), func() int { return d.Val() }, c.Val)
		},
	})

	pbt.Add(pbt.Spec[struct {
		Float bool
		Cents int64
	}]{
		Prop: "C01", Name: "values", Quick: 500000, Thorough: 10000000,
		Rule: "amounts in hundredths up to 99999999999,99 against an integer renderer; non-trivial when there are decimals, a trailing zero decimal or more than 8 digits",
		Gen: func(t *rapid.T) (c struct {
			Float bool
			Cents int64
		}) {
			c.Float = rapid.Bool().Draw(t, "float")
			c.Cents = cents(9999999999999).Draw(t, "cents")
			return
		},
		Classify: func(c struct {
			Float bool
			Cents int64
		}) (l []string) {
			if c.Cents%100 != 0 {
				l = append(l, "decimals")
			}
			if c.Cents%10 == 0 {
				l = append(l, "trailing-zero")
			}
			if c.Cents > 1e8 {
				l = append(l, "large")
			}
			if c.Cents < 100 {
				l = append(l, "below-one")
			}
			return
		},
		Check: func(c struct {
			Float bool
			Cents int64
		}) error {
			wire := ref.Amount(c.Cents)
			if c.Float {
				d := &element.FloatDataElement{}
				return carriedVal(element.NewFloat(amt(c.Cents), 15), d, wire, func() float64 { return d.Val() }, amt(c.Cents))
			}
			d := &element.ValueDataElement{}
			if err := carriedVal(element.NewValue(amt(c.Cents)), d, wire, func() float64 { return d.Val() }, amt(c.Cents)); err != nil {
				return err
			}
			// banks also send a padded decimal part
			padded := []byte(fmt.Sprintf("%d,%02d", c.Cents/100, c.Cents%100))
			if err := d.UnmarshalHBCI(padded); err != nil {
				return fmt.Errorf("unmarshal %q: %v", padded, err)
			}
			return eq("value of "+string(padded), d.Val(), amt(c.Cents))
		},
	})

	pbt.AddEnum(pbt.EnumSpec[int]{
		Prop: "C01", Name: "dates",
		Rule: "every calendar day of 1901-2100 (thorough: 1601-2600); non-trivial: all",
		Enum: func(thorough bool, yield func(int) bool) {
			from, to := 1901, 2101
			if thorough {
				from, to = 1601, 2601
			}
			end := time.Date(to, 1, 1, 0, 0, 0, 0, time.UTC)
			for d := time.Date(from, 1, 1, 0, 0, 0, 0, time.UTC); d.Before(end); d = d.AddDate(0, 0, 1) {
				y, m, dd := d.Date()
				if !yield(y*10000 + int(m)*100 + dd) {
					return
				}
			}
		},
		Classify: func(c int) []string { return []string{"day"} },
		Check: func(c int) error {
			day := time.Date(c/10000, time.Month(c/100%100), c%100, 0, 0, 0, 0, time.UTC)
			d := &element.DateDataElement{}
			if err := carried(element.NewDate(day), d, []byte(fmt.Sprintf("%08d", c))); err != nil {
				return err
			}
			if !d.Val().Equal(day) {
				return fmt.Errorf("value: got %v, want %v", d.Val(), day)
			}
			return nil
		},
	})

	pbt.AddEnum(pbt.EnumSpec[int]{
		Prop: "C01", Name: "times",
		Rule: "every second of a day; non-trivial: all",
		Enum: func(_ bool, yield func(int) bool) {
			for s := 0; s < 86400; s++ {
				if !yield(s) {
					return
				}
			}
			yield(86399)
		},
		Classify: func(c int) []string { return []string{"second"} },
		Check: func(c int) error {
			day := time.Date(2021, 3, 28, c/3600, c/60%60, c%60, 0, time.UTC)
			d := &element.TimeDataElement{}
			return carriedVal(element.NewTime(day), d, timeWire(c), func() int { return clockOf(d.Val()) }, c)
		},
	})

	pbt.AddEnum(pbt.EnumSpec[bool]{
		Prop: "C01", Name: "booleans",
		Rule:     "both values",
		Enum:     func(_ bool, yield func(bool) bool) { _ = yield(true) && yield(false) },
		Classify: func(c bool) []string { return []string{fmt.Sprint(c)} },
		Check: func(c bool) error {
			d := &element.BooleanDataElement{}
			return carriedVal(element.NewBoolean(c), d, ref.Bool(c), func() bool { return d.Val() }, c)
		},
	})

	pbt.Add(pbt.Spec[struct {
		Dtaus bool
		Data  pbt.B
	}]{
		Prop: "C01", Name: "binary", Quick: 300000, Thorough: 6000000,
		Rule: "0-300 bytes, half of them syntax characters, NUL or digits; non-trivial when empty, not UTF-8 or holding syntax characters",
		Gen: func(t *rapid.T) (c struct {
			Dtaus bool
			Data  pbt.B
		}) {
			c.Dtaus = rapid.Bool().Draw(t, "dtaus")
			n := 40
			if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
				n = 300
			}
			c.Data = binary(n).Draw(t, "data")
			return
		},
		Classify: func(c struct {
			Dtaus bool
			Data  pbt.B
		}) (l []string) {
			if len(c.Data) == 0 {
				l = append(l, "empty")
			}
			if strings.ContainsAny(string(c.Data), "@'+:?") {
				l = append(l, "syntax-chars")
			}
			if strings.ToValidUTF8(string(c.Data), "") != string(c.Data) {
				l = append(l, "not-utf8")
			}
			if len(c.Data) > 99 {
				l = append(l, "long")
			}
			return
		},
		Check: func(c struct {
			Dtaus bool
			Data  pbt.B
		}) error {
			if c.Dtaus {
				d := &element.DtausCharsetDataElement{}
				return carriedVal(element.NewDtausCharset(c.Data, 999), d, ref.Bin(c.Data), func() string { return string(d.Val()) }, string(c.Data))
			}
			d := &element.BinaryDataElement{}
			return carriedVal(element.NewBinary(c.Data, 999), d, ref.Bin(c.Data), func() string { return string(d.Val()) }, string(c.Data))
		},
	})

	numRe := regexp.MustCompile(`^[0-9]{1,18}$`)
	floatRe := regexp.MustCompile(`^[0-9]{1,15},[0-9]{0,9}$`)
	mutate := func(t *rapid.T, s []byte, alphabet string) []byte {
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "edits"); i < n; i++ {
			at := rapid.IntRange(0, len(s)).Draw(t, "at")
			switch rapid.IntRange(0, 2).Draw(t, "op") {
			case 0:
				s = append(s[:at:at], append([]byte{rapid.SampledFrom([]byte(alphabet)).Draw(t, "c")}, s[at:]...)...)
			case 1:
				if at < len(s) {
					s = append(s[:at:at], s[at+1:]...)
				}
			case 2:
				if at < len(s) {
					s = append(s[:at:at], append([]byte{rapid.SampledFrom([]byte(alphabet)).Draw(t, "c")}, s[at+1:]...)...)
				}
			}
		}
		return s
	}
	type rawCase struct {
		Kind string
		Wire pbt.B
	}
	// verdict says whether wire is a well formed element of its kind, and for
	// which wires the question is settled by the syntax.
	pbt.Add(pbt.Spec[rawCase]{
		Prop: "C01", Name: "malformed", Quick: 800000, Thorough: 16000000,
		Rule: "wire forms of typed elements with 0-2 edits; a decoder must accept exactly the well-formed ones and return their value; non-trivial: all (labelled by kind and verdict)",
		Gen: func(t *rapid.T) rawCase {
			k := rapid.SampledFrom([]string{"num", "float", "dat", "tim", "jn", "bin"}).Draw(t, "kind")
			var w []byte
			alpha := "0123456789,x /"
			switch k {
			case "num":
				w = ref.Num(rapid.IntRange(0, 1e9).Draw(t, "n"))
			case "float":
				w = ref.Amount(cents(1e9).Draw(t, "c"))
				alpha = "0123456789,xz /"
			case "dat":
				w = dateWire(genDate(1990, 2040).Draw(t, "d"))
			case "tim":
				w = timeWire(genTimeOfDay().Draw(t, "s"))
			case "jn":
				w = ref.Bool(rapid.Bool().Draw(t, "b"))
				alpha = "JNjn1 "
			case "bin":
				w = ref.Bin(binary(12).Draw(t, "b"))
				alpha = "@0123456789x"
			}
			w = mutate(t, append([]byte{}, w...), alpha)
			return rawCase{k, w}
		},
		Classify: func(c rawCase) []string { return []string{c.Kind} },
		Check: func(c rawCase) error {
			s := string(c.Wire)
			verdict := func(name string, ok, accepted bool) error {
				if ok {
					pbt.Note(name + "-wellformed")
				} else {
					pbt.Note(name + "-malformed")
				}
				if ok != accepted {
					return fmt.Errorf("%s %q: well-formed %v, accepted %v", name, s, ok, accepted)
				}
				return nil
			}
			switch c.Kind {
			case "num":
				if len(s) > 18 {
					return nil
				}
				d := &element.NumberDataElement{}
				d2 := &element.DigitDataElement{}
				ok := numRe.MatchString(s)
				return first(verdict("num", ok, d.UnmarshalHBCI(c.Wire) == nil), verdict("dig", ok, d2.UnmarshalHBCI(c.Wire) == nil))
			case "float":
				if !floatRe.MatchString(s) && strings.Trim(s, "0123456789,") == "" && strings.Count(s, ",") <= 1 && strings.Trim(s, ",") != "" {
					return nil // no comma, or nothing before it: leniency is not at issue
				}
				d := &element.ValueDataElement{}
				return verdict("float", floatRe.MatchString(s), d.UnmarshalHBCI(c.Wire) == nil)
			case "dat":
				ok := false
				if len(s) == 8 && numRe.MatchString(s) {
					y, m, dd := atoi(s[:4]), atoi(s[4:6]), atoi(s[6:])
					ok = m >= 1 && m <= 12 && dd >= 1 && dd <= daysIn(y, m)
				}
				d := &element.DateDataElement{}
				return verdict("dat", ok, d.UnmarshalHBCI(c.Wire) == nil)
			case "tim":
				ok := len(s) == 6 && numRe.MatchString(s) && atoi(s[:2]) < 24 && atoi(s[2:4]) < 60 && atoi(s[4:]) < 60
				// a fraction after the seconds is accepted by the parser of the standard library
				if len(s) > 6 && (s[6] == ',' || s[6] == '.') {
					return nil
				}
				d := &element.TimeDataElement{}
				return verdict("tim", ok, d.UnmarshalHBCI(c.Wire) == nil)
			case "jn":
				d := &element.BooleanDataElement{}
				return verdict("jn", s == "J" || s == "N", d.UnmarshalHBCI(c.Wire) == nil)
			case "bin":
				// malformed: no header, or more declared than there is
				m := regexp.MustCompile(`^@([0-9]{1,9})@`).FindStringSubmatch(s)
				ok := m != nil && atoi(m[1]) <= len(s)-len(m[0])
				d := &element.BinaryDataElement{}
				err := d.UnmarshalHBCI(c.Wire)
				if err := verdict("bin", ok, err == nil); err != nil {
					return err
				}
				if ok {
					return eq("data", string(d.Val()), s[len(m[0]):len(m[0])+atoi(m[1])])
				}
			}
			return nil
		},
	})
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

func atoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

// carriedVal is carried, and the decoded value is want.
func carriedVal[T comparable](enc, dec de, wire []byte, got func() T, want T) error {
	if err := carried(enc, dec, wire); err != nil {
		return err
	}
	return eq("decoded value", got(), want)
}
