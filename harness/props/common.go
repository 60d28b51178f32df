package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// The lexer of the code under test rejects an element that is a number with a
// leading zero and a comma (a test of the suite asks for it, see
// known-findings.txt). Generators of wire text keep out of it.
var zeroFloat = regexp.MustCompile(`^0[0-9]+,[0-9]*$`)

func okText(s string) bool { return !zeroFloat.MatchString(s) }

var syntaxRunes = []rune("+:'?@")

func runeGen(newlines bool) *rapid.Generator[rune] {
	return rapid.Custom(func(t *rapid.T) rune {
		switch k := rapid.IntRange(0, 19).Draw(t, "kind"); {
		case k < 6:
			return rapid.SampledFrom(syntaxRunes).Draw(t, "syntax")
		case k < 9:
			return rapid.SampledFrom([]rune("0123456789,")).Draw(t, "digit")
		case k < 12:
			return rune(rapid.IntRange(0xa1, 0xff).Draw(t, "latin1"))
		case k == 12 && newlines:
			return rapid.SampledFrom([]rune("\r\n")).Draw(t, "newline")
		default:
			return rune(rapid.IntRange(0x20, 0x7e).Draw(t, "ascii"))
		}
	})
}

var (
	syntaxRune = rapid.SampledFrom(syntaxRunes)
	digitRune  = rapid.SampledFrom([]rune("0123456789,"))
	latinRune  = rapid.Custom(func(t *rapid.T) rune { return rune(rapid.IntRange(0xa1, 0xff).Draw(t, "latin1")) })

	anRune  = runeGen(false)
	txtRune = runeGen(true)
)

// anyText generates caller text of up to max characters.
func anyText(max int) *rapid.Generator[string] {
	return textOf(anRune, 0, max)
}

// nonEmpty generates text of 1 to max characters.
func nonEmpty(max int) *rapid.Generator[string] {
	return textOf(anRune, 1, max)
}

// multiline generates text that may hold line breaks.
func multiline(max int) *rapid.Generator[string] {
	return textOf(txtRune, 0, max)
}

func textOf(r *rapid.Generator[rune], min, max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		var s string
		switch k := rapid.IntRange(0, 15).Draw(t, "mix"); {
		case k == 13 && max > 0: // as long as can be
			s = string(rapid.SliceOfN(r, max, max).Draw(t, "runes"))
		case k > 13 && max > 0: // of one class, and mostly long
			class := rapid.SampledFrom([]*rapid.Generator[rune]{syntaxRune, digitRune, latinRune}).Draw(t, "class")
			s = string(rapid.SliceOfN(class, rapid.SampledFrom([]int{min, max}).Draw(t, "least"), max).Draw(t, "runes"))
		default:
			s = string(rapid.SliceOfN(r, min, max).Draw(t, "runes"))
		}
		if !okText(s) {
			s = "x" + s[1:]
		}
		return s
	})
}

// fewOrMany generates min to max values, and once in a while up to many.
func fewOrMany[T any](t *rapid.T, g *rapid.Generator[T], min, max, many int) []T {
	if rapid.IntRange(0, 99).Draw(t, "many") == 99 {
		min, max = rapid.IntRange(max, many).Draw(t, "least"), many
	}
	return rapid.SliceOfN(g, min, max).Draw(t, "list")
}

// bigSize generates sizes of data around which counters overflow.
func bigSize() *rapid.Generator[int] {
	return rapid.OneOf(rapid.SampledFrom([]int{255, 256, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 131072}), rapid.IntRange(200, 200000))
}

// bigBytes are n bytes, full of syntax characters.
func bigBytes(n int) []byte {
	const unit = "Zeile+mit:allem'?@12@\r\n\x00\xe4\xff?'"
	return []byte(strings.Repeat(unit, n/len(unit)+1)[:n])
}

func binary(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := rapid.IntRange(0, max).Draw(t, "n")
		out := make([]byte, 0, n)
		for i := 0; i < n; i++ {
			if rapid.Bool().Draw(t, "syntax") {
				out = append(out, rapid.SampledFrom([]byte("+:'?@0123456789\r\n\x00")).Draw(t, "b"))
			} else {
				out = append(out, rapid.Byte().Draw(t, "b"))
			}
		}
		return out
	})
}

// cents generates an amount in hundredths, small or large.
func cents(max int64) *rapid.Generator[int64] {
	return rapid.Custom(func(t *rapid.T) int64 {
		switch rapid.IntRange(0, 4).Draw(t, "size") {
		case 0:
			return rapid.Int64Range(0, 99).Draw(t, "c")
		case 1:
			return rapid.Int64Range(0, 99999).Draw(t, "c")
		case 2:
			return 100 * rapid.Int64Range(0, max/100).Draw(t, "c")
		default:
			return rapid.Int64Range(0, max).Draw(t, "c")
		}
	})
}

// amt is the float the library uses for an amount of hundredths.
func amt(cents int64) float64 { return float64(cents) / 100 }

// genDate generates a calendar date.
func genDate(from, to int) *rapid.Generator[time.Time] {
	return rapid.Custom(func(t *rapid.T) time.Time {
		y := rapid.IntRange(from, to).Draw(t, "y")
		if rapid.IntRange(0, 9).Draw(t, "edge") == 0 {
			return rapid.SampledFrom([]time.Time{
				time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC),
				time.Date(y, 12, 31, 0, 0, 0, 0, time.UTC),
				time.Date(y, 3, 0, 0, 0, 0, 0, time.UTC),
			}).Draw(t, "d")
		}
		return time.Date(y, 1, rapid.IntRange(1, 365).Draw(t, "yd"), 0, 0, 0, 0, time.UTC)
	})
}

func genTimeOfDay() *rapid.Generator[int] { return rapid.IntRange(0, 86399) }

func dateWire(d time.Time) []byte {
	y, m, dd := d.Date()
	return []byte(fmt.Sprintf("%04d%02d%02d", y, int(m), dd))
}

func timeWire(sec int) []byte {
	return []byte(fmt.Sprintf("%02d%02d%02d", sec/3600, sec/60%60, sec%60))
}

func sameDate(a, b time.Time) bool {
	y1, m1, d1 := a.Date()
	y2, m2, d2 := b.Date()
	return y1 == y2 && m1 == m2 && d1 == d2
}

func clockOf(t time.Time) int { return t.Hour()*3600 + t.Minute()*60 + t.Second() }

// textLabels classifies text by what makes it hard to carry.
func textLabels(ss ...string) []string {
	set := map[string]bool{}
	for _, s := range ss {
		if strings.ContainsAny(s, "+:'?@") {
			set["syntax-chars"] = true
		}
		if len(s) > 0 && strings.ContainsAny(s[len(s)-1:], "+:'?@") {
			set["ends-in-syntax"] = true
		}
		if strings.HasPrefix(s, "@") {
			set["starts-with-@"] = true
		}
		if strings.Contains(s, "??") || strings.Contains(s, "?'") || strings.Contains(s, "?:") {
			set["looks-escaped"] = true
		}
		for _, r := range s {
			if r > 127 {
				set["latin1"] = true
			}
			if r == '\r' || r == '\n' {
				set["newline"] = true
			}
		}
		if s != "" && strings.Trim(s, "0123456789,") == "" {
			set["numeric-text"] = true
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	return out
}

func bytesEq(what string, got, want []byte) error {
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s: got %q, want %q", what, got, want)
	}
	return nil
}

func eq[T comparable](what string, got, want T) error {
	if got != want {
		return fmt.Errorf("%s: got %#v, want %#v", what, got, want)
	}
	return nil
}

// first returns the first error.
func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func mustIndent(v any) []byte {
	raw, err := json.Marshal(v)
	if err != nil {
		return []byte(fmt.Sprintf("%+v", v))
	}
	return raw
}
