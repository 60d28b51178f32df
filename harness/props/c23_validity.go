package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

type validCase struct {
	Kind  string
	Text  string   `json:",omitempty"`
	N     int      `json:",omitempty"`
	Max   int      `json:",omitempty"`
	Set   []string `json:",omitempty"`
	Data  pbt.B    `json:",omitempty"`
	Ints  []int    `json:",omitempty"`
	Day   int      `json:",omitempty"`
	Cents int64    `json:",omitempty"`
}

// tooLong tells whether a text exceeds max by every way of counting, and
// fits whether it does not by any: escapes may or may not count.
func tooLong(s string, max int) bool { return utf8.RuneCountInString(s) > max }
func fits(s string, max int) bool    { return utf8.RuneCountInString(txtEscaped(s)) <= max }

func txtEscaped(s string) string {
	return strings.NewReplacer("?", "??", "+", "?+", ":", "?:", "'", "?'", "@", "?@").Replace(s)
}

func init() {
	pbt.Add(pbt.Spec[validCase]{
		Prop: "C23", Name: "elements", Quick: 1200000, Thorough: 24000000,
		Rule: "one element of each kind with any value and any maximum length: valid exactly if the value meets the rules of its kind, whether or not escapes count as characters; asking does not change the value or the caller's data; non-trivial: decided (not in the zone where ways of counting differ)",
		Gen: func(t *rapid.T) validCase {
			c := validCase{Kind: rapid.SampledFrom([]string{"an", "txt", "id", "code", "code", "cur", "num", "dig", "bin", "jn", "dat", "tim", "val", "float", "group", "params", "smv", "versions", "languages"}).Draw(t, "kind"), Max: rapid.IntRange(1, 40).Draw(t, "max")}
			text := rapid.OneOf(rapid.StringMatching(`[A-Za-z0-9 .,-]{0,45}`), anyText(45), textOf(runeGen(true), 0, 45))
			switch c.Kind {
			case "an", "txt", "id":
				c.Text = text.Draw(t, "text")
				if rapid.IntRange(0, 2).Draw(t, "edge") == 0 {
					// at the edge
					max := c.Max
					if c.Kind == "id" {
						max = 30
					}
					c.Text = strings.Repeat("x", max+rapid.IntRange(-1, 1).Draw(t, "off"))
				}
			case "code":
				c.Set = rapid.SliceOfN(rapid.StringMatching(`[A-Z0-9]{1,3}`), 0, 6).Draw(t, "set")
				if len(c.Set) > 0 && rapid.IntRange(0, 2).Draw(t, "member") > 0 {
					c.Text = rapid.SampledFrom(c.Set).Draw(t, "text")
				} else {
					c.Text = rapid.StringMatching(`[A-Z0-9]{0,3}`).Draw(t, "text")
				}
			case "cur":
				c.Text = rapid.OneOf(rapid.StringMatching(`[A-Z ]{0,5}`), rapid.StringMatching(`[A-Z]{3}`)).Draw(t, "text")
			case "val", "float":
				c.Cents = cents(99999999999999).Draw(t, "cents")
				c.Max = rapid.IntRange(1, 20).Draw(t, "max")
			case "group":
				c.Text, c.Set = text.Draw(t, "text"), []string{text.Draw(t, "text2")}
				c.N = rapid.IntRange(0, 99999).Draw(t, "n")
			case "params":
				c.N, c.Max = rapid.IntRange(0, 4).Draw(t, "min"), rapid.IntRange(0, 12).Draw(t, "most")
				c.Set = rapid.SliceOfN(rapid.OneOf(anyText(20), anyText(20), anyText(20), anyText(45)), 0, 13).Draw(t, "params")
			case "smv", "versions", "languages":
				c.N, c.Max = rapid.IntRange(0, 4).Draw(t, "min"), rapid.IntRange(0, 12).Draw(t, "most")
				c.Ints = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 999), rapid.IntRange(0, 999), rapid.IntRange(0, 999), rapid.IntRange(0, 1200)), 0, 12).Draw(t, "ints")
			case "num", "dig":
				c.N = rapid.OneOf(rapid.IntRange(0, 99999), rapid.IntRange(0, 999999999999)).Draw(t, "n")
				c.Max = rapid.IntRange(1, 13).Draw(t, "max")
			case "bin":
				c.Data = rapid.SliceOfN(rapid.Byte(), 0, 45).Draw(t, "data")
			case "dat", "tim":
				if rapid.IntRange(0, 4).Draw(t, "zero") > 0 {
					c.Day = genDay(t, "day")
				}
			}
			return c
		},
		Classify: func(c validCase) []string {
			if v := c.valid(); v != 0 {
				return []string{fmt.Sprintf("%s-%v", c.Kind, v > 0)}
			}
			return nil
		},
		Check: func(c validCase) error {
			set := append([]string{}, c.Set...)
			e := c.element(set)
			want := c.valid()
			before, errBefore := e.MarshalHBCI()
			for round := 0; round < 2; round++ {
				got := e.IsValid()
				if want != 0 && got != (want > 0) {
					return fmt.Errorf("%s with %s: valid is %v", c.Kind, dump(c), got)
				}
			}
			after, errAfter := e.MarshalHBCI()
			if !reflect.DeepEqual(set, append([]string{}, c.Set...)) {
				return fmt.Errorf("the caller's set %q became %q", c.Set, set)
			}
			return first(bytesEq("marshalled after asking", after, before), eq("error", errAfter == nil, errBefore == nil))
		},
	})
}

func (c validCase) date() time.Time {
	if c.Day == 0 {
		return time.Time{}
	}
	return dayOf(c.Day).Add(time.Hour)
}

func (c validCase) account(set []string) domain.AccountConnection {
	return domain.AccountConnection{AccountID: c.Text, SubAccountCharacteristics: set[0], CountryCode: c.N, BankID: "10020030"}
}

func (c validCase) element(set []string) element.DataElement {
	switch c.Kind {
	case "an":
		return element.NewAlphaNumeric(c.Text, c.Max)
	case "txt":
		return element.NewText(c.Text, c.Max)
	case "id":
		return element.NewIdentification(c.Text)
	case "code":
		return element.NewCode(c.Text, c.Max, set)
	case "cur":
		return element.NewCurrency(c.Text)
	case "num":
		return element.NewNumber(c.N, c.Max)
	case "dig":
		return element.NewDigit(c.N, c.Max)
	case "bin":
		return element.NewBinary(c.Data, c.Max)
	case "val":
		return element.NewValue(amt(c.Cents))
	case "float":
		return element.NewFloat(amt(c.Cents), c.Max)
	case "group":
		return element.NewAccountConnection(c.account(set))
	case "params":
		return element.NewParams(c.N, c.Max, set...)
	case "smv":
		return element.NewSecurityMethodVersions(c.N, c.Max, c.Ints...)
	case "versions":
		return element.NewSupportedHBCIVersions(c.Ints...)
	case "languages":
		return element.NewSupportedLanguages(c.Ints...)
	case "jn":
		return element.NewBoolean(c.N > 0)
	case "dat":
		return element.NewDate(c.date())
	case "tim":
		return element.NewTime(c.date())
	}
	panic("harness: kind " + c.Kind)
}

// valid is 1 for a value that is valid, -1 for one that is not and 0 for one
// whose validity depends on how its length is counted.
func (c validCase) valid() int {
	verdict := func(yes, no bool) int {
		if yes {
			return 1
		}
		if no {
			return -1
		}
		return 0
	}
	switch c.Kind {
	case "an", "id":
		max := c.Max
		if c.Kind == "id" {
			max = 30
		}
		if strings.ContainsAny(c.Text, "\r\n") {
			return -1
		}
		return verdict(fits(c.Text, max), tooLong(c.Text, max))
	case "txt":
		return verdict(fits(c.Text, c.Max), tooLong(c.Text, c.Max))
	case "code":
		for _, s := range c.Set {
			if s == c.Text {
				return verdict(len(s) <= c.Max, len(s) > c.Max)
			}
		}
		return -1
	case "cur":
		return verdict(len(c.Text) == 3, len(c.Text) != 3)
	case "num", "dig":
		return verdict(len(strconv.Itoa(c.N)) <= c.Max, len(strconv.Itoa(c.N)) > c.Max)
	case "bin":
		return verdict(len(c.Data) <= c.Max, len(c.Data) > c.Max)
	case "val", "float":
		max := c.Max
		if c.Kind == "val" {
			max = 15
		}
		// the comma may or may not count
		n := len(ref.Amount(c.Cents))
		return verdict(n <= max, n-1 > max)
	case "group":
		parts := []validCase{{Kind: "id", Text: c.Text}, {Kind: "id", Text: c.Set[0]}, {Kind: "dig", N: c.N, Max: 3}}
		all := 1
		for _, p := range parts {
			all = min(all, p.valid())
		}
		return all
	case "params", "smv", "versions", "languages":
		n, fewest, most := len(c.Ints), c.N, c.Max
		if c.Kind == "params" {
			n = len(c.Set)
		} else if c.Kind != "smv" {
			fewest, most = 1, 9
		}
		all := verdict(n >= fewest && n <= most, n < fewest || n > most)
		for _, p := range c.Set {
			all = min(all, validCase{Kind: "an", Text: p, Max: 35}.valid())
		}
		for _, i := range c.Ints {
			all = min(all, validCase{Kind: "num", N: i, Max: 3}.valid())
		}
		return all
	case "jn":
		return 1
	case "dat":
		return verdict(c.Day != 0, c.Day == 0)
	case "tim":
		return verdict(c.Day != 0, c.Day == 0)
	}
	return 0
}
