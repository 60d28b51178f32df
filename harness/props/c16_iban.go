package props

import (
	"fmt"
	"strings"

	"github.com/mitch000001/go-hbci/iban"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

// ibanLen is the length of the IBANs of a country (ISO 13616 registry).
var ibanLen = map[string]int{"AD": 24, "AE": 23, "AL": 28, "AT": 20, "AZ": 28, "BA": 20, "BE": 16, "BG": 22, "BH": 22, "BR": 29, "BY": 28, "CH": 21, "CR": 22, "CY": 28, "CZ": 24, "DE": 22, "DK": 18, "DO": 28,
	"EE": 20, "ES": 24, "FI": 18, "FO": 18, "FR": 27, "GB": 22, "GE": 22, "GI": 23, "GL": 18, "GR": 27, "GT": 28, "HR": 21, "HU": 28, "IE": 22, "IL": 23, "IQ": 23, "IS": 26, "IT": 27, "JO": 30, "KW": 30, "KZ": 20,
	"LB": 28, "LC": 32, "LI": 21, "LT": 20, "LU": 20, "LV": 21, "MC": 27, "MD": 24, "ME": 22, "MK": 19, "MR": 27, "MT": 31, "MU": 30, "NL": 18, "NO": 15, "PK": 24, "PL": 28, "PS": 29, "PT": 25, "QA": 29,
	"RO": 24, "RS": 22, "SA": 24, "SC": 31, "SE": 24, "SI": 19, "SK": 24, "SM": 27, "ST": 25, "SV": 28, "TL": 23, "TN": 24, "TR": 26, "UA": 29, "VG": 24, "XK": 20}

var ibanCountries = func() []string {
	var out []string
	for a := 'A'; a <= 'Z'; a++ {
		for b := 'A'; b <= 'Z'; b++ {
			if s := string(a) + string(b); ibanLen[s] != 0 {
				out = append(out, s)
			}
		}
	}
	return out
}()

// mod97 is the remainder of an IBAN, computed digit by digit.
func mod97(s string) int {
	r := 0
	for _, c := range s[4:] + s[:4] {
		switch {
		case '0' <= c && c <= '9':
			r = (r*10 + int(c-'0')) % 97
		default:
			r = (r*100 + int(c-'A') + 10) % 97
		}
	}
	return r
}

type (
	ibanCase struct {
		Country, BBAN string
		Lower         uint64 // letters to write in lower case
		At            int    // where to damage it
		By            int
	}
	germanCase struct{ Bank, Account string }
	ibanText   struct{ Text string }
)

func lowerSome(s string, mask uint64) string {
	b := []byte(s)
	for i := range b {
		if mask>>(i%64)&1 == 1 {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

func init() {
	alnum := rapid.RuneFrom([]rune("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"))
	digits := rapid.RuneFrom([]rune("0123456789"))
	genIBAN := func(t *rapid.T) ibanCase {
		c := ibanCase{Country: rapid.SampledFrom(append([]string{"US", "ZZ", "DE", "DE"}, ibanCountries...)).Draw(t, "country")}
		max := ibanLen[c.Country]
		if max == 0 {
			max = 34
		}
		n := max - 4
		if rapid.IntRange(0, 2).Draw(t, "short") == 0 {
			n = rapid.IntRange(1, max-4).Draw(t, "length")
		}
		r := alnum
		if rapid.Bool().Draw(t, "digits") {
			r = digits
		}
		c.BBAN = rapid.StringOfN(r, n, n, -1).Draw(t, "bban")
		c.Lower = rapid.OneOf(rapid.Just(uint64(0)), rapid.Uint64()).Draw(t, "lower")
		c.At, c.By = rapid.IntRange(0, 33).Draw(t, "at"), rapid.IntRange(1, 25).Draw(t, "by")
		return c
	}
	classify := func(c ibanCase) []string {
		l := []string{"iban"}
		if c.Lower != 0 {
			l = append(l, "lower-case")
		}
		if ibanLen[c.Country] == 0 {
			l = append(l, "unlisted-country")
		}
		if strings.ContainsAny(c.BBAN, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") {
			l = append(l, "letters")
		}
		return l
	}
	pbt.Add(pbt.Spec[ibanCase]{
		Prop: "C16", Name: "laws", Quick: 300000, Thorough: 5000000,
		Rule: "any country and BBAN of letters and digits in any case, up to the length of the country: the IBAN holds them with the check digits of ISO 13616 (computed digit by digit), is valid, is found again from its text in any case, and is printed in groups of four; a BBAN that is too long is refused; non-trivial: all",
		Gen:  genIBAN, Classify: classify,
		Check: func(c ibanCase) error {
			country, bban := lowerSome(c.Country, c.Lower>>40), lowerSome(c.BBAN, c.Lower)
			got, err := iban.New(country, bban)
			if err != nil {
				return fmt.Errorf("New(%q, %q): %v", country, bban, err)
			}
			s := string(got)
			if len(s) != len(c.BBAN)+4 || s[:2] != c.Country || s[4:] != c.BBAN {
				return fmt.Errorf("New(%q, %q) = %q", country, bban, s)
			}
			if d := s[2:4]; d < "02" || d > "98" || mod97(s) != 1 {
				return fmt.Errorf("check digits of %q", s)
			}
			if err := first(eq("valid", got.Valid(), true), eq("IsValid", iban.IsValid(s), true), eq("IsValid, other case", iban.IsValid(lowerSome(s, c.Lower)), true), eq("Valid, other case", iban.IBAN(lowerSome(s, c.Lower)).Valid(), true),
				eq("country", got.CountryCode(), c.Country), eq("BBAN", got.BBAN(), c.BBAN), eq("check digits", got.ProofNumber(), s[2:4]), eq("String", got.String(), s)); err != nil {
				return err
			}
			again, err := iban.From(lowerSome(s, c.Lower))
			if err != nil {
				return fmt.Errorf("From(%q): %v", s, err)
			}
			if err := eq("From", again, got); err != nil {
				return err
			}
			var groups []string
			for i := 0; i < len(s); i += 4 {
				groups = append(groups, s[i:min(i+4, len(s))])
			}
			if err := eq("Print", iban.Print(got), strings.Join(groups, " ")); err != nil {
				return err
			}
			max := ibanLen[c.Country]
			if max == 0 {
				max = 34
			}
			long := c.BBAN + strings.Repeat("0", max-4-len(c.BBAN)+1)
			if x, err := iban.New(c.Country, long); err == nil {
				return fmt.Errorf("New(%q, %q), longer than an IBAN of that country, is %q", c.Country, long, x)
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[ibanCase]{
		Prop: "C16", Name: "damage", Quick: 300000, Thorough: 5000000,
		Rule: "an IBAN with one character replaced by another of its kind, or two neighbours exchanged, is not valid; non-trivial: all",
		Gen:  genIBAN, Classify: classify,
		Check: func(c ibanCase) error {
			got, err := iban.New(c.Country, c.BBAN)
			if err != nil {
				return err
			}
			b := []byte(got)
			i := c.At % len(b)
			if b[i] <= '9' {
				b[i] = '0' + (b[i]-'0'+byte(1+c.By%9))%10
			} else {
				b[i] = 'A' + (b[i]-'A'+byte(c.By))%26
			}
			if iban.IsValid(string(b)) || iban.IBAN(b).Valid() {
				return fmt.Errorf("%q is valid, and so is %q", got, b)
			}
			if x, err := iban.From(string(b)); err == nil {
				return fmt.Errorf("From(%q) = %q", b, x)
			}
			b = []byte(got)
			if i+1 < len(b) && b[i] != b[i+1] && (b[i] <= '9') == (b[i+1] <= '9') && i != 3 {
				b[i], b[i+1] = b[i+1], b[i]
				if iban.IsValid(string(b)) {
					return fmt.Errorf("%q is valid, and so is %q", got, b)
				}
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[germanCase]{
		Prop: "C16", Name: "german", Quick: 300000, Thorough: 5000000,
		Rule: "any German bank id of 8 and account id of 1-10 digits: the IBAN has 22 characters, holds the bank id and the account id filled up with zeros, and gives both back; other texts as account id are refused; non-trivial: all (labelled by the length of the account id)",
		Gen: func(t *rapid.T) germanCase {
			return germanCase{rapid.StringOfN(digits, 8, 8, -1).Draw(t, "bank"), rapid.OneOf(rapid.StringOfN(digits, 1, 10, -1), rapid.StringOfN(digits, 8, 10, -1), rapid.StringOfN(digits, 11, 14, -1), anyText(12), rapid.StringMatching(`[-+ .,]\d{1,9}`)).Draw(t, "account")}
		},
		Classify: func(c germanCase) []string { return []string{fmt.Sprint("account-", len(c.Account))} },
		Check: func(c germanCase) error {
			got, err := iban.NewGerman(c.Bank, c.Account)
			ok := len(c.Account) >= 1 && len(c.Account) <= 10 && strings.Trim(c.Account, "0123456789") == ""
			if !ok {
				if err == nil {
					return fmt.Errorf("account id %q: %q", c.Account, got)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("account id %q: %v", c.Account, err)
			}
			want := c.Bank + strings.Repeat("0", 10-len(c.Account)) + c.Account
			if s := string(got); len(s) != 22 || s[:2] != "DE" || s[4:] != want || mod97(s) != 1 {
				return fmt.Errorf("account id %q: %q", c.Account, s)
			}
			return first(eq("bank", got.BankID(), c.Bank), eq("account", got.AccountID(), strings.TrimLeft(c.Account, "0")), eq("valid", got.Valid(), true))
		},
	})
	pbt.Add(pbt.Spec[ibanText]{
		Prop: "C16", Name: "text", Quick: 300000, Thorough: 5000000,
		Rule: "any text, as an IBAN or as a BBAN: it is an IBAN exactly if it has a country, check digits and a BBAN of letters and digits and the right remainder, and no text causes a panic; non-trivial: all (labelled when it is an IBAN)",
		Gen: func(t *rapid.T) ibanText {
			return ibanText{rapid.OneOf(anyText(40), rapid.StringOfN(alnum, 0, 6, -1), rapid.StringMatching(`[A-Z0-9]{2}[0-9]{2}[-+ _.,A-Za-z0-9ıſé]{0,30}`), rapid.Custom(func(t *rapid.T) string {
				c := genIBAN(t)
				s, _ := iban.New(c.Country, c.BBAN)
				b := []byte(s)
				if len(b) > 0 && rapid.Bool().Draw(t, "damaged") {
					i := c.At % len(b)
					b = append(append(b[:i:i], rapid.SampledFrom([]string{"", " ", "-", "+", "0", "_"}).Draw(t, "with")...), b[min(len(b), i+rapid.IntRange(0, 1).Draw(t, "skip")):]...)
				}
				return string(b)
			})).Draw(t, "text")}
		},
		Classify: func(c ibanText) []string { return []string{"text"} },
		Check: func(c ibanText) error {
			up := strings.ToUpper(c.Text)
			ok := len(c.Text) >= 5 && strings.Trim(strings.ToLower(c.Text), "0123456789abcdefghijklmnopqrstuvwxyz") == ""
			for _, r := range c.Text {
				ok = ok && r < 128
			}
			if ok {
				max := ibanLen[up[:2]]
				if max == 0 {
					max = 34
				}
				ok = strings.Trim(up[:2], "ABCDEFGHIJKLMNOPQRSTUVWXYZ") == "" && strings.Trim(up[2:4], "0123456789") == "" && len(up) <= max && "02" <= up[2:4] && up[2:4] <= "98" && mod97(up) == 1
			}
			if err := eq(fmt.Sprintf("IsValid(%q)", c.Text), iban.IsValid(c.Text), ok); err != nil {
				return err
			}
			if ok {
				pbt.Note("an-iban")
			}
			_ = iban.IBAN(c.Text).Valid()
			_ = iban.Print(iban.IBAN(c.Text))
			if len(c.Text) >= 2 {
				if x, err := iban.New("DE", c.Text); err == nil && strings.Trim(up, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") != "" {
					return fmt.Errorf("New(DE, %q) = %q", c.Text, x)
				}
				_, _ = iban.New(c.Text[:2], "1")
			}
			return nil
		},
	})
}
