package props

import (
	"fmt"
	"strings"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// damagedGroup is a composite with one member that is not what it has to be.
type damagedGroup struct {
	Kind    string
	Members []pbt.B
	At      int
	Bad     pbt.B
}

// groupLayouts says what the members of composites are: x text, n number, d
// date, t time, w value, b binary, j yes or no.
var groupLayouts = []struct {
	name, members string
	dec           func() de
}{
	{"amount", "wx", func() de { return &element.AmountDataElement{} }},
	{"bank", "nx", func() de { return &element.BankIdentificationDataElement{} }},
	{"account", "xxnx", func() de { return &element.AccountConnectionDataElement{} }},
	{"international-account", "xxxxnx", func() de { return &element.InternationalAccountConnectionDataElement{} }},
	{"balance", "xwxdt", func() de { return &element.BalanceDataElement{} }},
	{"message-reference", "xn", func() de { return &element.ReferencingMessageDataElement{} }},
	{"security-date", "xdt", func() de { return &element.SecurityDateDataElement{} }},
	{"security-profile", "xn", func() de { return &element.SecurityProfileDataElement{} }},
	{"certificate", "nb", func() de { return &element.CertificateDataElement{} }},
	{"key-name", "nxxxnn", func() de { return &element.KeyNameDataElement{} }},
	{"segment-header", "xnnn", func() de { return &element.SegmentHeader{} }},
	{"account-limit", "xwxn", func() de { return &element.AccountLimitDataElement{} }},
	{"allowed-transaction", "xnxwxn", func() de { return &element.AllowedBusinessTransactionDataElement{} }},
	{"communication-parameter", "nxxxn", func() de { return &element.CommunicationParameterDataElement{} }},
	{"acknowledgement", "nxx", func() de { return &element.AcknowledgementDataElement{} }},
	{"hash-algorithm", "xxxb", func() de { return &element.HashAlgorithmDataElement{} }},
	{"encryption-algorithm", "xxxbxxb", func() de { return &element.EncryptionAlgorithmDataElement{} }},
	{"security-identification", "xbx", func() de { return &element.SecurityIdentificationDataElement{} }},
	{"tan-expiry", "dt", func() de { return &element.TanChallengeExpiryDate{} }},
	{"pintan-transaction", "xj", func() de { return &element.PinTanBusinessTransactionParameter{} }},
}

var badMembers = map[byte][]string{
	'n': {"x", "1x", "1,0", "--1", "0x1", " ", "1 "},
	'd': {"20241301", "2024010", "20240230", "abc", "00000000", "2024-1-1"},
	't': {"256060", "240000", "1234", "x", "12.00", "1234567"},
	'w': {"1,0,0", "x", "--1,", "1,x", ","},
	'b': {"x", "@99@abc", "abc", "@x@abc", "@3abc", "@-1@a"},
	'j': {"X", "JJ", "j", "1"},
}

func init() {
	pbt.Add(pbt.Spec[damagedGroup]{
		Prop: "C02", Name: "damaged", Quick: 60000, Thorough: 4000000,
		Rule: fmt.Sprintf("one of %d kinds of composite elements in which one number, date, time, amount, flag or binary member is none: an error, never a value; the same bytes with a proper member are read; non-trivial: all", len(groupLayouts)),
		Gen: func(t *rapid.T) damagedGroup {
			l := groupLayouts[rapid.IntRange(0, len(groupLayouts)-1).Draw(t, "kind")]
			c := damagedGroup{Kind: l.name}
			var typed []int
			for i := range l.members {
				var w []byte
				switch l.members[i] {
				case 'x':
					w = txt(nonEmpty(8).Draw(t, "text"))
				case 'n':
					w = ref.Num(rapid.IntRange(0, 999).Draw(t, "number"))
				case 'd':
					w = dateWire(dayOf(genDay(t, "day")))
				case 't':
					w = timeWire(genTimeOfDay().Draw(t, "time"))
				case 'w':
					w = ref.Amount(cents(1e9).Draw(t, "cents"))
				case 'b':
					w = ref.Bin(binary(12).Draw(t, "data"))
				case 'j':
					w = []byte(rapid.SampledFrom([]string{"J", "N"}).Draw(t, "flag"))
				}
				if l.members[i] != 'x' {
					typed = append(typed, i)
				}
				c.Members = append(c.Members, w)
			}
			c.At = rapid.SampledFrom(typed).Draw(t, "member")
			c.Bad = []byte(rapid.SampledFrom(badMembers[l.members[c.At]]).Draw(t, "bad"))
			return c
		},
		Classify: func(c damagedGroup) []string { return []string{c.Kind, "bad-" + strings.TrimSpace(string(c.Bad))} },
		Check: func(c damagedGroup) error {
			for _, l := range groupLayouts {
				if l.name != c.Kind {
					continue
				}
				var els [][]byte
				for _, m := range c.Members {
					els = append(els, m)
				}
				if err := l.dec().UnmarshalHBCI(ref.Group(els...)); err != nil {
					return fmt.Errorf("%q: %w", ref.Group(els...), err)
				}
				els[c.At] = c.Bad
				d := l.dec()
				if err := d.UnmarshalHBCI(ref.Group(els...)); err == nil {
					return fmt.Errorf("no error for %q (member %d), but %s", ref.Group(els...), c.At, d)
				}
			}
			return nil
		},
	})
}
