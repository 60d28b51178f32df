package props

import (
	"fmt"
	"reflect"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// groupCase holds the values of one composite element; which ones matter
// depends on Kind.
type groupCase struct {
	Kind  string
	T     []string `json:",omitempty"`
	List  []string `json:",omitempty"`
	N     []int    `json:",omitempty"`
	Cents int64    `json:",omitempty"`
	Neg   bool     `json:",omitempty"`
	Day   int      `json:",omitempty"` // yyyymmdd
	Sec   int      `json:",omitempty"`
	Flag  []bool   `json:",omitempty"`
	Data  pbt.B    `json:",omitempty"`
}

func (c groupCase) date() time.Time {
	return time.Date(c.Day/10000, time.Month(c.Day/100%100), c.Day%100, c.Sec/3600, c.Sec/60%60, c.Sec%60, 0, time.UTC)
}

func dayInt(d time.Time) int { return d.Year()*10000 + int(d.Month())*100 + d.Day() }

func genDay(t *rapid.T, label string) int { return dayInt(genDate(1990, 2050).Draw(t, label)) }

func genCurrency() *rapid.Generator[string] {
	return rapid.SampledFrom([]string{"EUR", "USD", "CHF", "JPY", "XXX"})
}

// upperID generates segment-like identifiers.
func upperID(min, max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(min, max).Draw(t, "n")
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(rapid.IntRange('A', 'Z').Draw(t, "c"))
		}
		return string(b)
	})
}

type groupKind struct {
	name string
	gen  func(t *rapid.T, c *groupCase)
	// check compares against the wire form.
	check func(c groupCase) error
}

func txt(s string) []byte { return ref.Text(s) }

func bankWire(country int, id string) [][]byte {
	return [][]byte{ref.Digits(country, 3), txt(id)}
}

// valued is carried plus a deep comparison of the decoded value.
func valued(enc, dec de, wire []byte, got func() any, want any) error {
	if err := carried(enc, dec, wire); err != nil {
		return err
	}
	if g := got(); !reflect.DeepEqual(g, want) {
		return fmt.Errorf("decoded value of %q: got %#v, want %#v", wire, g, want)
	}
	return nil
}

func draws(t *rapid.T, gs ...*rapid.Generator[string]) []string {
	out := make([]string, len(gs))
	for i, g := range gs {
		out[i] = g.Draw(t, fmt.Sprintf("t%d", i))
	}
	return out
}

func drawInts(t *rapid.T, max ...int) []int {
	out := make([]int, len(max))
	for i, m := range max {
		out[i] = rapid.IntRange(0, m).Draw(t, fmt.Sprintf("n%d", i))
	}
	return out
}

func normParams(p []string) []string {
	if len(p) == 0 {
		return nil
	}
	return p
}

var groupKinds = []groupKind{
	{"amount", func(t *rapid.T, c *groupCase) {
		c.Cents = cents(1e12).Draw(t, "c")
		c.T = draws(t, genCurrency())
	}, func(c groupCase) error {
		d := &element.AmountDataElement{}
		return valued(element.NewAmount(amt(c.Cents), c.T[0]), d, ref.Group(ref.Amount(c.Cents), txt(c.T[0])),
			func() any { return d.Val() }, domain.Amount{Amount: amt(c.Cents), Currency: c.T[0]})
	}},
	{"bank", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 999)
		c.T = draws(t, nonEmpty(12))
	}, func(c groupCase) error {
		d := &element.BankIdentificationDataElement{}
		v := domain.BankID{CountryCode: c.N[0], ID: c.T[0]}
		return valued(element.NewBankIdentification(v), d, ref.Group(bankWire(c.N[0], c.T[0])...), func() any { return d.Val() }, v)
	}},
	{"account", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 999)
		c.T = draws(t, anyText(12), anyText(6), nonEmpty(12))
	}, func(c groupCase) error {
		d := &element.AccountConnectionDataElement{}
		v := domain.AccountConnection{AccountID: c.T[0], SubAccountCharacteristics: c.T[1], CountryCode: c.N[0], BankID: c.T[2]}
		return valued(element.NewAccountConnection(v), d, ref.Group(txt(c.T[0]), txt(c.T[1]), ref.Digits(c.N[0], 3), txt(c.T[2])), func() any { return d.Val() }, v)
	}},
	{"international-account", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 999)
		c.T = draws(t, anyText(20), anyText(11), anyText(12), anyText(6), nonEmpty(12))
	}, func(c groupCase) error {
		d := &element.InternationalAccountConnectionDataElement{}
		v := domain.InternationalAccountConnection{IBAN: c.T[0], BIC: c.T[1], AccountID: c.T[2], SubAccountCharacteristics: c.T[3], BankID: domain.BankID{CountryCode: c.N[0], ID: c.T[4]}}
		return valued(element.NewInternationalAccountConnection(v), d, ref.Group(txt(c.T[0]), txt(c.T[1]), txt(c.T[2]), txt(c.T[3]), ref.Digits(c.N[0], 3), txt(c.T[4])), func() any { return d.Val() }, v)
	}},
	{"balance", func(t *rapid.T, c *groupCase) {
		c.Cents = cents(1e12).Draw(t, "c")
		c.Neg = rapid.Bool().Draw(t, "neg")
		c.T = draws(t, genCurrency())
		c.Day = genDay(t, "day")
		c.Sec = genTimeOfDay().Draw(t, "sec")
		c.Flag = []bool{rapid.Bool().Draw(t, "withTime")}
	}, func(c groupCase) error {
		d := &element.BalanceDataElement{}
		sign, val := "C", amt(c.Cents)
		if c.Neg && c.Cents != 0 {
			sign, val = "D", -amt(c.Cents)
		}
		els := [][]byte{[]byte(sign), ref.Amount(c.Cents), txt(c.T[0]), dateWire(c.date())}
		if c.Flag[0] {
			els = append(els, timeWire(c.Sec))
		}
		if err := carried(element.NewBalance(domain.Amount{Amount: val, Currency: c.T[0]}, c.date(), c.Flag[0]), d, ref.Group(els...)); err != nil {
			return err
		}
		b := d.Balance()
		if err := first(eq("amount", b.Amount.Amount, val), eq("currency", b.Amount.Currency, c.T[0]), eq("date", dayInt(b.TransmissionDate), c.Day), eq("Date()", dayInt(d.Date()), c.Day), eq("has time", b.TransmissionTime != nil, c.Flag[0])); err != nil {
			return err
		}
		if c.Flag[0] {
			return eq("time", clockOf(*b.TransmissionTime), c.Sec)
		}
		return nil
	}},
	{"address", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 999)
		for i := 0; i < 8; i++ {
			c.T = append(c.T, anyText(10).Draw(t, "t"))
		}
	}, func(c groupCase) error {
		v := domain.Address{Name1: c.T[0], Name2: c.T[1], Street: c.T[2], PLZ: c.T[3], City: c.T[4], CountryCode: c.N[0], Phone: c.T[5], Fax: c.T[6], Email: c.T[7]}
		e := element.NewAddress(v)
		got, err := e.MarshalHBCI()
		if err != nil {
			return err
		}
		return first(bytesEq("marshal", got, ref.Group(txt(c.T[0]), txt(c.T[1]), txt(c.T[2]), txt(c.T[3]), txt(c.T[4]), ref.Digits(c.N[0], 3), txt(c.T[5]), txt(c.T[6]), txt(c.T[7]))), eq("value", e.Address(), v))
	}},
	{"acknowledgement", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 9999)
		c.T = draws(t, anyText(7), nonEmpty(30))
		for i, n := 0, rapid.IntRange(0, 10).Draw(t, "params"); i < n; i++ {
			if i == n-1 {
				c.List = append(c.List, nonEmpty(12).Draw(t, "p"))
			} else {
				c.List = append(c.List, anyText(12).Draw(t, "p"))
			}
		}
	}, func(c groupCase) error {
		d := &element.AcknowledgementDataElement{}
		els := [][]byte{ref.Digits(c.N[0], 4), txt(c.T[0]), txt(c.T[1])}
		for _, p := range c.List {
			els = append(els, txt(p))
		}
		v := domain.Acknowledgement{Code: c.N[0], ReferenceDataElement: c.T[0], Text: c.T[1], Params: normParams(c.List)}
		return valued(element.NewAcknowledgement(v), d, ref.Group(els...), func() any { got := d.Val(); got.Params = normParams(got.Params); return got }, v)
	}},
	{"params", func(t *rapid.T, c *groupCase) {
		for i, n := 0, rapid.IntRange(1, 10).Draw(t, "params"); i < n; i++ {
			if i == n-1 {
				c.List = append(c.List, nonEmpty(12).Draw(t, "p"))
			} else {
				c.List = append(c.List, anyText(12).Draw(t, "p"))
			}
		}
	}, func(c groupCase) error {
		d := &element.ParamsDataElement{}
		var els [][]byte
		for _, p := range c.List {
			els = append(els, txt(p))
		}
		return valued(element.NewParams(10, 10, c.List...), d, ref.Group(els...), func() any { return d.Val() }, c.List)
	}},
	{"message-reference", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 9999)
		c.T = draws(t, nonEmpty(20))
	}, func(c groupCase) error {
		d := &element.ReferencingMessageDataElement{}
		return valued(element.NewReferencingMessage(c.T[0], c.N[0]), d, ref.Group(txt(c.T[0]), ref.Num(c.N[0])), func() any { return d.Val() }, domain.MessageReference{DialogID: c.T[0], MessageNumber: c.N[0]})
	}},
	{"segment-header", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 999, 999, 999)
		c.T = draws(t, upperID(1, 6))
		c.Flag = []bool{rapid.Bool().Draw(t, "ref")}
	}, func(c groupCase) error {
		d := &element.SegmentHeader{}
		enc, r := element.NewSegmentHeader(c.T[0], c.N[0], c.N[1]), -1
		if c.Flag[0] {
			enc, r = element.NewReferencingSegmentHeader(c.T[0], c.N[0], c.N[1], c.N[2]), c.N[2]
		}
		if err := carried(enc, d, ref.Header(c.T[0], c.N[0], c.N[1], r)); err != nil {
			return err
		}
		return first(eq("id", d.ID.Val(), c.T[0]), eq("position", d.Position.Val(), c.N[0]), eq("version", d.Version.Val(), c.N[1]), eq("reference", d.ReferencingSegment(), r))
	}},
	{"security-method", func(t *rapid.T, c *groupCase) {
		c.T = draws(t, nonEmpty(3))
		c.N = rapid.SliceOfN(rapid.IntRange(0, 999), 1, 9).Draw(t, "versions")
	}, func(c groupCase) error {
		d := &element.SupportedSecurityMethodDataElement{}
		els := [][]byte{txt(c.T[0])}
		for _, n := range c.N {
			els = append(els, ref.Num(n))
		}
		if err := carried(element.NewSupportedSecurityMethod(c.T[0], c.N...), d, ref.Group(els...)); err != nil {
			return err
		}
		var got []int
		for _, v := range d.Versions.Versions() {
			got = append(got, v.Val())
		}
		if !reflect.DeepEqual(got, c.N) {
			return fmt.Errorf("versions %v, want %v", got, c.N)
		}
		return eq("method", d.MethodCode.Val(), c.T[0])
	}},
	{"hbci-versions", func(t *rapid.T, c *groupCase) {
		c.N = rapid.SliceOfN(rapid.SampledFrom([]int{201, 210, 220, 300}), 1, 9).Draw(t, "versions")
	}, func(c groupCase) error {
		var els [][]byte
		for _, n := range c.N {
			els = append(els, ref.Num(n))
		}
		return carried(element.NewSupportedHBCIVersions(c.N...), &element.SupportedHBCIVersionsDataElement{}, ref.Group(els...))
	}},
	{"languages", func(t *rapid.T, c *groupCase) {
		c.N = rapid.SliceOfN(rapid.IntRange(1, 3), 1, 9).Draw(t, "languages")
	}, func(c groupCase) error {
		d := &element.SupportedLanguagesDataElement{}
		var els [][]byte
		for _, n := range c.N {
			els = append(els, ref.Num(n))
		}
		if err := carried(element.NewSupportedLanguages(c.N...), d, ref.Group(els...)); err != nil {
			return err
		}
		var got []int
		for _, v := range d.Languages() {
			got = append(got, v.Val())
		}
		if !reflect.DeepEqual(got, c.N) {
			return fmt.Errorf("languages %v, want %v", got, c.N)
		}
		return nil
	}},
	{"compression-methods", func(t *rapid.T, c *groupCase) {
		c.List = rapid.SliceOfN(nonEmpty(5), 1, 9).Draw(t, "methods")
	}, func(c groupCase) error {
		var els [][]byte
		for _, n := range c.List {
			els = append(els, txt(n))
		}
		return carried(nil, &element.SupportedCompressionMethodsDataElement{}, ref.Group(els...))
	}},
	{"disposal-eligible-persons", func(t *rapid.T, c *groupCase) {
		c.List = rapid.SliceOfN(nonEmpty(12), 1, 9).Draw(t, "names")
	}, func(c groupCase) error {
		var els [][]byte
		for _, n := range c.List {
			els = append(els, txt(n))
		}
		return carried(nil, &element.DisposalEligiblePersonsDataElement{}, ref.Group(els...))
	}},
	{"pintan-transactions", func(t *rapid.T, c *groupCase) {
		n := rapid.IntRange(1, 8).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.List = append(c.List, nonEmpty(6).Draw(t, "id"))
			c.Flag = append(c.Flag, rapid.Bool().Draw(t, "tan"))
		}
	}, func(c groupCase) error {
		d := &element.PinTanBusinessTransactionParameters{}
		var els [][]byte
		var v []domain.PinTanBusinessTransaction
		for i := range c.List {
			els = append(els, txt(c.List[i]), ref.Bool(c.Flag[i]))
			v = append(v, domain.PinTanBusinessTransaction{SegmentID: c.List[i], NeedsTan: c.Flag[i]})
		}
		return valued(element.NewPinTanBusinessTransactionParameters(v), d, ref.Group(els...), func() any { return d.Val() }, v)
	}},
	{"pintan-params", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 99, 99, 99)
		c.T = draws(t, anyText(10), anyText(10))
		n := rapid.IntRange(1, 8).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.List = append(c.List, nonEmpty(6).Draw(t, "id"))
			c.Flag = append(c.Flag, rapid.Bool().Draw(t, "tan"))
		}
	}, func(c groupCase) error {
		d := &element.PinTanSpecificParamDataElement{}
		els := [][]byte{ref.Num(c.N[0]), ref.Num(c.N[1]), ref.Num(c.N[2]), txt(c.T[0]), txt(c.T[1])}
		var v []domain.PinTanBusinessTransaction
		for i := range c.List {
			els = append(els, txt(c.List[i]), ref.Bool(c.Flag[i]))
			v = append(v, domain.PinTanBusinessTransaction{SegmentID: c.List[i], NeedsTan: c.Flag[i]})
		}
		return valued(nil, d, ref.Group(els...), func() any {
			return []any{d.PinMinLength.Val(), d.PinMaxLength.Val(), d.TanMaxLength.Val(), d.UserIDText.Val(), d.CustomerIDText.Val(), d.JobSpecificPinTanInformation.Val()}
		}, []any{c.N[0], c.N[1], c.N[2], c.T[0], c.T[1], v})
	}},
	{"pin-tan", func(t *rapid.T, c *groupCase) {
		c.T = draws(t, nonEmpty(12), anyText(12))
		c.Flag = []bool{rapid.Bool().Draw(t, "custom")}
	}, func(c groupCase) error {
		var enc de = element.NewPinTan(c.T[0], c.T[1])
		p := &element.PinTanDataElement{}
		var dec de = p
		cust := &element.CustomSignatureDataElement{}
		if c.Flag[0] {
			enc, dec = element.NewCustomSignature(c.T[0], c.T[1]), cust
		}
		if err := carried(enc, dec, ref.Group(txt(c.T[0]), txt(c.T[1]))); err != nil {
			return err
		}
		if c.Flag[0] {
			p = cust.PinTanDataElement
		}
		tan := ""
		if p.TAN != nil {
			tan = p.TAN.Val()
		}
		return first(eq("pin", p.PIN.Val(), c.T[0]), eq("tan", tan, c.T[1]))
	}},
	{"key-name", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 999, 999, 999)
		c.T = draws(t, nonEmpty(12), nonEmpty(20), rapid.SampledFrom([]string{"S", "V"}))
	}, func(c groupCase) error {
		d := &element.KeyNameDataElement{}
		v := domain.KeyName{BankID: domain.BankID{CountryCode: c.N[0], ID: c.T[0]}, UserID: c.T[1], KeyType: domain.KeyType(c.T[2]), KeyNumber: c.N[1], KeyVersion: c.N[2]}
		return valued(element.NewKeyName(v), d, ref.Group(ref.Digits(c.N[0], 3), txt(c.T[0]), txt(c.T[1]), txt(c.T[2]), ref.Num(c.N[1]), ref.Num(c.N[2])), func() any { return d.Val() }, v)
	}},
	{"security-identification", func(t *rapid.T, c *groupCase) {
		c.T = draws(t, rapid.SampledFrom([]string{"MS", "MR"}), nonEmpty(20))
	}, func(c groupCase) error {
		d := &element.SecurityIdentificationDataElement{}
		holder := map[string]string{"MS": "1", "MR": "2"}[c.T[0]]
		if err := carried(element.NewRDHSecurityIdentification(c.T[0], c.T[1]), d, ref.Group([]byte(holder), nil, txt(c.T[1]))); err != nil {
			return err
		}
		return first(eq("holder", d.SecurityHolder.Val(), holder), eq("client system", d.ClientSystemID.Val(), c.T[1]), eq("no CID", d.CID == nil, true))
	}},
	{"security-date", func(t *rapid.T, c *groupCase) {
		c.T = draws(t, rapid.SampledFrom([]string{"STS", "CRT"}))
		c.Day = genDay(t, "day")
		c.Sec = genTimeOfDay().Draw(t, "sec")
	}, func(c groupCase) error {
		d := &element.SecurityDateDataElement{}
		id := map[string]string{"STS": "1", "CRT": "6"}[c.T[0]]
		if err := carried(element.NewSecurityDate(c.T[0], c.date()), d, ref.Group([]byte(id), dateWire(c.date()), timeWire(c.Sec))); err != nil {
			return err
		}
		return first(eq("id", d.DateIdentifier.Val(), id), eq("day", dayInt(d.Date.Val()), c.Day), eq("time", clockOf(d.Time.Val()), c.Sec))
	}},
	{"algorithms", func(t *rapid.T, c *groupCase) {
		c.T = draws(t, rapid.SampledFrom([]string{"hash", "signature", "pintan", "rdh"}))
		c.Data = binary(40).Draw(t, "key")
	}, func(c groupCase) error {
		switch c.T[0] {
		case "hash":
			return carried(element.NewDefaultHashAlgorithm(), &element.HashAlgorithmDataElement{}, []byte("1:999:1"))
		case "signature":
			return carried(element.NewRDHSignatureAlgorithm(), &element.SignatureAlgorithmDataElement{}, []byte("6:10:16"))
		case "pintan":
			return carried(element.NewPinTanEncryptionAlgorithm(), &element.EncryptionAlgorithmDataElement{}, []byte("2:2:13:@8@\x00\x00\x00\x00\x00\x00\x00\x00:5:1"))
		}
		d := &element.EncryptionAlgorithmDataElement{}
		return valued(element.NewRDHEncryptionAlgorithm(c.Data), d, ref.Group([]byte("2:2:13"), ref.Bin(c.Data), []byte("6:1")), func() any { return string(d.Key.Val()) }, string(c.Data))
	}},
	{"decoded-algorithms", func(t *rapid.T, c *groupCase) {
		c.T = draws(t, rapid.SampledFrom([]string{"hash", "encryption"}), nonEmpty(3), nonEmpty(3), nonEmpty(3), nonEmpty(3), nonEmpty(3))
		c.Data = binary(20).Draw(t, "value")
		c.Flag = []bool{rapid.Bool().Draw(t, "with value")}
	}, func(c groupCase) error {
		if c.T[0] == "hash" {
			d := &element.HashAlgorithmDataElement{}
			els := [][]byte{txt(c.T[1]), txt(c.T[2]), txt(c.T[3])}
			if c.Flag[0] {
				els = append(els, ref.Bin(c.Data))
			}
			if err := carried(nil, d, ref.Group(els...)); err != nil {
				return err
			}
			return first(eq("usage", d.Usage.Val(), c.T[1]), eq("algorithm", d.Algorithm.Val(), c.T[2]), eq("parameter id", d.AlgorithmParamID.Val(), c.T[3]), eq("value", d.AlgorithmParamValue != nil, c.Flag[0]))
		}
		d := &element.EncryptionAlgorithmDataElement{}
		els := [][]byte{txt(c.T[1]), txt(c.T[2]), txt(c.T[3]), ref.Bin(c.Data), txt(c.T[4]), txt(c.T[5])}
		if c.Flag[0] {
			els = append(els, ref.Bin(c.Data))
		}
		if err := carried(nil, d, ref.Group(els...)); err != nil {
			return err
		}
		return first(eq("usage", d.Usage.Val(), c.T[1]), eq("mode", d.OperationMode.Val(), c.T[2]), eq("algorithm", d.Algorithm.Val(), c.T[3]), eq("key", string(d.Key.Val()), string(c.Data)),
			eq("key parameter", d.KeyParamID.Val(), c.T[4]), eq("iv parameter", d.InitializationValueParamID.Val(), c.T[5]), eq("iv", d.InitializationValue != nil, c.Flag[0]))
	}},
	{"security-profile", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 999)
	}, func(c groupCase) error {
		d := &element.SecurityProfileDataElement{}
		return valued(element.NewPinTanSecurityProfile(c.N[0]), d, ref.Group([]byte("PIN"), ref.Num(c.N[0])), func() any { return []any{d.SecurityMethod.Val(), d.SecurityMethodVersion.Val()} }, []any{"PIN", c.N[0]})
	}},
	{"account-limit", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 999)
		c.Cents = cents(1e10).Draw(t, "c")
		c.T = draws(t, rapid.SampledFrom([]string{"E", "T", "W", "M", "Z"}), genCurrency())
	}, func(c groupCase) error {
		d := &element.AccountLimitDataElement{}
		return valued(element.NewAccountLimit(c.T[0], amt(c.Cents), c.T[1], c.N[0]), d, ref.Group(txt(c.T[0]), ref.Amount(c.Cents), txt(c.T[1]), ref.Num(c.N[0])), func() any { return d.Val() },
			domain.AccountLimit{Kind: c.T[0], Amount: domain.Amount{Amount: amt(c.Cents), Currency: c.T[1]}, Days: c.N[0]})
	}},
	{"decoded-limit", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 99, 999, 3)
		c.Cents = cents(1e10).Draw(t, "c")
		c.T = draws(t, nonEmpty(6), rapid.SampledFrom([]string{"E", "T", "W", "M", "Z"}), genCurrency())
		c.Flag = []bool{rapid.Bool().Draw(t, "of a job")}
	}, func(c groupCase) error {
		els := limitWire(c.T[1], c.Cents, c.T[2], c.N[1], c.N[2])
		v := limitValue(c.T[1], c.Cents, c.T[2], c.N[1], c.N[2])
		if c.Flag[0] {
			d := &element.AllowedBusinessTransactionDataElement{}
			return valued(nil, d, ref.Group(append([][]byte{txt(c.T[0]), ref.Num(c.N[0])}, els...)...), func() any { return d.Val() },
				domain.BusinessTransaction{ID: c.T[0], NeededSignatures: c.N[0], Limit: v})
		}
		d := &element.AccountLimitDataElement{}
		return valued(nil, d, ref.Group(els...), func() any { return d.Val() }, *v)
	}},
	{"allowed-transaction", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 99, 999)
		c.Cents = cents(1e10).Draw(t, "c")
		c.T = draws(t, nonEmpty(6), rapid.SampledFrom([]string{"", "E", "T", "W", "M", "Z"}), genCurrency())
	}, func(c groupCase) error {
		d := &element.AllowedBusinessTransactionDataElement{}
		v := domain.BusinessTransaction{ID: c.T[0], NeededSignatures: c.N[0]}
		els := [][]byte{txt(c.T[0]), ref.Num(c.N[0])}
		if c.T[1] != "" {
			v.Limit = &domain.AccountLimit{Kind: c.T[1], Amount: domain.Amount{Amount: amt(c.Cents), Currency: c.T[2]}, Days: c.N[1]}
			els = append(els, txt(c.T[1]), ref.Amount(c.Cents), txt(c.T[2]), ref.Num(c.N[1]))
		}
		return valued(element.NewAllowedBusinessTransaction(v), d, ref.Group(els...), func() any { return d.Val() }, v)
	}},
	{"communication-parameter", func(t *rapid.T, c *groupCase) {
		c.N = drawInts(t, 99, 999)
		c.T = draws(t, nonEmpty(20), anyText(10), anyText(3))
	}, func(c groupCase) error {
		d := &element.CommunicationParameterDataElement{}
		v := domain.CommunicationParameter{Protocol: c.N[0], Address: c.T[0], AddressAddition: c.T[1], FilterFunction: c.T[2], FilterFunctionVersion: c.N[1]}
		val := func(a *element.AlphaNumericDataElement) string {
			if a == nil {
				return ""
			}
			return a.Val()
		}
		return valued(element.NewCommunicationParameter(v), d, ref.Group(ref.Num(c.N[0]), txt(c.T[0]), txt(c.T[1]), txt(c.T[2]), ref.Num(c.N[1])), func() any {
			return []any{d.Protocol.Val(), d.Address.Val(), val(d.AddressAddition), val(d.FilterFunction), d.FilterFunctionVersion.Val()}
		}, []any{c.N[0], c.T[0], c.T[1], c.T[2], c.N[1]})
	}},
	{"certificate", func(t *rapid.T, c *groupCase) {
		c.N = []int{rapid.IntRange(1, 3).Draw(t, "type")}
		c.Data = binary(60).Draw(t, "data")
	}, func(c groupCase) error {
		d := &element.CertificateDataElement{}
		return valued(element.NewCertificate(c.N[0], c.Data), d, ref.Group(ref.Num(c.N[0]), ref.Bin(c.Data)), func() any { return []any{d.CertificateType.Val(), string(d.Content.Val())} }, []any{c.N[0], string(c.Data)})
	}},
	{"public-key", func(t *rapid.T, c *groupCase) {
		c.T = draws(t, rapid.SampledFrom([]string{"S", "V"}))
		c.Data = binary(60).Draw(t, "modulus")
	}, func(c groupCase) error {
		k := &domain.PublicKey{Type: c.T[0], Modulus: c.Data, Exponent: []byte("65537")}
		e := element.NewPublicKey(k)
		got, err := e.MarshalHBCI()
		if err != nil {
			return err
		}
		v := e.Val()
		return first(bytesEq("marshal", got, ref.Group(txt(c.T[0]), []byte("16"), []byte("10"), ref.Bin(c.Data), []byte("12"), ref.Bin([]byte("65537")), []byte("13"))),
			eq("type", v.Type, c.T[0]), bytesEq("modulus", v.Modulus, c.Data), bytesEq("exponent", v.Exponent, []byte("65537")))
	}},
}

func init() {
	byKind := map[string]groupKind{}
	var names []string
	for _, k := range groupKinds {
		byKind[k.name] = k
		names = append(names, k.name)
	}
	pbt.Add(pbt.Spec[groupCase]{
		Prop: "C02", Name: "groups", Quick: 600000, Thorough: 12000000,
		Rule: fmt.Sprintf("one of %d kinds of composite elements with generated members; marshal, decode, value and re-marshal are compared with a reference renderer; non-trivial: all (labelled by kind and by syntax characters in members)", len(names)),
		Gen: func(t *rapid.T) groupCase {
			c := groupCase{Kind: rapid.SampledFrom(names).Draw(t, "kind")}
			byKind[c.Kind].gen(t, &c)
			return c
		},
		Classify: func(c groupCase) []string {
			return append([]string{c.Kind}, textLabels(append(append([]string{}, c.T...), c.List...)...)...)
		},
		Check: func(c groupCase) error { return byKind[c.Kind].check(c) },
	})
}
