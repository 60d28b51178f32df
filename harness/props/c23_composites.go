package props

import (
	"fmt"
	"maps"
	"slices"
	"strings"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

// A composite is an element made of elements: what each member must keep to,
// in the order in which the standard lists them, and how it is made of them.
type composite struct {
	members string
	build   func(m []validCase, optional bool) element.DataElement
	// drop takes away the i-th of the members it cannot do without.
	drop func(e element.DataElement, i int)
}

func bankOf(country, id validCase) domain.BankID {
	return domain.BankID{CountryCode: country.N, ID: id.Text}
}

func limitOf(m []validCase) *domain.AccountLimit {
	return &domain.AccountLimit{Kind: m[0].Text, Amount: domain.Amount{Amount: amt(m[1].Cents), Currency: m[2].Text}, Days: m[3].N}
}

// members are written as kind and limit; those behind "/" are there only if
// the optional part is.
var composites = map[string]composite{
	"amount": {members: "val cur", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewAmount(amt(m[0].Cents), m[1].Text)
	}},
	"bank": {members: "dig3 an30", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewBankIdentification(bankOf(m[0], m[1]))
	}},
	"account": {members: "id id dig3 an30", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewAccountConnection(domain.AccountConnection{AccountID: m[0].Text, SubAccountCharacteristics: m[1].Text, CountryCode: m[2].N, BankID: m[3].Text})
	}},
	"international-account": {members: "an34 an11 id id dig3 an30", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewInternationalAccountConnection(domain.InternationalAccountConnection{IBAN: m[0].Text, BIC: m[1].Text, AccountID: m[2].Text, SubAccountCharacteristics: m[3].Text, BankID: bankOf(m[4], m[5])})
	}},
	"balance": {members: "val cur dat", build: func(m []validCase, optional bool) element.DataElement {
		return element.NewBalance(domain.Amount{Amount: amt(m[0].Cents), Currency: m[1].Text}, m[2].date(), optional)
	}},
	"debit-balance": {members: "val cur dat", build: func(m []validCase, optional bool) element.DataElement {
		return element.NewBalance(domain.Amount{Amount: -amt(m[0].Cents), Currency: m[1].Text}, m[2].date(), optional)
	}},
	"address": {members: "an35 an35 an35 an10 an35 dig3 an35 an35 an35", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewAddress(domain.Address{Name1: m[0].Text, Name2: m[1].Text, Street: m[2].Text, PLZ: m[3].Text, City: m[4].Text, CountryCode: m[5].N, Phone: m[6].Text, Fax: m[7].Text, Email: m[8].Text})
	}},
	"message-reference": {members: "id num4", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewReferencingMessage(m[0].Text, m[1].N)
	}, drop: func(e element.DataElement, i int) {
		r := e.(*element.ReferencingMessageDataElement)
		if i%2 == 0 {
			r.DialogID = nil
		} else {
			r.MessageNumber = nil
		}
	}},
	"header": {members: "an6 num3 num3 / num3", build: func(m []validCase, optional bool) element.DataElement {
		if optional {
			return element.NewReferencingSegmentHeader(m[0].Text, m[1].N, m[2].N, m[3].N)
		}
		return element.NewSegmentHeader(m[0].Text, m[1].N, m[2].N)
	}, drop: func(e element.DataElement, i int) {
		h := e.(*element.SegmentHeader)
		switch i % 3 {
		case 0:
			h.ID = nil
		case 1:
			h.Position = nil
		default:
			h.Version = nil
		}
	}},
	"numbered-header": {members: "an6 num3 num3 / num3", build: func(m []validCase, optional bool) element.DataElement {
		h := element.NewSegmentHeader(m[0].Text, 1, m[2].N)
		h.SetPosition(m[1].N)
		if optional {
			h.SetReference(m[3].N)
		}
		return h
	}},
	"acknowledgement": {members: "dig4 an7 an80 an35 an35 an35 an35 an35 an35 an35 an35 an35 an35", build: func(m []validCase, _ bool) element.DataElement {
		a := domain.Acknowledgement{Code: m[0].N, ReferenceDataElement: m[1].Text, Text: m[2].Text}
		for _, p := range m[3:] {
			a.Params = append(a.Params, p.Text)
		}
		return element.NewAcknowledgement(a)
	}, drop: func(e element.DataElement, i int) {
		a := e.(*element.AcknowledgementDataElement)
		if i%2 == 0 {
			a.Code = nil
		} else {
			a.Text = nil
		}
	}},
	"security-method": {members: "an3 num3 num3 num3", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewSupportedSecurityMethod(m[0].Text, m[1].N, m[2].N, m[3].N)
	}},
	"key-name": {members: "dig3 an30 id an1 num3 num3", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewKeyName(domain.KeyName{BankID: bankOf(m[0], m[1]), UserID: m[2].Text, KeyType: domain.KeyType(m[3].Text), KeyNumber: m[4].N, KeyVersion: m[5].N})
	}},
	"certificate": {members: "num1 bin2048", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewCertificate(m[0].N, m[1].Data)
	}},
	"public-key": {members: "an3 bin512", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewPublicKey(&domain.PublicKey{Type: m[0].Text, Modulus: m[1].Data, Exponent: []byte("65537")})
	}},
	"security-identification": {members: "id", build: func(m []validCase, optional bool) element.DataElement {
		holder := element.SecurityHolderMessageSender
		if optional {
			holder = element.SecurityHolderMessageReceiver
		}
		return element.NewRDHSecurityIdentification(holder, m[0].Text)
	}},
	"security-date": {members: "dat", build: func(m []validCase, optional bool) element.DataElement {
		kind := element.SecurityTimestamp
		if optional {
			kind = element.CertificateRevocationTime
		}
		return element.NewSecurityDate(kind, m[0].date())
	}},
	"security-profile": {members: "num3", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewPinTanSecurityProfile(m[0].N)
	}},
	"rdh-encryption": {members: "bin512", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewRDHEncryptionAlgorithm(m[0].Data)
	}},
	"fixed": {members: "", build: func(_ []validCase, optional bool) element.DataElement {
		if optional {
			return element.NewPinTanEncryptionAlgorithm()
		}
		return element.NewDefaultHashAlgorithm()
	}},
	"fixed-signature": {members: "", build: func([]validCase, bool) element.DataElement {
		return element.NewRDHSignatureAlgorithm()
	}},
	"pin": {members: "an6 / an35", build: func(m []validCase, optional bool) element.DataElement {
		if optional {
			return element.NewPinTan(m[0].Text, m[1].Text)
		}
		return element.NewPinTan(m[0].Text, "")
	}},
	"custom-signature": {members: "an99 / an99", build: func(m []validCase, optional bool) element.DataElement {
		if optional {
			return element.NewCustomSignature(m[0].Text, m[1].Text)
		}
		return element.NewCustomSignature(m[0].Text, "")
	}},
	"limit": {members: "an1 val cur num3", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewAccountLimit(m[0].Text, amt(m[1].Cents), m[2].Text, m[3].N)
	}},
	"transaction": {members: "an6 num2 / an1 val cur num3", build: func(m []validCase, optional bool) element.DataElement {
		tr := domain.BusinessTransaction{ID: m[0].Text, NeededSignatures: m[1].N}
		if optional {
			tr.Limit = limitOf(m[2:])
		}
		return element.NewAllowedBusinessTransaction(tr)
	}},
	"transactions": {members: "an6 num2 an6 num2 / an1 val cur num3", build: func(m []validCase, optional bool) element.DataElement {
		tr := []domain.BusinessTransaction{{ID: m[0].Text, NeededSignatures: m[1].N}, {ID: m[2].Text, NeededSignatures: m[3].N}}
		if optional {
			tr[0].Limit = limitOf(m[4:])
		}
		return element.NewAllowedBusinessTransactions(tr...)
	}},
	"pin-transactions": {members: "an6 an6 an6", build: func(m []validCase, optional bool) element.DataElement {
		var tr []domain.PinTanBusinessTransaction
		for _, id := range m {
			tr = append(tr, domain.PinTanBusinessTransaction{SegmentID: id.Text, NeedsTan: optional})
		}
		return element.NewPinTanBusinessTransactionParameters(tr)
	}},
	"communication": {members: "num2 an512 an512 an3 num3", build: func(m []validCase, _ bool) element.DataElement {
		return element.NewCommunicationParameter(domain.CommunicationParameter{Protocol: m[0].N, Address: m[1].Text, AddressAddition: m[2].Text, FilterFunction: m[3].Text, FilterFunctionVersion: m[4].N})
	}},
}

type compositeCase struct {
	Kind     string
	Members  []validCase
	Optional bool
	// Dropped is the member that is missing, counted from one.
	Dropped int `json:",omitempty"`
}

// limits lists the members of a kind and how many of them are always there.
func limits(kind string) (all []validCase, always int) {
	always = -1
	for _, m := range strings.Fields(composites[kind].members) {
		if m == "/" {
			always = len(all)
			continue
		}
		c := validCase{Kind: strings.TrimRight(m, "0123456789")}
		fmt.Sscanf(m[len(c.Kind):], "%d", &c.Max)
		all = append(all, c)
	}
	if always < 0 {
		always = len(all)
	}
	return all, always
}

// genMember fills a member with a value that meets its limit, or, if broken,
// with one that just misses it.
func genMember(t *rapid.T, c validCase, broken bool) validCase {
	switch c.Kind {
	case "an", "id":
		max := c.Max
		if c.Kind == "id" {
			max = 30
		}
		switch {
		case broken && rapid.IntRange(0, 4).Draw(t, "line") == 0:
			c.Text = "a" + rapid.SampledFrom([]string{"\n", "\r", "\r\n"}).Draw(t, "break")
		case broken:
			c.Text = strings.Repeat(rapid.SampledFrom([]string{"x", "ü", "?", "0"}).Draw(t, "rune"), max+rapid.IntRange(1, 3).Draw(t, "over"))
		case rapid.IntRange(0, 2).Draw(t, "edge") == 0:
			c.Text = strings.Repeat(rapid.SampledFrom([]string{"x", "ü", "ß", "0"}).Draw(t, "rune"), max)
		default:
			c.Text = anyText(min(max/2, 20)).Draw(t, "text")
		}
	case "num", "dig":
		over := 1
		for i := 0; i < c.Max; i++ {
			over *= 10
		}
		switch {
		case broken:
			c.N = rapid.SampledFrom([]int{over, over + 1, 10*over - 1, 10 * over}).Draw(t, "n")
		case rapid.IntRange(0, 2).Draw(t, "edge") == 0:
			c.N = over - 1
		default:
			c.N = rapid.IntRange(0, over-1).Draw(t, "n")
		}
	case "val":
		c.Cents = cents(99999999999999).Draw(t, "cents")
		if broken {
			c.Cents = rapid.Int64Range(1000000000000000, 9000000000000000).Draw(t, "cents")
		}
	case "cur":
		c.Text = rapid.StringMatching(`[A-Z]{3}`).Draw(t, "cur")
		if broken {
			c.Text = rapid.StringMatching(`[A-Z]{0,2}|[A-Z]{4,5}`).Draw(t, "cur")
		}
	case "dat":
		if !broken {
			c.Day = genDay(t, "day")
		}
	case "bin":
		n := rapid.SampledFrom([]int{0, 1, c.Max - 1, c.Max, rapid.IntRange(0, c.Max).Draw(t, "some")}).Draw(t, "n")
		if broken {
			n = c.Max + rapid.IntRange(1, 3).Draw(t, "over")
		}
		c.Data = make([]byte, n)
		for i := range c.Data {
			c.Data[i] = byte(i*7 + n)
		}
	}
	return c
}

func (c compositeCase) valid() int {
	if c.Dropped > 0 {
		return -1
	}
	all, always := 1, 0
	_, always = limits(c.Kind)
	for i, m := range c.Members {
		if i < always || c.Optional {
			all = min(all, m.valid())
		}
	}
	return all
}

func init() {
	kinds := slices.Sorted(maps.Keys(composites))
	pbt.Add(pbt.Spec[compositeCase]{
		Prop: "C23", Name: "composites", Quick: 400000, Thorough: 16000000,
		Rule: "one element made of elements (account, address, balance, header, acknowledgement, key name, limit ...) whose members keep to their limits, often just, or of which one, several or a random choice do not, with and without its optional part, at times without a member it cannot do without: valid exactly if every member is and the required ones are there; non-trivial: decided",
		Gen: func(t *rapid.T) compositeCase {
			c := compositeCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Optional: rapid.Bool().Draw(t, "optional")}
			members, _ := limits(c.Kind)
			mode := rapid.IntRange(0, 5).Draw(t, "mode")
			one := -1
			if mode >= 2 && mode < 5 && len(members) > 0 {
				one = rapid.IntRange(0, len(members)-1).Draw(t, "one")
			}
			for i, m := range members {
				broken := i == one || mode == 5 && rapid.IntRange(0, 5).Draw(t, "broken") == 0
				c.Members = append(c.Members, genMember(t, m, broken))
			}
			if composites[c.Kind].drop != nil && rapid.IntRange(0, 4).Draw(t, "drop") == 0 {
				c.Dropped = rapid.IntRange(1, 6).Draw(t, "dropped")
			}
			return c
		},
		Classify: func(c compositeCase) []string {
			if v := c.valid(); v != 0 {
				return []string{fmt.Sprintf("%s-%v", c.Kind, v > 0)}
			}
			return nil
		},
		Check: func(c compositeCase) error {
			e := composites[c.Kind].build(c.Members, c.Optional)
			if c.Dropped > 0 {
				composites[c.Kind].drop(e, c.Dropped)
			}
			want := c.valid()
			before, errBefore := e.MarshalHBCI()
			for round := 0; round < 2; round++ {
				got := e.IsValid()
				if want != 0 && got != (want > 0) {
					return fmt.Errorf("%s: valid is %v", dump(c), got)
				}
			}
			after, errAfter := e.MarshalHBCI()
			return first(bytesEq("marshalled after asking", after, before), eq("error", errAfter == nil, errBefore == nil))
		},
	})
}
