package props

import (
	"fmt"
	"reflect"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// fv is the value of one data element of a segment; which members matter
// depends on K. Off marks an absent element.
type fv struct {
	K     string
	Off   bool     `json:",omitempty"`
	T     []string `json:",omitempty"`
	N     []int    `json:",omitempty"`
	Cents int64    `json:",omitempty"`
	Neg   bool     `json:",omitempty"`
	Day   int      `json:",omitempty"`
	Sec   int      `json:",omitempty"`
	Flag  []bool   `json:",omitempty"`
	Data  pbt.B    `json:",omitempty"`
}

func dayOf(day int) time.Time {
	return time.Date(day/10000, time.Month(day/100%100), day%100, 0, 0, 0, 0, time.UTC)
}

// genField draws a value of a kind of data element.
func genField(t *rapid.T, k string) fv {
	f := fv{K: k}
	money := func() {
		f.Cents = cents(1e11).Draw(t, "cents")
		f.T = append(f.T, genCurrency().Draw(t, "cur"))
	}
	switch k {
	case "an", "id":
		f.T = draws(t, nonEmpty(14))
	case "txt":
		f.T = draws(t, textOf(txtRune, 1, 30))
	case "cur":
		f.T = draws(t, genCurrency())
	case "num":
		f.N = drawInts(t, 99999)
	case "dig12":
		f.N = drawInts(t, 999999999)
	case "jn":
		f.Flag = []bool{rapid.Bool().Draw(t, "jn")}
	case "ktv":
		f.T = draws(t, nonEmpty(12), anyText(4), nonEmpty(12))
		f.N = drawInts(t, 999)
	case "kti":
		f.T = draws(t, anyText(22), anyText(11), anyText(12), anyText(4), nonEmpty(12))
		f.N = drawInts(t, 999)
	case "kik":
		f.T = draws(t, nonEmpty(12))
		f.N = drawInts(t, 999)
	case "sdo":
		money()
		f.Neg = f.Cents != 0 && rapid.Bool().Draw(t, "neg")
		f.Day = genDay(t, "day")
		f.Flag = []bool{rapid.Bool().Draw(t, "withTime")}
		f.Sec = genTimeOfDay().Draw(t, "sec")
	case "btg":
		money()
	case "wrt":
		f.Cents = cents(1e9).Draw(t, "cents")
	case "dat":
		f.Day = genDay(t, "day")
	case "tim":
		f.Sec = genTimeOfDay().Draw(t, "sec")
	case "bin":
		f.Data = rapid.Custom(func(t *rapid.T) []byte { return append(binary(30).Draw(t, "b"), 1) }).Draw(t, "bin")
	case "lim":
		f.T = draws(t, rapid.SampledFrom([]string{"E", "T", "W", "M", "Z"}))
		money()
		f.N = drawInts(t, 999, 8)
	case "bt":
		f.T = draws(t, upperID(1, 6))
		f.Flag = []bool{rapid.Bool().Draw(t, "limited")}
		f.N = drawInts(t, 9, 999, 8)
		f.T = append(f.T, draws(t, rapid.SampledFrom([]string{"E", "T", "W", "M", "Z"}))...)
		money()
	case "langs":
		f.N = rapid.SliceOfN(rapid.IntRange(1, 3), 1, 9).Draw(t, "langs")
	case "versions":
		f.N = rapid.SliceOfN(rapid.SampledFrom([]int{201, 210, 220, 300}), 1, 9).Draw(t, "versions")
	case "method":
		f.T = draws(t, nonEmpty(3))
		f.N = rapid.SliceOfN(rapid.IntRange(0, 999), 1, 9).Draw(t, "versions")
	case "names":
		f.T = rapid.SliceOfN(nonEmpty(12), 1, 9).Draw(t, "names")
	case "komm":
		f.N = drawInts(t, 99, 999)
		f.T = draws(t, nonEmpty(20), anyText(10), anyText(3))
	case "refmsg":
		f.T = draws(t, nonEmpty(20))
		f.N = drawInts(t, 9999)
	case "ack":
		f.N = drawInts(t, 9999)
		f.T = draws(t, anyText(7), nonEmpty(30))
		if rapid.Bool().Draw(t, "params") {
			// empty ones too, but the last: trailing ones are not written
			f.T = append(append(f.T, rapid.SliceOfN(anyText(10), 0, 9).Draw(t, "params")...), nonEmpty(10).Draw(t, "last"))
		}
	case "pins":
		f.N = drawInts(t, 99, 99, 99)
		f.T = draws(t, anyText(10), anyText(10))
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
			f.T = append(f.T, upperID(1, 6).Draw(t, "id"))
			f.Flag = append(f.Flag, rapid.Bool().Draw(t, "tan"))
		}
	case "dipins":
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
			f.T = append(f.T, upperID(1, 6).Draw(t, "id"))
			f.Flag = append(f.Flag, rapid.Bool().Draw(t, "tan"))
		}
	case "tan2":
		f.Flag = []bool{rapid.Bool().Draw(t, "onestep"), rapid.Bool().Draw(t, "multi")}
		f.T = draws(t, rapid.SampledFrom([]string{"0", "1", "2"}))
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
			f.T = append(f.T, draws(t, rapid.SampledFrom([]string{"900", "910", "922", "999", "942"}), rapid.SampledFrom([]string{"1", "2"}),
				nonEmpty(8), anyText(6), anyText(6), nonEmpty(12), rapid.SampledFrom([]string{"1", "2"}), nonEmpty(10),
				anyText(4), rapid.SampledFrom([]string{"1", "2"}), anyText(2), anyText(2), rapid.SampledFrom([]string{"00", "01"}))...)
			f.N = append(f.N, drawInts(t, 99, 9999, 9)...)
			for j := 0; j < 5; j++ {
				f.Flag = append(f.Flag, rapid.Bool().Draw(t, "f"))
			}
		}
	case "expiry":
		f.Day = genDay(t, "day")
		f.Sec = genTimeOfDay().Draw(t, "sec")
	case "secprof":
		f.N = []int{rapid.IntRange(1, 2).Draw(t, "v")}
	case "secid":
		f.T = draws(t, rapid.SampledFrom([]string{"1", "2"}), nonEmpty(20))
	case "secdate":
		f.T = draws(t, rapid.SampledFrom([]string{"1", "6"}))
		f.Day = genDay(t, "day")
		f.Sec = genTimeOfDay().Draw(t, "sec")
	case "hash", "sig":
	case "enc":
		f.Data = binary(20).Draw(t, "key")
	case "key":
		f.T = draws(t, nonEmpty(12), nonEmpty(20), rapid.SampledFrom([]string{"S", "V"}))
		f.N = drawInts(t, 999, 999, 999)
	case "pintan":
		f.T = draws(t, nonEmpty(10), anyText(8))
	default:
		panic("harness: unknown field kind " + k)
	}
	return f
}

func (f fv) wire() []byte {
	if f.Off {
		return nil
	}
	switch f.K {
	case "an", "id", "txt", "cur":
		return txt(f.T[0])
	case "num":
		return ref.Num(f.N[0])
	case "dig12":
		return ref.Digits(f.N[0], 12)
	case "jn":
		return ref.Bool(f.Flag[0])
	case "ktv":
		return ref.Group(txt(f.T[0]), txt(f.T[1]), ref.Digits(f.N[0], 3), txt(f.T[2]))
	case "kti":
		return ref.Group(txt(f.T[0]), txt(f.T[1]), txt(f.T[2]), txt(f.T[3]), ref.Digits(f.N[0], 3), txt(f.T[4]))
	case "kik":
		return ref.Group(ref.Digits(f.N[0], 3), txt(f.T[0]))
	case "sdo":
		sign := "C"
		if f.Neg {
			sign = "D"
		}
		els := [][]byte{[]byte(sign), ref.Amount(f.Cents), txt(f.T[0]), dateWire(dayOf(f.Day))}
		if f.Flag[0] {
			els = append(els, timeWire(f.Sec))
		}
		return ref.Group(els...)
	case "btg":
		return ref.Group(ref.Amount(f.Cents), txt(f.T[0]))
	case "wrt":
		return ref.Amount(f.Cents)
	case "dat":
		return dateWire(dayOf(f.Day))
	case "tim":
		return timeWire(f.Sec)
	case "bin":
		return ref.Bin(f.Data)
	case "lim":
		return ref.Group(limitWire(f.T[0], f.Cents, f.T[1], f.N[0], f.N[1])...)
	case "bt":
		els := [][]byte{txt(f.T[0]), ref.Num(f.N[0])}
		if f.Flag[0] {
			els = append(els, limitWire(f.T[1], f.Cents, f.T[2], f.N[1], f.N[2])...)
		}
		return ref.Group(els...)
	case "langs", "versions":
		var els [][]byte
		for _, n := range f.N {
			els = append(els, ref.Num(n))
		}
		return ref.Group(els...)
	case "method":
		els := [][]byte{txt(f.T[0])}
		for _, n := range f.N {
			els = append(els, ref.Num(n))
		}
		return ref.Group(els...)
	case "names":
		var els [][]byte
		for _, n := range f.T {
			els = append(els, txt(n))
		}
		return ref.Group(els...)
	case "komm":
		return ref.Group(ref.Num(f.N[0]), txt(f.T[0]), txt(f.T[1]), txt(f.T[2]), ref.Num(f.N[1]))
	case "refmsg":
		return ref.Group(txt(f.T[0]), ref.Num(f.N[0]))
	case "ack":
		els := [][]byte{ref.Digits(f.N[0], 4)}
		for _, s := range f.T {
			els = append(els, txt(s))
		}
		return ref.Group(els...)
	case "pins", "dipins":
		var els [][]byte
		ids := f.T
		if f.K == "pins" {
			els = [][]byte{ref.Num(f.N[0]), ref.Num(f.N[1]), ref.Num(f.N[2]), txt(f.T[0]), txt(f.T[1])}
			ids = f.T[2:]
		}
		for i, id := range ids {
			els = append(els, txt(id), ref.Bool(f.Flag[i]))
		}
		return ref.Group(els...)
	case "tan2":
		els := [][]byte{ref.Bool(f.Flag[0]), ref.Bool(f.Flag[1]), txt(f.T[0])}
		for i := 0; i < len(f.N)/3; i++ {
			s, n, b := f.T[1+13*i:], f.N[3*i:], f.Flag[2+5*i:]
			els = append(els, txt(s[0]), txt(s[1]), txt(s[2]), txt(s[3]), txt(s[4]), txt(s[5]), ref.Num(n[0]), txt(s[6]), txt(s[7]), ref.Num(n[1]),
				ref.Bool(b[0]), txt(s[8]), ref.Bool(b[1]), txt(s[9]), txt(s[10]), ref.Bool(b[2]), ref.Bool(b[3]), txt(s[12]), txt(s[11]), ref.Bool(b[4]), ref.Num(n[2]))
		}
		return ref.Group(els...)
	case "expiry":
		return ref.Group(dateWire(dayOf(f.Day)), timeWire(f.Sec))
	case "secprof":
		return ref.Group([]byte("PIN"), ref.Num(f.N[0]))
	case "secid":
		return ref.Group(txt(f.T[0]), nil, txt(f.T[1]))
	case "secdate":
		return ref.Group(txt(f.T[0]), dateWire(dayOf(f.Day)), timeWire(f.Sec))
	case "hash":
		return []byte("1:999:1")
	case "sig":
		return []byte("6:10:16")
	case "enc":
		return ref.Group([]byte("2:2:13"), ref.Bin(f.Data), []byte("5:1"))
	case "key":
		return ref.Group(ref.Digits(f.N[0], 3), txt(f.T[0]), txt(f.T[1]), txt(f.T[2]), ref.Num(f.N[1]), ref.Num(f.N[2]))
	case "pintan":
		return ref.Group(txt(f.T[0]), txt(f.T[1]))
	}
	panic("harness: unknown field kind " + f.K)
}

// The values of the domain the fields stand for.

func (f fv) account() domain.AccountConnection {
	return domain.AccountConnection{AccountID: f.T[0], SubAccountCharacteristics: f.T[1], CountryCode: f.N[0], BankID: f.T[2]}
}

func (f fv) intAccount() domain.InternationalAccountConnection {
	return domain.InternationalAccountConnection{IBAN: f.T[0], BIC: f.T[1], AccountID: f.T[2], SubAccountCharacteristics: f.T[3], BankID: domain.BankID{CountryCode: f.N[0], ID: f.T[4]}}
}

func (f fv) str() string {
	if f.Off || len(f.T) == 0 {
		return ""
	}
	return f.T[0]
}

func (f fv) num() int {
	if f.Off || len(f.N) == 0 {
		return 0
	}
	return f.N[0]
}

// limitWire writes a limit; shape 1 is one without days, 2 one without an
// amount, 3 one with neither, all others are complete.
func limitWire(kind string, cents int64, currency string, days, shape int) [][]byte {
	els := [][]byte{txt(kind), ref.Amount(cents), txt(currency), ref.Num(days)}
	switch shape {
	case 1:
		els = els[:3]
	case 2:
		els[1], els[2] = nil, nil
	case 3:
		els = els[:1]
	}
	return els
}

func limitValue(kind string, cents int64, currency string, days, shape int) *domain.AccountLimit {
	l := &domain.AccountLimit{Kind: kind, Amount: domain.Amount{Amount: amt(cents), Currency: currency}, Days: days}
	if shape == 1 || shape == 3 {
		l.Days = 0
	}
	if shape == 2 || shape == 3 {
		l.Amount = domain.Amount{}
	}
	return l
}

func (f fv) limit() *domain.AccountLimit {
	if f.Off {
		return nil
	}
	return limitValue(f.T[0], f.Cents, f.T[1], f.N[0], f.N[1])
}

func (f fv) transaction() domain.BusinessTransaction {
	v := domain.BusinessTransaction{ID: f.T[0], NeededSignatures: f.N[0]}
	if f.Flag[0] {
		v.Limit = limitValue(f.T[1], f.Cents, f.T[2], f.N[1], f.N[2])
	}
	return v
}

func sameBalance(what string, got *domain.Balance, f fv) error {
	if f.Off || got == nil {
		return eq(what+" present", got != nil, !f.Off)
	}
	want := amt(f.Cents)
	if f.Neg {
		want = -want
	}
	if err := first(eq(what+" amount", got.Amount.Amount, want), eq(what+" currency", got.Amount.Currency, f.T[0]), eq(what+" day", dayInt(got.TransmissionDate), f.Day), eq(what+" has time", got.TransmissionTime != nil, f.Flag[0])); err != nil {
		return err
	}
	if f.Flag[0] {
		return eq(what+" time", clockOf(*got.TransmissionTime), f.Sec)
	}
	return nil
}

func sameAmount(what string, got *domain.Amount, f fv) error {
	if f.Off || got == nil {
		return eq(what+" present", got != nil, !f.Off)
	}
	return eq(what, *got, domain.Amount{Amount: amt(f.Cents), Currency: f.T[0]})
}

// sameMoment compares a day with an optional time of day.
func sameMoment(what string, got *time.Time, day, clock fv) error {
	if day.Off || got == nil {
		return eq(what+" present", got != nil, !day.Off)
	}
	sec := 0
	if !clock.Off {
		sec = clock.Sec
	}
	return first(eq(what+" day", dayInt(*got), day.Day), eq(what+" time", clockOf(*got), sec))
}

func sameBalances(c segCase, b domain.AccountBalance) error {
	f := c.F
	acc := domain.AccountConnection{}
	switch f[0].K {
	case "ktv":
		acc = f[0].account()
	case "kti":
		a := f[0].intAccount()
		acc = domain.AccountConnection{AccountID: a.AccountID, SubAccountCharacteristics: a.SubAccountCharacteristics, CountryCode: a.BankID.CountryCode, BankID: a.BankID.ID}
	}
	return first(eq("account", b.Account, acc), eq("product", b.ProductName, f[1].str()), eq("currency", b.Currency, f[2].str()),
		sameBalance("booked balance", &b.BookedBalance, f[3]), sameBalance("earmarked balance", b.EarmarkedBalance, f[4]),
		sameAmount("credit limit", b.CreditLimit, f[5]), sameAmount("available amount", b.AvailableAmount, f[6]), sameAmount("used amount", b.UsedAmount, f[7]),
		sameMoment("booking date", b.BookingDate, f[8], f[9]), sameMoment("due date", b.DueDate, f[10], fv{Off: true}))
}

func sameSepaBalances(c segCase, b domain.SepaAccountBalance) error {
	f := c.F
	seizable := fv{Off: true}
	if len(f) > 11 {
		seizable = f[11]
	}
	return first(eq("sepa account", b.Account, f[0].intAccount()), eq("sepa product", b.ProductName, f[1].str()), eq("sepa currency", b.Currency, f[2].str()),
		sameBalance("sepa booked balance", &b.BookedBalance, f[3]), sameBalance("sepa earmarked balance", b.EarmarkedBalance, f[4]),
		sameAmount("sepa credit limit", b.CreditLimit, f[5]), sameAmount("sepa available amount", b.AvailableAmount, f[6]), sameAmount("sepa used amount", b.UsedAmount, f[7]),
		sameMoment("sepa booking date", b.BookingDate, f[8], f[9]), sameMoment("sepa due date", b.DueDate, f[10], fv{Off: true}), sameAmount("seizable", b.SeizableAfterMonth, seizable))
}

// accountInfo is what a segment says about an account.
func accountInfo(c segCase, account, user, currency, name1, name2, product, limit, bts int) domain.AccountInformation {
	f := c.F
	want := domain.AccountInformation{UserID: f[user].str(), Currency: f[currency].str(), Name1: f[name1].str(), Name2: f[name2].str(), ProductID: f[product].str(), Limit: f[limit].limit()}
	if !f[account].Off {
		want.AccountConnection = f[account].account()
	}
	for _, bt := range f[bts:] {
		if bt.K == "bt" {
			want.AllowedBusinessTransactions = append(want.AllowedBusinessTransactions, bt.transaction())
		}
	}
	return want
}

func sameAccount(got domain.AccountInformation, c segCase) error {
	want := wantAccount(c)
	if len(got.AllowedBusinessTransactions) == 0 {
		got.AllowedBusinessTransactions = nil
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("account information: got %s, want %s", dump(got), dump(want))
	}
	return nil
}

func dump(v any) string { return fmt.Sprintf("%s", mustIndent(v)) }

func pinTanWant(f fv) []domain.PinTanBusinessTransaction {
	ids := f.T
	if f.K == "pins" {
		ids = f.T[2:]
	}
	var out []domain.PinTanBusinessTransaction
	for i, id := range ids {
		out = append(out, domain.PinTanBusinessTransaction{SegmentID: id, NeedsTan: f.Flag[i]})
	}
	return out
}

func sameAcks(got []domain.Acknowledgement, c segCase, kind string, msg domain.MessageReference) error {
	var want []domain.Acknowledgement
	for _, f := range c.F {
		a := domain.Acknowledgement{Type: kind, Code: f.N[0], ReferenceDataElement: f.T[0], Text: f.T[1], Params: normParams(f.T[2:]), ReferencingMessage: msg}
		if c.Ref >= 0 {
			a.ReferencingSegmentNumber = c.Ref
		}
		want = append(want, a)
	}
	for i := range got {
		got[i].Params = normParams(got[i].Params)
	}
	if len(got) == 0 {
		got = nil
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("acknowledgements: got %s, want %s", dump(got), dump(want))
	}
	return nil
}

// segCase is a bank segment: header and the values of its data elements.
type segCase struct {
	Seg string // ID:version
	Pos int
	Ref int // -1: none
	F   []fv
}

func (c segCase) wire() []byte {
	id, v := splitSeg(c.Seg)
	els := [][]byte{ref.Header(id, c.Pos, v, c.Ref)}
	for _, f := range c.F {
		els = append(els, f.wire())
	}
	return ref.Segment(els...)
}

func splitSeg(s string) (string, int) {
	for i := range s {
		if s[i] == ':' {
			return s[:i], atoi(s[i+1:])
		}
	}
	panic("harness: segment " + s)
}

type segSpec struct {
	seg string
	// fields are kinds; a trailing ? makes one optional, a trailing * a list
	// of 0-4 of them and a trailing + a list of 1-4.
	fields []string
	// value compares what callers read with what the bank sent.
	value func(u any, c segCase) error
	// lists do not come back element by element
	noRemarshal func(c segCase) bool
}

func text(a *element.AlphaNumericDataElement) string {
	if a == nil {
		return ""
	}
	return a.Val()
}

func numOf(n *element.NumberDataElement) int {
	if n == nil {
		return 0
	}
	return n.Val()
}

var balanceTail = []string{"an?", "cur?", "sdo", "sdo?", "btg?", "btg?", "btg?", "dat?", "tim?", "dat?"}

func balanceValue(sepa bool) func(any, segCase) error {
	return func(u any, c segCase) error {
		s := u.(segment.AccountBalanceResponse)
		if err := sameBalances(c, s.AccountBalance()); err != nil {
			return err
		}
		b, err := s.SepaAccountBalance()
		if !sepa {
			if err == nil {
				return fmt.Errorf("SEPA balance from a national balance")
			}
			return nil
		}
		if err != nil {
			return err
		}
		return sameSepaBalances(c, b)
	}
}

// bookedValue compares the raw content of a HIKAZ; what is booked there is
// decided by the facets on statements.
func bookedValue(u any, c segCase) error {
	v := reflect.Indirect(reflect.ValueOf(u))
	var booked, unbooked []byte
	if e := v.FieldByName("BookedTransactions").Interface().(*element.SwiftMT940DataElement); e != nil {
		booked = e.BinaryDataElement.Val()
	}
	if e := v.FieldByName("UnbookedTransactions").Interface().(*element.BinaryDataElement); e != nil {
		unbooked = e.Val()
	}
	return first(bytesEq("booked", booked, c.F[0].Data), bytesEq("unbooked", unbooked, c.F[1].Data), eq("statement set", u.(segment.AccountTransactionResponse).BookedSwiftTransactions() != nil, true))
}

func accountValue(u any, c segCase) error {
	return sameAccount(u.(segment.AccountInformation).Account(), c)
}

func wantAccount(c segCase) domain.AccountInformation {
	switch c.Seg {
	case "HIUPD:4":
		return accountInfo(c, 0, 1, 2, 3, 4, 5, 6, 7)
	case "HIUPD:5":
		return accountInfo(c, 0, 1, 3, 4, 5, 6, 7, 8)
	}
	return accountInfo(c, 0, 2, 4, 5, 6, 7, 8, 9)
}

func upaValue(u any, c segCase) error {
	want := domain.UserParameterData{UserID: c.F[0].str(), Version: c.F[1].num(), Usage: c.F[2].num()}
	if len(c.F) > 3 {
		want.UserName, want.Additions = c.F[3].str(), c.F[4].str()
	}
	return eq("user parameter data", u.(segment.CommonUserParameterData).UserParameterData(), want)
}

func bpaValue(u any, c segCase) error {
	f := c.F
	want := domain.BankParameterData{Version: f[0].num(), BankName: f[2].str(), MaxTransactionsPerMessage: f[3].num(), MaxMessageSize: f[6].num()}
	if !f[1].Off {
		want.BankID = domain.BankID{CountryCode: f[1].N[0], ID: f[1].T[0]}
	}
	if len(f) > 7 {
		want.MinTimeout, want.MaxTimeout = f[7].num(), f[8].num()
	}
	if got := u.(segment.CommonBankParameter).BankParameterData(); !reflect.DeepEqual(got, want) {
		return fmt.Errorf("bank parameter data: got %s, want %s", dump(got), dump(want))
	}
	return nil
}

func statusValue(u any, c segCase) error {
	return sameStatus(u.(segment.StatusProtocolResponse).Status(), c)
}

func sameStatus(got domain.StatusAcknowledgement, c segCase) error {
	f := c.F
	want := domain.Acknowledgement{Type: domain.MessageAcknowledgement}
	if a := f[4]; !a.Off {
		want.Code, want.ReferenceDataElement, want.Text, want.Params = a.N[0], a.T[0], a.T[1], normParams(a.T[2:])
	}
	if !f[0].Off {
		want.Type = domain.SegmentAcknowledgement
		want.ReferencingMessage = domain.MessageReference{DialogID: f[0].T[0], MessageNumber: f[0].N[0]}
		want.ReferencingSegmentNumber = f[1].num()
	}
	a := got.Acknowledgement
	a.Params = normParams(a.Params)
	if !reflect.DeepEqual(a, want) {
		return fmt.Errorf("status: got %s, want %s", dump(a), dump(want))
	}
	if f[2].Off {
		return eq("status without a date", got.TransmittedAt.IsZero(), true)
	}
	return sameMoment("transmitted", &got.TransmittedAt, f[2], f[3])
}

func syncValue(u any, c segCase) error {
	s := u.(segment.SynchronisationResponse)
	type sysID interface{ ClientSystemID() string }
	return first(eq("client system", u.(sysID).ClientSystemID(), c.F[0].str()), eq("message number", s.LastMessageNumber(), c.F[1].num()), eq("signature id", s.SignatureID(), c.F[2].num()))
}

func manyBTs(c segCase) bool {
	n := 0
	for _, f := range c.F {
		if f.K == "bt" {
			n++
		}
	}
	return n > 1
}

var segSpecs = []segSpec{
	{"HISAL:5", append([]string{"ktv"}, balanceTail...), balanceValue(false), nil},
	{"HISAL:6", append([]string{"ktv"}, balanceTail...), balanceValue(false), nil},
	{"HISAL:7", append([]string{"kti"}, balanceTail...), balanceValue(true), nil},
	{"HISAL:8", append(append([]string{"kti"}, balanceTail...), "btg?"), balanceValue(true), nil},
	{"HIKAZ:5", []string{"bin?", "bin?"}, bookedValue, nil},
	{"HIKAZ:6", []string{"bin?", "bin?"}, bookedValue, nil},
	{"HIKAZ:7", []string{"bin?", "bin?"}, bookedValue, nil},
	{"HIKIF:1", []string{"ktv", "num", "an", "an?", "an?", "cur", "dat?", "wrt?", "wrt?", "wrt?", "btg?", "ktv?", "num?", "num?", "txt?", "names?"}, func(u any, c segCase) error {
		s := u.(*segment.AccountInformationResponseSegment)
		f := c.F
		return first(eq("account", s.AccountConnection.Val(), f[0].account()), eq("kind", numOf(s.AccountKind), f[1].num()), eq("name", text(s.Name1), f[2].str()), eq("name 2", text(s.Name2), f[3].str()), eq("product", text(s.AccountProductID), f[4].str()))
	}, nil},
	{"HIKIM:2", []string{"an", "txt?"}, func(u any, c segCase) error {
		s := u.(*segment.BankAnnouncementSegment)
		body := ""
		if s.Body != nil {
			body = s.Body.Val()
		}
		return first(eq("subject", text(s.Subject), c.F[0].str()), eq("body", body, c.F[1].str()))
	}, nil},
	{"HIUPD:4", []string{"ktv", "id", "cur", "an", "an?", "an?", "lim?", "bt*"}, accountValue, manyBTs},
	{"HIUPD:5", []string{"ktv", "id", "num", "cur", "an", "an?", "an?", "lim?", "bt*"}, accountValue, manyBTs},
	{"HIUPD:6", []string{"ktv?", "an?", "id", "num?", "cur?", "an", "an?", "an?", "lim?", "bt*"}, accountValue, func(c segCase) bool { return true }},
	{"HIUPD:7", []string{"ktv?", "an?", "id", "num?", "cur?", "an", "an?", "an?", "lim?", "bt*"}, accountValue, func(c segCase) bool { return true }},
	{"HIUPA:2", []string{"id", "num", "num"}, upaValue, nil},
	{"HIUPA:3", []string{"id", "num", "num", "an?", "an?"}, upaValue, nil},
	{"HIUPA:4", []string{"id", "num", "num", "an?", "an?"}, upaValue, nil},
	{"HIBPA:2", []string{"num", "kik", "an", "num", "langs", "versions", "num?"}, bpaValue, nil},
	{"HIBPA:3", []string{"num", "kik", "an", "num", "langs", "versions", "num?", "num?", "num?"}, bpaValue, nil},
	{"HIKOM:3", []string{"kik", "num", "komm"}, func(u any, c segCase) error {
		s := u.(*segment.CommunicationAccessResponseSegment)
		k := s.CommunicationParams
		return first(eq("bank", s.BankID.Val(), domain.BankID{CountryCode: c.F[0].N[0], ID: c.F[0].T[0]}), eq("language", s.StandardLanguage.Val(), c.F[1].num()), eq("protocol", k.Protocol.Val(), c.F[2].N[0]), eq("address", k.Address.Val(), c.F[2].T[0]))
	}, nil},
	{"HIPRO:3", []string{"refmsg?", "num?", "dat", "tim?", "ack"}, statusValue, nil},
	{"HIPRO:4", []string{"refmsg?", "num?", "dat", "tim?", "ack"}, statusValue, nil},
	{"HIKPV:1", []string{"names"}, nil, nil},
	{"HISHV:2", []string{"jn", "method"}, nil, nil},
	{"HISYN:3", []string{"id?", "num?", "num?"}, syncValue, nil},
	{"HISYN:4", []string{"id?", "num?", "num?"}, syncValue, nil},
	{"HIPINS:1", []string{"num", "num", "num", "pins"}, func(u any, c segCase) error {
		if got, want := u.(segment.PinTanBankParameter).PinTanBusinessTransactions(), pinTanWant(c.F[3]); !reflect.DeepEqual(got, want) {
			return fmt.Errorf("PIN/TAN transactions: got %v, want %v", got, want)
		}
		return nil
	}, nil},
	{"DIPINS:1", []string{"num", "num", "dipins"}, func(u any, c segCase) error {
		if got, want := u.(segment.PinTanBusinessTransactionParams).PinTanBusinessTransactions(), pinTanWant(c.F[2]); !reflect.DeepEqual(got, want) {
			return fmt.Errorf("PIN/TAN transactions: got %v, want %v", got, want)
		}
		return nil
	}, nil},
	{"HITANS:6", []string{"num", "num", "num", "tan2"}, func(u any, c segCase) error {
		s := u.(*segment.TanBankParameterV6)
		var got, want []string
		for _, p := range s.Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
			q := p.(*element.Tan2StepSubmissionProcessParameterV6)
			got = append(got, q.SecurityFunction.Val())
		}
		f := c.F[3]
		for i := 0; i < len(f.N)/3; i++ {
			want = append(want, f.T[1+13*i])
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("security functions: got %v, want %v", got, want)
		}
		return first(eq("one step", s.Tan2StepSubmissionParameter.OneStepProcessAllowed.Val(), f.Flag[0]), eq("several jobs", s.Tan2StepSubmissionParameter.MoreThanOneObligatoryTanJobAllowed.Val(), f.Flag[1]))
	}, nil},
	{"HITAN:6", []string{"an", "bin?", "an?", "an?", "bin?", "an?", "expiry?"}, func(u any, c segCase) error {
		s := u.(*segment.TanResponseSegmentV6)
		return first(eq("process", text(s.TANProcess), c.F[0].str()), eq("job reference", text(s.JobReference), c.F[2].str()), eq("challenge", text(s.Challenge), c.F[3].str()), eq("medium", text(s.TANMediumDescription), c.F[5].str()))
	}, nil},
	{"HNHBK:3", []string{"dig12", "num", "an", "num", "refmsg?"}, func(u any, c segCase) error {
		s := u.(*segment.MessageHeaderSegment)
		want := domain.MessageReference{}
		if !c.F[4].Off {
			want = domain.MessageReference{DialogID: c.F[4].T[0], MessageNumber: c.F[4].N[0]}
		}
		return first(eq("size", s.Size.Val(), c.F[0].num()), eq("version", s.HBCIVersion.Val(), c.F[1].num()), eq("dialog", s.DialogID.Val(), c.F[2].str()), eq("number", s.Number.Val(), c.F[3].num()), eq("reference", s.ReferencingMessage(), want))
	}, nil},
	{"HNHBS:1", []string{"num"}, func(u any, c segCase) error {
		return eq("number", u.(*segment.MessageEndSegment).Number.Val(), c.F[0].num())
	}, nil},
	{"HNVSD:1", []string{"bin"}, func(u any, c segCase) error {
		return bytesEq("data", u.(*segment.EncryptedDataSegment).Data.Val(), c.F[0].Data)
	}, nil},
	{"HNVSK:2", []string{"num", "num", "secid", "secdate", "enc", "key", "num"}, nil, nil},
	{"HNVSK:3", []string{"secprof", "num", "num", "secid", "secdate", "enc", "key", "num"}, nil, nil},
	{"HNSHK:3", []string{"num", "an", "num", "num", "secid", "num", "secdate", "hash", "sig", "key"}, nil, nil},
	{"HNSHK:4", []string{"secprof", "num", "an", "num", "num", "secid", "num", "secdate", "hash", "sig", "key"}, nil, nil},
	{"HNSHA:1", []string{"an", "bin?", "pintan?"}, nil, nil},
	{"HNSHA:2", []string{"an", "bin?", "pintan?"}, nil, nil},
	{"HIRMG:2", []string{"ack+"}, func(u any, c segCase) error {
		s := u.(*segment.MessageAcknowledgement)
		m := domain.MessageReference{DialogID: "dlg", MessageNumber: 3}
		s.SetReferencingMessage(m)
		return sameAcks(s.Acknowledgements(), c, domain.MessageAcknowledgement, m)
	}, nil},
	{"HIRMS:2", []string{"ack+"}, func(u any, c segCase) error {
		s := u.(*segment.SegmentAcknowledgement)
		m := domain.MessageReference{DialogID: "dlg", MessageNumber: 3}
		s.SetReferencingMessage(m)
		return sameAcks(s.Acknowledgements(), c, domain.SegmentAcknowledgement, m)
	}, nil},
}

var segByName = map[string]segSpec{}

func genSegment(t *rapid.T, spec segSpec) segCase {
	c := segCase{Seg: spec.seg, Pos: rapid.IntRange(1, 999).Draw(t, "pos"), Ref: -1}
	if rapid.Bool().Draw(t, "ref") || spec.seg == "HIRMS:2" {
		c.Ref = rapid.IntRange(1, 99).Draw(t, "refnum")
	}
	for _, k := range spec.fields {
		switch last := k[len(k)-1]; last {
		case '?':
			if rapid.IntRange(0, 3).Draw(t, "absent") == 0 {
				c.F = append(c.F, fv{K: k[:len(k)-1], Off: true})
				continue
			}
			c.F = append(c.F, genField(t, k[:len(k)-1]))
		case '*', '+':
			min := 0
			if last == '+' {
				min = 1
			}
			for i, n := 0, rapid.IntRange(min, 4).Draw(t, "n"); i < n; i++ {
				c.F = append(c.F, genField(t, k[:len(k)-1]))
			}
		default:
			c.F = append(c.F, genField(t, k))
		}
	}
	return c
}

// remarshal writes a decoded segment again.
func remarshal(u any) ([]byte, bool, error) {
	if m, ok := u.(segment.Marshaler); ok {
		b, err := m.MarshalHBCI()
		return b, true, err
	}
	// bank segments embed what was decoded
	v := reflect.Indirect(reflect.ValueOf(u))
	if v.Kind() != reflect.Struct {
		return nil, false, nil
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Anonymous && v.Field(i).CanInterface() {
			if m, ok := v.Field(i).Interface().(segment.Marshaler); ok {
				b, err := m.MarshalHBCI()
				return b, true, err
			}
		}
	}
	return nil, false, nil
}

func init() {
	for _, s := range segSpecs {
		segByName[s.seg] = s
	}
	pbt.Add(pbt.Spec[segCase]{
		Prop: "C04", Name: "segments", Quick: 180000, Thorough: 3000000,
		Rule: fmt.Sprintf("one of %d bank segments and versions, every optional element present or absent, any element content, through the segment registry; accessors and re-marshalled bytes are compared with what was sent; non-trivial: all (labelled by segment, absent elements and delimiters in content)", len(segSpecs)),
		Gen: func(t *rapid.T) segCase {
			return genSegment(t, rapid.SampledFrom(segSpecs).Draw(t, "segment"))
		},
		Classify: func(c segCase) []string {
			l := []string{c.Seg}
			var ss []string
			for _, f := range c.F {
				if f.Off {
					l = append(l, "absent-element")
					break
				}
			}
			for _, f := range c.F {
				ss = append(ss, f.T...)
			}
			return append(l, textLabels(ss...)...)
		},
		Check: func(c segCase) error {
			spec := segByName[c.Seg]
			id, version := splitSeg(c.Seg)
			wire := c.wire()
			vs := segment.VersionedSegment{ID: id, Version: version}
			u, err := segment.KnownSegments.UnmarshalerForSegment(vs)
			if err != nil {
				return err
			}
			other, err := segment.KnownSegments.UnmarshalerForSegment(vs)
			if err != nil {
				return err
			}
			in := append([]byte{}, wire...)
			if err := u.UnmarshalHBCI(in); err != nil {
				return fmt.Errorf("unmarshal %q: %v", wire, err)
			}
			if err := bytesEq("input after unmarshal", in, wire); err != nil {
				return err
			}
			// another segment of the kind does not disturb this one
			decoy := append([]byte{}, wire...)
			other.UnmarshalHBCI(decoy)
			seg, ok := u.(segment.Segment)
			if !ok {
				return fmt.Errorf("not a segment: %T", u)
			}
			h := seg.Header()
			if err := first(eq("id", h.ID.Val(), id), eq("version", h.Version.Val(), version), eq("position", h.Position.Val(), c.Pos), eq("reference", h.ReferencingSegment(), c.Ref)); err != nil {
				return err
			}
			if spec.value != nil {
				if err := spec.value(u, c); err != nil {
					return fmt.Errorf("%q: %w", wire, err)
				}
			}
			if spec.noRemarshal != nil && spec.noRemarshal(c) {
				return nil
			}
			again, ok, err := remarshal(u)
			if err != nil {
				return fmt.Errorf("marshal of the decoded %q: %v", wire, err)
			}
			if !ok {
				return nil
			}
			pbt.Note("remarshalled")
			return bytesEq("marshal of the decoded segment", again, wire)
		},
	})
}
