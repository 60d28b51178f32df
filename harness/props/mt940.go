package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// An account statement as a bank writes it into an MT940 message.
type (
	mtStmt struct {
		JobRef     string
		Ref        string `json:",omitempty"` // "": no :21:
		BLZ, Acct  string
		Num, Sheet int // Sheet -1: none
		OpenKind   string
		Open       mtBal
		Txs        []mtTx
		CloseKind  string
		Close      mtBal
		Cur, Fut   *mtBal    `json:",omitempty"`
		Note       *mtCustom `json:",omitempty"`
	}
	mtBal struct {
		Neg   bool `json:",omitempty"`
		Day   int
		Curr  string
		Cents int64
		Short bool    `json:",omitempty"` // write no trailing zeros
		Text  *string `json:",omitempty"` // written instead of the amount
	}
	mtTx struct {
		Valuta int
		Booked int // 0: none
		Mark   string
		Kind   string `json:",omitempty"`
		Cents  int64
		Short  bool    `json:",omitempty"`
		Text   *string `json:",omitempty"` // written instead of the amount
		Key    string
		Ref    string
		Bank   *string   `json:",omitempty"`
		Info   *string   `json:",omitempty"`
		Custom *mtCustom `json:",omitempty"`
	}
	mtCustom struct {
		GVC      int
		Text     *string  `json:",omitempty"`
		Prima    *string  `json:",omitempty"`
		Purpose  []string `json:",omitempty"`
		Bank     *string  `json:",omitempty"`
		Acct     *string  `json:",omitempty"`
		Name     *string  `json:",omitempty"`
		Name2    *string  `json:",omitempty"`
		KeyAdd   int      // -1: none
		Purpose2 []string `json:",omitempty"`
		Wrap     int      `json:",omitempty"` // line length, 0: one line
		Free     bool     `json:",omitempty"` // the first purpose is all there is, without a key
		Order    []int    `json:",omitempty"` // in which the fields are written
	}
)

func mtAmount(cents int64, short bool) string {
	s := fmt.Sprintf("%d,%02d", cents/100, cents%100)
	if short {
		s = strings.TrimSuffix(strings.TrimSuffix(s, "0"), "0")
	}
	return s
}

func writtenAmount(text *string, cents int64, short bool) string {
	if text != nil {
		return *text
	}
	return mtAmount(cents, short)
}

func (b mtBal) wire() string {
	mark := "C"
	if b.Neg {
		mark = "D"
	}
	return fmt.Sprintf("%s%06d%s%s", mark, b.Day%1000000, b.Curr, writtenAmount(b.Text, b.Cents, b.Short))
}

func (b mtBal) value() domain.Balance {
	a := amt(b.Cents)
	if b.Neg {
		a = -a
	}
	return domain.Balance{Amount: domain.Amount{Amount: a, Currency: b.Curr}, TransmissionDate: dayOf(b.Day)}
}

func (x mtTx) wire() string {
	s := fmt.Sprintf("%06d", x.Valuta%1000000)
	if x.Booked != 0 {
		s += fmt.Sprintf("%04d", x.Booked%10000)
	}
	s += x.Mark + x.Kind + writtenAmount(x.Text, x.Cents, x.Short) + "N" + x.Key + x.Ref
	if x.Bank != nil {
		s += "//" + *x.Bank
	}
	if x.Info != nil {
		s += "\r\n/" + *x.Info
	}
	return s
}

func (c mtCustom) wire() string {
	var sb strings.Builder
	var parts []string
	field := func(key string, v *string) {
		if v != nil {
			parts = append(parts, "?"+key+*v)
		}
	}
	field("00", c.Text)
	field("10", c.Prima)
	if c.Free {
		sb.WriteString(c.Purpose[0])
	}
	for i := range c.Purpose {
		if c.Free {
			break
		}
		field(fmt.Sprint(20+i), &c.Purpose[i])
	}
	field("30", c.Bank)
	field("31", c.Acct)
	field("32", c.Name)
	field("33", c.Name2)
	if c.KeyAdd >= 0 {
		s := fmt.Sprintf("%03d", c.KeyAdd)
		field("34", &s)
	}
	for i := range c.Purpose2 {
		field(fmt.Sprint(60+i), &c.Purpose2[i])
	}
	if len(c.Order) > 0 && !c.Free {
		// the parts of the name, the purpose and the additions stay in order
		sort.SliceStable(parts, func(i, j int) bool {
			return c.Order[int(parts[i][1]-'0')*2+c.pos(parts[i])] < c.Order[int(parts[j][1]-'0')*2+c.pos(parts[j])]
		})
	}
	sb.WriteString(strings.Join(parts, ""))
	body := []rune(sb.String())
	out := fmt.Sprintf("%03d", c.GVC)
	line := 3
	for i, r := range body {
		// a line starting like a tag or the end of the message would not
		// belong to the field any more
		last := i+1 == len(body)
		boundary := r == ':' && (last || '0' <= body[i+1] && body[i+1] <= '9') || r == '-' && (last || body[i+1] == ':')
		if c.Wrap > 0 && line >= c.Wrap && !boundary && i > 0 {
			out += "\r\n"
			line = 0
		}
		out += string(r)
		line++
	}
	return out
}

// pos tells bank, account and key addition from the name.
func (c mtCustom) pos(part string) int {
	if part[1] == '3' && part[2] != '2' && part[2] != '3' {
		return 1
	}
	return 0
}

func (s mtStmt) wire() []byte {
	var sb strings.Builder
	tag := func(id, v string) { sb.WriteString("\r\n:" + id + ":" + v) }
	tag("20", s.JobRef)
	if s.Ref != "" {
		tag("21", s.Ref)
	}
	tag("25", s.BLZ+"/"+s.Acct)
	num := fmt.Sprintf("%05d", s.Num)
	if s.Sheet >= 0 {
		num += fmt.Sprintf("/%03d", s.Sheet)
	}
	tag("28C", num)
	tag("60"+s.OpenKind, s.Open.wire())
	for _, x := range s.Txs {
		tag("61", x.wire())
		if x.Custom != nil {
			tag("86", x.Custom.wire())
		}
	}
	tag("62"+s.CloseKind, s.Close.wire())
	if s.Cur != nil {
		tag("64", s.Cur.wire())
	}
	if s.Fut != nil {
		tag("65", s.Fut.wire())
	}
	if s.Note != nil {
		tag("86", s.Note.wire())
	}
	sb.WriteString("\r\n-")
	return ref.Latin1(sb.String())
}

func strOf(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func (c mtCustom) name() string {
	if c.Name2 != nil {
		return strOf(c.Name) + " " + *c.Name2
	}
	return strOf(c.Name)
}

func (x mtTx) amount() float64 {
	// C and RD (reversal of debit) add to the account, D and RC take from it
	if x.Mark == "D" || x.Mark == "RC" {
		return -amt(x.Cents)
	}
	return amt(x.Cents)
}

// transactions are what the account holder should see.
func (s mtStmt) transactions() []domain.AccountTransaction {
	var out []domain.AccountTransaction
	for _, x := range s.Txs {
		t := domain.AccountTransaction{
			Account:              domain.AccountConnection{BankID: s.BLZ, AccountID: s.Acct, CountryCode: 280},
			Amount:               domain.Amount{Amount: x.amount(), Currency: s.Open.Curr},
			ValutaDate:           dayOf(x.Valuta),
			AccountBalanceBefore: s.Open.value(),
			AccountBalanceAfter:  s.Close.value(),
		}
		if x.Booked != 0 {
			t.BookingDate = dayOf(x.Booked)
		}
		if c := x.Custom; c != nil {
			t.BookingText = strOf(c.Text)
			t.BankID = strOf(c.Bank)
			t.AccountID = strOf(c.Acct)
			t.Name = c.name()
			t.Purpose = strings.Join(c.Purpose, " ")
			t.Purpose2 = strings.Join(c.Purpose2, " ")
			t.TransactionID = c.GVC
		}
		out = append(out, t)
	}
	return out
}

// mtText generates free text of a statement. Delimiters of the field are left
// out where they would make the text ambiguous.
func mtText(min, max int, exclude string) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		var sb []rune
		for i, n := 0, rapid.IntRange(min, max).Draw(t, "n"); i < n; i++ {
			var r rune
			switch rapid.IntRange(0, 9).Draw(t, "k") {
			case 0, 1:
				r = rapid.SampledFrom([]rune("+:'?@/,-.()&")).Draw(t, "sym")
			case 2:
				r = rapid.SampledFrom([]rune("äöüÄÖÜß§é")).Draw(t, "latin")
			case 3, 4:
				r = rapid.SampledFrom([]rune("0123456789")).Draw(t, "digit")
			case 5:
				r = ' '
			default:
				r = rune(rapid.IntRange('A', 'z').Draw(t, "letter"))
			}
			if strings.ContainsRune(exclude, r) {
				r = 'X'
			}
			if len(sb) > 0 && sb[len(sb)-1] == '?' && r >= '0' && r <= '9' {
				r = 'Y' // not a field key
			}
			if len(sb) > 0 && sb[len(sb)-1] == '/' && r == '/' {
				r = 'Z' // not a bank reference
			}
			sb = append(sb, r)
		}
		return string(sb)
	})
}

func maybe(t *rapid.T, g *rapid.Generator[string], label string) *string {
	if rapid.IntRange(0, 2).Draw(t, "has "+label) == 0 {
		return nil
	}
	s := g.Draw(t, label)
	return &s
}

func genCustom(t *rapid.T) *mtCustom {
	c := &mtCustom{GVC: rapid.IntRange(0, 999).Draw(t, "gvc"), KeyAdd: -1}
	if rapid.IntRange(0, 7).Draw(t, "structured") == 1 {
		c.Free = true
		c.Purpose = []string{mtText(1, rapid.SampledFrom([]int{5, 60, 380}).Draw(t, "most"), "?").Draw(t, "free")}
		c.Wrap = rapid.SampledFrom([]int{0, 65, 65, 10}).Draw(t, "wrap")
		return c
	}
	c.Text = maybe(t, mtText(0, 27, ""), "text")
	c.Prima = maybe(t, mtText(1, 10, ""), "prima")
	c.Purpose = rapid.SliceOfN(mtText(0, 27, ""), 0, 10).Draw(t, "purpose")
	c.Bank = maybe(t, mtText(1, 12, ""), "bank")
	c.Acct = maybe(t, mtText(1, 24, ""), "acct")
	if c.Name = maybe(t, mtText(1, 27, ""), "name"); c.Name != nil {
		c.Name2 = maybe(t, mtText(1, 27, ""), "name2")
	}
	if rapid.Bool().Draw(t, "keyadd") {
		c.KeyAdd = rapid.IntRange(0, 999).Draw(t, "key")
	}
	c.Purpose2 = rapid.SliceOfN(mtText(0, 27, ""), 0, 4).Draw(t, "purpose2")
	if rapid.IntRange(0, 4).Draw(t, "ordered") == 3 {
		c.Order = rapid.SliceOfN(rapid.IntRange(0, 99), 20, 20).Draw(t, "order")
	}
	if rapid.IntRange(0, 2).Draw(t, "wrapped") > 0 {
		c.Wrap = rapid.SampledFrom([]int{65, 65, 27, 10, 4}).Draw(t, "wrap")
	}
	return c
}

func genMtBal(t *rapid.T, cur string) mtBal {
	c := cents(1e11).Draw(t, "cents")
	return mtBal{Neg: c != 0 && rapid.Bool().Draw(t, "neg"), Day: mtDay(t), Curr: cur, Cents: c, Short: rapid.Bool().Draw(t, "short")}
}

func mtDay(t *rapid.T) int {
	if rapid.IntRange(0, 39).Draw(t, "endOfFebruary") == 11 {
		// banks count interest with months of 30 days
		return rapid.IntRange(2000, 2060).Draw(t, "year")*10000 + rapid.IntRange(229, 230).Draw(t, "day")
	}
	return dayInt(genDate(2000, 2060).Draw(t, "day"))
}

func genStmt(t *rapid.T) mtStmt {
	alnum := func(min, max int) *rapid.Generator[string] {
		return rapid.StringOfN(rapid.RuneFrom([]rune("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")), min, max, -1)
	}
	cur := genCurrency().Draw(t, "currency")
	s := mtStmt{
		JobRef: mtText(1, 16, "?").Draw(t, "jobref"), BLZ: alnum(1, 11).Draw(t, "blz"), Acct: alnum(1, 23).Draw(t, "acct"),
		Num: rapid.IntRange(0, 99999).Draw(t, "num"), Sheet: rapid.IntRange(-1, 999).Draw(t, "sheet"),
		OpenKind: rapid.SampledFrom([]string{"F", "M"}).Draw(t, "ok"), CloseKind: rapid.SampledFrom([]string{"F", "M"}).Draw(t, "ck"),
		Open: genMtBal(t, cur), Close: genMtBal(t, cur),
	}
	if rapid.Bool().Draw(t, "hasRef") {
		s.Ref = mtText(1, 16, "?").Draw(t, "ref")
	}
	s.Txs = fewOrMany(t, rapid.Custom(genMtTx), 0, 4, 120)
	if rapid.IntRange(0, 2).Draw(t, "cur") == 0 {
		b := genMtBal(t, cur)
		s.Cur = &b
	}
	if rapid.IntRange(0, 2).Draw(t, "fut") == 0 {
		b := genMtBal(t, cur)
		s.Fut = &b
	}
	if rapid.IntRange(0, 3).Draw(t, "note") == 0 {
		s.Note = genCustom(t)
	}
	return s
}

func genMtTx(t *rapid.T) mtTx {
	x := mtTx{Valuta: mtDay(t), Mark: rapid.SampledFrom([]string{"C", "D", "RC", "RD"}).Draw(t, "mark"),
		Cents: cents(1e11).Draw(t, "cents"), Short: rapid.Bool().Draw(t, "short"), Ref: rapid.OneOf(rapid.Just("NONREF"), mtText(1, 16, "?")).Draw(t, "ref")}
	if rapid.IntRange(0, 3).Draw(t, "booked") > 0 {
		off := rapid.OneOf(rapid.IntRange(-3, 3), rapid.IntRange(-45, 45)).Draw(t, "off")
		x.Booked = dayInt(dayOf(x.Valuta).AddDate(0, 0, off))
		if m := x.Valuta / 100 % 100; (m == 2 || m == 3) && rapid.IntRange(0, 9).Draw(t, "endOfFebruary") == 7 {
			x.Booked = x.Valuta/10000*10000 + 230
		}
	}
	if rapid.Bool().Draw(t, "kind") {
		x.Kind = rapid.SampledFrom([]string{"R", "F", "D"}).Draw(t, "k")
	}
	x.Key = rapid.StringOfN(rapid.RuneFrom([]rune("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")), 3, 3, -1).Draw(t, "key")
	// the parts of the reference are delimited by // and a line starting with /
	if strings.HasSuffix(x.Ref, "/") {
		x.Ref = x.Ref[:len(x.Ref)-1] + "."
	}
	x.Bank = maybe(t, mtText(1, 16, "?/"), "bankref")
	x.Info = maybe(t, mtText(1, 34, "?"), "info")
	if rapid.IntRange(0, 4).Draw(t, "custom") > 0 {
		x.Custom = genCustom(t)
	}
	return x
}

// genBookings generates consecutive statements.
func genBookings(t *rapid.T, min, max int) []mtStmt {
	return fewOrMany(t, rapid.Custom(genStmt), min, max, 15)
}

func mtData(ss []mtStmt) []byte {
	var out bytes.Buffer
	for _, s := range ss {
		out.Write(s.wire())
	}
	return out.Bytes()
}

func mtTransactions(ss []mtStmt) []domain.AccountTransaction {
	var out []domain.AccountTransaction
	for _, s := range ss {
		out = append(out, s.transactions()...)
	}
	return out
}

// sameTransactions compares what was read with what was booked.
func sameTransactions(got, want []domain.AccountTransaction) error {
	if len(got) != len(want) {
		return fmt.Errorf("got %d transactions, want %d", len(got), len(want))
	}
	for i := range want {
		g, w := got[i], want[i]
		for _, d := range []struct {
			what string
			g, w time.Time
		}{{"valuta", g.ValutaDate, w.ValutaDate}, {"booking date", g.BookingDate, w.BookingDate},
			{"opening day", g.AccountBalanceBefore.TransmissionDate, w.AccountBalanceBefore.TransmissionDate},
			{"closing day", g.AccountBalanceAfter.TransmissionDate, w.AccountBalanceAfter.TransmissionDate}} {
			if d.w.IsZero() != d.g.IsZero() || !d.w.IsZero() && !sameDate(d.g, d.w) {
				return fmt.Errorf("transaction %d: %s: got %v, want %v", i, d.what, d.g, d.w)
			}
		}
		same := func(t domain.AccountTransaction) domain.AccountTransaction {
			t.ValutaDate, t.BookingDate, t.AccountBalanceBefore.TransmissionDate, t.AccountBalanceAfter.TransmissionDate = time.Time{}, time.Time{}, time.Time{}, time.Time{}
			return t
		}
		if g, w := same(g), same(w); g != w {
			return fmt.Errorf("transaction %d: got %s, want %s", i, dump(g), dump(w))
		}
	}
	return nil
}
