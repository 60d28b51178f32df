package props

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/swift"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

// lineEdit damages a statement line by line.
type lineEdit struct {
	Op   string
	At   int
	N    int    `json:",omitempty"`
	Text []byte `json:",omitempty"`
}

var (
	lineOps   = []string{"setLine", "dropLine", "dupLine", "swapLines", "cutLine", "setText", "setText", "set", "del", "ins", "cut"}
	lineTexts = [][]byte{nil, []byte(":20:"), []byte(":20"), []byte(":"), []byte("::"), []byte(":25:1"), []byte(":25:1/2/3"), []byte(":28C:/"), []byte(":28C:x"), []byte(":60F:"), []byte(":60F:C"), []byte(":60F:C240101EUR"), []byte(":60F:C240101EURNaN"), []byte(":62F:D240101EURInf"),
		[]byte(":62F:C240101EUR-1,00"), []byte(":62M:C240230EUR1,"), []byte(":64:C2401"), []byte(":61:"), []byte(":61:240101"), []byte(":61:2401010102"), []byte(":61:240101C1,"), []byte(":61:240101C1,N"), []byte(":61:240101CR1,NTRF"), []byte(":61:240101R1,NTRFx"), []byte(":61:2402300230D1,NTRF//\r\n/"),
		[]byte(":61:240101C1e9NTRFx"), []byte(":61:240101C0x1p4NTRFx"), []byte(":61:240101C1_0NTRFx"), []byte(":61:2401010101C1,1,1NTRFx"), []byte(":61:24010101ü1,NTRF"), []byte(":86:"), []byte(":86:1"), []byte(":86:999"), []byte(":86:abc"), []byte(":86:999?20"), []byte(":86:999?34?34x"), []byte(":86:999?60?00?20"), []byte("-"), []byte("-\r\n-"), []byte(":99X:"), []byte(":5:"), []byte(":1AB:x"), []byte("?"), []byte("\x00"), []byte("\r"), []byte("\n"), []byte("\r\n")}
)

func genLineEdit(t *rapid.T) lineEdit {
	e := lineEdit{Op: rapid.SampledFrom(lineOps).Draw(t, "op"), At: rapid.IntRange(0, 600).Draw(t, "at")}
	switch e.Op {
	case "swapLines", "del", "cutLine", "setText":
		e.N = rapid.IntRange(0, 20).Draw(t, "n")
	}
	switch e.Op {
	case "setLine", "setText", "set", "ins":
		e.Text = rapid.OneOf(rapid.SampledFrom(lineTexts), rapid.SampledFrom(fieldTexts), rapid.SliceOfN(rapid.Byte(), 0, 6)).Draw(t, "text")
	}
	return e
}

func (e lineEdit) apply(data []byte) []byte {
	if len(data) == 0 {
		return append(data, e.Text...)
	}
	sep := []byte("\r\n")
	lines := bytes.Split(data, sep)
	i := e.At % len(lines)
	switch e.Op {
	case "setLine":
		lines[i] = e.Text
	case "dropLine":
		lines = append(lines[:i:i], lines[i+1:]...)
	case "dupLine":
		lines = append(append(lines[:i:i], lines[i]), lines[i:]...)
	case "swapLines":
		j := (i + e.N) % len(lines)
		lines[i], lines[j] = lines[j], lines[i]
	case "cutLine":
		lines[i] = lines[i][:min(e.N, len(lines[i]))]
	case "setText":
		n := min(e.N, len(lines[i]))
		lines[i] = append(append(append([]byte{}, lines[i][:n]...), e.Text...), lines[i][min(len(lines[i]), n+len(e.Text)):]...)
	default:
		return edit(e).apply(data)
	}
	return bytes.Join(lines, sep)
}

// sane tells whether bookings could be what a bank booked.
func sane(txs []domain.AccountTransaction) error {
	for i, x := range txs {
		for _, a := range []float64{x.Amount.Amount, x.AccountBalanceBefore.Amount.Amount, x.AccountBalanceAfter.Amount.Amount} {
			if math.IsNaN(a) || math.IsInf(a, 0) {
				return fmt.Errorf("transaction %d holds the amount %v", i, a)
			}
		}
		_, _ = x.ValutaDate.MarshalText()
		_ = x.BookingDate.Format(time.RFC3339)
	}
	return nil
}

var (
	bookingTag = regexp.MustCompile("\r\n:61:")
	bookedSum  = regexp.MustCompile("^[0-9]{6}(?:[0-9]{4})?(R?[CD])[A-Z]?([0-9]+(?:,[0-9]*)?)N")
)

// complete tells whether bookings read from data are all that are there, with
// the sums that are there.
func complete(data []byte, txs []domain.AccountTransaction) error {
	tags := bookingTag.FindAllIndex(data, -1)
	if len(tags) != len(txs) {
		return fmt.Errorf("%d bookings, but %d were read from %q", len(tags), len(txs), data)
	}
	for i, at := range tags {
		m := bookedSum.FindSubmatch(data[at[1]:])
		if m == nil {
			continue
		}
		want, err := strconv.ParseFloat(strings.Replace(string(m[2]), ",", ".", 1), 64)
		if err != nil {
			return err
		}
		if mark := string(m[1]); mark == "D" || mark == "RC" {
			want = -want
		}
		if got := txs[i].Amount.Amount; got != want {
			return fmt.Errorf("booking %d: %q was read as %v", i, m[0], got)
		}
	}
	return nil
}

// noAmounts are texts that are no amount.
var noAmounts = []string{"", "1,,0", "1,2,3", "1x0", "NaN", "Inf", "1e9", ",", ".", "0x1p4", "1_0", "-1,00", "+1,00", "1 000,00", " 1,00", "1.000.000,00", "1.000,00", "zwoelf", "1,0O"}

type noAmount struct {
	Stmts []mtStmt
	S, T  int    // which statement, which amount of it
	Text  string // what stands instead
}

// damaged writes the statements with one amount replaced and tells what kind it
// is.
func (n noAmount) damaged() ([]byte, string) {
	s := n.Stmts[n.S%len(n.Stmts)]
	kinds := []string{"opening", "closing"}
	for range s.Txs {
		kinds = append(kinds, "booking")
	}
	if s.Cur != nil {
		kinds = append(kinds, "current")
	}
	if s.Fut != nil {
		kinds = append(kinds, "future")
	}
	at := n.T % len(kinds)
	s.Txs = append([]mtTx{}, s.Txs...)
	switch kinds[at] {
	case "opening":
		s.Open.Text = &n.Text
	case "closing":
		s.Close.Text = &n.Text
	case "current":
		b := *s.Cur
		b.Text, s.Cur = &n.Text, &b
	case "future":
		b := *s.Fut
		b.Text, s.Fut = &n.Text, &b
	default:
		if n.Text == "" {
			n.Text = "?" // what follows could be taken for an amount
		}
		s.Txs[at-2].Text = &n.Text
	}
	all := append([]mtStmt{}, n.Stmts...)
	all[n.S%len(n.Stmts)] = s
	return mtData(all), kinds[at]
}

// badPart is a statement with one wrong part.
type badPart struct {
	Stmts []mtStmt
	S, N  int // which statement, which of its parts
	Kind  string
	Text  string
	Mark  string `json:",omitempty"`
}

var (
	badParts = []string{"no account", "no opening balance", "no closing balance", "account", "number", "opening date", "closing date", "valuta date", "booking date", "code", "mark", "opening mark", "closing mark"}
	partTag  = regexp.MustCompile("\r\n:([0-9]{2}[A-Z]?):")
)

func (b badPart) damaged() ([]byte, bool) {
	at := b.S % len(b.Stmts)
	tag := map[string]string{"no account": "25", "account": "25", "number": "28", "no opening balance": "60", "opening date": "60", "no closing balance": "62", "closing date": "62", "valuta date": "61", "booking date": "61", "mark": "61", "opening mark": "60", "closing mark": "62", "code": "86"}[b.Kind]
	w := b.Stmts[at].wire()
	var places [][]int
	for _, m := range partTag.FindAllSubmatchIndex(w, -1) {
		if string(w[m[2]:m[2]+2]) != tag {
			continue
		}
		if b.Kind == "booking date" && (w[m[1]+6] < '0' || w[m[1]+6] > '9') {
			continue // none is written
		}
		places = append(places, m)
	}
	if len(places) == 0 {
		return nil, false
	}
	m := places[b.N%len(places)]
	end := len(w) - len("\r\n-")
	if n := partTag.FindIndex(w[m[1]:]); n != nil {
		end = m[1] + n[0]
	}
	head, body, tail := string(w[:m[1]]), string(w[m[1]:end]), string(w[end:])
	switch b.Kind {
	case "no account", "no opening balance", "no closing balance":
		head, body = string(w[:m[0]]), ""
	case "account":
		body = strings.Replace(body, "/", "", 1)
	case "number":
		body = "x" + body[1:]
	case "opening date", "closing date":
		body = body[:1] + b.Text + body[7:]
	case "valuta date":
		body = b.Text + body[6:]
	case "booking date":
		date := b.Text[2:]
		if date == "0101" {
			date = "01O1"
		}
		body = body[:6] + date + body[10:]
	case "code":
		body = "a" + body[1:]
	case "mark":
		i := strings.IndexAny(body, "CDR")
		body = body[:i] + b.Mark + strings.TrimLeft(body[i:], "CDRF")
	case "opening mark", "closing mark":
		body = b.Mark + body[1:]
	}
	all := append([]mtStmt{}, b.Stmts...)
	return append(append(append(append([]byte{}, mtData(all[:at])...), head...), body+tail...), mtData(all[at+1:])...), true
}

type (
	badStatement struct {
		Stmts []mtStmt
		Edits []lineEdit
	}
	cutStatement struct {
		Stmts []mtStmt
		At    int
	}
	badTag struct {
		Kind  int
		Parts [][]byte
	}
)

var tagReaders = []func() interface{ Unmarshal([]byte) error }{
	func() interface{ Unmarshal([]byte) error } { return &swift.AlphaNumericTag{} },
	func() interface{ Unmarshal([]byte) error } { return &swift.NumberTag{} },
	func() interface{ Unmarshal([]byte) error } { return &swift.FloatTag{} },
	func() interface{ Unmarshal([]byte) error } { return &swift.AccountTag{} },
	func() interface{ Unmarshal([]byte) error } { return &swift.StatementNumberTag{} },
	func() interface{ Unmarshal([]byte) error } { return &swift.BalanceTag{} },
	func() interface{ Unmarshal([]byte) error } { return &swift.TransactionTag{} },
	func() interface{ Unmarshal([]byte) error } { return &swift.CustomFieldTag{} },
	func() interface{ Unmarshal([]byte) error } { return &swift.MT940{} },
}

func genLineEdits(t *rapid.T) []lineEdit {
	return rapid.SliceOfN(rapid.Custom(genLineEdit), 1, rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "most")).Draw(t, "edits")
}

func init() {
	pbt.Add(pbt.Spec[badStatement]{
		Prop: "C07", Name: "statements", Quick: 60000, Thorough: 4000000,
		Rule: "0-3 valid statements with one to four edits (lines replaced, dropped, repeated, exchanged, cut, bytes changed): an error or bookings with finite amounts, never a panic; non-trivial: all",
		Gen: func(t *rapid.T) badStatement {
			return badStatement{genBookings(t, 0, 3), genLineEdits(t)}
		},
		Classify: func(b badStatement) []string {
			var out []string
			for _, e := range b.Edits {
				out = append(out, "edit-"+e.Op)
			}
			return out
		},
		Check: func(b badStatement) error {
			data := mtData(b.Stmts)
			for _, e := range b.Edits {
				data = e.apply(data)
			}
			txs, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(data)
			if err != nil {
				_ = err.Error()
				pbt.Note("refused")
				return nil
			}
			pbt.Note("read")
			if len(txs) > 0 {
				pbt.Note("bookings")
			}
			return first(sane(txs), complete(data, txs))
		},
	})
	pbt.Add(pbt.Spec[noAmount]{
		Prop: "C07", Name: "amounts", Quick: 20000, Thorough: 1500000,
		Rule: "1-3 valid statements in which one booking or balance carries a text that is no amount: an error; non-trivial: all (labelled by which amount)",
		Gen: func(t *rapid.T) noAmount {
			return noAmount{genBookings(t, 1, 3), rapid.IntRange(0, 40).Draw(t, "statement"), rapid.IntRange(0, 150).Draw(t, "amount"), rapid.SampledFrom(noAmounts).Draw(t, "text")}
		},
		Classify: func(n noAmount) []string {
			_, kind := n.damaged()
			return []string{kind, fmt.Sprintf("text-%q", n.Text)}
		},
		Check: func(n noAmount) error {
			data, kind := n.damaged()
			txs, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(data)
			if err == nil {
				return fmt.Errorf("no error for the %s amount %q, but %d bookings from %q", kind, n.Text, len(txs), data)
			}
			_ = err.Error()
			return nil
		},
	})
	pbt.Add(pbt.Spec[badPart]{
		Prop: "C07", Name: "parts", Quick: 20000, Thorough: 1500000,
		Rule: "1-3 valid statements, with and without bookings, one of which lacks its account or a balance, or has an account, number, date, debit/credit mark or business code that is none: an error; non-trivial: all (labelled by what is wrong)",
		Gen: func(t *rapid.T) badPart {
			b := badPart{Stmts: genBookings(t, 1, 3), S: rapid.IntRange(0, 40).Draw(t, "statement"), N: rapid.IntRange(0, 150).Draw(t, "which"), Kind: rapid.SampledFrom(badParts).Draw(t, "kind")}
			b.Text = rapid.SampledFrom([]string{"241301", "24AB01", "240132", "240431", "240001", "240100", "24-101", "      ", "2O0101"}).Draw(t, "date")
			b.Mark = rapid.SampledFrom([]string{"", "X", "E", "R", "c", "d", "-", "+", " ", ","}).Draw(t, "mark")
			return b
		},
		Classify: func(b badPart) []string {
			s := b.Stmts[b.S%len(b.Stmts)]
			return []string{b.Kind, fmt.Sprintf("bookings-%v", len(s.Txs) > 0)}
		},
		Check: func(b badPart) error {
			data, ok := b.damaged()
			if !ok {
				pbt.Note("nothing to damage")
				return nil
			}
			txs, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(data)
			if err == nil {
				return fmt.Errorf("no error (%s), but %d bookings from %q", b.Kind, len(txs), data)
			}
			_ = err.Error()
			return nil
		},
	})
	pbt.Add(pbt.Spec[cutStatement]{
		Prop: "C07", Name: "cut", Quick: 40000, Thorough: 3000000,
		Rule: "1-3 valid statements cut off at any byte: either an error or the bookings of whole statements, never part of a statement's bookings; non-trivial: all (labelled by what was cut)",
		Gen: func(t *rapid.T) cutStatement {
			s := genBookings(t, 1, 3)
			return cutStatement{s, rapid.IntRange(0, len(mtData(s))-1).Draw(t, "at")}
		},
		Classify: func(c cutStatement) []string {
			n := 0
			for _, s := range c.Stmts {
				n += len(s.wire())
				if n == c.At {
					return []string{"between-statements"}
				}
			}
			return []string{"inside-a-statement"}
		},
		Check: func(c cutStatement) error {
			data := mtData(c.Stmts)
			// how many statements are whole, and has the next one all its bookings?
			whole, end := 0, 0
			for whole < len(c.Stmts) && end+len(c.Stmts[whole].wire()) <= c.At {
				end += len(c.Stmts[whole].wire())
				whole++
			}
			txs, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(data[:c.At])
			if err != nil {
				pbt.Note("refused")
				if c.At == end {
					return fmt.Errorf("%q: %v", data[:c.At], err)
				}
				return nil
			}
			pbt.Note("read")
			if c.At == end {
				return sameTransactions(txs, mtTransactions(c.Stmts[:whole]))
			}
			if e := sameTransactions(txs, mtTransactions(c.Stmts[:whole+1])); e != nil {
				return fmt.Errorf("no error for %q, but %v", data[:c.At], e)
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[badTag]{
		Prop: "C07", Name: "tags", Quick: 80000, Thorough: 6000000,
		Rule: "bytes put together from tags, marks, dates, amounts, field keys and random bytes, read as every kind of tag and as a statement; non-trivial: all",
		Gen: func(t *rapid.T) badTag {
			frag := rapid.SampledFrom([][]byte{[]byte(":61:"), []byte(":86:"), []byte(":60F:"), []byte(":25:"), []byte("240101"), []byte("0101"), []byte("C"), []byte("D"), []byte("RC"), []byte("EUR"), []byte("12,50"), []byte("N"), []byte("TRF"), []byte("//"), []byte("\r\n/"), []byte("\r\n"), []byte("999"), []byte("?20"), []byte("?00"), []byte("?34"), []byte("?63"), []byte("/")})
			return badTag{rapid.IntRange(0, len(tagReaders)-1).Draw(t, "kind"), rapid.SliceOfN(rapid.OneOf(frag, frag, rapid.SampledFrom(lineTexts), rapid.SliceOfN(rapid.Byte(), 0, 4)), 0, 14).Draw(t, "parts")}
		},
		Classify: func(b badTag) []string { return []string{fmt.Sprintf("%T", tagReaders[b.Kind]())} },
		Check: func(b badTag) error {
			r := tagReaders[b.Kind]()
			if err := r.Unmarshal(bytes.Join(b.Parts, nil)); err != nil {
				_ = err.Error()
				pbt.Note("refused")
				return nil
			}
			pbt.Note("read")
			switch v := r.(type) {
			case *swift.BalanceTag:
				if a := v.Balance().Amount.Amount; math.IsNaN(a) || math.IsInf(a, 0) {
					return fmt.Errorf("amount %v", a)
				}
			case *swift.TransactionTag:
				if math.IsNaN(v.Amount) || math.IsInf(v.Amount, 0) || v.Amount < 0 {
					return fmt.Errorf("amount %v", v.Amount)
				}
			case *swift.AlphaNumericTag:
				_ = v.Val()
			case *swift.NumberTag:
				_ = v.Val()
			case *swift.FloatTag:
				_ = v.Val()
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[scenario]{
		Prop: "C07", Name: "client", Quick: 2500, Thorough: 150000,
		Rule: "a client that fetches bookings from a model bank whose statements are edited line by line: an error or bookings with finite amounts, never a panic; non-trivial: the damage reached the client",
		Gen: func(t *rapid.T) scenario {
			s := genScenario(t, []string{"tx", "sepaTx"}, 2, 2)
			lines := genLineEdits(t)
			for at := rapid.IntRange(0, 5).Draw(t, "at"); at < 10; at++ {
				s.Faults = append(s.Faults, fault{At: at, Kind: "statement-edit", Lines: lines})
			}
			return s
		},
		Classify: scenario.labels,
		Check: func(s scenario) error {
			b, rs, err := s.run()
			if err != nil {
				return err
			}
			for _, q := range b.log {
				if q.Effect != "" {
					pbt.Note("hit-" + q.Kind)
				}
			}
			for _, r := range rs {
				if r.Err != nil {
					pbt.Note("error")
				}
				if err := sane(r.Tx); err != nil {
					return err
				}
			}
			return nil
		},
	})
}
