package props

import (
	"fmt"
	"reflect"
	"time"

	"github.com/mitch000001/go-hbci/swift"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

func mtLabels(ss []mtStmt) []string {
	set := map[string]bool{}
	if len(ss) > 1 {
		set["several-statements"] = true
	}
	for _, s := range ss {
		if s.Open.Neg || s.Close.Neg {
			set["debit-balance"] = true
		}
		if s.Note != nil {
			set["note"] = true
		}
		for _, x := range s.Txs {
			set["mark-"+x.Mark] = true
			if x.Valuta%10000 == 230 || x.Booked%10000 == 230 {
				set["february-30"] = true
			}
			if x.Booked != 0 && x.Booked/10000 != x.Valuta/10000 {
				set["booked-in-another-year"] = true
			}
			if x.Info != nil || x.Bank != nil {
				set["bank-reference"] = true
			}
			if c := x.Custom; c != nil {
				if c.Free {
					set["unstructured"] = true
				}
				if c.Wrap > 0 {
					set["wrapped"] = true
				}
				if len(c.Purpose2) > 0 {
					set["more-purpose"] = true
				}
			}
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	return out
}

func sameMtBal(what string, got *swift.BalanceTag, want *mtBal) error {
	if (got == nil) != (want == nil) {
		return fmt.Errorf("%s: got %v, want %v", what, got, want)
	}
	if got == nil {
		return nil
	}
	mark := "C"
	if want.Neg {
		mark = "D"
	}
	return first(eq(what+" mark", got.DebitCreditIndicator, mark), eq(what+" day", dayInt(got.BookingDate.Time), dayInt(dayOf(want.Day))),
		eq(what+" currency", got.Currency, want.Curr), eq(what+" amount", got.Amount, amt(want.Cents)))
}

func sameCustom(what string, got *swift.CustomFieldTag, want *mtCustom) error {
	if (got == nil) != (want == nil) {
		return fmt.Errorf("%s: got %v, want %v", what, got, want)
	}
	if got == nil {
		return nil
	}
	key := want.KeyAdd
	if key < 0 {
		key = 0
	}
	w := swift.CustomFieldTag{Tag: ":86:", TransactionID: want.GVC, BookingText: strOf(want.Text), PrimanotenNumber: strOf(want.Prima), BankID: strOf(want.Bank),
		AccountID: strOf(want.Acct), Name: want.name(), MessageKeyAddition: key}
	g := *got
	if fmt.Sprintf("%q", g.Purpose) != fmt.Sprintf("%q", want.Purpose) || fmt.Sprintf("%q", g.Purpose2) != fmt.Sprintf("%q", want.Purpose2) {
		return fmt.Errorf("%s: purpose %q %q, want %q %q", what, g.Purpose, g.Purpose2, want.Purpose, want.Purpose2)
	}
	g.Purpose, g.Purpose2 = nil, nil
	if !reflect.DeepEqual(g, w) {
		return fmt.Errorf("%s: got %+v, want %+v", what, g, w)
	}
	return nil
}

func init() {
	pbt.Add(pbt.Spec[[]mtStmt]{
		Prop: "C14", Name: "transactions", Quick: 80000, Thorough: 1600000,
		Rule:     "0-4 statements of 0-4 bookings with every optional field present or absent, all marks, booking dates around the valuta date, free text with delimiters and umlauts, wrapped at several widths; the transactions are compared with the bookings; non-trivial: at least one labelled feature",
		Gen:      func(t *rapid.T) []mtStmt { return genBookings(t, 0, 4) },
		Classify: mtLabels,
		Check: func(c []mtStmt) error {
			data := mtData(c)
			orig := append([]byte{}, data...)
			got, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(data)
			if err != nil {
				return fmt.Errorf("%q: %v", data, err)
			}
			if err := bytesEq("input", data, orig); err != nil {
				return err
			}
			return sameTransactions(got, mtTransactions(c))
		},
	})

	pbt.Add(pbt.Spec[mtStmt]{
		Prop: "C14", Name: "fields", Quick: 80000, Thorough: 1600000,
		Rule:     "one statement, every field of the decoded MT940 structure against what was written; non-trivial: at least one labelled feature",
		Gen:      genStmt,
		Classify: func(s mtStmt) []string { return mtLabels([]mtStmt{s}) },
		Check: func(s mtStmt) error {
			msgs, err := swift.NewMessageExtractor(s.wire()).Extract()
			if err != nil {
				return err
			}
			if len(msgs) != 1 {
				return fmt.Errorf("%d messages in %q", len(msgs), s.wire())
			}
			if err := bytesEq("message", msgs[0], s.wire()); err != nil {
				return err
			}
			m := &swift.MT940{}
			if err := m.Unmarshal(msgs[0]); err != nil {
				return fmt.Errorf("%q: %v", msgs[0], err)
			}
			latin := func(s string) string { return string(ref.Latin1(s)) }
			if err := first(eq("job reference", m.JobReference.Val(), latin(s.JobRef)), eq("reference present", m.Reference != nil, s.Ref != ""),
				eq("bank", m.Account.BankID, s.BLZ), eq("account", m.Account.AccountID, s.Acct), eq("number", m.StatementNumber.Number, s.Num),
				sameMtBal("opening", m.StartingBalance, &s.Open), sameMtBal("closing", m.ClosingBalance, &s.Close),
				sameMtBal("valuta", m.CurrentValutaBalance, s.Cur), sameMtBal("future", m.FutureValutaBalance, s.Fut),
				sameCustom("note", m.CustomField, s.Note), eq("bookings", len(m.Transactions), len(s.Txs))); err != nil {
				return err
			}
			if s.Ref != "" {
				if err := eq("reference", m.Reference.Val(), latin(s.Ref)); err != nil {
					return err
				}
			}
			if s.Sheet >= 0 {
				if err := eq("sheet", m.StatementNumber.SheetNumber, s.Sheet); err != nil {
					return err
				}
			}
			for i, x := range s.Txs {
				g := m.Transactions[i].Transaction
				what := fmt.Sprintf("booking %d %q ", i, x.wire())
				if err := first(eq(what+"valuta", dayInt(g.ValutaDate.Time), dayInt(dayOf(x.Valuta))), eq(what+"mark", g.DebitCreditIndicator, x.Mark), eq(what+"kind", g.CurrencyKind, x.Kind),
					eq(what+"amount", g.Amount, amt(x.Cents)), eq(what+"key", g.BookingKey, x.Key), eq(what+"ref", g.Reference, latin(x.Ref)),
					eq(what+"bank ref", g.BankReference, latin(strOf(x.Bank))), eq(what+"info", g.AdditionalInformation, latin(strOf(x.Info))),
					sameCustom(what+"description", m.Transactions[i].Description, x.Custom)); err != nil {
					return err
				}
				if x.Booked != 0 {
					if err := eq(what+"booked", dayInt(g.BookingDate.Time), dayInt(dayOf(x.Booked))); err != nil {
						return err
					}
				} else if err := eq(what+"not booked", g.BookingDate.IsZero(), true); err != nil {
					return err
				}
			}
			return nil
		},
	})

	type dates struct{ Valuta, Booked int }
	pbt.AddEnum(pbt.EnumSpec[dates]{
		Prop: "C14", Name: "booking-dates",
		Rule: "all valuta dates of 2019-2025 (quick: every third) with all booking dates within 45 days; non-trivial: all (labelled when the year differs)",
		Enum: func(thorough bool, yield func(dates) bool) {
			step := 3
			if thorough {
				step = 1
			}
			for d := time.Date(2019, 1, 1, 0, 0, 0, 0, time.UTC); d.Year() < 2026; d = d.AddDate(0, 0, step) {
				for off := -45; off <= 45; off++ {
					if !yield(dates{dayInt(d), dayInt(d.AddDate(0, 0, off))}) {
						return
					}
				}
			}
		},
		Classify: func(c dates) []string {
			l := []string{"any"}
			if c.Valuta/10000 != c.Booked/10000 {
				l = append(l, "other-year")
			}
			return l
		},
		Check: func(c dates) error {
			x := mtTx{Valuta: c.Valuta, Booked: c.Booked, Mark: "C", Cents: 100, Key: "TRF", Ref: "NONREF"}
			g := &swift.TransactionTag{}
			if err := g.Unmarshal([]byte(":61:" + x.wire())); err != nil {
				return err
			}
			return first(eq("valuta", dayInt(g.ValutaDate.Time), c.Valuta), eq("booked", dayInt(g.BookingDate.Time), c.Booked))
		},
	})
}
