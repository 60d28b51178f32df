package props

import (
	"fmt"

	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

var faultKinds = []string{"transport", "msg-error", "seg-error", "no-sync", "no-data", "no-dialog", "no-end", "cut", "inner-cut", "garbage", "base64-cut", "html", "empty", "reset", "no-reference"}

func genFault(t *rapid.T, kinds []string, at int) fault {
	f := fault{At: at, Kind: rapid.SampledFrom(kinds).Draw(t, "fault")}
	switch f.Kind {
	case "msg-error", "seg-error":
		f.Code = rapid.OneOf(rapid.IntRange(9000, 9999), rapid.SampledFrom([]int{9000, 9999, 9050, 9800, 9942})).Draw(t, "code")
		f.Text = nonEmpty(30).Draw(t, "text")
		f.Ref, f.Ahead = genAckRef(t), rapid.Bool().Draw(t, "ahead")
	case "cut", "inner-cut", "base64-cut", "reset", "no-reference":
		f.N = rapid.IntRange(0, 4000).Draw(t, "n")
	case "damage", "inner-damage":
		f.N = rapid.IntRange(0, 4000).Draw(t, "n")
		f.B = rapid.OneOf(rapid.SampledFrom([]byte("'+:?@09AHN\x00\xff")), rapid.Byte()).Draw(t, "b")
	case "garbage":
		f.Text = rapid.OneOf(anyText(40), rapid.SampledFrom([]string{"HNHBK:1:3+000000000000+300+0+1'", "HNHBS:2:1+1'", "HNHBS:'", "HNHBS:x:y'", "'", "''", "@", "@5@ab", "?"})).Draw(t, "garbage")
	}
	return f
}

// damage tells what the faults do to the call that made the requests from one
// to another: what makes it fail (and the reasons the bank gave), whether it
// may fail, and whether it returns something else.
func (s scenario) damage(b *bank, from, to int) (must string, reasons []string, maybe, skip bool) {
	for j := from; j < to; j++ {
		q := b.log[j]
		// the customer has the data when the dialog of a job ends
		harmless := q.Kind == "end" && !(j > 0 && b.log[j-1].Kind == "sync")
		if harmless {
			continue
		}
		switch q.Effect {
		case "must":
			for _, f := range s.Faults {
				if f.At == j {
					must = fmt.Sprintf("%s of the answer to request %d (%s)", f.Kind, j, q.Kind)
					if f.Kind == "msg-error" || f.Kind == "seg-error" {
						reasons = append(reasons, f.Text)
					}
				}
			}
		case "maybe":
			maybe = true
		case "skip":
			skip = true
		}
	}
	return must, reasons, maybe, skip
}

// checkFaults compares the outcome of each call with what happened to its
// requests.
func (s scenario) checkFaults(b *bank, rs []result) error {
	for i, o := range s.Ops {
		r := rs[i]
		must, reasons, maybe, skip := s.damage(b, r.From, r.To)
		if r.Err != nil {
			if err := holds(r.Err.Error(), reasons...); err != nil {
				return fmt.Errorf("call %d (%s): the error does not tell the bank's reason: %w", i, o.Kind, err)
			}
		}
		if maybe {
			// whatever the bank sent is what the client knows from now on
			return nil
		}
		if must != "" {
			if r.Err == nil {
				return fmt.Errorf("call %d (%s): no error although of %s", i, o.Kind, must)
			}
			continue
		}
		if skip {
			continue
		}
		if err := o.sameResult(s.Bank.at(i), r); err != nil {
			return fmt.Errorf("call %d (%s), without a fault: %w", i, o.Kind, err)
		}
	}
	return nil
}

func init() {
	pbt.Add(pbt.Spec[scenario]{
		Prop: "C11", Name: "faults", Quick: 6000, Thorough: 300000,
		Rule: "a client and a model bank, one to four calls; one to three answers carry an error code of the bank, are lost, cut anywhere (before and after base64, in the envelope and in its content), replaced by other bytes, or lack their header, trailer or data; non-trivial: all (the observed classes count the faults that hit a request, by the kind of request)",
		Gen: func(t *rapid.T) scenario {
			s := genScenario(t, opKinds, 4, 2)
			for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "faults"); i < n; i++ {
				at := rapid.IntRange(0, 3*len(s.Ops)+2).Draw(t, "at")
				for _, f := range s.Faults {
					if f.At == at {
						at = 20 + i
					}
				}
				f := genFault(t, faultKinds, at)
				if f.Kind == "no-reference" && i == 0 {
					// a job, if the calls before it go well
					f.At = 3 * rapid.IntRange(1, 3).Draw(t, "job")
				}
				s.Faults = append(s.Faults, f)
			}
			return s
		},
		Classify: func(s scenario) []string {
			return s.labels()
		},
		Check: func(s scenario) error {
			b, rs, err := s.run()
			if err != nil {
				return err
			}
			for _, q := range b.log {
				if q.Effect != "" {
					pbt.Note("hit-" + q.Kind + "-" + q.Effect)
				}
			}
			for _, f := range s.Faults {
				if f.Kind == "no-reference" && f.At < len(b.log) && b.log[f.At].Effect == "must" {
					pbt.Note("hit-no-reference")
				}
			}
			return s.checkFaults(b, rs)
		},
	})
}
