package props

import (
	"fmt"
	"slices"

	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

// checkRecovery checks the dialogs of a history in which answers are lost,
// damaged or carry errors. It asks only for what the client can know: after an
// unusable answer to the beginning of a dialog it may give up or end it, but
// everything that follows a usable one is as in any other dialog.
func (s scenario) checkRecovery(b *bank) error {
	var (
		start   = -1     // last sync or init
		sound   bool     // its answer was usable
		dialog  string   // id in that answer
		ended   = true   // nothing left to end
		sysIDs  []string // the client may use
		starts  int
		assigns int
	)
	cfg := s.Bank
	for i, q := range b.log {
		bad := func(f string, a ...any) error {
			return fmt.Errorf("request %d (%s): "+f, append([]any{i, q.Kind}, a...)...)
		}
		h := q.Outer[0]
		switch q.Kind {
		case "sync", "init":
			if start >= 0 && sound && !ended {
				return bad("begins a dialog before the last one ended")
			}
			if q.Kind == "init" && len(sysIDs) == 0 {
				return bad("begins a dialog without a system id")
			}
			if err := first(eq("dialog id", h.G(3, 0), "0"), eq("message number", h.G(4, 0), "1")); err != nil {
				return bad("%w", err)
			}
			start, sound, ended = i, q.Effect == "", false
			dialog = cfg.DialogIDs[starts%len(cfg.DialogIDs)]
			if answered(s.Faults, i) {
				starts++
			}
			if q.Kind == "sync" {
				if answered(s.Faults, i) {
					id := cfg.SystemIDs[assigns%len(cfg.SystemIDs)]
					assigns++
					if sound {
						sysIDs = []string{id}
					} else {
						sysIDs = append(sysIDs, id)
					}
				}
			}
		case "job":
			switch {
			case ended || b.log[start].Kind != "init":
				return bad("no dialog for jobs is open")
			case b.log[start].Effect == "must":
				return bad("goes on although the dialog was not opened")
			}
		case "end":
			if ended {
				return bad("no dialog is open")
			}
			ended = true
		}
		if q.Kind == "job" || q.Kind == "end" {
			if sound {
				if err := eq("dialog id", h.G(3, 0), dialog); err != nil {
					return bad("%w", err)
				}
			}
			if err := eq("message number", h.G(4, 0), fmt.Sprint(i-start+1)); err != nil {
				return bad("%w", err)
			}
		}
		for _, seg := range q.business() {
			var err error
			switch seg.ID() {
			case "HKIDN":
				err = first(eq("bank", seg.G(1, 0)+":"+seg.G(1, 1), "280:"+cfg.BLZ), oneOf("client id", seg.G(2, 0), cfg.User, cfg.UPDUser))
				if q.Kind == "init" && err == nil {
					err = oneOf("system id", seg.G(3, 0), sysIDs...)
				}
				if q.Kind == "sync" && err == nil {
					err = eq("system id", seg.G(3, 0), "0")
				}
			case "HKVVB":
				err = first(oneOf("BPD version", seg.G(1, 0), "0", fmt.Sprint(cfg.BPD)), oneOf("UPD version", seg.G(2, 0), "0", fmt.Sprint(cfg.UPD)))
			case "HKEND":
				err = eq("dialog to end", seg.G(1, 0), h.G(3, 0))
			}
			if err != nil {
				return bad("%w", err)
			}
		}
		sh, err := find(q.Inner, "HNSHK")
		if err != nil {
			return err
		}
		vk, err := find(q.Outer, "HNVSK")
		if err != nil {
			return err
		}
		n := sh.Version() - 3
		want := sysIDs
		if q.Kind == "sync" {
			want = []string{"0"}
		} else if !sound {
			want = append([]string{"0"}, want...)
		}
		if err := first(oneOf("system id in the signature", sh.G(5+n, 2), want...), eq("system id in the encryption", vk.G(3+n, 2), sh.G(5+n, 2)), oneOf("security function", sh.G(1+n, 0), "999", cfg.allowedFn())); err != nil {
			return bad("%w", err)
		}
	}
	if start >= 0 && sound && !ended {
		return fmt.Errorf("the dialog opened by request %d is not ended", start)
	}
	return nil
}

// answered tells whether the bank saw request i; a request that is lost
// assigns nothing.
func answered(faults []fault, i int) bool {
	for _, f := range faults {
		if f.At == i && f.Kind == "transport" {
			return false
		}
	}
	return true
}

func oneOf(what, got string, want ...string) error {
	if !slices.Contains(want, got) {
		return fmt.Errorf("%s: got %q, want one of %q", what, got, want)
	}
	return nil
}

func init() {
	pbt.Add(pbt.Spec[scenario]{
		Prop: "C10", Name: "recovery", Quick: 6000, Thorough: 300000,
		Rule: "two to six calls against a bank of which one to five answers are lost, damaged, cut or carry an error: every dialog that follows starts with id 0 and number 1 and a system id the bank assigned, counts on, asks for jobs only after it was opened and is ended; non-trivial: all (the observed classes count the kinds of request the faults hit)",
		Gen: func(t *rapid.T) scenario {
			s := genScenario(t, opKinds, 6, 2)
			for len(s.Ops) < 2 {
				s.Ops = append(s.Ops, genOp(t, s.Bank, opKinds, 2))
			}
			at := 0
			for i, n := 0, rapid.IntRange(1, 5).Draw(t, "faults"); i < n; i++ {
				at += rapid.IntRange(0, 4).Draw(t, "gap")
				s.Faults = append(s.Faults, genFault(t, faultKinds, at))
				at++
			}
			return s
		},
		Classify: func(s scenario) []string { return s.labels() },
		Check: func(s scenario) error {
			b, _, err := s.run()
			if err != nil {
				return err
			}
			for i, q := range b.log {
				if q.Effect != "" {
					pbt.Note("hit-" + q.Kind + "-" + q.Effect)
				}
				if i > 0 && b.log[i-1].Kind == q.Kind && q.Kind != "job" {
					pbt.Note("again-" + q.Kind)
				}
			}
			return s.checkRecovery(b)
		},
	})
}
