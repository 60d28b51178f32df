package props

import (
	"fmt"

	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

func scenarioFacet(prop, name, rule string, quick, thorough int, kinds []string, maxOps, maxPages int, check func(s scenario, b *bank, rs []result) error) {
	pbt.Add(pbt.Spec[scenario]{
		Prop: prop, Name: name, Quick: quick, Thorough: thorough, Rule: rule,
		Gen:      func(t *rapid.T) scenario { return genHistory(t, kinds, maxOps, maxPages) },
		Classify: scenario.labels,
		Check: func(s scenario) error {
			b, rs, err := s.run()
			if err != nil {
				return err
			}
			return check(s, b, rs)
		},
	})
}

func init() {
	scenarioFacet("C03", "requests", "a client and a model bank with any bank, user, account, product and PIN text, one to three calls; every request is parsed independently and its jobs compared with what the caller asked for; non-trivial: all (labelled by call and by the delimiters, escapes and umlauts in the texts)",
		6000, 300000, opKinds, 3, 2, func(s scenario, b *bank, rs []result) error { return s.checkContent(b) })
	scenarioFacet("C08", "client", "a client and a model bank, one to four calls; header, size, trailer, encryption wrapper and numbering of every request; non-trivial: all",
		6000, 300000, opKinds, 4, 2, func(s scenario, b *bank, rs []result) error { return s.checkFraming(b) })
	scenarioFacet("C09", "client", "a client and a model bank, one to four calls; signature and encryption segments of every request; non-trivial: all",
		6000, 300000, opKinds, 4, 2, func(s scenario, b *bank, rs []result) error { return s.checkEnvelope(b) })
	scenarioFacet("C10", "dialogs", "a client and a model bank that hands out dialog ids, system ids, parameter data versions, user ids and security functions and changes them, one to six calls; every request is compared with the state of the dialog; non-trivial: all",
		8000, 400000, opKinds, 6, 3, func(s scenario, b *bank, rs []result) error { return s.checkSequence(b) })
	scenarioFacet("C13", "results", "a client and a model bank holding generated accounts, balances, statements and status entries, accounts coming and going; every call returns what the bank holds; non-trivial: all",
		6000, 300000, opKinds[:6], 4, 2, func(s scenario, b *bank, rs []result) error { return s.checkResults(rs) })
	scenarioFacet("C12", "paged-calls", "queries answered in one to six pages of statements or balances, with any continuation reference; the result is the concatenation and every page is asked for once, with the reference the bank gave; non-trivial: all",
		6000, 300000, []string{"tx", "sepaTx", "balances", "sepaBalances"}, 2, 6, func(s scenario, b *bank, rs []result) error {
			return first(s.checkResults(rs), s.checkPages(b), s.checkContent(b))
		})
}

// checkPages checks the continuation references of the queries.
func (s scenario) checkPages(b *bank) error {
	pages := pageOf(b.log)
	for i, q := range b.log {
		if q.Kind != "job" {
			continue
		}
		if err := s.samePage(q, pages[i]); err != nil {
			return fmt.Errorf("request %d, page %d: %w", i, pages[i], err)
		}
	}
	return nil
}

func (s scenario) samePage(q req, pageNo int) error {
	o := s.Ops[q.Op]
	want := o.Cont
	if pageNo > 0 {
		want = o.Pages[pageNo-1].Next
	}
	for _, seg := range q.business() {
		switch seg.ID() {
		case "HKSAL":
			return eq("continuation reference", seg.G(4, 0), want)
		case "HKKAZ":
			return eq("continuation reference", seg.G(6, 0), want)
		}
	}
	return fmt.Errorf("no query")
}
