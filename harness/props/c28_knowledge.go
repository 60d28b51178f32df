package props

import (
	"encoding/base64"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// C28: what a dialog knows about the bank, the user and the accounts is what
// the bank last said. The bank says something else at the beginning of every
// dialog: all of it, parts of it or nothing.

// told is what the bank says at the beginning of one dialog.
type told struct {
	SysID    string
	BPD      []segCase `json:",omitempty"` // HIBPA and the parameters, in any order
	UPA      *segCase  `json:",omitempty"`
	Accounts []segCase `json:",omitempty"`
	Allowed  []string  `json:",omitempty"` // security functions of the user
	Code     int       `json:",omitempty"` // refuses the dialog
	Lost     bool      `json:",omitempty"` // the answer does not arrive
}

type knowCase struct {
	V              int
	BLZ, User, PIN string
	Plain          bool     `json:",omitempty"`
	Steps          []string // sync upd job anon pin
	Told           []told   // one for each dialog that begins
	EndFails       []int    `json:",omitempty"` // dialogs whose end is refused
	Job            int      `json:",omitempty"` // code of the jobs
}

// bpa is the HIBPA of what the bank said.
func (t told) bpa() *segCase {
	for i := range t.BPD {
		if strings.HasPrefix(t.BPD[i].Seg, "HIBPA") {
			return &t.BPD[i]
		}
	}
	return nil
}

// function is the security function the bank wants: the first one it allows
// the user among those it describes, or none.
func (t told) function() string {
	for _, fn := range t.Allowed {
		for _, p := range t.BPD {
			if p.Seg == "HITANS:6" {
				for i := 0; i < len(p.F[3].N)/3; i++ {
					if p.F[3].T[1+13*i] == fn {
						return fn
					}
				}
			}
		}
	}
	return ""
}

func wantBPA(c segCase) domain.BankParameterData {
	f := c.F
	want := domain.BankParameterData{Version: f[0].num(), BankName: f[2].str(), MaxTransactionsPerMessage: f[3].num(), MaxMessageSize: f[6].num()}
	if !f[1].Off {
		want.BankID = domain.BankID{CountryCode: f[1].N[0], ID: f[1].T[0]}
	}
	if len(f) > 7 {
		want.MinTimeout, want.MaxTimeout = f[7].num(), f[8].num()
	}
	return want
}

func wantUPA(c segCase) domain.UserParameterData {
	want := domain.UserParameterData{UserID: c.F[0].str(), Version: c.F[1].num(), Usage: c.F[2].num()}
	if len(c.F) > 3 {
		want.UserName, want.Additions = c.F[3].str(), c.F[4].str()
	}
	return want
}

// knowledge is what the dialog should know: which of the things the bank told
// each part comes from, -1 for none.
type knowledge struct{ bpd, upd, accounts, sys int }

// sameBPD compares bank parameter data with what the bank said, which is nil
// if it did not say anything yet.
func sameBPD(got dialog.BankParameterData, supported []segment.VersionedSegment, t *told) error {
	if t == nil {
		return first(eq("bank parameters before there are any", dump(got), dump(dialog.BankParameterData{})), eq("supported segments before there are any", len(supported), 0))
	}
	base := got.BankParameterData
	transactions := base.PinTanBusinessTransactions
	base.PinTanBusinessTransactions = nil
	if want := wantBPA(*t.bpa()); !reflect.DeepEqual(base, want) {
		return fmt.Errorf("bank parameters: got %s, want %s", dump(base), dump(want))
	}
	flags := map[string][]bool{}
	var offers []segCase
	for _, p := range t.BPD {
		id, _ := splitSeg(p.Seg)
		if p.Seg == "HIPINS:1" {
			for _, pt := range pinTanWant(p.F[3]) {
				flags[pt.SegmentID] = append(flags[pt.SegmentID], pt.NeedsTan)
			}
		}
		if len(id) > 5 {
			offers = append(offers, p)
		}
	}
	if err := eq("jobs with or without TAN", len(transactions), len(flags)); err != nil {
		return err
	}
	for id, want := range flags {
		got, ok := transactions[id]
		for _, w := range want {
			ok = ok && (len(want) > 1 || w == got)
		}
		if !ok {
			return fmt.Errorf("job %q: needs a TAN %v of %v, the bank said %v", id, got, transactions, want)
		}
	}
	if err := first(eq("supported segments", len(supported), len(offers)), eq("segments with parameters", len(got.SupportedSegmentParameters), len(offers))); err != nil {
		return err
	}
	for i, o := range offers {
		id, v := splitSeg(o.Seg)
		p := got.SupportedSegmentParameters[i]
		want := segment.VersionedSegment{ID: id, Version: v}
		if err := first(eq("supported segment", supported[i], want), eq("segment with parameters", p.VersionedSegment, want)); err != nil {
			return err
		}
		spec, known := segByName[o.Seg]
		if !known {
			if p.Parameters != nil {
				return fmt.Errorf("%s has the parameters %T", o.Seg, p.Parameters)
			}
			continue
		}
		if p.Parameters == nil {
			return fmt.Errorf("%s has no parameters", o.Seg)
		}
		if err := eq("parameters of "+o.Seg, p.Parameters.Header().Version.Val(), v); err != nil {
			return err
		}
		if spec.value != nil {
			if err := spec.value(p.Parameters, o); err != nil {
				return fmt.Errorf("parameters of %s: %w", o.Seg, err)
			}
		}
	}
	return nil
}

func sameUPD(got domain.UserParameterData, t *told) error {
	if t == nil {
		return eq("user parameters before there are any", got, domain.UserParameterData{})
	}
	return eq("user parameters", got, wantUPA(*t.UPA))
}

func sameAccounts(got []domain.AccountInformation, t *told) error {
	if t == nil {
		return eq("accounts before there are any", len(got), 0)
	}
	err := eq("accounts", len(got), len(t.Accounts))
	for i := range t.Accounts {
		if err == nil {
			err = sameAccount(got[i], t.Accounts[i])
		}
	}
	return err
}

func genTold(t *rapid.T) told {
	s := told{SysID: noZero(nonEmpty(16)).Draw(t, "sysid")}
	part := rapid.IntRange(0, 7).Draw(t, "parts")
	if part&1 != 0 {
		bpa := genSegment(t, segByName["HIBPA:"+rapid.SampledFrom([]string{"2", "3"}).Draw(t, "bpa")])
		bpa.F[0] = fv{K: "num", N: []int{rapid.SampledFrom([]int{0, 1, 2, 3, 17, 998}).Draw(t, "version")}}
		s.BPD = append(s.BPD, bpa)
		for _, seg := range []string{"HIPINS:1", "HITANS:6", "DIPINS:1", "HIKPV:1", "HISHV:2", "HIKOM:3"} {
			if rapid.Bool().Draw(t, seg) {
				s.BPD = append(s.BPD, genSegment(t, segByName[seg]))
			}
		}
		for _, seg := range []string{"HISALS:5", "HISALS:6", "HIKAZS:5", "HIKAZS:7", "HIPROS:3", "HITANS:5", "HIPINS:2", "DKPSAS:1", "HITAB:4", "HISPAS:1"} {
			if rapid.IntRange(0, 2).Draw(t, seg) == 0 {
				c := segCase{Seg: seg}
				for i, n := 0, rapid.IntRange(0, 3).Draw(t, "params"); i < n; i++ {
					c.F = append(c.F, genField(t, rapid.SampledFrom([]string{"num", "an", "jn"}).Draw(t, "param")))
				}
				s.BPD = append(s.BPD, c)
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "anyOrder") == 0 {
			s.BPD = rapid.Permutation(s.BPD).Draw(t, "order")
		}
		if rapid.IntRange(0, 3).Draw(t, "allowed") > 0 {
			s.Allowed = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"900", "910", "922", "942", "999"}), 1, 5, rapid.ID[string]).Draw(t, "functions")
			if s.function() == "" {
				// none of them can be used
				s.Allowed = nil
			}
		}
	}
	if part&2 != 0 {
		upa := genSegment(t, segByName["HIUPA:"+rapid.SampledFrom([]string{"2", "3", "4"}).Draw(t, "upa")])
		if rapid.IntRange(0, 5).Draw(t, "anyUser") == 0 {
			upa.F[0] = fv{K: "id", T: []string{""}}
		}
		upa.F[1] = fv{K: "num", N: []int{rapid.SampledFrom([]int{0, 1, 2, 3, 17, 998}).Draw(t, "version")}}
		s.UPA = &upa
	}
	if part&4 != 0 {
		s.Accounts = fewOrMany(t, rapid.Custom(func(t *rapid.T) segCase {
			return genSegment(t, segByName["HIUPD:"+rapid.SampledFrom([]string{"4", "5", "6", "7"}).Draw(t, "upd")])
		}), 1, 4, 30)
		relate(t, s.Accounts)
	}
	switch rapid.IntRange(0, 19).Draw(t, "fails") {
	case 0:
		s.Code = rapid.SampledFrom([]int{9000, 9010, 9999, 9800}).Draw(t, "code")
	case 1:
		s.Lost = true
	}
	return s
}

func genKnow(t *rapid.T) knowCase {
	c := knowCase{V: rapid.SampledFrom([]int{220, 300}).Draw(t, "version"), BLZ: nonEmpty(10).Draw(t, "blz"), User: nonEmpty(10).Draw(t, "user"), PIN: nonEmpty(8).Draw(t, "pin"),
		Plain: rapid.IntRange(0, 3).Draw(t, "plain") == 0}
	c.Steps = rapid.SliceOfN(rapid.SampledFrom([]string{"sync", "upd", "upd", "job", "job", "anon", "pin"}), 1, 6).Draw(t, "steps")
	n := 2 * len(c.Steps)
	for i := 0; i < n; i++ {
		c.Told = append(c.Told, genTold(t))
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "same") == 0 {
			// the same again, as a whole or with one difference
			old := c.Told[rapid.IntRange(0, i-1).Draw(t, "as")]
			now := &c.Told[i]
			switch rapid.IntRange(0, 2).Draw(t, "what") {
			case 0:
				now.BPD = old.BPD
				if now.function() == "" {
					// none of the functions allowed can be used
					now.Allowed = nil
				}
			case 1:
				now.UPA, now.Accounts = old.UPA, old.Accounts
			case 2:
				now.Accounts = old.Accounts
			}
		}
		if rapid.IntRange(0, 15).Draw(t, "endFails") == 0 {
			c.EndFails = append(c.EndFails, i)
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "jobFails") == 0 {
		c.Job = 9010
	}
	return c
}

func (c knowCase) labels() []string {
	out := append([]string{fmt.Sprintf("v%d", c.V)}, c.Steps...)
	if c.Plain {
		out = append(out, "unencrypted-answers")
	}
	return out
}

func checkKnow(c knowCase) error {
	version := map[int]segment.HBCIVersion{220: segment.HBCI220, 300: segment.FINTS300}[c.V]
	var d *dialog.PinTanDialog
	begun := -1 // dialogs that began, the last one
	number := 0
	var problem error
	now := knowledge{-1, -1, -1, -1}
	clients := []string{c.User} // it may call the user
	fns := []string{"999"}      // security functions it may use
	pin := c.PIN
	anon := false
	ofStep := 0 // first dialog of the step
	at := func(i int) *told {
		if i < 0 {
			return nil
		}
		return &c.Told[i]
	}
	bank := transport.Func(func(r *transport.Request) (*transport.Response, error) {
		body, _ := io.ReadAll(r.Body)
		raw, err := base64.StdEncoding.DecodeString(string(body))
		var segs []ref.Seg
		if err == nil {
			segs, err = ref.Parse(raw)
		}
		for _, s := range segs {
			if err == nil && s.ID() == "HNVSD" {
				segs, err = ref.Parse(s.B(1, 0))
			}
		}
		if err != nil {
			problem = first(problem, fmt.Errorf("request cannot be read: %w", err))
			return nil, errTransport
		}
		kind := "job"
		for _, s := range segs {
			switch s.ID() {
			case "HKIDN":
				kind = "init"
				if anon {
					problem = first(problem, eq("client id", s.G(2, 0), "9999999999"))
					continue
				}
				problem = first(problem, oneOf("client id", s.G(2, 0), clients...))
				clients = []string{s.G(2, 0)}
			case "HKVVB":
				// the dialog tells the bank what it knows
				if s.G(1, 0) != fmt.Sprint(d.BankParameterData.Version) || s.G(2, 0) != fmt.Sprint(d.UserParameterData.Version) {
					kind = "other"
				}
			}
		}
		for _, s := range segs {
			switch s.ID() {
			case "HKSYN":
				kind = "sync"
			case "HKEND":
				kind = "end"
			}
		}
		if !anon {
			problem = first(problem, func() error {
				sh, err := find(segs, "HNSHK")
				if err != nil {
					return err
				}
				sa, err := find(segs, "HNSHA")
				if err != nil {
					return err
				}
				fn := sh.G(1+c.V/300, 0)
				return first(oneOf("security function", fn, fns...), eq("PIN", sa.G(3, 0), pin))
			}())
		}
		if kind == "other" {
			problem = first(problem, fmt.Errorf("request tells other versions than bank %d and user %d: %q", d.BankParameterData.Version, d.UserParameterData.Version, raw))
		}
		number++
		if kind == "sync" || kind == "init" {
			begun++
			number = 1
			if begun >= len(c.Told) {
				problem = first(problem, fmt.Errorf("too many dialogs"))
				return nil, errTransport
			}
		}
		t := c.Told[begun]
		pos := 1
		var inner []byte
		add := func(id string, v, refTo int, els ...[]byte) {
			pos++
			inner = append(inner, ref.Segment(append([][]byte{ref.Header(id, pos, v, refTo)}, els...)...)...)
		}
		addCase := func(s segCase) {
			id, v := splitSeg(s.Seg)
			var els [][]byte
			for _, e := range s.F {
				els = append(els, e.wire())
			}
			add(id, v, 3, els...)
		}
		code := 20
		switch {
		case t.Code != 0 && (kind == "sync" || kind == "init"):
			code = t.Code
		case kind == "job" && c.Job != 0:
			code = c.Job
		case kind == "end":
			for _, e := range c.EndFails {
				if e == begun {
					code = 9000
				}
			}
		}
		add("HIRMG", 2, -1, ref.Group(ref.Digits(code, 4), nil, txt("Text")))
		if kind == "sync" || kind == "init" {
			if t.Lost {
				return nil, errTransport
			}
			if len(t.Allowed) > 0 {
				ack := [][]byte{ref.Digits(3920, 4), nil, txt("Verfahren")}
				for _, fn := range t.Allowed {
					ack = append(ack, txt(fn))
				}
				add("HIRMS", 2, 3, ref.Group(ack...))
			}
			if fn := t.function(); fn != "" && !anon {
				if code != 20 {
					fns = append(fns, fn)
				} else {
					if !reflect.DeepEqual(fns, []string{fn}) {
						pbt.Note("function-changed")
					}
					fns = []string{fn}
				}
			}
			for _, s := range t.BPD {
				addCase(s)
			}
			if t.UPA != nil {
				addCase(*t.UPA)
			}
			for _, s := range t.Accounts {
				addCase(s)
			}
			if kind == "sync" {
				add("HISYN", 3, 5, txt(t.SysID))
			}
			if code == 20 {
				if len(t.BPD) > 0 {
					now.bpd = begun
				}
				if t.UPA != nil {
					now.upd = begun
					if u := t.UPA.F[0].str(); u != "" {
						clients = []string{u}
					}
				}
				if len(t.Accounts) > 0 {
					now.accounts = begun
				}
				if kind == "sync" {
					now.sys = begun
				}
			} else if t.UPA != nil && t.UPA.F[0].str() != "" {
				clients = append(clients, t.UPA.F[0].str())
			}
		}
		name := fmt.Sprintf("dialog%d", begun)
		out := inner
		if !c.Plain && !anon {
			out = append(ref.Segment(ref.Header("HNVSK", 998, 2, -1), ref.Num(998), ref.Num(1), ref.Group(ref.Num(1), nil, txt("0")),
				[]byte("1:20240131:123456"), append(append([]byte("2:2:13:"), ref.Bin(make([]byte, 8))...), ":5:1"...),
				ref.Group(ref.Num(280), txt(c.BLZ), txt(c.User), []byte("V"), ref.Num(0), ref.Num(0)), ref.Num(0)),
				ref.Segment(ref.Header("HNVSD", 999, 1, -1), ref.Bin(inner))...)
		}
		out = append(out, ref.Segment(ref.Header("HNHBS", pos+1, 1, -1), ref.Num(number))...)
		head := ref.Segment(ref.Header("HNHBK", 1, 3, -1), []byte("000000000000"), ref.Num(c.V), txt(name), ref.Num(number))
		copy(head[10:], fmt.Sprintf("%012d", len(head)+len(out)))
		return &transport.Response{Request: r, Body: io.NopCloser(strings.NewReader(base64.StdEncoding.EncodeToString(append(head, out...))))}, nil
	})
	d = dialog.NewPinTanDialog(dialog.Config{BankID: domain.BankID{CountryCode: 280, ID: c.BLZ}, HBCIURL: "https://bank.example/", UserID: c.User, HBCIVersion: version,
		ProductName: "x", ProductVersion: "1", Transport: bank})
	d.SetPin(c.PIN)
	changed := map[string]int{}
	for i, step := range c.Steps {
		before := now
		ofStep = begun + 1
		anon = step == "anon"
		oldClients := clients
		var err error
		quiet(func() {
			job := message.NewHBCIMessage(version, segment.NewAccountInformationRequestSegmentV1(domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: c.BLZ}, false))
			switch step {
			case "sync":
				_, err = d.SyncClientSystemID()
			case "upd":
				err = d.SyncUserParameterData()
			case "job":
				_, err = d.SendMessage(job)
			case "anon":
				_, err = d.SendAnonymousMessage(job)
			case "pin":
				pin += "1"
				d.SetPin(pin)
			}
		})
		if problem != nil {
			return fmt.Errorf("step %d (%s): %w", i, step, problem)
		}
		failed := false
		for k := ofStep; k <= begun; k++ {
			failed = failed || c.Told[k].Code != 0 || c.Told[k].Lost
		}
		if failed {
			if e := eq("a refused or lost beginning is an error", err != nil, true); e != nil {
				return fmt.Errorf("step %d (%s): %w", i, step, e)
			}
			pbt.Note("failed-step")
		}
		for _, k := range c.EndFails {
			failed = failed || err != nil && k >= ofStep && k <= begun
		}
		if failed {
			clients = append(clients, oldClients...)
		}
		// after an error each part is what it was or what the bank said since
		pick := func(what string, want, was int, has func(told) bool, check func(*told) error) (int, error) {
			e := check(at(want))
			if e == nil || !failed {
				return want, e
			}
			for k := begun; k >= ofStep; k-- {
				if has(c.Told[k]) && !c.Told[k].Lost && check(at(k)) == nil {
					return k, nil
				}
			}
			if check(at(was)) == nil {
				return was, nil
			}
			return want, e
		}
		var errs [4]error
		now.bpd, errs[0] = pick("bpd", now.bpd, before.bpd, func(t told) bool { return len(t.BPD) > 0 }, func(t *told) error {
			return sameBPD(d.BankParameterData, d.SupportedSegments(), t)
		})
		now.upd, errs[1] = pick("upd", now.upd, before.upd, func(t told) bool { return t.UPA != nil }, func(t *told) error { return sameUPD(d.UserParameterData, t) })
		now.accounts, errs[2] = pick("accounts", now.accounts, before.accounts, func(t told) bool { return len(t.Accounts) > 0 }, func(t *told) error { return sameAccounts(d.Accounts, t) })
		now.sys, errs[3] = pick("sys", now.sys, before.sys, func(t told) bool { return false }, func(t *told) error {
			want := "0"
			if t != nil {
				want = t.SysID
			}
			return eq("client system id", d.ClientSystemID, want)
		})
		if e := first(errs[:]...); e != nil {
			return fmt.Errorf("step %d (%s, error %v): %w", i, step, err, e)
		}
		for part, changedNow := range map[string]bool{"bpd": now.bpd != before.bpd, "upd": now.upd != before.upd, "accounts": now.accounts != before.accounts, "system": now.sys != before.sys} {
			if changedNow {
				changed[part]++
			}
		}
	}
	for part, n := range changed {
		if n > 1 {
			pbt.Note(part + "-replaced")
		}
	}
	return nil
}

func init() {
	pbt.Add(pbt.Spec[knowCase]{
		Prop: "C28", Name: "dialogs", Quick: 6000, Thorough: 60000,
		Rule:     "the dialog makes more than one step",
		Gen:      genKnow,
		Classify: knowCase.labels,
		Check:    checkKnow,
	})
}
