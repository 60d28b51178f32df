package props

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

type (
	// reqCase is a request segment: its kind and what a caller gives for it.
	reqCase struct {
		Kind     string // id and version
		Acct     fv
		All      bool     `json:",omitempty"`
		From, To int      `json:",omitempty"`
		T        []string `json:",omitempty"`
		N        []int    `json:",omitempty"`
		Bank     []fv     `json:",omitempty"`
	}
	// msgCase is a message of request segments.
	msgCase struct {
		V       int
		Dialog  string
		Number  int
		Segs    []reqCase
		Missing []int `json:",omitempty"` // places of segments that are not there
	}
	// envCase is a message that is signed and encrypted.
	envCase struct {
		msgCase
		BLZ, User, PIN, SysID, Fn string
		Late                      bool `json:",omitempty"` // system id and security function are set after creation
		// what was set before: system ids and security functions
		Before []struct{ SysID, Fn string } `json:",omitempty"`
	}
)

var reqKinds = []string{"HKSAL:5", "HKSAL:6", "HKSAL:7", "HKSAL:8", "HKKAZ:5", "HKKAZ:6", "HKKAZ:7", "HKKIF:1", "HKKIF:2", "HKKIF:3", "HKKIF:4", "HKKIF:5", "HKKIF:6", "HKPRO:3", "HKPRO:4",
	"HKKOM:3", "HKVVB:2", "HKVVB:3", "HKIDN:2", "HKEND:1", "HKSYN:2", "HKSYN:3", "HKTAN:1", "HKTAN:1b", "HKTAN:6", "HKISA:2"}

func genReq(t *rapid.T) reqCase {
	c := reqCase{Kind: rapid.SampledFrom(reqKinds).Draw(t, "kind")}
	switch c.Kind {
	case "HKSAL:7", "HKSAL:8", "HKKAZ:7", "HKKIF:3", "HKKIF:4", "HKKIF:5", "HKKIF:6":
		c.Acct = genField(t, "kti")
		c.All = rapid.Bool().Draw(t, "all")
	case "HKSAL:5", "HKSAL:6", "HKKAZ:5", "HKKAZ:6", "HKKIF:1", "HKKIF:2":
		c.Acct = genField(t, "ktv")
		c.All = rapid.Bool().Draw(t, "all")
	}
	switch c.Kind[:5] {
	case "HKSAL", "HKKIF":
		c.T = draws(t, anyText(35))
	case "HKKAZ":
		c.T = draws(t, anyText(35))
		if rapid.IntRange(0, 3).Draw(t, "range") > 0 {
			c.From, c.To = genDay(t, "from"), genDay(t, "to")
		}
	case "HKPRO":
		c.T, c.N = draws(t, anyText(35)), drawInts(t, 9999)
		c.From, c.To = genDay(t, "from"), genDay(t, "to")
	case "HKKOM":
		c.T, c.N = draws(t, anyText(0)), drawInts(t, 9999)
		c.Bank = []fv{genField(t, "kik"), genField(t, "kik")}
	case "HKVVB":
		c.T, c.N = draws(t, anyText(25), anyText(5)), drawInts(t, 999, 999, 3)
	case "HKIDN":
		c.T, c.N = draws(t, anyText(30), anyText(30)), drawInts(t, 1)
		c.Bank = []fv{genField(t, "kik")}
	case "HKEND":
		c.T = draws(t, anyText(30))
	case "HKSYN":
		c.N = drawInts(t, 2)
	case "HKTAN":
		c.T, c.N = draws(t, anyText(35)), drawInts(t, 1)
	case "HKISA":
		c.Bank = []fv{genField(t, "key")}
	}
	return c
}

func (c reqCase) wire(pos int) []byte {
	id := c.Kind[:5]
	v := int(c.Kind[6] - '0')
	seg := func(els ...[]byte) []byte {
		return ref.Segment(append([][]byte{ref.Header(id, pos, v, -1)}, els...)...)
	}
	switch id {
	case "HKSAL", "HKKIF":
		return seg(c.Acct.wire(), ref.Bool(c.All), nil, txt(c.T[0]))
	case "HKKAZ":
		var from, to []byte
		if c.From != 0 {
			from, to = dateWire(dayOf(c.From)), dateWire(dayOf(c.To))
		}
		return seg(c.Acct.wire(), ref.Bool(c.All), from, to, nil, txt(c.T[0]))
	case "HKPRO":
		return seg(dateWire(dayOf(c.From)), dateWire(dayOf(c.To)), ref.Num(c.N[0]), txt(c.T[0]))
	case "HKKOM":
		return seg(c.Bank[0].wire(), c.Bank[1].wire(), ref.Num(c.N[0]), txt(c.T[0]))
	case "HKVVB":
		p, pv := bankCfg{Product: c.T[0], ProductVer: c.T[1]}.product()
		return seg(ref.Num(c.N[0]), ref.Num(c.N[1]), ref.Num(c.N[2]), txt(p), txt(pv))
	case "HKIDN":
		return seg(c.Bank[0].wire(), txt(c.T[0]), txt(c.T[1]), ref.Num(c.N[0]))
	case "HKEND":
		return seg(txt(c.T[0]))
	case "HKSYN":
		return seg(ref.Num(c.N[0]))
	case "HKTAN":
		switch c.Kind {
		case "HKTAN:1":
			return seg([]byte("4"))
		case "HKTAN:1b":
			return seg([]byte("2"), nil, txt(c.T[0]), nil, ref.Bool(c.N[0] == 1))
		}
		return seg([]byte("4"), txt(c.T[0]))
	case "HKISA":
		return seg(ref.Num(2), ref.Num(124), c.Bank[0].wire())
	}
	panic("harness: " + c.Kind)
}

func (f fv) bankID() domain.BankID { return domain.BankID{CountryCode: f.N[0], ID: f.T[0]} }

// segment makes the segment with the library.
func (c reqCase) segment() segment.ClientSegment {
	switch c.Kind {
	case "HKSAL:5", "HKSAL:6", "HKSAL:7", "HKSAL:8":
		var r segment.AccountBalanceRequest
		switch c.Kind[6] {
		case '5':
			r = segment.NewAccountBalanceRequestV5(c.Acct.account(), c.All)
		case '6':
			r = segment.NewAccountBalanceRequestV6(c.Acct.account(), c.All)
		case '7':
			r = segment.NewAccountBalanceRequestV7(c.Acct.intAccount(), c.All)
		case '8':
			r = segment.NewAccountBalanceRequestV8(c.Acct.intAccount(), c.All)
		}
		if c.T[0] != "" {
			r.SetContinuationMark(c.T[0])
		}
		return r
	case "HKKAZ:5", "HKKAZ:6", "HKKAZ:7":
		var r *segment.AccountTransactionRequestSegment
		switch c.Kind[6] {
		case '5':
			r = segment.NewAccountTransactionRequestSegmentV5(c.Acct.account(), c.All)
		case '6':
			r = segment.NewAccountTransactionRequestSegmentV6(c.Acct.account(), c.All)
		case '7':
			r = segment.NewAccountTransactionRequestSegmentV7(c.Acct.intAccount(), c.All)
		}
		if c.From != 0 {
			r.SetTransactionRange(domain.Timeframe{StartDate: domain.NewShortDate(dayOf(c.From)), EndDate: domain.NewShortDate(dayOf(c.To))})
		}
		if c.T[0] != "" {
			r.SetContinuationReference(c.T[0])
		}
		return r
	case "HKKIF:1", "HKKIF:2", "HKKIF:3", "HKKIF:4", "HKKIF:5", "HKKIF:6":
		var r segment.AccountInformationRequest
		switch c.Kind[6] {
		case '1':
			r = segment.NewAccountInformationRequestSegmentV1(c.Acct.account(), c.All)
		case '2':
			r = segment.NewAccountInformationRequestSegmentV2(c.Acct.account(), c.All)
		case '3':
			r = segment.NewAccountInformationRequestSegmentV3(c.Acct.intAccount(), c.All)
		case '4':
			r = segment.NewAccountInformationRequestSegmentV4(c.Acct.intAccount(), c.All)
		case '5':
			r = segment.NewAccountInformationRequestSegmentV5(c.Acct.intAccount(), c.All)
		case '6':
			r = segment.NewAccountInformationRequestSegmentV6(c.Acct.intAccount(), c.All)
		}
		if c.T[0] != "" {
			r.SetContinuationMark(c.T[0])
		}
		return r
	case "HKPRO:3":
		return segment.NewStatusProtocolRequestV3(dayOf(c.From), dayOf(c.To), c.N[0], c.T[0])
	case "HKPRO:4":
		return segment.NewStatusProtocolRequestV4(dayOf(c.From), dayOf(c.To), c.N[0], c.T[0])
	case "HKKOM:3":
		return segment.NewCommunicationAccessRequestSegment(c.Bank[0].bankID(), c.Bank[1].bankID(), c.N[0], c.T[0])
	case "HKVVB:2":
		return segment.NewProcessingPreparationSegmentV2(c.N[0], c.N[1], domain.Language(c.N[2]), c.T[0], c.T[1])
	case "HKVVB:3":
		return segment.NewProcessingPreparationSegmentV3(c.N[0], c.N[1], domain.Language(c.N[2]), c.T[0], c.T[1])
	case "HKIDN:2":
		return segment.NewIdentificationSegment(c.Bank[0].bankID(), c.T[0], c.T[1], c.N[0] == 1)
	case "HKEND:1":
		return segment.NewDialogEndSegment(c.T[0])
	case "HKSYN:2", "HKSYN:3":
		mode := []segment.SyncMode{segment.SyncModeAquireClientID, segment.SyncModeAquireLastProcessedMessageID, segment.SyncModeAquireSignatureID}[c.N[0]]
		if c.Kind[6] == '2' {
			return segment.NewSynchronisationSegmentV2(mode)
		}
		return segment.NewSynchronisationSegmentV3(mode)
	case "HKTAN:1":
		return segment.NewTanProcess4RequestSegmentV1(c.T[0])
	case "HKTAN:1b":
		return segment.NewTanRequestProcess2(c.T[0], c.N[0] == 1)
	case "HKTAN:6":
		return segment.NewTanProcess4RequestSegmentV6(c.T[0])
	case "HKISA:2":
		f := c.Bank[0]
		return segment.NewPublicKeyRequestSegment(3, domain.KeyName{BankID: f.bankID(), UserID: f.T[1], KeyType: domain.KeyType(f.T[2]), KeyNumber: f.N[1], KeyVersion: f.N[2]})
	}
	panic("harness: " + c.Kind)
}

func (c reqCase) labels() []string {
	l := append([]string{c.Kind}, textLabels(strings.Join(append(append([]string{}, c.T...), c.Acct.T...), "\x01"))...)
	for _, b := range c.Bank {
		l = append(l, textLabels(strings.Join(b.T, "\x01"))...)
	}
	return l
}

func genMsg(t *rapid.T) msgCase {
	c := msgCase{V: rapid.SampledFrom([]int{220, 300}).Draw(t, "version"), Dialog: nonEmpty(30).Draw(t, "dialog"), Number: rapid.IntRange(1, 9999).Draw(t, "number"),
		Segs: rapid.SliceOfN(rapid.Custom(genReq), 0, 8).Draw(t, "segments")}
	if rapid.IntRange(0, 2).Draw(t, "missing") == 0 {
		c.Missing = rapid.SliceOfN(rapid.IntRange(0, len(c.Segs)), 1, 3).Draw(t, "places")
	}
	return c
}

func (c msgCase) message() *message.BasicMessage {
	v := map[int]segment.HBCIVersion{220: segment.HBCI220, 300: segment.FINTS300}[c.V]
	var segs []segment.ClientSegment
	for i := 0; i <= len(c.Segs); i++ {
		for _, m := range c.Missing {
			if m == i {
				segs = append(segs, (*segment.IdentificationSegment)(nil))
			}
		}
		if i < len(c.Segs) {
			segs = append(segs, c.Segs[i].segment())
		}
	}
	m := message.NewBasicMessage(message.NewHBCIMessage(v, segs...))
	m.Header = segment.NewMessageHeaderSegment(-1, v.Version(), c.Dialog, c.Number)
	m.End = segment.NewMessageEndSegment(-1, c.Number)
	return m
}

// content compares the segments of a message with the ones it was made of.
func (c msgCase) content(got []ref.Seg, pos int) error {
	if len(got) != len(c.Segs) {
		return fmt.Errorf("%d segments, want %d", len(got), len(c.Segs))
	}
	for i, s := range c.Segs {
		if err := bytesEq("segment "+s.Kind, got[i].Raw, s.wire(pos+i)); err != nil {
			return err
		}
	}
	return nil
}

func (c msgCase) labels() []string {
	l := []string{fmt.Sprintf("v%d", c.V), fmt.Sprintf("segments-%d", min(len(c.Segs), 4))}
	if len(c.Missing) > 0 {
		l = append(l, "missing-segments")
	}
	for _, s := range c.Segs {
		l = append(l, s.labels()[1:]...)
	}
	return l
}

func (c envCase) check() error {
	key := domain.NewPinKey(c.PIN, domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: c.BLZ}, c.User, "S"))
	enc := domain.NewPinKey(c.PIN, domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: c.BLZ}, c.User, "V"))
	sysID := c.SysID
	if c.Late {
		sysID = "0"
	}
	sp, cp := message.NewPinTanSignatureProvider(key, sysID), message.NewPinTanCryptoProvider(enc, sysID)
	for _, o := range c.Before {
		sp.SetSecurityFunction(o.Fn)
		cp.SetSecurityFunction(o.Fn)
		sp.SetClientSystemID(o.SysID)
		cp.SetClientSystemID(o.SysID)
	}
	sp.SetSecurityFunction(c.Fn)
	cp.SetSecurityFunction(c.Fn)
	if c.Late || len(c.Before) > 0 {
		sp.SetClientSystemID(c.SysID)
		cp.SetClientSystemID(c.SysID)
	}
	for round := 0; round < 2; round++ {
		m, err := c.message().Sign(sp)
		if err != nil {
			return fmt.Errorf("sign: %w", err)
		}
		e, err := m.Encrypt(cp)
		if err != nil {
			return fmt.Errorf("encrypt: %w", err)
		}
		raw, err := e.MarshalHBCI()
		if err != nil {
			return fmt.Errorf("marshal: %w", err)
		}
		again, err := e.MarshalHBCI()
		if err := first(err, bytesEq("marshalled again", again, raw)); err != nil {
			return err
		}
		q := req{Raw: raw, Fn: c.Fn, SysID: c.SysID}
		if q.Outer, err = ref.Parse(raw); err != nil {
			return fmt.Errorf("%w: %q", err, raw)
		}
		data, err := find(q.Outer, "HNVSD")
		if err != nil {
			return err
		}
		if q.Inner, err = ref.Parse(data.B(1, 0)); err != nil {
			return fmt.Errorf("%w: %q", err, data.B(1, 0))
		}
		s := scenario{Bank: bankCfg{V: c.V, BLZ: c.BLZ, User: c.User, PIN: c.PIN}}
		if err := framing(raw, q.Outer, q.Inner, c.V, c.Dialog, c.Number, true); err != nil {
			return fmt.Errorf("%w: %q", err, raw)
		}
		if err := first(s.envelope(q), c.content(q.Inner[1:len(q.Inner)-1], 3)); err != nil {
			return fmt.Errorf("%w: %q", err, raw)
		}
		// what is enclosed comes out again
		content := data.B(1, 0)
		for _, p := range []message.CryptoProvider{cp, message.NewPinTanCryptoProvider(enc, "other")} {
			sealed, err := p.Encrypt(append([]byte{}, content...))
			if err != nil {
				return fmt.Errorf("encrypt: %w", err)
			}
			open, err := p.Decrypt(sealed)
			if err := first(err, bytesEq("enclosed", open, content)); err != nil {
				return err
			}
		}
		dec, err := e.Decrypt(cp)
		if err != nil {
			return fmt.Errorf("decrypt: %w", err)
		}
		for _, seg := range q.Inner {
			found := false
			for _, b := range dec.FindMarshaledSegments(seg.ID()) {
				found = found || bytes.Equal(b, seg.Raw)
			}
			if !found {
				return fmt.Errorf("segment %q is not in the decrypted message", seg.Raw)
			}
		}
	}
	return nil
}

func init() {
	pbt.Add(pbt.Spec[reqCase]{
		Prop: "C03", Name: "segments", Quick: 60000, Thorough: 3000000,
		Rule: "one request segment of any kind and version with any values, at any position: it holds exactly these values in the order of the standard; non-trivial: all",
		Gen:  genReq, Classify: reqCase.labels,
		Check: func(c reqCase) error {
			for _, pos := range []int{3, 1, 998} {
				s := c.segment()
				s.SetPosition(func() int { return pos })
				got, err := s.MarshalHBCI()
				if err := first(err, bytesEq("segment", got, c.wire(pos)), eq("id", s.Header().ID.Val(), c.Kind[:5]), eq("version", s.Header().Version.Val(), int(c.Kind[6]-'0'))); err != nil {
					return err
				}
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[msgCase]{
		Prop: "C08", Name: "messages", Quick: 30000, Thorough: 1500000,
		Rule: "an unencrypted message of up to eight request segments with any values, some places left empty, any dialog id and message number: size, numbering, header and trailer; segments are found by their id; non-trivial: all",
		Gen:  genMsg, Classify: msgCase.labels,
		Check: func(c msgCase) error {
			m := c.message()
			m.SetSegmentPositions()
			raw, err := m.MarshalHBCI()
			if err != nil {
				return err
			}
			again, err := m.MarshalHBCI()
			if err := first(err, bytesEq("marshalled again", again, raw)); err != nil {
				return err
			}
			segs, err := ref.Parse(raw)
			if err != nil {
				return fmt.Errorf("%w: %q", err, raw)
			}
			if err := first(framing(raw, segs, nil, c.V, c.Dialog, c.Number, false), eq("size in the header", m.Header.Size.Val(), len(raw)), c.content(segs[1:len(segs)-1], 2)); err != nil {
				return fmt.Errorf("%w: %q", err, raw)
			}
			if len(c.Missing) > 0 {
				return nil
			}
			for _, k := range reqKinds {
				id := k[:5]
				n := 0
				for _, s := range c.Segs {
					if s.Kind[:5] == id {
						n++
					}
				}
				if err := first(eq("segments "+id, len(m.FindSegments(id)), n), eq("segment "+id, m.FindSegment(id) != nil, n > 0)); err != nil {
					return err
				}
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[envCase]{
		Prop: "C09", Name: "envelopes", Quick: 20000, Thorough: 1000000,
		Rule: "a message of up to eight request segments with any values, signed and encrypted with the providers of any key, system id and security function, set once or several times: framing, signature, envelope and content, and decrypting gives the content back; non-trivial: all",
		Gen: func(t *rapid.T) envCase {
			fns := []string{"999", "900", "912", "942", "997"}
			c := envCase{msgCase: genMsg(t), BLZ: nonEmpty(20).Draw(t, "blz"), User: nonEmpty(30).Draw(t, "user"), PIN: nonEmpty(20).Draw(t, "pin"), SysID: nonEmpty(30).Draw(t, "system"),
				Fn: rapid.SampledFrom(fns).Draw(t, "fn"), Late: rapid.Bool().Draw(t, "late")}
			for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "before"); i < n; i++ {
				c.Before = append(c.Before, struct{ SysID, Fn string }{nonEmpty(30).Draw(t, "other system"), rapid.SampledFrom(fns).Draw(t, "other fn")})
			}
			return c
		},
		Classify: func(c envCase) []string { return append(c.labels(), "fn-"+c.Fn) },
		Check:    envCase.check,
	})
	pbt.Add(pbt.Spec[anonCase]{
		Prop: "C10", Name: "anonymous", Quick: 4000, Thorough: 200000,
		Rule: "an anonymous client and a bank that hands out dialog ids and bank parameters, one to three calls, the answer to any request may hold an error or get lost, sometimes with calls of the logged-in customer before and after: every dialog is opened without signature and PIN, numbered, ended, and errors are reported; non-trivial: all",
		Gen:  genAnon,
		Classify: func(c anonCase) []string {
			l := []string{fmt.Sprintf("v%d", c.V), fmt.Sprintf("calls-%d", len(c.Calls))}
			if c.Login != nil {
				l = append(l, "login")
			}
			if c.FaultAt >= 0 {
				l = append(l, "fault-"+[]string{"init", "job", "end"}[c.FaultAt%3])
			}
			return l
		},
		Check: anonCase.check,
	})
}

// anonCase is an anonymous client asking for the access data of banks.
type anonCase struct {
	V              int
	BLZ, User, PIN string
	Product, Ver   string   `json:",omitempty"`
	Dialogs        []string // one per call
	BPD            []int    // version the bank sends when opened; 0: none
	Calls          []reqCase
	FaultAt        int // request that fails, -1: none
	Code           int // 0: lost
	Text           string
	Login          *bankCfg `json:",omitempty"` // the customer asks for the accounts before and after
}

func genAnon(t *rapid.T) anonCase {
	c := anonCase{V: rapid.SampledFrom([]int{220, 300}).Draw(t, "version"), BLZ: nonEmpty(12).Draw(t, "blz"), User: nonEmpty(12).Draw(t, "user"), PIN: "PIN!" + plain(8).Draw(t, "pin"),
		FaultAt: -1, Text: nonEmpty(20).Draw(t, "text")}
	if rapid.Bool().Draw(t, "product") {
		c.Product, c.Ver = nonEmpty(20).Draw(t, "name"), nonEmpty(5).Draw(t, "ver")
	}
	for i := rapid.IntRange(1, 3).Draw(t, "calls"); i > 0; i-- {
		c.Calls = append(c.Calls, reqCase{Kind: "HKKOM:3", T: []string{""}, N: drawInts(t, 9999), Bank: []fv{genField(t, "kik"), genField(t, "kik")}})
		c.Dialogs = append(c.Dialogs, noZero(nonEmpty(20)).Draw(t, "dialog"))
		c.BPD = append(c.BPD, rapid.IntRange(0, 99).Draw(t, "bpd"))
	}
	if rapid.IntRange(0, 2).Draw(t, "fault") == 0 {
		c.FaultAt = rapid.IntRange(0, 3*len(c.Calls)-1).Draw(t, "at")
		c.Code = rapid.SampledFrom([]int{0, 9000, 9010, 9800, 9999}).Draw(t, "code")
	}
	if rapid.IntRange(0, 2).Draw(t, "login") == 0 {
		l := genBank(t)
		c.Login = &l
		c.V, c.BLZ, c.User, c.PIN, c.Product, c.Ver = l.V, l.BLZ, l.User, l.PIN, l.Product, l.ProductVer
	}
	return c
}

func (c anonCase) check() error {
	var want [][][]byte // segments of the requests to come
	var kinds []string
	n, call, bpd, upd, inDialog := 0, 0, 0, 0, 0
	var problem error
	var login *bank
	loggedIn := false
	anonymous := transport.Func(func(r *transport.Request) (*transport.Response, error) {
		if loggedIn {
			return login.Do(r)
		}
		at := n
		n++
		if at >= len(want) {
			problem = first(problem, fmt.Errorf("request %d was not to be made", at))
			return nil, errTransport
		}
		body, _ := io.ReadAll(r.Body)
		raw, err := base64.StdEncoding.DecodeString(string(body))
		if err != nil {
			problem = first(problem, err)
			return nil, errTransport
		}
		segs, err := ref.Parse(raw)
		if err == nil {
			dialog := "0"
			if kinds[at] != "init" {
				dialog = c.Dialogs[call]
			} else {
				inDialog = 0
			}
			inDialog++
			err = framing(raw, segs, nil, c.V, dialog, inDialog, false)
		}
		if err == nil && c.Login == nil && bytes.Contains(raw, []byte(c.PIN)) {
			err = errors.New("holds the PIN")
		}
		if err == nil {
			err = eq("segments", len(segs)-2, len(want[at]))
			for i := range want[at] {
				if err == nil {
					err = bytesEq("segment", segs[1+i].Raw, want[at][i])
				}
			}
		}
		if err != nil {
			problem = first(problem, fmt.Errorf("request %d (%s): %w: %q", at, kinds[at], err, raw))
		}
		if c.FaultAt == at && c.Code == 0 {
			return nil, errTransport
		}
		pos := 1
		var out []byte
		add := func(id string, v, refTo int, els ...[]byte) {
			pos++
			out = append(out, ref.Segment(append([][]byte{ref.Header(id, pos, v, refTo)}, els...)...)...)
		}
		code := 20
		if c.FaultAt == at {
			code = c.Code
		}
		add("HIRMG", 2, -1, ref.Group(ref.Digits(code, 4), nil, txt(c.Text)))
		if kinds[at] == "init" && c.BPD[call] > 0 && c.FaultAt != at {
			bpd = c.BPD[call]
			add("HIBPA", map[int]int{220: 2, 300: 3}[c.V], 3, ref.Num(bpd), ref.Group(ref.Num(280), txt(c.BLZ)), txt("Bank"), ref.Num(1), ref.Num(1), ref.Num(c.V), ref.Num(0))
		}
		add("HNHBS", 1, -1, ref.Num(inDialog))
		head := ref.Segment(ref.Header("HNHBK", 1, 3, -1), []byte("000000000000"), ref.Num(c.V), txt(c.Dialogs[call]), ref.Num(inDialog))
		copy(head[bytes.IndexByte(head, '+')+1:], fmt.Sprintf("%012d", len(head)+len(out)))
		return &transport.Response{Request: r, Body: io.NopCloser(strings.NewReader(base64.StdEncoding.EncodeToString(append(head, out...))))}, nil
	})
	cl, err := client.New(client.Config{BankID: c.BLZ, AccountID: c.User, PIN: c.PIN, URL: "https://bank.example/hbci", HBCIVersion: c.V, Transport: anonymous, ProductName: c.Product, ProductVersion: c.Ver})
	if err != nil {
		return err
	}
	a := &client.AnonymousClient{Client: cl}
	accounts := func() {}
	if c.Login != nil {
		ops := []op{{Kind: "accounts"}, {Kind: "accounts"}}
		login = newBank(*c.Login, ops, nil)
		accounts = func() {
			loggedIn = true
			login.op++
			login.bpd = bpd
			quiet(func() { ops[login.op].call(cl) })
			bpd, upd = login.bpd, login.upd
			loggedIn = false
		}
		accounts()
	}
	for i, k := range c.Calls {
		call = i
		p, pv := bankCfg{Product: c.Product, ProductVer: c.Ver}.product()
		base := n
		want, kinds = want[:n], kinds[:n]
		want = append(want,
			[][]byte{ref.Segment(ref.Header("HKIDN", 2, 2, -1), ref.Group(ref.Num(280), txt(c.BLZ)), []byte("9999999999"), []byte("0"), []byte("0")),
				ref.Segment(ref.Header("HKVVB", 3, 3, -1), ref.Num(bpd), ref.Num(upd), ref.Num(1), txt(p), txt(pv))},
			[][]byte{k.wire(2)},
			[][]byte{ref.Segment(ref.Header("HKEND", 2, 1, -1), txt(c.Dialogs[i]))})
		kinds = append(kinds, "init", "job", "end")
		var callErr error
		quiet(func() {
			_, callErr = a.CommunicationAccess(k.Bank[0].bankID(), k.Bank[1].bankID(), k.N[0])
		})
		if problem != nil {
			return problem
		}
		fail := c.FaultAt >= base && c.FaultAt < n
		requests := 3
		if fail && c.FaultAt == base {
			requests = 1
		}
		if fail && c.FaultAt == base+2 {
			fail = false
		}
		if err := first(eq("requests of call "+strconv.Itoa(i), n-base, requests), eq("call "+strconv.Itoa(i)+" fails", callErr != nil, fail)); err != nil {
			return err
		}
		if fail && c.Code != 0 && !strings.Contains(callErr.Error(), strconv.Itoa(c.Code)) {
			return fmt.Errorf("call %d does not tell the code %d: %v", i, c.Code, callErr)
		}
	}
	if c.Login != nil {
		accounts()
		if len(login.problems) > 0 {
			return errors.New(login.problems[0])
		}
		if err := (scenario{Bank: *c.Login, Ops: login.ops}).checkSequence(login); err != nil {
			return fmt.Errorf("the dialogs with the customer: %w", err)
		}
	}
	return nil
}
