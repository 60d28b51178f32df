package props

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/internal"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// The model bank: a bank server that understands just enough HBCI to talk to
// the client under test, written on top of ref and nothing of go-hbci. It
// keeps the state a bank keeps, records every request together with the state
// the client should be in, and can be told to misbehave.
type (
	// bankCfg is a bank and its customer.
	bankCfg struct {
		V                   int // 220 or 300
		BLZ, User, PIN      string
		Product, ProductVer string
		SystemIDs           []string // handed out in turn
		DialogIDs           []string // handed out in turn
		BPD, UPD            int
		UPDUser             string
		UPDVersion          int // of HIUPA
		Accounts            []segCase
		Offers              []offer
		TanFns              []string `json:",omitempty"` // processes in HITANS:6
		Allowed             []string `json:",omitempty"` // parameters of 3920
		Plain               bool     `json:",omitempty"` // answer unencrypted
		Acks                []bankAck
		News                bool `json:",omitempty"`
		Always              bool `json:",omitempty"` // always send BPD and UPD
		// what the bank changes, from a call for the accounts on
		Later []change `json:",omitempty"`
	}
	change struct {
		From     int // call
		BPD      int
		Offers   []offer
		TanFns   []string `json:",omitempty"`
		Allowed  []string `json:",omitempty"`
		UPD      int
		UPDUser  string
		Accounts []segCase
	}
	offer struct {
		ID      string
		Version int
	}
	// bankAck is an acknowledgement the bank adds to its answers.
	bankAck struct {
		Code   int
		Elem   string `json:",omitempty"`
		Text   string
		Params []string `json:",omitempty"`
		Seg    bool     `json:",omitempty"` // in HIRMS rather than HIRMG
		Ref    int      `json:",omitempty"` // segment it is about, 3 unless given
	}
	// fault is something that goes wrong with the answer to one request.
	fault struct {
		At    int // request number, from 0
		Kind  string
		N     int        `json:",omitempty"`
		B     byte       `json:",omitempty"`
		Code  int        `json:",omitempty"`
		Text  string     `json:",omitempty"`
		Ref   int        `json:",omitempty"` // segment an error is about
		Ahead bool       `json:",omitempty"` // error before all other acknowledgements
		Edits []edit     `json:",omitempty"`
		Lines []lineEdit `json:",omitempty"`
	}
	// op is one call of the customer.
	op struct {
		Kind       string // accounts balances sepaBalances tx sepaTx status info
		Acct       fv
		All        bool   `json:",omitempty"`
		From, To   int    `json:",omitempty"`
		Max        int    `json:",omitempty"`
		Cont       string `json:",omitempty"` // reference the caller continues with
		Pages      []page
		WithinTime bool `json:",omitempty"`
	}
	// page is the answer to one query of an operation.
	page struct {
		Segs     []segCase  `json:",omitempty"` // HISAL, HIPRO, HIKIF
		Booked   [][]mtStmt `json:",omitempty"` // one HIKAZ each
		Unbooked string     `json:",omitempty"`
		Pad      int        `json:",omitempty"` // bytes after the unbooked data
		Empty    bool       `json:",omitempty"` // HIKAZ without bookings
		Next     string     `json:",omitempty"` // continuation reference, "" on the last page
		More     []string   `json:",omitempty"` // what the bank says after the reference
		Extra    []bankAck  `json:",omitempty"`
	}
)

// req is one request with the state of the dialog before it.
type req struct {
	Raw          []byte
	URL          string
	Outer, Inner []ref.Seg
	Kind         string // sync init job end
	Op           int    // call during which it arrived
	At           time.Time
	Effect       string // of a fault: must (fail), maybe (fail), skip (other result), "" (none)

	// what the client should know when sending
	Dialog string
	Number int
	SysID  string
	Client string
	BPD    int
	UPD    int
	Fn     string
	Open   bool // a dialog is open
}

type bank struct {
	base   bankCfg
	cfg    bankCfg // now
	faults []fault
	ops    []op

	log  []req
	op   int
	page int

	// customer side as the bank expects it
	dialog  string
	number  int
	open    bool
	sysID   string
	client  string
	bpd     int
	upd     int
	fn      string
	dialogs int
	systems int
	// problems of requests the bank cannot make sense of
	problems []string
}

func newBank(cfg bankCfg, ops []op, faults []fault) *bank {
	return &bank{base: cfg, cfg: cfg, ops: ops, faults: faults, dialog: "0", sysID: "0", client: cfg.User, fn: "999", op: -1}
}

var errTransport = errors.New("harness: connection lost")

type brokenReader struct{ r io.Reader }

func (b brokenReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errTransport
	}
	return n, err
}

// Do is the transport of the client.
func (b *bank) Do(r *transport.Request) (*transport.Response, error) {
	body, err := io.ReadAll(r.Body)
	if err != nil {
		panic("harness: " + err.Error())
	}
	raw, err := base64.StdEncoding.DecodeString(string(body))
	if err != nil {
		b.problems = append(b.problems, fmt.Sprintf("request is not base64: %q", body))
		return nil, errTransport
	}
	if len(b.log) > 1000 {
		panic("the client does not stop sending requests")
	}
	b.cfg = b.base.at(b.op)
	q := req{Raw: raw, URL: r.URL, Op: b.op, At: time.Now(), Dialog: b.dialog, Number: b.number + 1, SysID: b.sysID, Client: b.client, BPD: b.bpd, UPD: b.upd, Fn: b.fn, Open: b.open}
	if q.Outer, err = ref.Parse(raw); err != nil {
		b.problems = append(b.problems, fmt.Sprintf("request is not HBCI: %v: %q", err, raw))
		return nil, errTransport
	}
	q.Inner = q.Outer
	for _, s := range q.Outer {
		if s.ID() == "HNVSD" {
			if q.Inner, err = ref.Parse(s.B(1, 0)); err != nil {
				b.problems = append(b.problems, fmt.Sprintf("content of request is not HBCI: %v: %q", err, s.B(1, 0)))
				return nil, errTransport
			}
		}
	}
	q.Kind = "job"
	for _, s := range q.Inner {
		switch s.ID() {
		case "HKSYN":
			q.Kind = "sync"
		case "HKEND":
			q.Kind = "end"
		case "HKIDN":
			if q.Kind == "job" {
				q.Kind = "init"
			}
		}
	}
	if q.Kind == "sync" || q.Kind == "init" {
		q.Dialog, q.Number = "0", 1
		if q.Kind == "sync" {
			q.SysID, q.BPD, q.UPD = "0", 0, 0
		}
	}
	var f *fault
	for i := range b.faults {
		if b.faults[i].At == len(b.log) {
			f = &b.faults[i]
		}
	}
	b.log = append(b.log, q)
	return b.answer(q, f, r)
}

// at is the bank at the time of a call.
func (c bankCfg) at(call int) bankCfg {
	for _, l := range c.Later {
		if call >= l.From {
			c.BPD, c.Offers, c.TanFns, c.Allowed, c.UPD, c.UPDUser, c.Accounts = l.BPD, l.Offers, l.TanFns, l.Allowed, l.UPD, l.UPDUser, l.Accounts
		}
	}
	return c
}

// has reports whether the answer carries the fault.
func (f *fault) is(kind string) bool { return f != nil && f.Kind == kind }

func (b *bank) answer(q req, f *fault, r *transport.Request) (*transport.Response, error) {
	effect := func(e string) { b.log[len(b.log)-1].Effect = e }
	if f.is("transport") {
		effect("must")
		b.number++
		return nil, errTransport
	}
	pos := 1
	var segs [][]byte
	add := func(id string, version, refer int, els ...[]byte) {
		pos++
		segs = append(segs, ref.Segment(append([][]byte{ref.Header(id, pos, version, refer)}, els...)...))
	}
	addCase := func(c segCase) {
		id, v := splitSeg(c.Seg)
		var els [][]byte
		for _, e := range c.F {
			els = append(els, e.wire())
		}
		add(id, v, c.Ref, els...)
	}
	ackWire := func(a bankAck) []byte {
		els := [][]byte{ref.Digits(a.Code, 4), txt(a.Elem), txt(a.Text)}
		for _, p := range a.Params {
			els = append(els, txt(p))
		}
		return ref.Group(els...)
	}
	acks := append([]bankAck{}, b.cfg.Acks...)
	dialog := q.Dialog
	sysID := ""
	sendBPD, sendUPD := false, false
	var pg *page
	switch q.Kind {
	case "sync", "init":
		dialog = b.cfg.DialogIDs[b.dialogs%len(b.cfg.DialogIDs)]
		b.dialogs++
		sendBPD = b.cfg.Always || q.BPD != b.cfg.BPD || b.cfg.BPD == 0
		sendUPD = b.cfg.Always || q.UPD != b.cfg.UPD || b.cfg.UPD == 0
		if sendBPD && len(b.cfg.Allowed) > 0 {
			acks = append(acks, bankAck{Code: 3920, Text: "Zugelassene Verfahren", Params: b.cfg.Allowed, Seg: true})
		}
		if q.Kind == "sync" {
			sysID = b.cfg.SystemIDs[b.systems%len(b.cfg.SystemIDs)]
			b.systems++
		}
	case "job":
		if b.op >= 0 && b.op < len(b.ops) && b.page < len(b.ops[b.op].Pages) {
			pg = &b.ops[b.op].Pages[b.page]
			b.page++
			acks = append(acks, pg.Extra...)
			if pg.Next != "" {
				more := bankAck{Code: 3040, Text: "weitere Daten", Params: append([]string{pg.Next}, pg.More...), Seg: true}
				if f.is("no-reference") {
					// there is more, but no way to ask for it
					more.Params = [][]string{nil, {""}}[f.N%2]
				}
				acks = append(acks, more)
			}
		} else {
			acks = append(acks, bankAck{Code: 9010, Text: "Unerwarteter Auftrag"})
		}
	}
	if f.is("msg-error") {
		acks = append(acks, bankAck{Code: f.Code, Text: f.Text})
	}
	if f.is("seg-error") {
		acks = append(acks, bankAck{Code: f.Code, Text: f.Text, Seg: true, Ref: f.Ref})
	}
	received := bankAck{Code: 10, Text: "Nachricht entgegengenommen"}
	if n := len(acks); f != nil && f.Ahead && (f.is("msg-error") || f.is("seg-error")) {
		acks = append([]bankAck{acks[n-1], received}, acks[:n-1]...)
	} else {
		acks = append([]bankAck{received}, acks...)
	}
	// one HIRMS for each run of acknowledgements of the same segment
	type run struct {
		ref  int
		acks [][]byte
	}
	var msgAcks [][]byte
	var runs []run
	for _, a := range acks {
		if !a.Seg {
			msgAcks = append(msgAcks, ackWire(a))
			continue
		}
		if a.Ref == 0 {
			a.Ref = 3
		}
		if n := len(runs); n == 0 || runs[n-1].ref != a.Ref {
			runs = append(runs, run{ref: a.Ref})
		}
		runs[len(runs)-1].acks = append(runs[len(runs)-1].acks, ackWire(a))
	}
	add("HIRMG", 2, -1, msgAcks...)
	for _, r := range runs {
		add("HIRMS", 2, r.ref, r.acks...)
	}
	if sendBPD {
		bpa := [][]byte{ref.Num(b.cfg.BPD), ref.Group(ref.Num(280), txt(b.cfg.BLZ)), txt("Model Bank"), ref.Num(1), ref.Num(1), ref.Group(ref.Num(220), ref.Num(300)), ref.Num(0)}
		add("HIBPA", map[int]int{220: 2, 300: 3}[b.cfg.V], 3, bpa...)
		for _, o := range b.cfg.Offers {
			add(o.ID, o.Version, 3, ref.Num(3), ref.Num(1))
		}
		if len(b.cfg.TanFns) > 0 {
			add("HITANS", 6, 3, ref.Num(1), ref.Num(1), ref.Num(1), tanParams(b.cfg.TanFns))
		}
	}
	if sendUPD {
		upa := [][]byte{txt(b.cfg.UPDUser), ref.Num(b.cfg.UPD), ref.Num(0)}
		add("HIUPA", b.cfg.UPDVersion, 3, upa...)
		for _, a := range b.cfg.Accounts {
			addCase(a)
		}
	}
	if sysID != "" && !f.is("no-sync") {
		add("HISYN", map[int]int{220: 3, 300: 4}[b.cfg.V], 5, txt(sysID))
	}
	if b.cfg.News && q.Kind == "init" {
		add("HIKIM", 2, 3, txt("Wichtig: 'neu'"), txt("Guten Tag"))
	}
	if pg != nil && !f.is("no-data") {
		for _, s := range pg.Segs {
			addCase(s)
		}
		for _, st := range pg.Booked {
			data := mtData(st)
			if f.is("statement-edit") {
				for _, e := range f.Lines {
					data = e.apply(data)
				}
				effect("maybe")
			}
			els := [][]byte{ref.Bin(data)}
			if pg.Unbooked != "" {
				els = append(els, ref.Bin(append(ref.Latin1(pg.Unbooked), bigBytes(pg.Pad)...)))
			}
			add("HIKAZ", jobVersion(q), 4, els...)
		}
		if pg.Empty {
			add("HIKAZ", jobVersion(q), 4)
		}
	}
	inner := bytes.Join(segs, nil)
	if f.is("inner-cut") {
		inner = inner[:f.N%len(inner)]
	}
	if f.is("inner-damage") {
		inner[f.N%len(inner)] = f.B
	}
	if f.is("inner-edit") {
		inner = applyAll(f.Edits, inner)
	}
	header := func(size int) []byte {
		els := [][]byte{ref.Header("HNHBK", 1, 3, -1), ref.Digits(size, 12), ref.Num(b.cfg.V), txt(dialog), ref.Num(q.Number), ref.Group(txt(dialog), ref.Num(q.Number))}
		if f.is("no-dialog") {
			els = els[:3]
		}
		return ref.Segment(els...)
	}
	var body []byte
	if b.cfg.Plain {
		body = inner
	} else {
		vsk := [][]byte{ref.Header("HNVSK", 998, 2, -1), ref.Num(998), ref.Num(1), ref.Group(ref.Num(1), nil, txt("0")),
			[]byte("1:20240131:123456"), append(append([]byte("2:2:13:"), ref.Bin(make([]byte, 8))...), ":5:1"...),
			ref.Group(ref.Num(280), txt(b.cfg.BLZ), txt(b.cfg.User), []byte("V"), ref.Num(0), ref.Num(0)), ref.Num(0)}
		if b.cfg.V == 300 {
			vsk[0] = ref.Header("HNVSK", 998, 3, -1)
			vsk = append([][]byte{vsk[0], []byte("PIN:1")}, vsk[1:]...)
		}
		body = append(ref.Segment(vsk...), ref.Segment(ref.Header("HNVSD", 999, 1, -1), ref.Bin(inner))...)
	}
	tail := ref.Segment(ref.Header("HNHBS", pos+1, 1, -1), ref.Num(q.Number))
	if f.is("no-end") {
		tail = nil
	}
	msg := append(append(header(len(header(0))+len(body)+len(tail)), body...), tail...)
	var src io.Reader
	switch {
	case f.is("cut"):
		msg = msg[:f.N%len(msg)]
	case f.is("damage"):
		msg[f.N%len(msg)] = f.B
	case f.is("edit"):
		msg = applyAll(f.Edits, msg)
	case f.is("garbage"):
		msg = []byte(f.Text)
	}
	enc := []byte(base64.StdEncoding.EncodeToString(msg))
	switch {
	case f.is("base64-cut"):
		enc = enc[:f.N%len(enc)]
	case f.is("html"):
		enc = []byte("<html><body>503 Service Unavailable</body></html>")
	case f.is("empty"):
		enc = nil
	}
	src = bytes.NewReader(enc)
	if f.is("reset") {
		src = brokenReader{bytes.NewReader(enc[:f.N%len(enc)])}
	}
	switch {
	case f == nil:
	case f.is("msg-error"), f.is("seg-error"), f.is("no-end"), f.is("cut"), f.is("base64-cut"), f.is("reset"), f.is("html"), f.is("empty"):
		effect("must")
	case f.is("no-dialog"):
		effect("skip")
		if q.Kind == "sync" || q.Kind == "init" {
			effect("must")
		}
	case f.is("no-sync"):
		if q.Kind == "sync" {
			effect("must")
		}
	case f.is("statement-edit"):
	case f.is("no-reference"):
		if pg != nil && pg.Next != "" {
			effect("must")

		}
	case f.is("no-data"):
		if q.Kind == "job" {
			effect("skip")
			switch b.ops[b.op].Kind {
			case "balances", "sepaBalances", "info":
				effect("must")
			}
		}
	default: // any bytes
		effect("maybe")
		segs, err := ref.Parse(msg)
		if _, e := ref.Parse(inner); err != nil || e != nil && !b.cfg.Plain || len(segs) == 0 {
			effect("must")
		} else {
			end := false
			for _, s := range segs {
				end = end || s.ID() == "HNHBS"
			}
			if !end {
				effect("must")
			}
		}
	}

	// state after the exchange
	b.dialog, b.number, b.open = dialog, q.Number, q.Kind != "end"
	if f == nil {
		if sendBPD {
			b.bpd = b.cfg.BPD
			if fn := b.cfg.allowedFn(); fn != "" {
				b.fn = fn
			}
		}
		if sendUPD {
			b.upd = b.cfg.UPD
			if b.cfg.UPDUser != "" {
				b.client = b.cfg.UPDUser
			}
		}
		if sysID != "" {
			b.sysID = sysID
		}
	}
	return &transport.Response{Request: r, Body: io.NopCloser(src)}, nil
}

// jobVersion is the version of the job segment of a request.
func jobVersion(q req) int {
	for _, s := range q.Inner {
		switch s.ID() {
		case "HNSHK", "HKTAN", "HNSHA":
			continue
		}
		return s.Version()
	}
	return 0
}

// allowedFn is the security function the bank and the library agree on: the
// first one allowed for the customer that the bank describes.
func (c bankCfg) allowedFn() string {
	for _, a := range c.Allowed {
		for _, t := range c.TanFns {
			if a == t {
				return a
			}
		}
	}
	return ""
}

func tanParams(fns []string) []byte {
	els := [][]byte{[]byte("J"), []byte("N"), []byte("0")}
	for i, fn := range fns {
		els = append(els, txt(fn), []byte("2"), txt(fmt.Sprintf("TAN%d", i)), nil, nil, txt(fmt.Sprintf("Verfahren %d", i)), ref.Num(6), []byte("1"), txt("Text"), ref.Num(3),
			[]byte("J"), []byte("1"), []byte("N"), []byte("0"), []byte("0"), []byte("N"), []byte("N"), []byte("00"), []byte("0"), []byte("N"), ref.Num(1))
	}
	return ref.Group(els...)
}

// result is what a call of the client returned.
type result struct {
	Err      error
	Accounts []domain.AccountInformation
	Bal      []domain.AccountBalance
	Sepa     []domain.SepaAccountBalance
	Tx       []domain.AccountTransaction
	Status   []domain.StatusAcknowledgement
	From, To int // requests it made: log[From:To]
}

func (c bankCfg) client(b *bank) (*client.Client, error) {
	return client.New(c.config(b.Do))
}

func (c bankCfg) config(do transport.Func) client.Config {
	return client.Config{BankID: c.BLZ, AccountID: c.User, PIN: c.PIN, URL: "https://bank.example/hbci", HBCIVersion: c.V,
		Transport: do, ProductName: c.Product, ProductVersion: c.ProductVer}
}

// quiet runs f without the chatter of the library.
func quiet(f func()) {
	internal.SetInfoLog(false)
	log.SetOutput(io.Discard)
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = out; null.Close() }()
	}
	f()
}

func (o op) call(c *client.Client) (r result) {
	tf := domain.Timeframe{}
	if o.From != 0 {
		tf.StartDate = domain.NewShortDate(dayOf(o.From))
	}
	if o.To != 0 {
		tf.EndDate = domain.NewShortDate(dayOf(o.To))
	}
	switch o.Kind {
	case "accounts":
		r.Accounts, r.Err = c.Accounts()
	case "balances":
		r.Bal, r.Err = c.AccountBalances(o.Acct.account(), o.All)
	case "sepaBalances":
		r.Sepa, r.Err = c.SepaAccountBalances(o.Acct.intAccount(), o.All, o.Cont)
	case "tx":
		r.Tx, r.Err = c.AccountTransactions(o.Acct.account(), tf, o.All, o.Cont)
	case "sepaTx":
		r.Tx, r.Err = c.SepaAccountTransactions(o.Acct.intAccount(), tf, o.All, o.Cont)
	case "status":
		var from, to time.Time
		if o.From != 0 {
			from = dayOf(o.From)
		}
		if o.To != 0 {
			to = dayOf(o.To)
		}
		r.Status, r.Err = c.Status(from, to, o.Max, o.Cont)
	case "info":
		r.Err = c.AccountInformation(o.Acct.account(), o.All)
	default:
		panic("harness: op " + o.Kind)
	}
	return r
}

// scenario is a bank, what the customer does and what goes wrong.
type scenario struct {
	Bank   bankCfg
	Ops    []op
	Faults []fault `json:",omitempty"`
}

// play makes the calls of the scenario.
func (s scenario) play(c *client.Client, b *bank) (results []result) {
	for i, o := range s.Ops {
		b.op, b.page = i, 0
		from := len(b.log)
		r := o.call(c)
		r.From, r.To = from, len(b.log)
		results = append(results, r)
	}
	return results
}

// run plays the scenario.
func (s scenario) run() (*bank, []result, error) {
	b := newBank(s.Bank, s.Ops, s.Faults)
	var results []result
	var err error
	quiet(func() {
		var c *client.Client
		if c, err = s.Bank.client(b); err != nil {
			return
		}
		results = s.play(c, b)
	})
	if err == nil && len(b.problems) > 0 {
		err = fmt.Errorf("the bank cannot read a request: %s", b.problems[0])
	}
	return b, results, err
}

// ------------------------------------------------------------- generators

// hostile generates caller text that is hard to carry.
func hostile(max int) *rapid.Generator[string] { return nonEmpty(max) }

func plain(max int) *rapid.Generator[string] {
	return rapid.StringOfN(rapid.RuneFrom([]rune("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")), 1, max, -1)
}

// noZero keeps ids apart from the initial "0".
func noZero(g *rapid.Generator[string]) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if s := g.Draw(t, "s"); s != "0" {
			return s
		}
		return "00"
	})
}

var jobSegs = map[string][]int{"HISALS": {5, 6, 7, 8}, "HIKAZS": {5, 6, 7}, "HIPROS": {3, 4}}

func genBank(t *rapid.T) bankCfg {
	id := hostile
	if rapid.IntRange(0, 3).Draw(t, "plainText") == 0 {
		id = plain
	}
	c := bankCfg{
		V: rapid.SampledFrom([]int{220, 300}).Draw(t, "version"), BLZ: id(12).Draw(t, "blz"), User: id(14).Draw(t, "user"), PIN: id(12).Draw(t, "pin"),
		SystemIDs: rapid.SliceOfN(noZero(id(16)), 1, 3).Draw(t, "sysids"), DialogIDs: rapid.SliceOfN(noZero(id(14)), 1, 4).Draw(t, "dialogs"),
		BPD: rapid.IntRange(1, 99).Draw(t, "bpd"), UPD: rapid.IntRange(1, 99).Draw(t, "upd"),
	}
	if rapid.IntRange(0, 7).Draw(t, "zeroBPD") == 0 {
		c.BPD = 0
	}
	if rapid.IntRange(0, 7).Draw(t, "zeroUPD") == 0 {
		c.UPD = 0
	}
	if rapid.Bool().Draw(t, "product") {
		c.Product, c.ProductVer = id(20).Draw(t, "product"), id(5).Draw(t, "productVer")
	}
	if rapid.IntRange(0, 2).Draw(t, "updUser") > 0 {
		c.UPDUser = id(14).Draw(t, "updUser")
	} else {
		c.UPDUser = c.User
	}
	c.UPDVersion = rapid.SampledFrom(map[int][]int{220: {2}, 300: {3, 4}}[c.V]).Draw(t, "upa")
	upd := segByName["HIUPD:"+fmt.Sprint(rapid.SampledFrom(map[int][]int{220: {4, 5}, 300: {6, 7}}[c.V]).Draw(t, "updv"))]
	c.Accounts = fewOrMany(t, rapid.Custom(func(t *rapid.T) segCase { return genSegment(t, upd) }), 0, 4, 30)
	relate(t, c.Accounts)
	for _, s := range []string{"HISALS", "HIKAZS", "HIPROS"} {
		vs := append([]int{}, jobSegs[s]...)
		// versions the library does not know
		vs = append(vs, 1, 2, 4, 9)
		n := rapid.IntRange(0, 5).Draw(t, "offers")
		if n == 0 {
			continue
		}
		for _, v := range rapid.Permutation(vs).Draw(t, s)[:n] {
			c.Offers = append(c.Offers, offer{s, v})
		}
	}
	if rapid.Bool().Draw(t, "others") {
		c.Offers = append(c.Offers, offer{"HIUEBS", 5}, offer{"DKPSAS", 1})
	}
	c.Offers = rapid.Permutation(c.Offers).Draw(t, "order")
	fns := []string{"900", "910", "911", "942", "962", "999"}
	if rapid.IntRange(0, 3).Draw(t, "tan") > 0 {
		c.TanFns = rapid.Permutation(fns).Draw(t, "tanfns")[:rapid.IntRange(1, 4).Draw(t, "ntan")]
		if rapid.IntRange(0, 3).Draw(t, "allowed") > 0 {
			c.Allowed = rapid.Permutation(fns).Draw(t, "allowedfns")[:rapid.IntRange(1, 4).Draw(t, "nallowed")]
			if c.allowedFn() == "" {
				c.Allowed = append(c.Allowed, c.TanFns[0])
			}
		}
	}
	c.Plain = rapid.IntRange(0, 4).Draw(t, "plain") == 0
	c.News = rapid.IntRange(0, 3).Draw(t, "news") == 0
	c.Always = rapid.IntRange(0, 2).Draw(t, "always") == 0
	c.Acks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) bankAck {
		return bankAck{Code: rapid.SampledFrom([]int{1, 20, 100, 999, 1000, 3000, 3010, 3060, 3999, 3076}).Draw(t, "code"), Elem: rapid.SampledFrom([]string{"", "3", "4,2"}).Draw(t, "elem"),
			Text: id(20).Draw(t, "text"), Params: rapid.SliceOfN(id(8), 0, 2).Draw(t, "params"), Seg: rapid.Bool().Draw(t, "seg"), Ref: genAckRef(t)}
	}), 0, 3).Draw(t, "acks")
	return c
}

// genAckRef generates the number of the segment an acknowledgement is about.
func genAckRef(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 0, 2, 4, 5, 6, 9}).Draw(t, "ackref")
}

// offered is the highest version of a job that the bank offers among the given
// ones, or 0.
func (c bankCfg) offered(id string, versions ...int) int {
	best := 0
	for _, o := range c.Offers {
		for _, v := range versions {
			if o.ID == id && o.Version == v && v > best {
				best = v
			}
		}
	}
	return best
}

// version is the version of the job segment an operation should use, 0 if the
// bank does not offer any the library can use.
func (o op) version(c bankCfg) int {
	switch o.Kind {
	case "balances":
		return c.offered("HISALS", 5, 6)
	case "sepaBalances":
		return c.offered("HISALS", 7, 8)
	case "tx":
		return c.offered("HIKAZS", 5, 6)
	case "sepaTx":
		return c.offered("HIKAZS", 7)
	case "status":
		return c.offered("HIPROS", 3, 4)
	case "info":
		return 1
	}
	return 0
}

var opKinds = []string{"accounts", "balances", "sepaBalances", "tx", "sepaTx", "status", "info"}

// relate makes some of the segments nearly the same as earlier ones: banks
// send the sub-accounts of one account, several balances of one account and
// the same text again and again.
func relate(t *rapid.T, segs []segCase) {
	for i := 1; i < len(segs); i++ {
		j := rapid.IntRange(0, i-1).Draw(t, "like")
		if segs[i].Seg != segs[j].Seg || rapid.IntRange(0, 2).Draw(t, "alike") > 0 {
			continue
		}
		own := segs[i].F
		segs[i].F = append([]fv{}, segs[j].F...)
		f := segs[i].F
		switch rapid.IntRange(0, 2).Draw(t, "difference") {
		case 0:
			if k := rapid.IntRange(0, len(f)-1).Draw(t, "field"); k < len(own) && own[k].K == f[k].K {
				f[k] = own[k]
			}
		case 1: // another member of the account
			if a := own[0]; a.K == f[0].K && a.Off == f[0].Off && len(a.T) == len(f[0].T) && len(a.T) > 0 {
				k := rapid.IntRange(0, len(a.T)-1).Draw(t, "member")
				f[0].T = append([]string{}, f[0].T...)
				f[0].T[k] = a.T[k]
			}
		case 2: // the same account, anything else
			for k := 1; k < len(own) && k < len(f); k++ {
				if own[k].K == f[k].K {
					f[k] = own[k]
				}
			}
		}
	}
}

// genOp generates a call and the data the bank answers it with.
func genOp(t *rapid.T, c bankCfg, kinds []string, maxPages int) op {
	o := op{Kind: rapid.SampledFrom(kinds).Draw(t, "op"), All: rapid.Bool().Draw(t, "all")}
	if o.version(c) == 0 && rapid.IntRange(0, 9).Draw(t, "other") > 0 {
		// mostly something the bank offers
		for _, k := range kinds {
			p := o
			p.Kind = k
			if p.version(c) != 0 {
				o = p
				break
			}
		}
	}
	switch o.Kind {
	case "balances", "tx", "info":
		o.Acct = genField(t, "ktv")
	case "sepaBalances", "sepaTx":
		o.Acct = genField(t, "kti")
	}
	switch o.Kind {
	case "tx", "sepaTx", "status":
		// without dates a status query asks for the year 1, see DESIGN.md
		if o.Kind == "status" || rapid.IntRange(0, 4).Draw(t, "range") > 0 {
			o.From, o.To = genDay(t, "from"), genDay(t, "to")
		}
	}
	if o.Kind == "status" {
		o.Max = rapid.IntRange(0, 99).Draw(t, "max")
	}
	switch o.Kind {
	case "tx", "sepaTx", "sepaBalances", "status":
		if rapid.IntRange(0, 4).Draw(t, "cont") == 0 {
			o.Cont = nonEmpty(35).Draw(t, "contref")
		}
	}
	if o.Kind == "accounts" {
		return o
	}
	v := o.version(c)
	pages := 1
	switch o.Kind {
	case "tx", "sepaTx", "balances", "sepaBalances":
		pages = rapid.IntRange(1, maxPages).Draw(t, "pages")
		if maxPages > 2 && rapid.IntRange(0, 29).Draw(t, "many") == 0 {
			pages = rapid.IntRange(maxPages, 40).Draw(t, "pages")
		}
	}
	for i := 0; i < pages; i++ {
		var p page
		if i < pages-1 {
			p.Next = nonEmpty(35).Draw(t, "next")
			// a bank may mean the page by nothing but the dialog
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 {
				p.Next = o.Pages[rapid.IntRange(0, i-1).Draw(t, "ref")].Next
			}
			if o.Cont != "" && rapid.IntRange(0, 5).Draw(t, "again") == 0 {
				p.Next = o.Cont
			}
			if rapid.IntRange(0, 5).Draw(t, "more") == 0 {
				p.More = rapid.SliceOfN(nonEmpty(35), 1, 3).Draw(t, "more")
			}
		}
		switch o.Kind {
		case "balances", "sepaBalances":
			if v > 0 {
				p.Segs = fewOrMany(t, rapid.Custom(func(t *rapid.T) segCase { return genSegment(t, segByName[fmt.Sprintf("HISAL:%d", v)]) }), 1, 3, 40)
			}
		case "status":
			if v > 0 {
				p.Segs = fewOrMany(t, rapid.Custom(func(t *rapid.T) segCase { return genSegment(t, segByName[fmt.Sprintf("HIPRO:%d", v)]) }), 0, 3, 120)
			}
		case "info":
			p.Segs = append(p.Segs, genSegment(t, segByName["HIKIF:1"]))
		case "tx", "sepaTx":
			n := rapid.IntRange(0, 2).Draw(t, "n")
			for j := 0; j < n; j++ {
				p.Booked = append(p.Booked, genBookings(t, 1, 2))
			}
			if n == 0 {
				p.Empty = rapid.Bool().Draw(t, "empty")
			}
			if rapid.IntRange(0, 3).Draw(t, "unbooked") == 0 {
				p.Unbooked = "\r\n:20:STARTUMS\r\n-"
				if rapid.IntRange(0, 39).Draw(t, "large") == 0 {
					p.Pad = bigSize().Draw(t, "pad")
				}
			}
		}
		relate(t, p.Segs)
		// banks send the same thing twice
		if n := len(p.Segs); n > 0 && o.Kind != "info" && rapid.IntRange(0, 5).Draw(t, "twice") == 0 {
			p.Segs = append(p.Segs, p.Segs[rapid.IntRange(0, n-1).Draw(t, "which")])
		}
		if n := len(p.Booked); n > 0 && rapid.IntRange(0, 7).Draw(t, "twice") == 0 {
			p.Booked = append(p.Booked, p.Booked[rapid.IntRange(0, n-1).Draw(t, "which")])
		}
		for j := range p.Segs {
			p.Segs[j].Ref = 4
		}
		o.Pages = append(o.Pages, p)
	}
	return o
}

func genScenario(t *rapid.T, kinds []string, maxOps, maxPages int) scenario {
	s := scenario{Bank: genBank(t)}
	for i, n := 0, rapid.IntRange(1, maxOps).Draw(t, "ops"); i < n; i++ {
		s.Ops = append(s.Ops, genOp(t, s.Bank, kinds, maxPages))
	}
	return s
}

// genHistory generates a scenario in which the bank changes its parameters, the
// accounts or the security functions from time to time. The client learns that
// from the answer to its next call for the accounts.
func genHistory(t *rapid.T, kinds []string, maxOps, maxPages int) scenario {
	s := scenario{Bank: genBank(t)}
	now := s.Bank
	for i, n := 0, rapid.IntRange(1, maxOps).Draw(t, "ops"); i < n; i++ {
		if i > 0 && kinds[0] == "accounts" && rapid.IntRange(0, 3).Draw(t, "change") == 0 {
			other := genBank(t)
			l := change{From: i, BPD: now.BPD, Offers: now.Offers, TanFns: now.TanFns, Allowed: now.Allowed, UPD: now.UPD, UPDUser: now.UPDUser, Accounts: now.Accounts}
			which := rapid.IntRange(1, 3).Draw(t, "which")
			if which&1 != 0 {
				if now.BPD != 0 {
					l.BPD = rapid.OneOf(rapid.IntRange(1, 200), rapid.SampledFrom([]int{now.BPD + 1, max(1, now.BPD-1)})).Filter(func(v int) bool { return v != now.BPD }).Draw(t, "newBPD")
				}
				l.Offers, l.TanFns, l.Allowed = other.Offers, other.TanFns, other.Allowed
			}
			if which&2 != 0 {
				if now.UPD != 0 {
					l.UPD = rapid.OneOf(rapid.IntRange(1, 200), rapid.SampledFrom([]int{now.UPD + 1, max(1, now.UPD-1)})).Filter(func(v int) bool { return v != now.UPD }).Draw(t, "newUPD")
				}
				// a bank that sends no accounts does not say that there are none
				if len(other.Accounts) > 0 {
					l.Accounts = other.Accounts
				}
				if rapid.Bool().Draw(t, "newUser") {
					l.UPDUser = other.UPDUser
				}
			}
			s.Bank.Later = append(s.Bank.Later, l)
			now = s.Bank.at(i)
			s.Ops = append(s.Ops, op{Kind: "accounts"})
			continue
		}
		s.Ops = append(s.Ops, genOp(t, now, kinds, maxPages))
	}
	return s
}

// labels of a scenario.
func (s scenario) labels() []string {
	set := map[string]bool{fmt.Sprintf("v%d", s.Bank.V): true}
	for _, o := range s.Ops {
		set["op-"+o.Kind] = true
		if len(o.Pages) > 1 {
			set["paged"] = true
		}
		if o.Cont != "" {
			set["continued"] = true
		}
	}
	if len(s.Ops) > 1 {
		set["several-calls"] = true
	}
	if s.Bank.Plain {
		set["unencrypted-answers"] = true
	}
	if len(s.Bank.Allowed) > 0 {
		set["security-function"] = true
	}
	if s.Bank.UPDUser != s.Bank.User {
		set["other-user-id"] = true
	}
	if len(s.Bank.Later) > 0 {
		set["bank-changes"] = true
	}
	if s.Bank.BPD == 0 {
		set["bpd-0"] = true
	}
	for _, f := range s.Faults {
		set["fault-"+f.Kind] = true
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	return append(out, textLabels(s.Bank.BLZ, s.Bank.User, s.Bank.PIN, s.Bank.Product, strings.Join(s.Bank.DialogIDs, ""))...)
}
