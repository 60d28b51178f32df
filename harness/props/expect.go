package props

import (
	"fmt"
	"regexp"
	"strconv"
	"time"

	"github.com/mitch000001/go-hbci"
	"github.com/mitch000001/go-hbci/verif/ref"
)

// envelope ids are written by the library around the jobs of a message.
func isEnvelope(id string) bool {
	return id == "HNHBK" || id == "HNHBS" || id == "HNSHK" || id == "HNSHA"
}

// business are the segments of a request that carry what the customer wants.
func (q req) business() []ref.Seg {
	var out []ref.Seg
	for _, s := range q.Inner {
		if !isEnvelope(s.ID()) {
			out = append(out, s)
		}
	}
	return out
}

// find returns the only segment with an id.
func find(segs []ref.Seg, id string) (ref.Seg, error) {
	var out []ref.Seg
	for _, s := range segs {
		if s.ID() == id {
			out = append(out, s)
		}
	}
	if len(out) != 1 {
		return ref.Seg{}, fmt.Errorf("%d segments %s in the request", len(out), id)
	}
	return out[0], nil
}

// product is what the client says it is.
func (c bankCfg) product() (string, string) {
	p, v := c.Product, c.ProductVer
	if p == "" {
		p = defaultProduct
	}
	if v == "" {
		v = hbci.Version
	}
	return p, v
}

// The registered product id of the library (README: product registration).
const defaultProduct = "5A624F86A785F4024DD914404"

// wantBusiness is what the segments of a request have to say, with the
// positions they get in a signed message.
func (s scenario) wantBusiness(q req, pageNo int) [][]byte {
	pos := 2
	var out [][]byte
	add := func(id string, v int, els ...[]byte) {
		pos++
		out = append(out, ref.Segment(append([][]byte{ref.Header(id, pos, v, -1)}, els...)...))
	}
	tan := func() { add("HKTAN", 6, []byte("4"), []byte("HKIDN")) }
	switch q.Kind {
	case "sync", "init":
		p, v := s.Bank.product()
		add("HKIDN", 2, ref.Group(ref.Num(280), txt(s.Bank.BLZ)), txt(q.Client), txt(q.SysID), ref.Num(1))
		add("HKVVB", 3, ref.Num(q.BPD), ref.Num(q.UPD), ref.Num(1), txt(p), txt(v))
		tan()
		if q.Kind == "sync" {
			add("HKSYN", map[int]int{220: 2, 300: 3}[s.Bank.V], ref.Num(0))
		}
	case "end":
		add("HKEND", 1, txt(q.Dialog))
	case "job":
		o := s.Ops[q.Op]
		cont := o.Cont
		if pageNo > 0 {
			cont = o.Pages[pageNo-1].Next
		}
		v := o.version(s.Bank.at(q.Op))
		tan()
		switch o.Kind {
		case "balances":
			add("HKSAL", v, o.Acct.wire(), ref.Bool(o.All), nil, txt(cont))
		case "sepaBalances":
			add("HKSAL", v, o.Acct.wire(), ref.Bool(o.All), nil, txt(cont))
		case "tx", "sepaTx":
			from, to := o.From, o.To
			if from == 0 {
				from = dayInt(q.At.AddDate(0, -1, 0))
			}
			if to == 0 {
				to = dayInt(q.At)
			}
			add("HKKAZ", v, o.Acct.wire(), ref.Bool(o.All), dateWire(dayOf(from)), dateWire(dayOf(to)), nil, txt(cont))
		case "status":
			add("HKPRO", v, dateWire(dayOf(o.From)), dateWire(dayOf(o.To)), ref.Num(o.Max), txt(cont))
		case "info":
			add("HKKIF", 1, o.Acct.wire(), ref.Bool(o.All))
		}
	}
	return out
}

// pageOf numbers the queries of each call.
func pageOf(log []req) []int {
	out := make([]int, len(log))
	next := map[int]int{}
	for i, q := range log {
		if q.Kind == "job" {
			out[i] = next[q.Op]
			next[q.Op]++
		}
	}
	return out
}

// checkContent compares the jobs of every request with what the customer
// asked for.
func (s scenario) checkContent(b *bank) error {
	pages := pageOf(b.log)
	for i, q := range b.log {
		want := s.wantBusiness(q, pages[i])
		got := q.business()
		if len(got) != len(want) {
			return fmt.Errorf("request %d (%s): %d segments, want %d: %s", i, q.Kind, len(got), len(want), ref.Shape(got))
		}
		for j := range want {
			if string(got[j].Raw) != string(want[j]) {
				return fmt.Errorf("request %d (%s): segment %q, want %q", i, q.Kind, got[j].Raw, want[j])
			}
		}
	}
	return nil
}

// checkFraming checks the form of every request.
func (s scenario) checkFraming(b *bank) error {
	for i, q := range b.log {
		if err := framing(q.Raw, q.Outer, q.Inner, s.Bank.V, q.Dialog, q.Number, true); err != nil {
			return fmt.Errorf("request %d (%s): %w: %q", i, q.Kind, err, q.Raw)
		}
		if q.URL != "https://bank.example/hbci" {
			return fmt.Errorf("request %d went to %q", i, q.URL)
		}
	}
	return nil
}

// framing checks the header, trailer and numbering of a message.
func framing(raw []byte, outer, inner []ref.Seg, version int, dialog string, number int, encrypted bool) error {
	if len(outer) < 2 || outer[0].ID() != "HNHBK" || outer[len(outer)-1].ID() != "HNHBS" {
		return fmt.Errorf("message is not enclosed in HNHBK and HNHBS")
	}
	head, tail := outer[0], outer[len(outer)-1]
	if size := head.G(1, 0); len(size) != 12 || size != fmt.Sprintf("%012d", len(raw)) {
		return fmt.Errorf("message size %q, message has %d bytes", size, len(raw))
	}
	if err := first(eq("header version", head.Version(), 3), eq("header position", head.Pos(), 1), eq("protocol version", head.G(2, 0), fmt.Sprint(version)),
		eq("dialog id", head.G(3, 0), dialog), eq("message number", head.G(4, 0), fmt.Sprint(number)), eq("header elements", len(head.Elems), 5),
		eq("message number at the end", tail.G(1, 0), fmt.Sprint(number)), eq("trailer version", tail.Version(), 1), eq("trailer elements", len(tail.Elems), 2)); err != nil {
		return err
	}
	body := outer[1 : len(outer)-1]
	next := 2
	if encrypted {
		if len(body) != 2 || body[0].ID() != "HNVSK" || body[1].ID() != "HNVSD" {
			return fmt.Errorf("message is not encrypted")
		}
		if err := first(eq("HNVSK position", body[0].Pos(), 998), eq("HNVSD position", body[1].Pos(), 999), eq("HNVSD version", body[1].Version(), 1)); err != nil {
			return err
		}
		body = inner
		if len(body) < 2 || body[0].ID() != "HNSHK" || body[len(body)-1].ID() != "HNSHA" {
			return fmt.Errorf("message is not signed")
		}
	}
	for _, s := range body {
		if s.Pos() != next {
			return fmt.Errorf("segment %s has position %d, want %d", s.ID(), s.Pos(), next)
		}
		if len(s.Elems[0]) != 3 {
			return fmt.Errorf("segment header of %s has %d members", s.ID(), len(s.Elems[0]))
		}
		next++
	}
	return eq("position of the trailer", tail.Pos(), next)
}

var secDate = regexp.MustCompile(`^1:(\d{8}):(\d{6})$`)

func checkSecDate(s ref.Seg, i int) error {
	v := s.G(i, 0) + ":" + s.G(i, 1) + ":" + s.G(i, 2)
	if !secDate.MatchString(v) || len(s.Elems[i]) != 3 {
		return fmt.Errorf("security date %q", v)
	}
	at, err := time.ParseInLocation("1:20060102:150405", v, time.Local)
	if err != nil {
		return fmt.Errorf("security date %q", v)
	}
	if d := time.Since(at); d < -48*time.Hour || d > 48*time.Hour {
		return fmt.Errorf("security date %q is not now", v)
	}
	return nil
}

// checkEnvelope checks signature and encryption of every request.
func (s scenario) checkEnvelope(b *bank) error {
	for i, q := range b.log {
		if err := s.envelope(q); err != nil {
			return fmt.Errorf("request %d (%s): %w: %q", i, q.Kind, err, q.Raw)
		}
	}
	return nil
}

func (s scenario) envelope(q req) error {
	c := s.Bank
	sh, err := find(q.Inner, "HNSHK")
	if err != nil {
		return err
	}
	sa, err := find(q.Inner, "HNSHA")
	if err != nil {
		return err
	}
	vk, err := find(q.Outer, "HNVSK")
	if err != nil {
		return err
	}
	n := 0
	if c.V == 300 {
		n = 1
		want := "2"
		if q.Fn == "999" {
			want = "1"
		}
		if err := first(eq("signature profile", sh.G(1, 0)+sh.G(1, 1), "PIN"+want), eq("encryption profile", vk.G(1, 0)+vk.G(1, 1), "PIN"+want)); err != nil {
			return err
		}
	}
	key := func(seg ref.Seg, el int, kind string) error {
		return first(eq("key country", seg.G(el, 0), "280"), eq("key bank", seg.G(el, 1), c.BLZ), eq("key user", seg.G(el, 2), c.User), eq("key type", seg.G(el, 3), kind),
			eq("key number", seg.G(el, 4), "0"), eq("key version", seg.G(el, 5), "0"))
	}
	ref1 := sh.G(2+n, 0)
	if ref1 == "" || len(ref1) > 14 {
		return fmt.Errorf("security reference %q", ref1)
	}
	return first(
		eq("signature header version", sh.Version(), 3+n), eq("signature end version", sa.Version(), 1+n), eq("encryption header version", vk.Version(), 2+n),
		eq("signature header elements", len(sh.Elems), 11+n), eq("encryption header elements", len(vk.Elems), 8+n),
		eq("security function", sh.G(1+n, 0), q.Fn), eq("security area", sh.G(3+n, 0), "1"), eq("security role", sh.G(4+n, 0), "1"),
		eq("system id in the signature", sh.G(5+n, 2), q.SysID), eq("signature id", sh.G(6+n, 0), "0"), checkSecDate(sh, 7+n),
		eq("hash", sh.G(8+n, 0)+":"+sh.G(8+n, 1)+":"+sh.G(8+n, 2), "1:999:1"), eq("algorithm", sh.G(9+n, 0)+":"+sh.G(9+n, 1)+":"+sh.G(9+n, 2), "6:10:16"), key(sh, 10+n, "S"),
		eq("security reference at the end", sa.G(1, 0), ref1), eq("signature", sa.G(2, 0), ""), eq("PIN", sa.G(3, 0), c.PIN), eq("TAN", sa.G(3, 1), ""), eq("signature end members", len(sa.Elems), 4),
		eq("encryption function", vk.G(1+n, 0), "998"), eq("encryption role", vk.G(2+n, 0), "1"), eq("system id in the encryption", vk.G(3+n, 2), q.SysID), checkSecDate(vk, 4+n),
		eq("encryption algorithm", vk.G(5+n, 0)+vk.G(5+n, 1)+vk.G(5+n, 2)+strconv.Itoa(len(vk.B(5+n, 3)))+vk.G(5+n, 4)+vk.G(5+n, 5), "2213851"), key(vk, 6+n, "V"), eq("compression", vk.G(7+n, 0), "0"),
	)
}

// checkSequence checks that every request belongs to a well-formed dialog.
func (s scenario) checkSequence(b *bank) error {
	last := ""
	synced := false
	pages := pageOf(b.log)
	for i, q := range b.log {
		bad := func(f string, a ...any) error {
			return fmt.Errorf("request %d (%s): "+f, append([]any{i, q.Kind}, a...)...)
		}
		switch q.Kind {
		case "sync":
			if synced && s.Bank.BPD != 0 {
				return bad("synchronises again")
			}
			synced = true
			if q.Open {
				return bad("begins a dialog before the last one ended")
			}
		case "init":
			if q.Open {
				return bad("begins a dialog before the last one ended")
			}
			if !synced {
				return bad("begins a dialog without a system id")
			}
		case "job":
			if last != "init" {
				return bad("follows %s", last)
			}
			if o := s.Ops[q.Op]; o.Kind == "accounts" || o.version(s.Bank.at(q.Op)) == 0 || pages[i] >= len(o.Pages) {
				return bad("nobody asked for it")
			}
		case "end":
			if !q.Open {
				return bad("no dialog is open")
			}
		}
		h := q.Outer[0]
		if err := first(eq("dialog id", h.G(3, 0), q.Dialog), eq("message number", h.G(4, 0), fmt.Sprint(q.Number))); err != nil {
			return bad("%w", err)
		}
		for _, seg := range q.business() {
			var err error
			switch seg.ID() {
			case "HKIDN":
				err = first(eq("bank", seg.G(1, 0)+":"+seg.G(1, 1), "280:"+s.Bank.BLZ), eq("client id", seg.G(2, 0), q.Client), eq("system id", seg.G(3, 0), q.SysID), eq("system id status", seg.G(4, 0), "1"))
			case "HKVVB":
				p, v := s.Bank.product()
				err = first(eq("BPD version", seg.G(1, 0), fmt.Sprint(q.BPD)), eq("UPD version", seg.G(2, 0), fmt.Sprint(q.UPD)), eq("product", seg.G(4, 0), p), eq("product version", seg.G(5, 0), v))
			case "HKEND":
				err = eq("dialog to end", seg.G(1, 0), q.Dialog)
			case "HKSYN":
				err = eq("synchronisation mode", seg.G(1, 0), "0")
			case "HKTAN":
				err = first(eq("TAN process", seg.G(1, 0), "4"), eq("TAN segment", seg.G(2, 0), "HKIDN"))
			}
			if err != nil {
				return bad("%w", err)
			}
		}
		sh, err := find(q.Inner, "HNSHK")
		if err != nil {
			return err
		}
		vk, err := find(q.Outer, "HNVSK")
		if err != nil {
			return err
		}
		n := sh.Version() - 3
		if err := first(eq("system id in the signature", sh.G(5+n, 2), q.SysID), eq("system id in the encryption", vk.G(3+n, 2), q.SysID), eq("security function", sh.G(1+n, 0), q.Fn)); err != nil {
			return bad("%w", err)
		}
		last = q.Kind
	}
	if b.open {
		return fmt.Errorf("the last dialog (%s) is not ended", last)
	}
	// each query was sent
	jobs := map[int]int{}
	for _, q := range b.log {
		if q.Kind == "job" {
			jobs[q.Op]++
		}
	}
	for i, o := range s.Ops {
		want := len(o.Pages)
		if o.version(s.Bank.at(i)) == 0 {
			want = 0
		}
		if jobs[i] != want {
			return fmt.Errorf("call %d (%s): %d queries, want %d", i, o.Kind, jobs[i], want)
		}
	}
	return nil
}

// checkResults compares what the calls returned with what the bank holds.
func (s scenario) checkResults(rs []result) error {
	for i, o := range s.Ops {
		if err := o.sameResult(s.Bank.at(i), rs[i]); err != nil {
			return fmt.Errorf("call %d (%s): %w", i, o.Kind, err)
		}
	}
	return nil
}

func (o op) sameResult(c bankCfg, r result) error {
	if o.Kind != "accounts" && o.version(c) == 0 {
		if r.Err == nil {
			return fmt.Errorf("no error although the bank does not offer the job")
		}
		return nil
	}
	if r.Err != nil {
		return fmt.Errorf("error: %w", r.Err)
	}
	switch o.Kind {
	case "accounts":
		if len(r.Accounts) != len(c.Accounts) {
			return fmt.Errorf("got %d accounts, want %d", len(r.Accounts), len(c.Accounts))
		}
		for i, a := range c.Accounts {
			if err := sameAccount(r.Accounts[i], a); err != nil {
				return err
			}
		}
	case "balances":
		var want []segCase
		for _, p := range o.Pages {
			want = append(want, p.Segs...)
		}
		if len(r.Bal) != len(want) {
			return fmt.Errorf("got %d balances, want %d", len(r.Bal), len(want))
		}
		for i := range want {
			if err := sameBalances(want[i], r.Bal[i]); err != nil {
				return fmt.Errorf("balance %d: %w", i, err)
			}
		}
	case "sepaBalances":
		var want []segCase
		for _, p := range o.Pages {
			want = append(want, p.Segs...)
		}
		if len(r.Sepa) != len(want) {
			return fmt.Errorf("got %d balances, want %d", len(r.Sepa), len(want))
		}
		for i := range want {
			if err := sameSepaBalances(want[i], r.Sepa[i]); err != nil {
				return fmt.Errorf("balance %d: %w", i, err)
			}
		}
	case "tx", "sepaTx":
		var stmts []mtStmt
		for _, p := range o.Pages {
			for _, b := range p.Booked {
				stmts = append(stmts, b...)
			}
		}
		return sameTransactions(r.Tx, mtTransactions(stmts))
	case "status":
		var want []segCase
		for _, p := range o.Pages {
			want = append(want, p.Segs...)
		}
		if len(r.Status) != len(want) {
			return fmt.Errorf("got %d status entries, want %d", len(r.Status), len(want))
		}
		for i := range want {
			if err := sameStatus(r.Status[i], want[i]); err != nil {
				return fmt.Errorf("status %d: %w", i, err)
			}
		}
	}
	return nil
}
