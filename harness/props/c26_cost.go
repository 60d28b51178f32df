package props

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"runtime"
	"syscall"
	"time"

	"github.com/mitch000001/go-hbci/charset"
	"github.com/mitch000001/go-hbci/internal"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/swift"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// pump is an input of which one piece is repeated.
type pump struct {
	Segs  []segCase  `json:",omitempty"` // a message
	Edits []edit     `json:",omitempty"`
	Stmts []mtStmt   `json:",omitempty"` // or statements
	Lines []lineEdit `json:",omitempty"`
	Unit  string     // byte field segment line all
	At    int
	Len   int `json:",omitempty"` // of a run of bytes
}

const (
	pumpSmall = 24 << 10
	pumpTimes = 8
)

func (p pump) message() bool { return len(p.Segs) > 0 }

func (p pump) base() []byte {
	if p.message() {
		raw := ref.Segment(ref.Header("HNHBK", 1, 3, -1), ref.Digits(1, 12), ref.Num(300), []byte("abc"), ref.Num(2), []byte("abc:2"))
		for i, s := range p.Segs {
			s.Pos = i + 2
			raw = append(raw, s.wire()...)
		}
		return applyAll(p.Edits, append(raw, ref.Segment(ref.Header("HNHBS", len(p.Segs)+2, 1, -1), ref.Num(2))...))
	}
	data := mtData(p.Stmts)
	for _, e := range p.Lines {
		data = e.apply(data)
	}
	return data
}

// piece is what is repeated.
func (p pump) piece(b []byte) (from, to int) {
	n := len(b)
	if n == 0 {
		return 0, 0
	}
	around := func(sep string) (int, int) {
		at := p.At % n
		from := 0
		if i := bytes.LastIndex(b[:at], []byte(sep)); i >= 0 {
			from = i + len(sep)
		}
		to := n
		if i := bytes.Index(b[at:], []byte(sep)); i >= 0 {
			to = at + i + len(sep)
		}
		return from, max(to, from)
	}
	switch p.Unit {
	case "segment":
		return around("'")
	case "line":
		return around("\r\n")
	case "field":
		fs := fields(b)
		f := fs[p.At%len(fs)]
		return f[0], min(n, f[1]+1)
	case "all":
		return 0, n
	}
	at := p.At % n
	return at, min(n, at+p.Len)
}

func (p pump) input(size int) []byte {
	b := p.base()
	from, to := p.piece(b)
	if from == to {
		return b
	}
	return splice(b, to, to, bytes.Repeat(b[from:to], size/(to-from)))
}

// read does with the input what a client does with an answer.
func (p pump) read(in []byte) (ok bool) {
	if !p.message() {
		txs, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(in)
		_ = charset.ToUTF8(in)
		return err == nil && len(txs) >= 0
	}
	u := message.NewUnmarshaler(in)
	ok = u.Unmarshal() == nil
	h, _ := u.SegmentByID("HNHBK").(*segment.MessageHeaderSegment)
	if h == nil {
		return ok
	}
	e, _ := u.SegmentByID("HNHBS").(*segment.MessageEndSegment)
	m, err := message.NewDecryptedMessage(h, e, in)
	if err != nil {
		return ok
	}
	for _, a := range m.Acknowledgements() {
		_ = a.String()
	}
	_ = m.SupportedSegments()
	for _, s := range p.Segs {
		id, _ := splitSeg(s.Seg)
		for _, s := range m.FindSegments(id) {
			useSegment(s)
		}
		_ = m.FindMarshaledSegments(id)
	}
	return ok
}

// cost is the memory and the processor time something takes.
func cost(f func()) (alloc uint64, cpu time.Duration) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var m0, m1 runtime.MemStats
	t0 := threadTime()
	runtime.ReadMemStats(&m0)
	f()
	runtime.ReadMemStats(&m1)
	return m1.TotalAlloc - m0.TotalAlloc, threadTime() - t0
}

// proportional compares the cost of a small input with that of one eight times
// as large.
func proportional(what string, small, large func()) error {
	a1, c1 := cost(small)
	a2, c2 := cost(large)
	if limit := 20*a1 + 4<<20; a2 > limit {
		return fmt.Errorf("%s allocates %d bytes, with one eighth of the data %d", what, a2, a1)
	}
	if limit := 20*c1 + 500*time.Millisecond; c2 > limit {
		// not for a slow moment
		if _, c := cost(large); c > limit {
			return fmt.Errorf("%s takes %v, with one eighth of the data %v", what, c, c1)
		}
	}
	return nil
}

func threadTime() time.Duration {
	var r syscall.Rusage
	const thread = 1
	if err := syscall.Getrusage(thread, &r); err != nil {
		panic("harness: " + err.Error())
	}
	return time.Duration(r.Utime.Nano())
}

func init() {
	pbt.Add(pbt.Spec[pump]{
		Prop: "C26", Name: "growth", Quick: 1500, Thorough: 60000,
		Rule: "a bank message of one to three segments or one or two statements, as they are or damaged, of which a run of bytes, a field, a segment, a line or everything is repeated up to 24 KB and up to 192 KB; eight times the input takes at most twenty times the memory and, beyond half a second, processor time; non-trivial: all",
		Gen: func(t *rapid.T) pump {
			p := pump{At: rapid.IntRange(0, 2000).Draw(t, "at")}
			units := []string{"byte", "field", "line", "all"}
			if rapid.IntRange(0, 2).Draw(t, "statement") > 0 {
				units = []string{"byte", "field", "field", "segment", "all"}
				p.Segs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) segCase { return genSegment(t, rapid.SampledFrom(segSpecs).Draw(t, "kind")) }), 1, 3).Draw(t, "segs")
				if rapid.Bool().Draw(t, "damaged") {
					p.Edits = genEdits(t)
				}
			} else {
				p.Stmts = genBookings(t, 1, 2)
				if rapid.Bool().Draw(t, "damaged") {
					p.Lines = []lineEdit{genLineEdit(t)}
				}
			}
			p.Unit = rapid.SampledFrom(units).Draw(t, "unit")
			if p.Unit == "byte" {
				p.Len = rapid.IntRange(1, 6).Draw(t, "len")
			}
			return p
		},
		Classify: func(p pump) []string {
			l := []string{"unit-" + p.Unit}
			if p.message() {
				return append(l, "message")
			}
			return append(l, "statement")
		},
		Check: func(p pump) error {
			internal.SetInfoLog(false)
			log.SetOutput(io.Discard)
			small, large := p.input(pumpSmall), p.input(pumpTimes*pumpSmall)
			var ok bool
			err := proportional(fmt.Sprintf("reading %d bytes", len(large)), func() { p.read(small) }, func() { ok = p.read(large) })
			if ok {
				pbt.Note("read")
			} else {
				pbt.Note("refused")
			}
			return err
		},
	})
	pbt.Add(pbt.Spec[scenario]{
		Prop: "C26", Name: "calls", Quick: 1000, Thorough: 40000,
		Rule: "a client and a model bank, one call for bookings, one page of the answer carrying 24 KB or 192 KB of data; the call takes at most twenty times the memory and, beyond half a second, processor time; non-trivial when the bank offers the call",
		Gen: func(t *rapid.T) scenario {
			s := genScenario(t, []string{"tx", "sepaTx"}, 1, 3)
			p := s.Ops[0].Pages
			i := rapid.IntRange(0, len(p)-1).Draw(t, "page")
			p[i].Unbooked, p[i].Pad = "\r\n:20:STARTUMS\r\n-", pumpSmall
			if len(p[i].Booked) == 0 {
				p[i].Booked = [][]mtStmt{genBookings(t, 1, 1)}
			}
			return s
		},
		Classify: func(s scenario) []string {
			if s.Ops[0].version(s.Bank) == 0 {
				return nil
			}
			return s.labels()
		},
		Check: func(s scenario) error {
			l := s
			l.Ops = []op{s.Ops[0]}
			l.Ops[0].Pages = append([]page{}, s.Ops[0].Pages...)
			for i := range l.Ops[0].Pages {
				l.Ops[0].Pages[i].Pad *= pumpTimes
			}
			var failed error
			play := func(s scenario) func() {
				return func() {
					if _, _, err := s.run(); err != nil {
						failed = err
					}
				}
			}
			err := proportional("a call whose answer holds 192 KB", play(s), play(l))
			return first(failed, err)
		},
	})
}
