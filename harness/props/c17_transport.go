package props

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"sync"
	"unicode/utf8"

	"github.com/mitch000001/go-hbci/charset"
	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/transport"
	https "github.com/mitch000001/go-hbci/transport/https"
	middleware "github.com/mitch000001/go-hbci/transport/middleware"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"golang.org/x/text/encoding/charmap"
	"pgregory.net/rapid"
)

type (
	// body is a stream of bytes that arrives in pieces.
	body struct {
		Data    pbt.B
		Chunks  []int `json:",omitempty"` // sizes of the pieces, in turn
		EOFData bool  `json:",omitempty"` // io.EOF comes with the last piece
		Fail    bool  `json:",omitempty"` // the stream breaks off after Data
		More    int   `json:",omitempty"` // further bytes after Data
		UTF8    bool  `json:",omitempty"` // which are given in UTF-8
	}
	// exchange is a request and its response on the way through a transport.
	exchange struct {
		Req, Res body
		Line     int  `json:",omitempty"` // line breaks in base64, 0: none
		CRLF     bool `json:",omitempty"`
		Inner    bool `json:",omitempty"` // the inner transport fails
	}
	chunked struct {
		b    body
		data []byte
		i    int
	}
)

// bytes are all the bytes of the body.
func (b body) bytes() []byte {
	out := append([]byte{}, b.Data...)
	more := make([]byte, b.More)
	for i := range more {
		more[i] = byte(i*7 + i/251)
	}
	if b.UTF8 {
		more = []byte(ref.UTF8(more))
	}
	return append(out, more...)
}

func (b body) reader() io.ReadCloser { return readerOf(b, b.bytes()) }

func readerOf(b body, data []byte) io.ReadCloser {
	return io.NopCloser(&chunked{b: b, data: data})
}

// piece is the size of the ith piece, 0 for any.
func (b body) piece(i int) int {
	if len(b.Chunks) == 0 {
		return 0
	}
	n := b.Chunks[i%len(b.Chunks)]
	if b.More > 0 {
		n *= 1000
	}
	return n
}

// genMore makes a body a large one, now and then.
func genMore(t *rapid.T, b *body) {
	if rapid.IntRange(0, 299).Draw(t, "large") == 211 {
		b.More = rapid.SampledFrom([]int{65536, 100000, 1 << 20, 1<<20 + 1, 3 << 20, 5 << 20}).Draw(t, "more")
	}
}

// short is data for an error message.
func short(b []byte) []byte { return b[:min(len(b), 500)] }

func (c *chunked) Read(p []byte) (int, error) {
	end := io.EOF
	if c.b.Fail {
		end = errTransport
	}
	if len(c.data) == 0 {
		return 0, end
	}
	n := len(p)
	if k := c.b.piece(c.i); k > 0 {
		n = k
		c.i++
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.data)
	c.data = c.data[n:]
	if len(c.data) == 0 && c.b.EOFData {
		return n, end
	}
	return n, nil
}

func genBody(t *rapid.T, data []byte, fail bool) body {
	b := body{Data: data, EOFData: rapid.Bool().Draw(t, "eofData")}
	if rapid.Bool().Draw(t, "chunked") {
		b.Chunks = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 600)), 1, 5).Draw(t, "chunks")
	}
	if fail {
		b.Fail = rapid.IntRange(0, 5).Draw(t, "fail") == 0
	}
	genMore(t, &b)
	return b
}

func genPayload(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 9).Draw(t, label+"Kind") {
	case 0:
		// longer than the buffers of the standard library
		n := rapid.SampledFrom([]int{767, 768, 769, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 40000}).Draw(t, label+"Len")
		b := make([]byte, n)
		seed := rapid.Byte().Draw(t, label+"Seed")
		for i := range b {
			b[i] = seed + byte(i*7+i/251)
		}
		return b
	case 1, 2:
		var out []byte
		for _, s := range rapid.SliceOfN(rapid.Custom(func(t *rapid.T) freeSeg { return genFreeSeg(t, []string{"HNHBK", "HNVSK", "HNVSD", "HKSAL"}) }), 1, 3).Draw(t, label+"Segs") {
			out = append(out, s.wire()...)
		}
		return out
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, label)
}

func (x exchange) labels() []string {
	var l []string
	if len(x.Req.Chunks) > 0 || len(x.Res.Chunks) > 0 {
		l = append(l, "chunked")
	}
	if x.Res.Fail {
		l = append(l, "response-breaks-off")
	}
	if x.Req.Fail {
		l = append(l, "request-breaks-off")
	}
	if x.Inner {
		l = append(l, "inner-error")
	}
	if x.Line > 0 {
		l = append(l, "line-breaks")
	}
	if len(x.Req.Data)+len(x.Res.Data) > 0 {
		l = append(l, "data")
	}
	if x.Req.More+x.Res.More > 0 {
		l = append(l, "large")
	}
	if len(x.Req.Data) > 700 || len(x.Res.Data) > 700 {
		l = append(l, "long")
	}
	return l
}

// wrapped puts line breaks into base64 text.
func (x exchange) wrapped(text string) []byte {
	if x.Line == 0 {
		return []byte(text)
	}
	nl := "\n"
	if x.CRLF {
		nl = "\r\n"
	}
	var out []byte
	for len(text) > x.Line {
		out = append(append(out, text[:x.Line]...), nl...)
		text = text[x.Line:]
	}
	return append(append(out, text...), nl...)
}

// through runs the exchange through a middleware. encode and decode tell what
// the request has to look like inside and how the response looks there.
func (x exchange) through(m transport.Middleware, encode, response func([]byte) []byte) error {
	var seen []byte
	calls := 0
	sent, wanted := x.Req.bytes(), x.Res.bytes()
	inside := response(wanted)
	inner := transport.Func(func(r *transport.Request) (*transport.Response, error) {
		calls++
		var err error
		if seen, err = io.ReadAll(r.Body); err != nil {
			return nil, fmt.Errorf("harness: request body: %w", err)
		}
		if r.URL != "http://bank.example/x" {
			return nil, fmt.Errorf("harness: URL %q", r.URL)
		}
		if x.Inner {
			return nil, errTransport
		}
		return &transport.Response{Request: r, Body: readerOf(x.Res, append([]byte{}, inside...))}, nil
	})
	got, err := m(inner).Do(&transport.Request{URL: "http://bank.example/x", Body: x.Req.reader()})
	if x.Req.Fail {
		if err == nil || calls > 0 {
			return fmt.Errorf("the request broke off after %d bytes: error %v, sent %d times as %q", len(sent), err, calls, short(seen))
		}
		return nil
	}
	if e := first(eq("calls of the inner transport", calls, 1), bytesEq("request", seen, encode(sent))); e != nil {
		return e
	}
	if x.Inner {
		if err != errTransport {
			return fmt.Errorf("error of the inner transport: got %v, want it unchanged", err)
		}
		return nil
	}
	if err != nil {
		if x.Res.Fail && errors.Is(err, errTransport) {
			return nil
		}
		return err
	}
	data, err := io.ReadAll(got.Body)
	if x.Res.Fail {
		if err == nil {
			return fmt.Errorf("the response broke off after %d bytes but was read as if complete: %q", len(inside), short(data))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("reading the response: %w", err)
	}
	return bytesEq("response", data, wanted)
}

func same(b []byte) []byte { return b }

// genExchange generates an exchange of arbitrary bytes.
func genExchange(t *rapid.T) exchange {
	x := exchange{Req: genBody(t, genPayload(t, "req"), false), Res: genBody(t, genPayload(t, "res"), true)}
	x.Req.Fail = rapid.IntRange(0, 9).Draw(t, "reqFail") == 0
	x.Inner = rapid.IntRange(0, 7).Draw(t, "inner") == 0
	if rapid.Bool().Draw(t, "lines") {
		x.Line, x.CRLF = rapid.IntRange(1, 80).Draw(t, "line"), rapid.Bool().Draw(t, "crlf")
	}
	return x
}

// httpBank is one HTTP server on the loopback network for all cases.
var httpBank struct {
	sync.Once
	srv *httptest.Server
	do  func(w http.ResponseWriter, r *http.Request)
}

func httpURL() string {
	httpBank.Do(func() {
		httpBank.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { httpBank.do(w, r) }))
		httpBank.srv.Config.ErrorLog = log.New(io.Discard, "", 0)
		httpBank.srv.Start()
	})
	return httpBank.srv.URL
}

type httpCase struct {
	Req, Res body
	Mode     string // length: with Content-Length, chunked, short: closed before the end
	Cut      int
	Base64   bool `json:",omitempty"`
	Status   int
	Path     string
	Client   int // constructor
}

// serve answers with the response of the case.
func (c httpCase) serve(w http.ResponseWriter, data []byte) {
	conn, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		panic(http.ErrAbortHandler)
	}
	defer func(conn net.Conn) { conn.Close() }(conn)
	head := fmt.Sprintf("HTTP/1.1 %d X\r\nConnection: close\r\nContent-Type: application/octet-stream\r\n", c.Status)
	var out bytes.Buffer
	switch c.Mode {
	case "chunked", "chunked-short":
		out.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		rest := data
		for i := 0; len(rest) > 0; i++ {
			n := len(rest)
			if k := c.Res.piece(i); k > 0 {
				n = min(n, k)
			}
			fmt.Fprintf(&out, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		if c.Mode == "chunked" {
			out.WriteString("0\r\n\r\n")
		}
	case "length":
		fmt.Fprintf(&out, "Content-Length: %d\r\n\r\n%s", len(data), data)
	case "short":
		fmt.Fprintf(&out, "Content-Length: %d\r\n\r\n%s", len(data)+1+c.Cut, data)
	default:
		panic("harness: mode " + c.Mode)
	}
	io.WriteString(conn, head)
	conn.Write(out.Bytes())
}

func (c httpCase) check() error {
	url := httpURL() + c.Path
	var got struct {
		calls                   int
		method, path, mime, enc string
		body                    []byte
		err                     error
	}
	sent := c.Res.bytes()
	if c.Base64 && c.Status == 200 {
		sent = []byte(base64.StdEncoding.EncodeToString(sent))
	}
	httpBank.do = func(w http.ResponseWriter, r *http.Request) {
		got.calls++
		got.method, got.path, got.mime, got.enc = r.Method, r.URL.Path, r.Header.Get("Content-Type"), r.Header.Get("Content-Encoding")
		got.body, got.err = io.ReadAll(r.Body)
		c.serve(w, sent)
	}
	var tr transport.Transport
	switch {
	case c.Base64:
		tr = https.NewBase64()
	case c.Client == 0:
		tr = https.New()
	default:
		tr = https.NewNonDefault(&http.Client{})
	}
	res, err := tr.Do(&transport.Request{URL: url, Body: c.Req.reader()})
	want := c.Req.bytes()
	if c.Base64 {
		want = []byte(base64.StdEncoding.EncodeToString(want))
	}
	if err == nil || got.calls > 0 {
		if e := first(got.err, eq("requests", got.calls, 1), eq("method", got.method, "POST"), eq("path", got.path, c.Path), eq("content type", got.mime, "application/vnd.hbci"), eq("content encoding", got.enc, ""), bytesEq("request", got.body, want)); e != nil {
			return e
		}
	}
	cut := c.Mode == "short" || c.Mode == "chunked-short"
	if err != nil {
		if cut {
			return nil
		}
		return err
	}
	defer res.Body.Close()
	data, err := io.ReadAll(res.Body)
	if cut {
		if err == nil {
			return fmt.Errorf("the connection was closed before the end of the response, but it was read as if complete: %q", short(data))
		}
		return nil
	}
	if err != nil {
		return err
	}
	return bytesEq("response", data, c.Res.bytes())
}

// ReadResponse and the dialog read the whole body before anything is used.
func init() {
	pbt.Add(pbt.Spec[struct{ B pbt.B }]{
		Prop: "C17", Name: "charset", Quick: 60000, Thorough: 4000000,
		Rule: "any bytes: as ISO 8859-1 text each stands for the rune of its number, and encoding gives the bytes back; non-trivial: bytes above 0x7f",
		Gen: func(t *rapid.T) struct{ B pbt.B } {
			return struct{ B pbt.B }{rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")}
		},
		Classify: func(c struct{ B pbt.B }) []string {
			for _, b := range c.B {
				if b >= 0x80 {
					return []string{"umlauts"}
				}
			}
			return nil
		},
		Check: func(c struct{ B pbt.B }) error {
			s := charset.ToUTF8(c.B)
			return first(eq("text", s, ref.UTF8(c.B)), eq("runes", utf8.RuneCountInString(s), len(c.B)), bytesEq("bytes", charset.ToISO8859_1(s), c.B))
		},
	})
	pbt.Add(pbt.Spec[exchange]{
		Prop: "C17", Name: "base64", Quick: 40000, Thorough: 2000000,
		Rule: "any request and response, read in pieces of any size, the response with or without line breaks, each complete or breaking off, or an error of the inner transport; non-trivial: with data",
		Gen:  genExchange, Classify: exchange.labels,
		Check: func(x exchange) error {
			for _, enc := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding, base64.RawStdEncoding} {
				if err := x.through(middleware.Base64Encoding(enc), func(b []byte) []byte { return []byte(enc.EncodeToString(b)) }, func(b []byte) []byte { return x.wrapped(enc.EncodeToString(b)) }); err != nil {
					return err
				}
			}
			return nil
		},
	})
	pbt.Add(pbt.Spec[exchange]{
		Prop: "C17", Name: "utf8", Quick: 40000, Thorough: 2000000,
		Rule: "any ISO 8859-1 text as request (given in UTF-8) and response, read in pieces of any size that may split characters; non-trivial: with data",
		Gen: func(t *rapid.T) exchange {
			x := genExchange(t)
			x.Req.UTF8, x.Res.UTF8 = true, true
			x.Req.Data = []byte(ref.UTF8(x.Req.Data))
			x.Res.Data = []byte(ref.UTF8(x.Res.Data))
			return x
		},
		Classify: exchange.labels,
		Check: func(x exchange) error {
			latin := func(b []byte) []byte { return ref.Latin1(string(b)) }
			return x.through(middleware.UTF8Encoding(charmap.ISO8859_1), latin, latin)
		},
	})
	pbt.Add(pbt.Spec[exchange]{
		Prop: "C17", Name: "logging", Quick: 30000, Thorough: 1500000,
		Rule: "any request and response, complete or breaking off, HBCI or not, through the logging middleware: both arrive unchanged, what breaks off is not taken for complete; non-trivial: with data",
		Gen:  genExchange, Classify: exchange.labels,
		Check: func(x exchange) error {
			return x.through(middleware.Logging(log.New(io.Discard, "", 0), message.NewPinTanCryptoProvider(domain.NewPinKey("12345", domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: "10000000"}, "user", "V")), "0")), same, same)
		},
	})
	pbt.Add(pbt.Spec[httpCase]{
		Prop: "C17", Name: "http", Quick: 5000, Thorough: 200000,
		Rule: "any request and response over a real HTTP connection on the loopback network: with length, in chunks, or closed before the end; with and without base64, any status; non-trivial: all",
		Gen: func(t *rapid.T) httpCase {
			c := httpCase{Req: genBody(t, genPayload(t, "req"), false), Res: genBody(t, genPayload(t, "res"), false), Mode: rapid.SampledFrom([]string{"length", "length", "chunked", "chunked", "short", "chunked-short"}).Draw(t, "mode"),
				Cut: rapid.IntRange(0, 5000).Draw(t, "cut"), Base64: rapid.IntRange(0, 2).Draw(t, "base64") == 0, Status: rapid.SampledFrom([]int{200, 200, 200, 201, 203, 400, 404, 500, 503}).Draw(t, "status"),
				Path: "/" + plain(8).Draw(t, "path"), Client: rapid.IntRange(0, 1).Draw(t, "client")}
			return c
		},
		Classify: func(c httpCase) []string {
			l := []string{"mode-" + c.Mode, "status-" + strconv.Itoa(c.Status)}
			if c.Base64 {
				l = append(l, "base64")
			}
			return l
		},
		Check: httpCase.check,
	})
	pbt.Add(pbt.Spec[scenario]{
		Prop: "C17", Name: "client-over-http", Quick: 1500, Thorough: 60000,
		Rule: "a client with the default transport and a model bank behind an HTTP server on the loopback network, one to three calls; requests and results are those of the same calls without HTTP; non-trivial: all",
		Gen:  func(t *rapid.T) scenario { return genScenario(t, opKinds[:6], 3, 2) }, Classify: scenario.labels,
		Check: func(s scenario) error {
			b := newBank(s.Bank, s.Ops, nil)
			var results []result
			var err error
			quiet(func() {
				httpBank.do = func(w http.ResponseWriter, r *http.Request) {
					res, err := b.Do(&transport.Request{URL: "https://bank.example/hbci", Body: r.Body})
					if err != nil {
						panic(http.ErrAbortHandler)
					}
					io.Copy(w, res.Body)
				}
				var c *client.Client
				if c, err = client.New(client.Config{BankID: s.Bank.BLZ, AccountID: s.Bank.User, PIN: s.Bank.PIN, URL: httpURL() + "/hbci", HBCIVersion: s.Bank.V, ProductName: s.Bank.Product, ProductVersion: s.Bank.ProductVer}); err != nil {
					return
				}
				for i, o := range s.Ops {
					b.op, b.page = i, 0
					r := o.call(c)
					results = append(results, r)
				}
			})
			if err != nil {
				return err
			}
			if len(b.problems) > 0 {
				return fmt.Errorf("the bank cannot read a request: %s", b.problems[0])
			}
			return first(s.checkContent(b), s.checkFraming(b), s.checkResults(results))
		},
	})
}
