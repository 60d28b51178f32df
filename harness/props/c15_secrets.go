package props

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"log"
	"os"
	"slices"
	"strings"
	"syscall"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/internal"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"github.com/mitch000001/go-hbci/verif/ref"
	"pgregory.net/rapid"
)

// captured runs f and returns all it wrote to standard output, standard error
// and the logs, with the library's defaults for logging.
func captured(f func()) (string, error) {
	out, err := os.CreateTemp("", "verif-out")
	if err != nil {
		return "", err
	}
	os.Remove(out.Name())
	defer out.Close()
	stderr, err := syscall.Dup(2)
	if err != nil {
		return "", err
	}
	defer syscall.Close(stderr)
	stdout := os.Stdout
	defer func() {
		os.Stdout = stdout
		log.SetOutput(os.Stderr)
		internal.SetInfoLog(false)
		syscall.Dup2(stderr, 2)
	}()
	if err := syscall.Dup2(int(out.Fd()), 2); err != nil {
		return "", err
	}
	os.Stdout = out
	log.SetOutput(os.Stderr)
	internal.SetInfoLog(true)
	internal.SetDebugMode(false)
	f()
	if _, err := out.Seek(0, io.SeekStart); err != nil {
		return "", err
	}
	b, err := io.ReadAll(out)
	return string(b), err
}

// secretForms are the ways a PIN may show up in text.
func secretForms(pin string) [][]byte {
	latin := ref.Latin1(pin)
	return [][]byte{[]byte(pin), latin, ref.Escape(latin), []byte(fmt.Sprintf("%q", pin)[1 : len(fmt.Sprintf("%q", pin))-1]), []byte(fmt.Sprintf("%x", pin)),
		[]byte(base64.StdEncoding.EncodeToString([]byte(pin))[:4*(len(pin)/3)])}
}

func leaks(what string, text []byte, pin string) error {
	for _, f := range secretForms(pin) {
		if i := bytes.Index(text, f); i >= 0 {
			return fmt.Errorf("%s: the PIN %q shows up: %q", what, pin, text[max(0, i-60):min(len(text), i+len(f)+20)])
		}
	}
	return nil
}

// checkSecrets looks for the PIN in everything that leaves the client.
func (s scenario) checkSecrets(b *bank, rs []result, printed string) error {
	pin := s.Bank.PIN
	if err := leaks("output", []byte(printed), pin); err != nil {
		return err
	}
	for i, r := range rs {
		if r.Err != nil {
			if err := leaks(fmt.Sprintf("error of call %d", i), []byte(r.Err.Error()), pin); err != nil {
				return err
			}
		}
		if err := leaks(fmt.Sprintf("result of call %d", i), []byte(fmt.Sprintf("%+v %+v %+v %+v %+v", r.Accounts, r.Bal, r.Sepa, r.Tx, r.Status)), pin); err != nil {
			return err
		}
	}
	for i, q := range b.log {
		if err := leaks(fmt.Sprintf("URL of request %d", i), []byte(q.URL), pin); err != nil {
			return err
		}
		enc := 0
		for _, seg := range q.Outer {
			if seg.ID() == "HNVSD" {
				enc++
				continue
			}
			if err := leaks(fmt.Sprintf("request %d: %s, not encrypted", i, seg.ID()), seg.Raw, pin); err != nil {
				return err
			}
		}
		signed := 0
		for _, seg := range q.Inner {
			if seg.ID() == "HNSHA" && enc == 1 {
				signed++
				if err := eq(fmt.Sprintf("request %d: PIN in the signature", i), ref.UTF8(seg.B(3, 0)), pin); err != nil {
					return err
				}
				// nowhere else in it
				raw := bytes.Replace(seg.Raw, ref.Escape(ref.Latin1(pin)), nil, 1)
				if err := leaks(fmt.Sprintf("request %d: HNSHA, twice", i), raw, pin); err != nil {
					return err
				}
				continue
			}
			if err := leaks(fmt.Sprintf("request %d: %s", i, seg.ID()), seg.Raw, pin); err != nil {
				return err
			}
		}
		if signed != 1 {
			return fmt.Errorf("request %d (%s) is signed %d times", i, q.Kind, signed)
		}
	}
	return nil
}

type refusedCfg struct {
	Bank, User, PIN, URL, Product string
	Version                       int
	Debug                         bool
}

func init() {
	pbt.Add(pbt.Spec[scenario]{
		Prop: "C15", Name: "pin", Quick: 6000, Thorough: 300000,
		Rule: "a client with the default logging and a model bank, one to four calls, up to two answers with errors, cut off, damaged or lost; the PIN (any text around a marker that occurs nowhere else) is looked for in all requests, errors, results and everything printed, raw, escaped, quoted, in hex and base64; non-trivial: all (observed: calls that failed, text printed)",
		Gen: func(t *rapid.T) scenario {
			s := genScenario(t, opKinds, 4, 2)
			s.Bank.PIN = anyText(4).Draw(t, "before") + "Zq8sEcReT" + anyText(4).Draw(t, "after")
			for i, n := 0, rapid.IntRange(0, 2).Draw(t, "faults"); i < n; i++ {
				s.Faults = append(s.Faults, genFault(t, append([]string{"damage", "inner-damage"}, faultKinds...), rapid.IntRange(0, 3*len(s.Ops)+2).Draw(t, "at")+i*20))
			}
			return s
		},
		Classify: scenario.labels,
		Check: func(s scenario) error {
			b := newBank(s.Bank, s.Ops, s.Faults)
			var rs []result
			printed, err := captured(func() {
				c, err := s.Bank.client(b)
				if err != nil {
					panic(err)
				}
				for i, o := range s.Ops {
					b.op, b.page = i, 0
					rs = append(rs, o.call(c))
				}
			})
			if err != nil {
				panic("harness: " + err.Error())
			}
			for _, r := range rs {
				if r.Err != nil {
					pbt.Note("failed-call")
				}
			}
			if printed != "" {
				pbt.Note("printed")
			}
			return s.checkSecrets(b, rs, printed)
		},
	})
	pbt.Add(pbt.Spec[scenario]{
		Prop: "C15", Name: "no-pin", Quick: 3000, Thorough: 100000,
		Rule: "a client that has no PIN: every call fails and nothing is sent; non-trivial: all",
		Gen: func(t *rapid.T) scenario {
			s := genScenario(t, opKinds, 3, 1)
			s.Bank.PIN = ""
			return s
		},
		Classify: scenario.labels,
		Check: func(s scenario) error {
			b, rs, err := s.run()
			if err != nil {
				return err
			}
			for i, r := range rs {
				if r.Err == nil {
					return fmt.Errorf("call %d (%s) succeeded without a PIN", i, s.Ops[i].Kind)
				}
			}
			return eq("requests", len(b.log), 0)
		},
	})
	pbt.Add(pbt.Spec[refusedCfg]{
		Prop: "C15", Name: "refused", Quick: 6000, Thorough: 200000,
		Rule: "a configuration (bank in the directory or not, any protocol version, with and without URL, debug logging, any texts) from which no client is made: the PIN is in neither the error nor anything printed; non-trivial: the configuration is refused",
		Gen: func(t *rapid.T) refusedCfg {
			c := refusedCfg{PIN: anyText(4).Draw(t, "before") + "Zq8sEcReT" + anyText(4).Draw(t, "after"), User: anyText(10).Draw(t, "user"), Product: anyText(10).Draw(t, "product"), Debug: rapid.Bool().Draw(t, "debug")}
			c.Bank = rapid.OneOf(anyText(10), rapid.SampledFrom([]string{"", "10000000", "10010010", "20050550", "70150000", "50010517"})).Draw(t, "bank")
			c.Version = rapid.OneOf(rapid.Just(0), rapid.SampledFrom([]int{201, 210, 220, 300, 400, -1}), rapid.Int()).Draw(t, "version")
			if rapid.Bool().Draw(t, "url") {
				c.URL = rapid.SampledFrom([]string{"https://bank.example", "http://[", "x", ":"}).Draw(t, "url")
			}
			return c
		},
		Classify: func(c refusedCfg) []string {
			if c.Version == 220 || c.Version == 300 {
				return nil
			}
			return []string{"perhaps-refused"}
		},
		Check: func(c refusedCfg) error {
			var msg string
			printed, err := captured(func() {
				cl, err := client.New(client.Config{BankID: c.Bank, AccountID: c.User, PIN: c.PIN, URL: c.URL, HBCIVersion: c.Version, ProductName: c.Product, EnableDebugLogging: c.Debug})
				if err != nil {
					pbt.Note("refused")
					msg = fmt.Sprintf("%v %+v %q", err, err, err)
				} else if cl == nil {
					msg = "neither client nor error"
				}
			})
			internal.SetDebugMode(false)
			if err != nil {
				panic("harness: " + err.Error())
			}
			return first(leaks("error of New", []byte(msg), c.PIN), leaks("output of New", []byte(printed), c.PIN))
		},
	})
	pbt.Add(pbt.Spec[debugCase]{
		Prop: "C15", Name: "debug", Quick: 1500, Thorough: 60000,
		Rule: "two to four clients with and without debug logging, made and called in any order: what is printed while a client without it is made or called has no message and no PIN in it, and a client with it prints its messages; non-trivial: clients of both kinds",
		Gen: func(t *rapid.T) debugCase {
			c := debugCase{clientsCase: genClients(t, 4)}
			for i := range c.Clients {
				c.Clients[i].Faults = nil // errors quote answers that cannot be read
				c.Clients[i].Bank.PIN = anyText(4).Draw(t, "before") + "Zq8sEcReT" + string(rune('a'+i)) + anyText(4).Draw(t, "after")
				c.Debug = append(c.Debug, rapid.Bool().Draw(t, "debug"))
			}
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 11), 1, 16).Draw(t, "order")
			return c
		},
		Classify: func(c debugCase) []string {
			if on := slices.Contains(c.Debug, true); !on || !slices.Contains(c.Debug, false) {
				return nil
			}
			return c.labels()
		},
		Check: debugCase.check,
	})
}

// debugCase is some clients, which of them have debug logging on, and the order
// of their calls.
type debugCase struct {
	clientsCase
	Debug []bool
}

func (c debugCase) check() error {
	const mark = "=== next step of client "
	banks, clients, next := make([]*bank, len(c.Clients)), make([]*client.Client, len(c.Clients)), make([]int, len(c.Clients))
	var sent []int // the requests of each step
	printed, err := captured(func() {
		var running []int
		for i, s := range c.Clients {
			running = append(running, i)
			banks[i] = newBank(s.Bank, s.Ops, s.Faults)
		}
		for step := 0; len(running) > 0; step++ {
			at := c.Order[step%len(c.Order)] % len(running)
			k := running[at]
			s, b := c.Clients[k], banks[k]
			fmt.Fprintf(os.Stderr, "\n%s%d\n", mark, k)
			before := len(b.log)
			if clients[k] == nil {
				cfg := s.Bank.config(b.Do)
				cfg.EnableDebugLogging = c.Debug[k]
				cl, err := client.New(cfg)
				if err != nil {
					panic(err)
				}
				clients[k] = cl
			} else {
				b.op, b.page = next[k], 0
				s.Ops[next[k]].call(clients[k])
				next[k]++
			}
			if next[k] == len(s.Ops) {
				running = append(running[:at:at], running[at+1:]...)
			}
			sent = append(sent, len(b.log)-before)
		}
	})
	if err != nil {
		panic("harness: " + err.Error())
	}
	for i, part := range strings.Split(printed, "\n"+mark)[1:] {
		k := int(part[0] - '0')
		for o, s := range c.Clients {
			if o != k || !c.Debug[k] {
				if err := leaks(fmt.Sprintf("step %d, of client %d: output", i, k), []byte(part), s.Bank.PIN); err != nil {
					return err
				}
			}
		}
		shown := ""
		for _, word := range []string{"HNHBK", "HNVSD", "HNSHA"} {
			if strings.Contains(part, word) {
				shown = word
			}
		}
		if shown != "" && !c.Debug[k] {
			return fmt.Errorf("step %d: debug logging is off for client %d, but a message is printed: %q", i, k, part)
		}
		if shown == "" && c.Debug[k] && sent[i] > 0 {
			return fmt.Errorf("step %d: debug logging is on for client %d, but no message is printed: %q", i, k, part)
		}
	}
	return nil
}
