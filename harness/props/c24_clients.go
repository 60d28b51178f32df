package props

import (
	"fmt"
	"sync"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/transport"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

// clientsCase is some clients, each with a bank of its own, and the order in
// which they proceed from one request to the next.
type clientsCase struct {
	Clients []scenario
	Order   []int `json:",omitempty"`
}

// outcomeOf judges what one client did, as if it were alone.
func (s scenario) outcomeOf(b *bank, rs []result) error {
	if len(b.problems) > 0 {
		return fmt.Errorf("the bank cannot read a request: %s", b.problems[0])
	}
	if len(s.Faults) > 0 {
		return s.checkFaults(b, rs)
	}
	return first(s.checkContent(b), s.checkFraming(b), s.checkEnvelope(b), s.checkSequence(b), s.checkResults(rs))
}

func (c clientsCase) verdict(banks []*bank, results [][]result, errs []error) error {
	for i, s := range c.Clients {
		if errs[i] != nil {
			return fmt.Errorf("client %d: %w", i, errs[i])
		}
		if err := s.outcomeOf(banks[i], results[i]); err != nil {
			return fmt.Errorf("client %d: %w", i, err)
		}
	}
	return nil
}

// interleaved runs the clients one step - from a request to the next - at a time.
func (c clientsCase) interleaved() error {
	n := len(c.Clients)
	banks, results, errs := make([]*bank, n), make([][]result, n), make([]error, n)
	turns, done := make([]chan bool, n), make(chan bool)
	quiet(func() {
		for i, s := range c.Clients {
			banks[i], turns[i] = newBank(s.Bank, s.Ops, s.Faults), make(chan bool)
			go func() {
				<-turns[i]
				errs[i] = pbt.Guard(func() error {
					cl, err := client.New(s.Bank.config(func(r *transport.Request) (*transport.Response, error) {
						done <- false
						<-turns[i]
						return banks[i].Do(r)
					}))
					if err == nil {
						results[i] = s.play(cl, banks[i])
					}
					return err
				})
				done <- true
			}()
		}
		var running []int
		for i := range c.Clients {
			running = append(running, i)
		}
		for step := 0; len(running) > 0; step++ {
			at := 0
			if len(c.Order) > 0 {
				at = c.Order[step%len(c.Order)] % len(running)
			}
			turns[running[at]] <- true
			if <-done {
				running = append(running[:at:at], running[at+1:]...)
			}
		}
	})
	return c.verdict(banks, results, errs)
}

// parallel runs the clients at the same time.
func (c clientsCase) parallel() error {
	n := len(c.Clients)
	banks, results, errs := make([]*bank, n), make([][]result, n), make([]error, n)
	quiet(func() {
		var start, end sync.WaitGroup
		start.Add(1)
		for i, s := range c.Clients {
			end.Add(1)
			go func() {
				defer end.Done()
				start.Wait()
				errs[i] = pbt.Guard(func() error {
					b := newBank(s.Bank, s.Ops, s.Faults)
					banks[i] = b
					cl, err := s.Bank.client(b)
					if err == nil {
						results[i] = s.play(cl, b)
					}
					return err
				})
			}()
		}
		start.Done()
		end.Wait()
	})
	return c.verdict(banks, results, errs)
}

func genClients(t *rapid.T, most int) clientsCase {
	var c clientsCase
	for i, n := 0, rapid.IntRange(2, most).Draw(t, "clients"); i < n; i++ {
		s := scenario{Bank: genBank(t)}
		if i > 0 {
			// customers of the same bank, with the same ids
			o := c.Clients[0].Bank
			if rapid.Bool().Draw(t, "sameBank") {
				s.Bank.BLZ = o.BLZ
			}
			if rapid.IntRange(0, 2).Draw(t, "sameUser") == 0 {
				if s.Bank.UPDUser == s.Bank.User {
					s.Bank.UPDUser = o.User
				}
				s.Bank.User = o.User
			}
			if rapid.IntRange(0, 2).Draw(t, "samePIN") == 0 {
				s.Bank.PIN = o.PIN
			}
			if rapid.IntRange(0, 2).Draw(t, "sameIDs") == 0 {
				s.Bank.SystemIDs, s.Bank.DialogIDs = o.SystemIDs, o.DialogIDs
			}
		}
		for j, n := 0, rapid.IntRange(1, 3).Draw(t, "ops"); j < n; j++ {
			s.Ops = append(s.Ops, genOp(t, s.Bank, opKinds, 3))
		}
		if rapid.IntRange(0, 4).Draw(t, "faulty") == 0 {
			s.Faults = append(s.Faults, genFault(t, faultKinds, rapid.IntRange(0, 8).Draw(t, "at")))
		}
		c.Clients = append(c.Clients, s)
	}
	return c
}

func (c clientsCase) labels() []string {
	set := map[string]bool{fmt.Sprintf("%d-clients", len(c.Clients)): true}
	for i, s := range c.Clients {
		for _, o := range c.Clients[:i] {
			if o.Bank.BLZ == s.Bank.BLZ {
				set["same-bank"] = true
			}
			if o.Bank.User == s.Bank.User {
				set["same-user"] = true
			}
			if o.Bank.V != s.Bank.V {
				set["different-protocol-versions"] = true
			}
		}
		if len(s.Faults) > 0 {
			set["fault"] = true
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	return out
}

func init() {
	pbt.Add(pbt.Spec[clientsCase]{
		Prop: "C24", Name: "interleaved", Quick: 6000, Thorough: 60000,
		Rule: "two to four clients with banks of their own (some with equal bank ids, user ids, PINs, dialog and system ids), which take turns between any two requests in a generated order, some with a faulty answer: each sends and gets what it would alone; non-trivial: all",
		Gen: func(t *rapid.T) clientsCase {
			c := genClients(t, 4)
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 11), 1, 40).Draw(t, "order")
			return c
		},
		Classify: clientsCase.labels, Check: clientsCase.interleaved,
	})
	pbt.Add(pbt.Spec[clientsCase]{
		Prop: "C24", Name: "parallel", Race: true, Quick: 600, Thorough: 30000,
		Rule: "two to six clients as above at the same time in goroutines, under the race detector: no data race, and each sends and gets what it would alone; non-trivial: all",
		Gen:  func(t *rapid.T) clientsCase { return genClients(t, 6) }, Classify: clientsCase.labels, Check: clientsCase.parallel,
	})
}
