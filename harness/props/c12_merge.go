package props

import (
	"bytes"
	"fmt"
	"time"

	"github.com/mitch000001/go-hbci/swift"
	"pgregory.net/rapid"

	"github.com/mitch000001/go-hbci/verif/pbt"
)

// Parts of one booking list, taken in the order they arrived in, and handed
// to the merge in some order.
type mergeCase struct {
	Parts []pbt.B
	Order []int // a permutation of the parts
	Same  []int `json:",omitempty"` // parts that arrived before the others, all at the same time
}

func genMerge(t *rapid.T) mergeCase {
	n := rapid.IntRange(0, 40).Draw(t, "parts")
	var c mergeCase
	same := rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "same")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 2).Draw(t, "together") < same {
			c.Same = append(c.Same, i)
		}
		c.Parts = append(c.Parts, pbt.B(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "part")))
		c.Order = append(c.Order, i)
	}
	if rapid.Bool().Draw(t, "shuffled") && n > 1 {
		c.Order = rapid.Permutation(c.Order).Draw(t, "order")
	}
	return c
}

func init() {
	pbt.Add(pbt.Spec[mergeCase]{
		Prop: "C12", Name: "merge", Quick: 3000, Thorough: 100000,
		Rule: "non-trivial: at least two non-empty parts; parts that arrived at distinct times are merged in arrival order however they are handed over, parts that arrived at the same time in the order they are handed over",
		Gen:  genMerge,
		Classify: func(c mergeCase) []string {
			full := 0
			for _, p := range c.Parts {
				if len(p) > 0 {
					full++
				}
			}
			labels := []string{}
			if full > 1 {
				labels = append(labels, "several parts")
			}
			if len(c.Same) > 1 {
				labels = append(labels, "at the same time")
			}
			for i, o := range c.Order {
				if i != o {
					labels = append(labels, "handed over out of order")
					break
				}
			}
			if len(c.Parts) > 12 { // beyond insertion sort
				labels = append(labels, "many parts")
			}
			return labels
		},
		Check: func(c mergeCase) error {
			arrived := make([]*swift.MT940Messages, len(c.Parts))
			for i, p := range c.Parts {
				for t := time.Now().UnixNano(); time.Now().UnixNano() <= t; {
				}
				arrived[i] = swift.NewMT940Messages(append([]byte(nil), p...))
			}
			together := map[int]bool{}
			for _, i := range c.Same {
				together[i] = true
				arrived[i] = &swift.MT940Messages{Data: append([]byte(nil), c.Parts[i]...)}
			}
			var want []byte
			for _, i := range c.Order { // as they are handed over
				if together[i] {
					want = append(want, c.Parts[i]...)
				}
			}
			for i, p := range c.Parts {
				if !together[i] {
					want = append(want, p...)
				}
			}
			handed := make([]*swift.MT940Messages, len(c.Parts))
			for i, o := range c.Order {
				handed[i] = arrived[o]
			}
			merged := swift.MergeMT940Messages(handed...)
			if merged == nil {
				return fmt.Errorf("merging %d parts gave nothing", len(c.Parts))
			}
			if !bytes.Equal(merged.Data, want) {
				return fmt.Errorf("merged %q, the parts arrived as %q", merged.Data, want)
			}
			for i := range merged.Data { // the result is the caller's own
				merged.Data[i] ^= 0xff
			}
			for i, p := range c.Parts {
				if !bytes.Equal(arrived[i].Data, p) {
					return fmt.Errorf("merging changed part %d to %q, was %q", i, arrived[i].Data, p)
				}
			}
			return nil
		},
	})
}
