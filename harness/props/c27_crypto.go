package props

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sync"

	"github.com/mitch000001/go-hbci/crypto"
	"github.com/mitch000001/go-hbci/verif/pbt"
	"pgregory.net/rapid"
)

// An rsaKey is a key made from its seed alone.
type rsaKey struct{ n, e, d, p, q *big.Int }

var (
	rsaMu   sync.Mutex
	rsaKeys = map[[3]int]*rsaKey{}
)

// keyOf makes the key of that many bits, always the same one for a seed.
func keyOf(seed, bits, exponent int) *rsaKey {
	rsaMu.Lock()
	defer rsaMu.Unlock()
	id := [3]int{seed, bits, exponent}
	if k := rsaKeys[id]; k != nil {
		return k
	}
	r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(bits)))
	e, one := big.NewInt(int64(exponent)), big.NewInt(1)
	prime := func(bits int) *big.Int {
		for {
			b := make([]byte, (bits+7)/8)
			r.Read(b)
			p := new(big.Int).SetBytes(b)
			p.Rsh(p, uint(len(b)*8-bits))
			p.SetBit(p, bits-1, 1).SetBit(p, bits-2, 1).SetBit(p, 0, 1)
			if new(big.Int).GCD(nil, nil, e, new(big.Int).Sub(p, one)).Cmp(one) == 0 && p.ProbablyPrime(20) {
				return p
			}
		}
	}
	for {
		p, q := prime((bits+1)/2), prime(bits/2)
		n := new(big.Int).Mul(p, q)
		if p.Cmp(q) == 0 || n.BitLen() != bits {
			continue
		}
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		k := &rsaKey{n: n, e: e, d: new(big.Int).ModInverse(e, phi), p: p, q: q}
		rsaKeys[id] = k
		return k
	}
}

func (k *rsaKey) public() crypto.RSAKeyParameters {
	return crypto.NewRSAKeyParameters(false, new(big.Int).Set(k.n), new(big.Int).Set(k.e))
}

func (k *rsaKey) private(crt bool) crypto.RSAKeyParameters {
	if !crt {
		return crypto.NewRSAKeyParameters(true, new(big.Int).Set(k.n), new(big.Int).Set(k.d))
	}
	one := big.NewInt(1)
	return crypto.NewRSAPrivateCrtKeyParameters(k.n, k.e, k.d, k.p, k.q,
		new(big.Int).Mod(k.d, new(big.Int).Sub(k.p, one)), new(big.Int).Mod(k.d, new(big.Int).Sub(k.q, one)), new(big.Int).ModInverse(k.q, k.p))
}

// representative is the number that ISO 9796-1 signs for a message, built
// nibble by nibble from the right.
func representative(m []byte, r, bits int) *big.Int {
	shadow := []byte{14, 3, 5, 8, 9, 4, 2, 15, 0, 13, 11, 6, 7, 10, 12, 1}
	t := (bits + 13) / 16
	var fromRight []byte
	for i := 0; i < t; i++ {
		b := m[len(m)-1-i%len(m)]
		s := shadow[b>>4]<<4 | shadow[b&15]
		if i == len(m)-1 {
			s ^= byte(r)
		}
		fromRight = append(fromRight, b, s)
	}
	fromRight[0] = fromRight[0]<<4 | 6
	x := new(big.Int)
	for i := len(fromRight) - 1; i >= 0; i-- {
		x.Lsh(x, 8).Or(x, big.NewInt(int64(fromRight[i])))
	}
	mask := new(big.Int).Lsh(big.NewInt(1), uint(bits-2))
	return x.Mod(x, mask).Or(x, mask)
}

type rsaCase struct {
	Seed, Bits, E int
	CRT           bool
	// Data is the message; it stands in a buffer behind Before bytes and
	// before After bytes.
	Data          pbt.B
	Before, After int
	Pad           int
	// What the same encoding has been used for before: nothing, another
	// message (as long, with other pad bits), something that is none.
	Used string `json:",omitempty"`
	// How a signature is damaged.
	Damage string `json:",omitempty"`
	Bit    int    `json:",omitempty"`
}

var rsaBits = []int{256, 272, 384, 512, 513, 522, 528, 640, 762, 764, 768, 769, 770}

func genRSA(t *rapid.T) rsaCase {
	return rsaCase{
		Seed: rapid.IntRange(0, 3).Draw(t, "key"), Bits: rapid.SampledFrom(rsaBits).Draw(t, "bits"), E: rapid.SampledFrom([]int{3, 17, 65537}).Draw(t, "e"),
		CRT: rapid.Bool().Draw(t, "crt"), Before: rapid.IntRange(0, 3).Draw(t, "before"), After: rapid.IntRange(0, 3).Draw(t, "after"),
		Pad: rapid.IntRange(0, 7).Draw(t, "pad"), Used: rapid.SampledFrom([]string{"", "", "message", "none"}).Draw(t, "used"),
	}
}

func genBlock(t *rapid.T, max int) pbt.B {
	n := rapid.OneOf(rapid.IntRange(1, max), rapid.SampledFrom([]int{1, 2, max / 2, max - 1, max})).Draw(t, "n")
	fill := rapid.SampledFrom([]string{"any", "any", "zeros", "ones", "leading"}).Draw(t, "fill")
	b := make([]byte, n)
	for i := range b {
		switch {
		case fill == "ones":
			b[i] = 0xff
		case fill == "any" || fill == "leading" && i >= n/2:
			b[i] = rapid.Byte().Draw(t, "b")
		}
	}
	return b
}

// within puts data in the middle of a larger buffer.
func (c rsaCase) within(data []byte) ([]byte, int, int) {
	buf := bytes.Repeat([]byte{0xa5}, c.Before)
	buf = append(append(buf, data...), bytes.Repeat([]byte{0x5a}, c.After)...)
	return buf, c.Before, len(data)
}

func stripped(b []byte) []byte { return bytes.TrimLeft(b, "\x00") }

func (c rsaCase) labels() []string {
	l := []string{fmt.Sprintf("bits-%d", c.Bits)}
	if c.CRT {
		l = append(l, "crt")
	}
	if c.Before+c.After > 0 {
		l = append(l, "part-of-buffer")
	}
	if c.Used != "" {
		l = append(l, "used-before-for-"+c.Used)
	}
	return l
}

func init() {
	pbt.Add(pbt.Spec[rsaCase]{
		Prop: "C27", Name: "blocks", Quick: 40000, Thorough: 1600000,
		Rule: "any block up to the block size, in a buffer of its own or in the middle of another, under keys of thirteen lengths and three exponents: encrypting gives the block of the RSA formula, filled up to the block size, decrypting gives the block back, with the private exponent and with the Chinese remainder parameters; the buffers stay as they are; non-trivial: always",
		Gen: func(t *rapid.T) rsaCase {
			c := genRSA(t)
			c.Data = genBlock(t, (c.Bits+7)/8-1)
			return c
		},
		Classify: rsaCase.labels,
		Check: func(c rsaCase) error {
			return pbt.Guard(func() error {
				k := keyOf(c.Seed, c.Bits, c.E)
				engine := new(crypto.RSAEngine)
				engine.Init(true, k.public())
				size := (c.Bits + 7) / 8
				if err := first(eq("input block size", engine.InputBlockSize(), size-1), eq("output block size", engine.OutputBlockSize(), size)); err != nil {
					return err
				}
				buf, off, n := c.within(c.Data)
				keep := bytes.Clone(buf)
				enc := engine.ProcessBlock(buf, off, n)
				want := new(big.Int).Exp(new(big.Int).SetBytes(c.Data), k.e, k.n).FillBytes(make([]byte, size))
				if err := first(bytesEq("encrypted", enc, want), bytesEq("caller's buffer", buf, keep)); err != nil {
					return err
				}
				engine.Init(false, k.private(c.CRT))
				if err := first(eq("input block size", engine.InputBlockSize(), size), eq("output block size", engine.OutputBlockSize(), size-1)); err != nil {
					return err
				}
				buf, off, n = c.within(enc)
				keep = bytes.Clone(buf)
				dec := engine.ProcessBlock(buf, off, n)
				return first(bytesEq("decrypted", stripped(dec), stripped(c.Data)), bytesEq("caller's buffer", buf, keep))
			})
		},
	})

	pbt.Add(pbt.Spec[rsaCase]{
		Prop: "C27", Name: "signatures", Quick: 40000, Thorough: 1600000,
		Rule: "any message up to half the key in any number of pad bits, with an encoding that is new or has been used before: the number that is signed is the one ISO 9796-1 prescribes, reading the signature or its complement gives back the message and the pad bits; non-trivial: always",
		Gen: func(t *rapid.T) rsaCase {
			c := genRSA(t)
			c.Data = genBlock(t, (c.Bits+3)/16)
			return c
		},
		Classify: rsaCase.labels,
		Check: func(c rsaCase) error {
			return pbt.Guard(func() error {
				k := keyOf(c.Seed, c.Bits, c.E)
				sig, err := c.sign(k)
				if err != nil {
					return err
				}
				s := new(big.Int).SetBytes(sig)
				signed := new(big.Int).Exp(s, k.e, k.n)
				if err := eq("signed number", signed.Text(16), representative(c.Data, c.Pad+1, c.Bits).Text(16)); err != nil {
					return err
				}
				for _, complement := range []bool{false, true} {
					if complement {
						s.Sub(k.n, s)
						sig = s.FillBytes(make([]byte, (c.Bits+7)/8))
					}
					got, pad, err := c.read(k, sig)
					if err != nil {
						return fmt.Errorf("signature (complement: %v) refused: %w", complement, err)
					}
					if err := bytesEq("message", got, c.Data); err != nil {
						return err
					}
					// the bits that tell the number of pad bits of a message as
					// long as the signature allows lie outside the signature
					if len(c.Data) < (c.Bits+13)/16 {
						if err := eq("pad bits", pad, c.Pad); err != nil {
							return err
						}
					}
				}
				return nil
			})
		},
	})

	pbt.Add(pbt.Spec[rsaCase]{
		Prop: "C27", Name: "damaged", Quick: 40000, Thorough: 1600000,
		Rule: "a signature with one bit changed, made with another key, or a number that is no signature, small ones included: refused with an error; non-trivial: always",
		Gen: func(t *rapid.T) rsaCase {
			c := genRSA(t)
			c.Data = genBlock(t, (c.Bits+3)/16)
			c.Damage = rapid.SampledFrom([]string{"bit", "bit", "other-key", "number", "small"}).Draw(t, "damage")
			c.Bit = rapid.IntRange(0, c.Bits-1).Draw(t, "bit")
			return c
		},
		Classify: func(c rsaCase) []string { return append(c.labels(), c.Damage) },
		Check: func(c rsaCase) error {
			return pbt.Guard(func() error {
				k := keyOf(c.Seed, c.Bits, c.E)
				size := (c.Bits + 7) / 8
				s := new(big.Int)
				switch c.Damage {
				case "bit", "other-key":
					by := k
					if c.Damage == "other-key" {
						by = keyOf(c.Seed+1, c.Bits, c.E)
					}
					sig, err := c.sign(by)
					if err != nil {
						return err
					}
					s.SetBytes(sig)
					if c.Damage == "bit" {
						s.SetBit(s, c.Bit, s.Bit(c.Bit)^1)
					}
				case "small":
					// the signature of a number too small to be a representative
					s.Exp(big.NewInt(int64(c.Bit)), k.d, k.n)
				case "number":
					s.Rsh(k.n, uint(c.Bit+1))
				}
				s.Mod(s, k.n)
				got, _, err := c.read(k, s.FillBytes(make([]byte, size)))
				if err == nil {
					return fmt.Errorf("%x was read from a signature that is none", got)
				}
				return nil
			})
		},
	})
}

// other is the message that was processed before.
func (c rsaCase) other() rsaCase {
	o := rsaCase{Seed: c.Seed, Bits: c.Bits, E: c.E, Pad: (c.Pad + 3) % 8}
	for _, b := range c.Data {
		o.Data = append(o.Data, b^0x35)
	}
	if len(o.Data) > 1 && c.Before&1 == 0 {
		o.Data = o.Data[:len(o.Data)/2]
	}
	return o
}

// sign has the library sign the message.
func (c rsaCase) sign(k *rsaKey) ([]byte, error) {
	encoding := crypto.NewISO9796d1Encoding(new(crypto.RSAEngine))
	encoding.Init(true, k.private(c.CRT))
	if c.Used != "" {
		o := c.other()
		encoding.SetPadBits(o.Pad)
		if _, err := encoding.ProcessBlock(o.Data, 0, len(o.Data)); err != nil {
			return nil, fmt.Errorf("message before refused: %w", err)
		}
	}
	encoding.SetPadBits(c.Pad)
	buf, off, n := c.within(c.Data)
	keep := bytes.Clone(buf)
	sig, err := encoding.ProcessBlock(buf, off, n)
	if err != nil {
		return nil, fmt.Errorf("message refused: %w", err)
	}
	return sig, first(bytesEq("caller's buffer", buf, keep), eq("signature size", len(sig), (c.Bits+7)/8))
}

var errHarmed = errors.New("the caller's buffer was changed")

// read has the library read the message out of a signature.
func (c rsaCase) read(k *rsaKey, sig []byte) ([]byte, int, error) {
	encoding := crypto.NewISO9796d1Encoding(new(crypto.RSAEngine))
	encoding.Init(false, k.public())
	switch c.Used {
	case "message":
		before, err := c.other().sign(k)
		if err != nil {
			return nil, 0, err
		}
		if _, err := encoding.ProcessBlock(before, 0, len(before)); err != nil {
			return nil, 0, fmt.Errorf("signature before refused: %w", err)
		}
	case "none":
		encoding.ProcessBlock(new(big.Int).Rsh(k.n, 3).Bytes(), 0, (k.n.BitLen()-3+7)/8)
	}
	buf, off, n := c.within(sig)
	keep := bytes.Clone(buf)
	m, err := encoding.ProcessBlock(buf, off, n)
	if err == nil && !bytes.Equal(buf, keep) {
		err = errHarmed
	}
	return m, encoding.PadBits(), err
}
