package main

import (
	"fmt"
	"math/big"

	ex "github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
)

func init() { register("X03", 20, checkX03) }

func checkX03(c *Ctx) {
	c.Rule("Numbers of up to 128 bits (random, runs of ones and zeros, borders of the words, components of actual GLV pairs), of both signs, are decomposed with every window width 1..12; the sum of the digits, oddness, width, order and distance of the digits are checked with math/big. Distinct by number and width.")
	c.Assume("the function is reached through a bridge in the package, as no exported function calls it at this commit")
	two128 := new(big.Int).Lsh(bOne, 128)
	if ex.VerifDecompose == nil {
		c.Assume("the tree does not fit the in-package bridge to the window decomposition: it was NOT observed, only the components of GLV pairs were")
	}
	for w := uint(1); w <= 12; w++ {
		w := w
		c.Run(fmt.Sprintf("width %d", w), 30000, func(t *T) {
			r := t.R
			var x *big.Int
			switch r.Intn(6) {
			case 0: // run of ones, dense at the top
				hi := uint(1 + r.Intn(128))
				if r.Intn(2) == 0 {
					hi = 128
				}
				x = bsub(new(big.Int).Lsh(bOne, hi), new(big.Int).Lsh(bOne, uint(r.Intn(int(hi)))))
			case 1:
				x = bmod(gen256(r), two128)
			case 2:
				x = bsub(two128, badd(bmod(gen256(r), new(big.Int).Lsh(bOne, uint(1+r.Intn(64)))), bOne))
			case 3:
				x = bi(int64(r.Intn(1 << uint(1+r.Intn(14)))))
			case 4:
				x = bmod(new(big.Int).Lsh(gen256(r), uint(r.Intn(128))), two128)
			default:
				e, _ := exSet(r, genExp(r))
				g := ex.GLV_representation(&e)
				x = new(big.Int).Abs(g.U.ToBigInt())
				t.Class("GLV component")
			}
			if r.Intn(2) == 0 {
				x = new(big.Int).Neg(x)
			}
			t.Note("x=%s", x)
			t.Sample("x=%s", x)
			t.EvalH(hb(x), uint64(x.Sign()+1))
			if ex.VerifDecompose != nil {
				windows(t, x, w)
			}
			ab := new(big.Int).Abs(x)
			low := uint(r.Intn(128))
			high := low + uint(r.Intn(9))
			want := new(big.Int).Rsh(ab, low)
			want = bmod(want, new(big.Int).Lsh(bOne, high-low))
			if ex.VerifBitRange == nil {
				// not reachable in this tree
			} else if g := ex.VerifBitRange(ab, low, high); !beq(bu(uint64(g)), want) {
				t.Failf("bit range", "bits %d..%d of %s: %d", low, high, ab, g)
			}
			y := bmod(gen256(r), two128)
			var e EX
			e.SetUInt(1)
			g := ex.GLV_representation(&e)
			g.U.SetBigInt(x)
			t.Check(beq(g.U.ToBigInt(), x), "component", "x=%s read back as %s", x, g.U.ToBigInt())
			for k := 0; k < 4; k++ {
				i := uint(r.Intn(128))
				t.Check(g.U.Bit(i) == ab.Bit(int(i)), "component bit", "x=%s: Bit(%d) = %d", x, i, g.U.Bit(i))
			}
			if ex.VerifArith128 == nil {
				return
			}
			s, p, back := ex.VerifArith128(x, y)
			if !beq(s, bmod(badd(x, y), two128)) || !beq(p, bmod(bmul(x, y), two128)) || !beq(back, bmod(x, two128)) {
				t.Failf("128 bit arithmetic", "x=%s y=%s: sum %s product %s back %s", x, y, s, p, back)
			}
		})
		if ex.VerifDecompose == nil {
			continue
		}
		c.Need(fmt.Sprintf("width %d/carry out of the top", w), 100)
		c.Need(fmt.Sprintf("width %d/negative digit", w), 1000)
	}
}

// windows checks one decomposition of x into windows of width w.
func windows(t *T, x *big.Int, w uint) {
	pos, co, sg := ex.VerifDecompose(x, w)
	sum := bi(0)
	for i := range pos {
		term := new(big.Int).Lsh(bu(uint64(co[i])), pos[i])
		switch sg[i] {
		case 1:
			sum = badd(sum, term)
		case -1:
			sum = bsub(sum, term)
			t.Class("negative digit")
		default:
			t.Failf("sign", "x=%s: digit with sign %d", x, sg[i])
		}
		if co[i]%2 == 0 || bu(uint64(co[i])).BitLen() > int(w) {
			t.Failf("digit", "x=%s: digit %d is not odd of at most %d bits", x, co[i], w)
		}
		if i > 0 && pos[i] <= pos[i-1]+w {
			t.Failf("position", "x=%s: digits at %d and %d", x, pos[i-1], pos[i])
		}
	}
	if !beq(sum, x) {
		t.Failf("sum", "x=%s: digits %v at %v with signs %v sum to %s", x, co, pos, sg, sum)
	}
	if len(pos) > 0 && pos[len(pos)-1] >= 128 {
		t.Class("carry out of the top")
	}
	if len(pos) == 0 {
		t.Class("zero")
	}
}
