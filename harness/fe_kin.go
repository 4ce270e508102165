package main

import (
	"math/big"
	"math/rand"
)

// kin lists numbers below m that have much in common with v: negatives, inverses, numbers
// with some of the same words. Routines that remember something about earlier inputs are given
// several of them in a row.
func kin(r *rand.Rand, v, m *big.Int) []*big.Int {
	res := []*big.Int{v, v, bmod(bsub(m, v), m), bmod(badd(v, bOne), m), new(big.Int).Rsh(v, 1), bmod(badd(v, v), m)}
	if i := new(big.Int).ModInverse(v, m); i != nil {
		res = append(res, i)
	}
	for k := 0; k < 6; k++ {
		w := toWords(v)
		switch r.Intn(4) {
		case 0, 1: // one other word
			w[r.Intn(4)] = genWord(r)
		case 2: // only one word the same
			i := r.Intn(4)
			for j := range w {
				if j != i {
					w[j] = genWord(r)
				}
			}
		default:
			i, j := r.Intn(4), r.Intn(4)
			w[i], w[j] = w[j], w[i]
		}
		if x := fromWords(w); x.Cmp(m) < 0 {
			res = append(res, x)
		}
	}
	return res
}

// feKin does so for field elements, some of them with internal words in common.
func feKin(r *rand.Rand, v *big.Int) []*big.Int {
	res := kin(r, v, bP)
	for _, x := range kin(r, mulP(v, bR), bP) {
		res = append(res, mulP(x, bRinv))
	}
	return res
}
