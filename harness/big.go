package main

import (
	"math/big"
	"math/rand"
)

// Reference constants, written down independently of the library.
var (
	bP     = mustBig("0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001") // base field size
	bQ     = mustBig("0x1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1") // prime subgroup order
	bOne   = big.NewInt(1)
	bTwo   = big.NewInt(2)
	bZero  = big.NewInt(0)
	bR     = new(big.Int).Lsh(bOne, 256)
	bR512  = new(big.Int).Lsh(bOne, 512)
	bC     = new(big.Int).Sub(bR, bP) // border of c-reduced numbers
	b2P    = new(big.Int).Lsh(bP, 1)
	bRmodP = new(big.Int).Mod(bR, bP)
	bRinv  = new(big.Int).ModInverse(bRmodP, bP)
	bHalf  = new(big.Int).Rsh(bP, 1) // (p-1)/2
	pWords = toWords(bP)
	cWords = toWords(bC)
	dWords = toWords(b2P)
)

func mustBig(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return x
}
func bi(x int64) *big.Int         { return big.NewInt(x) }
func bu(x uint64) *big.Int        { return new(big.Int).SetUint64(x) }
func badd(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
func bsub(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }
func bmul(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
func bmod(x, m *big.Int) *big.Int { return new(big.Int).Mod(x, m) }
func addP(x, y *big.Int) *big.Int { return bmod(badd(x, y), bP) }
func subP(x, y *big.Int) *big.Int { return bmod(bsub(x, y), bP) }
func mulP(x, y *big.Int) *big.Int { return bmod(bmul(x, y), bP) }
func negP(x *big.Int) *big.Int    { return bmod(new(big.Int).Neg(x), bP) }
func invP(x *big.Int) *big.Int    { return new(big.Int).ModInverse(x, bP) }
func bcopy(x *big.Int) *big.Int   { return new(big.Int).Set(x) }
func beq(x, y *big.Int) bool      { return x.Cmp(y) == 0 }
func signP(x *big.Int) int {
	if x.Sign() == 0 {
		return 0
	}
	if x.Cmp(bHalf) <= 0 {
		return 1
	}
	return -1
}

// toWords: little-endian words of x < 2^256.
func toWords(x *big.Int) (w [4]uint64) {
	t := new(big.Int).Set(x)
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range w {
		w[i] = new(big.Int).And(t, m).Uint64()
		t.Rsh(t, 64)
	}
	return
}
func fromWords(w [4]uint64) *big.Int {
	x := new(big.Int)
	for i := 3; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(w[i]))
	}
	return x
}
func toWords8(x *big.Int) (w [8]uint64) {
	lo := toWords(bmod(x, bR))
	hi := toWords(new(big.Int).Rsh(x, 256))
	copy(w[:4], lo[:])
	copy(w[4:], hi[:])
	return
}
func fromWords8(w [8]uint64) *big.Int {
	var lo, hi [4]uint64
	copy(lo[:], w[:4])
	copy(hi[:], w[4:])
	return badd(fromWords(lo), new(big.Int).Lsh(fromWords(hi), 256))
}
func leBytes32(x *big.Int) []byte {
	b := make([]byte, 32)
	x.FillBytes(b)
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}
func beBytes32(x *big.Int) []byte {
	b := make([]byte, 32)
	x.FillBytes(b)
	return b
}

func edgeWord(r *rand.Rand, i int) uint64 {
	switch r.Intn(14) {
	case 0, 1:
		return 0
	case 2, 3:
		return ^uint64(0)
	case 4:
		return 1
	case 5:
		return ^uint64(0) - 1
	case 6:
		return 1 << 63
	case 7:
		return pWords[i] + uint64(r.Intn(5)) - 2
	case 8:
		return dWords[i] + uint64(r.Intn(5)) - 2
	case 9:
		return cWords[i] + uint64(r.Intn(5)) - 2
	case 10:
		return uint64(1) << uint(r.Intn(64))
	case 11:
		return uint64(1)<<uint(r.Intn(64)) - 1
	case 12:
		return 0xffffffff00000000 >> uint(r.Intn(33))
	default:
		return r.Uint64()
	}
}

// gen256 draws a structured 256-bit number.
func gen256(r *rand.Rand) *big.Int {
	switch r.Intn(8) {
	case 0: // uniform
		return fromWords([4]uint64{r.Uint64(), r.Uint64(), r.Uint64(), r.Uint64()})
	case 1: // small
		return bu(r.Uint64() >> uint(r.Intn(64)))
	case 2, 3: // near a border
		borders := []*big.Int{bZero, bP, b2P, bC, bR, bHalf, bRmodP, bQ, new(big.Int).Lsh(bQ, 1), new(big.Int).Lsh(bQ, 2), new(big.Int).Lsh(bOne, 64), new(big.Int).Lsh(bOne, 128), new(big.Int).Lsh(bOne, 192), new(big.Int).Lsh(bOne, 63), new(big.Int).Lsh(bOne, 255)}
		b := borders[r.Intn(len(borders))]
		d := int64(r.Intn(9)) - 4
		if r.Intn(4) == 0 {
			d = int64(r.Uint64()) >> uint(r.Intn(60))
		}
		return bmod(badd(b, bi(d)), bR)
	case 4: // power of two, plus minus small
		return bmod(badd(new(big.Int).Lsh(bOne, uint(r.Intn(256))), bi(int64(r.Intn(5))-2)), bR)
	case 5: // run of ones
		lo, hi := uint(r.Intn(256)), uint(r.Intn(257))
		if lo > hi {
			lo, hi = hi, lo
		}
		return bsub(new(big.Int).Lsh(bOne, hi), new(big.Int).Lsh(bOne, lo)).Mod(bsub(new(big.Int).Lsh(bOne, hi), new(big.Int).Lsh(bOne, lo)), bR)
	default:
		return fromWords([4]uint64{edgeWord(r, 0), edgeWord(r, 1), edgeWord(r, 2), edgeWord(r, 3)})
	}
}

// genBelow draws a structured number below m (0 < m <= 2^256).
func genBelow(r *rand.Rand, m *big.Int) *big.Int {
	switch r.Intn(10) {
	case 0:
		return bsub(m, bi(int64(r.Intn(4))+1))
	case 1:
		return bi(int64(r.Intn(4)))
	}
	x := gen256(r)
	if x.Cmp(m) >= 0 {
		if r.Intn(2) == 0 { // keep structure: drop high bits of the top word
			x = bmod(x, m)
		} else {
			y := bsub(x, new(big.Int).Mul(m, new(big.Int).Div(x, m)))
			x = y
		}
	}
	return x
}

// genResidue draws a structured residue, half of the time structured in its
// Montgomery form.
func genResidue(r *rand.Rand) *big.Int {
	x := genBelow(r, bP)
	if r.Intn(2) == 0 {
		x = mulP(x, bRinv)
	}
	return x
}

// genRelated draws y below m such that x+y, x-y or y-x is near an edge.
func genRelated(r *rand.Rand, x, m *big.Int) *big.Int {
	borders := []*big.Int{bZero, bP, b2P, bC, bR, bHalf}
	t := badd(borders[r.Intn(len(borders))], bi(int64(r.Intn(7))-3))
	var y *big.Int
	switch r.Intn(3) {
	case 0:
		y = bsub(t, x)
	case 1:
		y = bsub(x, t)
	default:
		y = badd(x, t)
	}
	if y.Sign() < 0 || y.Cmp(m) >= 0 {
		y.Mod(y, m)
	}
	return y
}

func hex(x *big.Int) string { return "0x" + x.Text(16) }

func hb(x *big.Int) uint64 {
	h := uint64(1469598103934665603)
	for _, w := range x.Bits() {
		h = (h ^ uint64(w)) * 0x9E3779B97F4A7C15
		h ^= h >> 31
	}
	if x.Sign() < 0 {
		h = ^h
	}
	return h
}

func genWord(r *rand.Rand) uint64 {
	switch r.Intn(7) {
	case 0:
		return uint64(r.Intn(6))
	case 1:
		return -uint64(r.Intn(6))
	case 2:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(5)) - 2
	case 3:
		return uint64(1)<<63 + uint64(r.Intn(9)) - 4
	default:
		return r.Uint64() >> uint(r.Intn(64))
	}
}
