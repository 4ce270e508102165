package main

// Independent model of the Bandersnatch group over math/big.
//
// Every rational point is k*G + T with 0 <= k < q and T one of the four rational
// points of order dividing two. Points are kept both as (k, T) and as affine
// coordinates (in P1 x P1, so that the points at infinity are no special case);
// addition uses the complete law of Bernstein and Lange.

import (
	"fmt"
	"math/big"
	"math/rand"
	"sync"
)

const (
	torN  = 0 // neutral
	torA  = 1 // (0,-1)
	torE1 = 2
	torE2 = 3 // E1 + A
)

var torNames = []string{"N", "A", "E1", "E2"}

var (
	edA     = bi(-5)
	edAp    = negP(bi(5))
	edD     = mustBig("0x6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7")
	edR     = mustBig("37446463827641770816307242315180085052603635617490163568005256780843403514038") // square root of d/a
	edRinv  = invP(edR)
	edGx    = mustBig("0x29c132cc2c0b34c5743711777bbe42f32b79c022ad998465e1e71866a252ae18")
	edGy    = mustBig("0x2a6c669eda123e0f157d8b50badcd586358cad81eee464605e3167b6cc974166")
	edLam   = mustBig("0x13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05") // checked below
	bCurveN = new(big.Int).Lsh(bQ, 2)
)

// rp is a reference point. x is nil for the points at infinity.
type rp struct {
	k   *big.Int
	tor int
	x   *big.Int
	y   *big.Int
}

func (p *rp) inf() bool     { return p.x == nil }
func (p *rp) sub() bool     { return p.tor == torN }
func (p *rp) neutral() bool { return p.tor == torN && p.k.Sign() == 0 }
func (p *rp) eq(q *rp) bool { return p.tor == q.tor && p.k.Cmp(q.k) == 0 }
func (p *rp) eqModA(q *rp) bool {
	return p.tor&2 == q.tor&2 && p.k.Cmp(q.k) == 0
}
func (p *rp) String() string {
	xy := "infinite"
	if !p.inf() {
		xy = hex(p.x) + "," + hex(p.y)
	}
	return fmt.Sprintf("[k=%s +%s: %s]", hex(p.k), torNames[p.tor], xy)
}
func (p *rp) class() string {
	switch {
	case p.k.Sign() == 0:
		return torNames[p.tor]
	case p.tor == torN:
		return "subgroup"
	}
	return "coset-" + torNames[p.tor]
}
func (p *rp) h() uint64 { return hb(p.k)*4 + uint64(p.tor) }

type p1 struct{ n, d *big.Int }

func (p *rp) px() p1 {
	if p.inf() {
		return p1{bOne, bZero}
	}
	return p1{p.x, bOne}
}
func (p *rp) py() p1 { return p1{p.y, bOne} }

func mul4(a, b, c, d *big.Int) *big.Int { return mulP(mulP(a, b), mulP(c, d)) }

// edAdd is the complete addition law on P1 x P1.
func edAdd(p, q *rp) (x, y *big.Int) {
	X1, Z1, Y1, T1 := p.px().n, p.px().d, p.py().n, p.py().d
	X2, Z2, Y2, T2 := q.px().n, q.px().d, q.py().n, q.py().d
	a, d := edAp, edD
	X3 := addP(mul4(X1, Y2, Z2, T1), mul4(X2, Y1, Z1, T2))
	zz := mul4(Z1, Z2, T1, T2)
	dd := mulP(d, mul4(X1, X2, Y1, Y2))
	Z3 := addP(zz, dd)
	Y3 := subP(mul4(Y1, Y2, Z1, Z2), mulP(a, mul4(X1, X2, T1, T2)))
	T3 := subP(zz, dd)
	if (X3.Sign() == 0 && Z3.Sign() == 0) || (Y3.Sign() == 0 && T3.Sign() == 0) {
		X3 = addP(mul4(X1, Y1, Z2, T2), mul4(X2, Y2, Z1, T1))
		Z3 = addP(mulP(a, mul4(X1, X2, T1, T2)), mul4(Y1, Y2, Z1, Z2))
		Y3 = subP(mul4(X1, Y1, Z2, T2), mul4(X2, Y2, Z1, T1))
		T3 = subP(mul4(X1, Y2, Z2, T1), mul4(X2, Y1, Z1, T2))
	}
	if (X3.Sign() == 0 && Z3.Sign() == 0) || (Y3.Sign() == 0 && T3.Sign() == 0) || T3.Sign() == 0 {
		panic("reference addition law failed")
	}
	y = mulP(Y3, invP(T3))
	if Z3.Sign() != 0 {
		x = mulP(X3, invP(Z3))
	}
	return
}

func rpAdd(p, q *rp) *rp {
	x, y := edAdd(p, q)
	return &rp{bmod(badd(p.k, q.k), bQ), p.tor ^ q.tor, x, y}
}
func rpNeg(p *rp) *rp {
	r := &rp{bmod(new(big.Int).Neg(p.k), bQ), p.tor, nil, p.y}
	if !p.inf() {
		r.x = negP(p.x)
	}
	return r
}
func rpSub(p, q *rp) *rp { return rpAdd(p, rpNeg(q)) }

var (
	rpN  = &rp{bZero, torN, bZero, bOne}
	rpA  = &rp{bZero, torA, bZero, negP(bOne)}
	rpE1 = &rp{bZero, torE1, nil, edRinv}
	rpE2 = &rp{bZero, torE2, nil, negP(edRinv)}
	rpG  = &rp{bOne, torN, edGx, edGy}

	rpTor = []*rp{rpN, rpA, rpE1, rpE2}
)

// fixed-base table: gTab[i][j] = j * 16^i * G
var gTab [64][16]*rp
var gTabOnce sync.Once

func gTabInit() {
	base := rpG
	for i := range gTab {
		gTab[i][0] = rpN
		for j := 1; j < 16; j++ {
			gTab[i][j] = rpAdd(gTab[i][j-1], base)
		}
		base = rpAdd(gTab[i][15], base)
	}
}

// rpMulG computes k*G + T.
func rpMulG(k *big.Int, tor int) *rp {
	gTabOnce.Do(gTabInit)
	k = bmod(k, bQ)
	r := rpTor[tor]
	for i := 0; i < 64; i++ {
		j := 0
		for b := 0; b < 4; b++ {
			j |= int(k.Bit(4*i+b)) << uint(b)
		}
		if j != 0 {
			r = rpAdd(r, gTab[i][j])
		}
	}
	if r.k.Cmp(k) != 0 || r.tor != tor {
		panic("reference scalar multiplication failed")
	}
	return r
}

var (
	endoB = mustBig("0x52c9f28b828426a561f00d3a63511a882ea712770d9af4d6ee0f014d172510b4")
	endoC = mustBig("0x6cc624cf865457c3a97c6efd6c17d1078456abcfff36f4e9515c806cdf650b3d")
)

// rpEndo: the degree two endomorphism by the formula of the Bandersnatch paper;
// refSelfCheck compares it with multiplication by the eigenvalue.
func rpEndo(p *rp) *rp {
	t := torN
	if p.tor&2 != 0 {
		t = torA
	}
	if p.k.Sign() == 0 {
		return rpTor[t]
	}
	y2 := mulP(p.y, p.y)
	f := mulP(endoC, subP(bOne, y2))
	g := mulP(endoB, addP(y2, endoB))
	h := subP(y2, endoB)
	xy := mulP(p.x, p.y)
	den := invP(mulP(h, xy))
	return &rp{bmod(bmul(p.k, edLam), bQ), t, mulP(mulP(f, h), den), mulP(mulP(g, xy), den)}
}

func onCurve(x, y *big.Int) bool {
	x2, y2 := mulP(x, x), mulP(y, y)
	return addP(mulP(edAp, x2), y2).Cmp(addP(bOne, mulP(edD, mulP(x2, y2)))) == 0
}

// isSub tells whether the affine curve point is in the prime order subgroup, by
// multiplying with q (slow; independent of k).
func isSubXY(x, y *big.Int) bool {
	p := &rp{bZero, 0, x, y}
	r := &rp{bZero, 0, bZero, bOne}
	for i := bQ.BitLen() - 1; i >= 0; i-- {
		r = rpAddXY(r, r)
		if bQ.Bit(i) == 1 {
			r = rpAddXY(r, p)
		}
	}
	return !r.inf() && r.x.Sign() == 0 && r.y.Cmp(bOne) == 0
}
func rpAddXY(p, q *rp) *rp {
	x, y := edAdd(p, q)
	return &rp{bZero, 0, x, y}
}

// curve constants must satisfy the model before anything is decided with it.
func refSelfCheck() error {
	if !onCurve(edGx, edGy) || !onCurve(rpA.x, rpA.y) {
		return fmt.Errorf("generator not on curve")
	}
	if mulP(edAp, mulP(edR, edR)).Cmp(edD) != 0 {
		return fmt.Errorf("r^2 != d/a")
	}
	if l := bmod(bmul(edLam, edLam), bQ); badd(l, bTwo).Cmp(bQ) != 0 {
		return fmt.Errorf("lambda^2 != -2")
	}
	if !bQ.ProbablyPrime(20) || !bP.ProbablyPrime(20) {
		return fmt.Errorf("not prime")
	}
	m := rpMulG(bsub(bQ, bOne), torN)
	if n := rpAdd(m, rpG); n.x.Sign() != 0 || n.y.Cmp(bOne) != 0 {
		return fmt.Errorf("q*G != N")
	}
	r := newRand(1)
	for i := 0; i < 40; i++ {
		p, q, s := genRP(r), genRP(r), genRP(r)
		a, b := rpAdd(rpAdd(p, q), s), rpAdd(p, rpAdd(q, s))
		if (a.x == nil) != (b.x == nil) || a.y.Cmp(b.y) != 0 || (a.x != nil && (a.x.Cmp(b.x) != 0 || !onCurve(a.x, a.y))) {
			return fmt.Errorf("reference law not associative")
		}
		if a.inf() != (a.k.Sign() == 0 && a.tor&2 != 0) {
			return fmt.Errorf("reference law: infinity")
		}
	}
	for i := 0; i < 60; i++ {
		p := genRP(r)
		e := rpEndo(p)
		t := torN
		if p.tor&2 != 0 {
			t = torA
		}
		if w := rpMulG(bmul(p.k, edLam), t); e.inf() || w.inf() || w.x.Cmp(e.x) != 0 || w.y.Cmp(e.y) != 0 {
			return fmt.Errorf("reference endomorphism")
		}
	}
	for i, t := range rpTor {
		for j, u := range rpTor {
			s := rpAdd(t, u)
			w := rpTor[i^j]
			if (s.x == nil) != (w.x == nil) || s.y.Cmp(w.y) != 0 {
				return fmt.Errorf("reference law: torsion %d+%d", i, j)
			}
		}
	}
	return nil
}

// ---- generation ----

var poolOnce sync.Once
var pool []*rp

func poolInit() {
	r := newRand(77)
	var ks []*big.Int
	for i := int64(0); i < 6; i++ {
		ks = append(ks, bi(i), bsub(bQ, bi(i+1)))
	}
	half := new(big.Int).Rsh(bQ, 1)
	ks = append(ks, half, badd(half, bOne), edLam, bsub(bQ, edLam), badd(edLam, bOne), new(big.Int).ModInverse(bi(3), bQ), new(big.Int).ModInverse(edLam, bQ))
	for i := 0; i < 60; i++ {
		ks = append(ks, bmod(gen256(r), bQ))
	}
	for _, k := range ks {
		p := rpMulG(k, torN)
		for _, t := range rpTor {
			pool = append(pool, rpAdd(p, t))
		}
	}
}

// genRP draws a rational point; special points are frequent.
func genRP(r *rand.Rand) *rp {
	poolOnce.Do(poolInit)
	switch r.Intn(8) {
	case 0:
		return rpTor[r.Intn(4)]
	case 1:
		return rpAdd(pool[r.Intn(24)*2%len(pool)], rpTor[r.Intn(4)])
	case 2: // fresh
		return rpAdd(pool[r.Intn(len(pool))], pool[r.Intn(len(pool))])
	default:
		return pool[r.Intn(len(pool))]
	}
}

func toSub(p *rp) *rp { return rpSub(p, rpTor[p.tor]) }

func genSub(r *rand.Rand) *rp {
	p := genRP(r)
	if p.tor != torN {
		p = toSub(p)
	}
	return p
}

// genRelatedRP draws a point in a special relation to p.
func genRelatedRP(r *rand.Rand, p *rp) *rp {
	q := p
	switch r.Intn(6) {
	case 0, 1:
		q = rpNeg(p)
	case 2:
		q = rpAdd(p, p)
	case 3:
		return genRP(r)
	}
	return rpAdd(q, rpTor[r.Intn(4)])
}

func rhash(ps ...*rp) []uint64 {
	var h []uint64
	for _, p := range ps {
		h = append(h, p.h())
	}
	return h
}
