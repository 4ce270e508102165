package main

// Coordinates: solving the curve equation, candidate coordinates.

import (
	"math/big"
	"math/rand"
)

func isSquareP(v *big.Int) bool { return v.Sign() == 0 || big.Jacobi(v, bP) == 1 }

// the points with affine coordinates (±x, ±y): coset of (x,y) if known, else computed.
func cosetOf(p *rp, x, y *big.Int) int {
	if p != nil && !p.inf() {
		if p.x.Cmp(x) == 0 && p.y.Cmp(y) == 0 {
			return p.tor
		}
		n := negP(p.x)
		ny := negP(p.y)
		switch {
		case n.Cmp(x) == 0 && p.y.Cmp(y) == 0: // -P
			return p.tor
		case n.Cmp(x) == 0 && ny.Cmp(y) == 0, p.x.Cmp(x) == 0 && ny.Cmp(y) == 0: // P+A, -P+A
			return p.tor ^ torA
		}
	}
	if isSubXY(x, y) {
		return torN
	}
	if isSubXY(negP(x), negP(y)) {
		return torA
	}
	return torE1 // or E2: the same to every constructor
}

// yOf solves the curve equation for y.
func yOf(x *big.Int) *big.Int {
	x2 := mulP(x, x)
	q := mulP(addP(bOne, mulP(bi(5), x2)), invP(subP(bOne, mulP(edD, x2))))
	return new(big.Int).ModSqrt(q, bP)
}

// xOf solves the curve equation for x (nil: none).
func xOf(y *big.Int) *big.Int {
	y2 := mulP(y, y)
	den := addP(mulP(edD, y2), bi(5))
	if den.Sign() == 0 {
		return nil
	}
	return new(big.Int).ModSqrt(mulP(subP(y2, bOne), invP(den)), bP)
}

// sgnP is the sign of a residue (0, 1..(p-1)/2 positive).
func withSign(v *big.Int, s int) *big.Int {
	if signP(v) != s {
		return negP(v)
	}
	return v
}

var ctorEdges []*big.Int

func init() {
	m := negP(bOne)
	h := new(big.Int).Rsh(bP, 1)
	ctorEdges = []*big.Int{bZero, bOne, m, bTwo, negP(bTwo), h, badd(h, bOne), bi(5), edD, edR, edRinv, negP(edR), negP(edRinv), edGx, edGy, negP(edGx), negP(edGy), bRmodP}
}

// xy candidates: a reference point whose coordinates get perturbed, or arbitrary values
func genXY(r *rand.Rand) (p *rp, x, y *big.Int, how string) {
	switch r.Intn(10) {
	case 0:
		return nil, ctorEdges[r.Intn(len(ctorEdges))], ctorEdges[r.Intn(len(ctorEdges))], "edges"
	case 1:
		return nil, genResidue(r), genResidue(r), "arbitrary"
	}
	for p = genRP(r); p.inf(); p = genRP(r) {
	}
	x, y = p.x, p.y
	how = "point"
	switch r.Intn(8) {
	case 0:
		x, how = negP(x), "x negated"
	case 1:
		y, how = negP(y), "y negated"
	case 2:
		x, y, how = negP(x), negP(y), "both negated"
	case 3:
		x, y, how = y, x, "swapped"
	case 4:
		x, how = addP(x, bOne), "x+1"
	case 5:
		y, how = []*big.Int{addP(y, bOne), bZero, genResidue(r)}[r.Intn(3)], "other y"
	}
	return
}

type errData interface{ ValidateError_Final() error }
