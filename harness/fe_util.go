package main

import (
	"fmt"
	"io"
	"math/big"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
)

type FE = fe.FieldElement
type U256 = fe.Uint256

// feRaw tells whether ToBytes/SetBytes expose little-endian Montgomery words
// (they do at the pinned commit, but that is not part of the API; without it we
// reach non-normalized representations by other means).
var feRaw = func() bool {
	for _, v := range []int64{1, 2, 3, 77} {
		var x FE
		x.SetInt64(v)
		x.Normalize()
		b := make([]byte, 32)
		if x.BytesLength() != 32 {
			return false
		}
		x.ToBytes(b)
		if string(b) != string(leBytes32(mulP(bi(v), bRmodP))) {
			return false
		}
	}
	return true
}()

func feSetWords(x *FE, w *big.Int) { x.SetBytes(leBytes32(w)) }
func feRawBytes(x *FE) string {
	b := make([]byte, x.BytesLength())
	x.ToBytes(b)
	return string(b)
}
func feCopyOf(x *FE) FE { return *x }

// feVal reads the value through the public conversion.
func feVal(x *FE) *big.Int { y := *x; return y.ToBigInt() }

// feFrom builds an element with the given residue, in a chosen representation.
func feFrom(r *rand.Rand, v *big.Int) (x FE) {
	v = bmod(v, bP)
	if !feRaw {
		x.SetBigInt(v)
		x.RerandomizeRepresentation(r.Uint64())
		return
	}
	w := mulP(v, bRmodP)
	if r.Intn(2) == 0 {
		if w2 := badd(w, bP); w2.Cmp(bC) < 0 {
			w = w2
		}
	}
	feSetWords(&x, w)
	return
}

// feCanon builds an element with given residue in normalized representation.
func feCanon(v *big.Int) (x FE) {
	x.SetBigInt(bmod(v, bP))
	x.Normalize()
	return
}

// genFE draws an element with its residue; structured in value or in words.
func genFE(r *rand.Rand) (x FE, v *big.Int) {
	if feRaw && r.Intn(2) == 0 {
		w := genBelow(r, bC)
		feSetWords(&x, w)
		return x, mulP(w, bRinv)
	}
	v = genResidue(r)
	return feFrom(r, v), v
}

// feReps returns all representations of a residue we can build.
func feReps(v *big.Int) []FE {
	var a FE
	a.SetBigInt(bmod(v, bP))
	a.Normalize()
	res := []FE{a}
	if feRaw {
		if w2 := badd(mulP(bmod(v, bP), bRmodP), bP); w2.Cmp(bC) < 0 {
			var b FE
			feSetWords(&b, w2)
			res = append(res, b)
		}
	} else {
		b := a
		b.RerandomizeRepresentation(1)
		res = append(res, b)
	}
	return res
}

// genFE2 draws a pair; often related so that results hit borders.
func genFE2(r *rand.Rand) (x FE, vx *big.Int, y FE, vy *big.Int) {
	x, vx = genFE(r)
	switch k := r.Intn(10); {
	case k < 3 && feRaw: // word-level relation for additions and subtractions
		wx := bmod(fromLE([]byte(feRawBytes(&x))), bR)
		wy := genRelated(r, wx, bC)
		feSetWords(&y, wy)
		vy = mulP(wy, bRinv)
	case k == 3: // product near an edge
		if vx.Sign() != 0 {
			t := genResidue(r)
			vy = mulP(t, invP(vx))
			y = feFrom(r, vy)
			break
		}
		fallthrough
	case k == 4:
		vy = []*big.Int{vx, negP(vx), addP(vx, bOne), subP(vx, bOne)}[r.Intn(4)]
		y = feFrom(r, vy)
	default:
		y, vy = genFE(r)
	}
	return
}

func fromLE(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}
func isAlt(x *FE) bool {
	y := *x
	y.Normalize()
	return feRawBytes(&y) != feRawBytes(x)
}

type endi struct {
	name string
	e    common.FieldElementEndianness
	be   bool
}

var endis = []endi{{"LE", fe.LittleEndian, false}, {"BE", fe.BigEndian, true}}

func enc32(v *big.Int, be bool) []byte {
	if be {
		return beBytes32(v)
	}
	return leBytes32(v)
}
func dec32(b []byte, be bool) *big.Int {
	if be {
		return new(big.Int).SetBytes(b)
	}
	return fromLE(b)
}

// withPrefix: the 256-bit number whose top l bits are pre and rest v.
func withPrefix(v *big.Int, pre uint, l int) *big.Int {
	return badd(v, new(big.Int).Lsh(bu(uint64(pre)), uint(256-l)))
}

func genHeader(r *rand.Rand) (h common.BitHeader, pre uint, l int) {
	l = r.Intn(9)
	pre = uint(r.Intn(1 << uint(l)))
	if r.Intn(4) == 0 {
		pre = []uint{0, 1<<uint(l) - 1}[r.Intn(2)]
	}
	return common.MakeBitHeader(common.PrefixBits(pre), uint8(l)), pre, l
}

func injErrors(r *rand.Rand) []error {
	return []error{errInjected, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, &plainErr{r.Intn(100)},
		fmt.Errorf("wrapping: %w", errInjected),
		errorsWithData.NewErrorWithData_params[struct{}](errInjected, "carrying data: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "BytesRead", 777, "BytesWritten", 778, "PartialRead", "x", "Extra", "kept", "IoError", 3),
		fmt.Errorf("wrapped: %w", io.EOF),
	}
}
