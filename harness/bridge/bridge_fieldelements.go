package fieldElements

import "math/big"

// Laid into package fieldElements by the overlay; the parts fill these tables as far as
// they fit the tree.

// VerifReduction reduces z in place, fully, for any z below Below times the field size
// (Below = 0: any z).
type VerifReduction struct {
	Name  string
	Below int
	Do    func(z *Uint256)
}

// VerifMont sets z to x*y/2^256 for c-reduced x and y, keeping that range.
type VerifMont struct {
	Name string
	Do   func(z, x, y *Uint256)
}

// VerifExpo sets z to base^exponent, base and result in Montgomery representation.
type VerifExpo struct {
	Name string
	Do   func(z, base, exponent *Uint256)
}

// VerifWord is a helper on words: see the harness for what each name stands for.
var (
	VerifReductions []VerifReduction
	VerifMonts      []VerifMont
	VerifExpos      []VerifExpo

	VerifMulWord    func(x *Uint256, y uint64) (low uint64, high Uint256)
	VerifMulShift   func(target, x *Uint256, y uint64) (low uint64)
	VerifMontStep   func(t *Uint256, q uint64)
	VerifMontIter   func(t *[5]uint64, x *Uint256, y uint64)
	VerifShiftLeft  func(x Uint256, s uint) Uint256
	VerifModulus    func(m Uint256) (back Uint256, re [5]uint64, mmu0, mmu1 [4]uint64)
	VerifFromBigInt func(z *FieldElement, v *big.Int)
	VerifSqrtOrder  func(z *FieldElement) int
	VerifSqrtExpOdd func(z, input *FieldElement)
	VerifSqrtPowers func(x, candidate, root *FieldElement)
	VerifSqrtInv    func(z *FieldElement) bool

	// implementations of FieldElementInterface by name
	VerifFieldTypes = map[string]func() interface{}{}
)
