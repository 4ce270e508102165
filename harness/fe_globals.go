package main

import (
	"fmt"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
)

// errSnapshot describes an exported error: text and data.
func errSnapshot(e error) string {
	return fmt.Sprintf("%v %v", e, ewd.GetData_map(e))
}

// KeepErr looks at an error again after later cases.
func (t *T) KeepErr(err error) {
	if t.Index%4 == 0 && err != nil {
		t.Keep("error", func() string { return errSnapshot(err) })
	}
}

func init() {
	globalSnapshots = append(globalSnapshots, func(add func(name, value string)) {
		for name, v := range map[string]*big.Int{
			"common.BaseFieldSize_Int": common.BaseFieldSize_Int, "common.GroupOrder_Int": common.GroupOrder_Int,
			"common.Cofactor_Int": common.Cofactor_Int, "common.CurveOrder_Int": common.CurveOrder_Int,
			"common.CurveExponent_Int": common.CurveExponent_Int, "common.EndomorphismEigenvalue_Int": common.EndomorphismEigenvalue_Int,
			"common.One_Int": common.One_Int, "common.Two_Int": common.Two_Int, "common.MinusOne_Int": common.MinusOne_Int,
			"common.TwoTo32_Int": common.TwoTo32_Int, "common.TwoTo64_Int": common.TwoTo64_Int, "common.TwoTo128_Int": common.TwoTo128_Int,
			"common.TwoTo256_Int": common.TwoTo256_Int, "common.TwoTo512_Int": common.TwoTo512_Int,
			"fieldElements.BaseFieldSize_Int": fe.BaseFieldSize_Int,
		} {
			add(name, v.String())
		}
		for name, v := range map[string]*fe.FieldElement{
			"fieldElements.FieldElementOne": &fe.FieldElementOne, "fieldElements.FieldElementZero": &fe.FieldElementZero,
			"fieldElements.FieldElementMinusOne": &fe.FieldElementMinusOne, "fieldElements.FieldElementTwo": &fe.FieldElementTwo,
			"fieldElements.DyadicRootOfUnity_fe": &fe.DyadicRootOfUnity_fe,
		} {
			add(name, feVal(v).String())
		}
		for name, v := range map[string]error{
			"fieldElements.ErrCannotRepresentFieldElement": fe.ErrCannotRepresentFieldElement, "fieldElements.ErrDivisionByZero": fe.ErrDivisionByZero,
			"fieldElements.ErrPrefixDoesNotFit": fe.ErrPrefixDoesNotFit, "fieldElements.ErrPrefixLengthInvalid": fe.ErrPrefixLengthInvalid,
			"fieldElements.ErrPrefixMismatch": fe.ErrPrefixMismatch, "fieldElements.ErrNonNormalizedDeserialization": fe.ErrNonNormalizedDeserialization,
		} {
			add(name, errSnapshot(v))
		}
	})
}
