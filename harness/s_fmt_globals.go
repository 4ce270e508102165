package main

import (
	"fmt"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
)

func init() {
	globalSnapshots = append(globalSnapshots, func(add func(name, value string)) {
		for name, v := range map[string]error{
			"ErrWillNotSerializePointOutsideSubgroup": be.ErrWillNotSerializePointOutsideSubgroup,
			"ErrXNotInSubgroup":                       be.ErrXNotInSubgroup, "ErrXNotOnCurve": be.ErrXNotOnCurve, "ErrYNotOnCurve": be.ErrYNotOnCurve,
			"ErrNotInSubgroup": be.ErrNotInSubgroup, "ErrNotOnCurve": be.ErrNotOnCurve, "ErrWrongSignY": be.ErrWrongSignY,
			"ErrUnexpectedNegativeZero": be.ErrUnexpectedNegativeZero, "ErrInvalidZeroSignX": be.ErrInvalidZeroSignX,
			"ErrInvalidSign": be.ErrInvalidSign, "ErrDidNotReadExpectedString": be.ErrDidNotReadExpectedString,
			"ErrCannotSerializePointAtInfinity": be.ErrCannotSerializePointAtInfinity, "ErrCannotSerializeNaP": be.ErrCannotSerializeNaP,
			"ErrCannotDeserializeNaP": be.ErrCannotDeserializeNaP, "ErrCannotDeserializeXYAllZero": be.ErrCannotDeserializeXYAllZero,
			"ErrInsufficientBufferForDeserialization": ps.ErrInsufficientBufferForDeserialization,
		} {
			add("serialization "+name, errSnapshot(v))
		}
		for name, z := range map[string]ps.CurvePointSerializerModifyable{"BanderwagonShort": ps.BanderwagonShort, "BanderwagonLong": ps.BanderwagonLong} {
			s := fmt.Sprint(z.GetFieldElementEndianness(), z.IsSubgroupOnly())
			for _, p := range z.RecognizedParameters() {
				s += fmt.Sprintf(" %s=%v", p, z.GetParameter(p))
			}
			if b, err := z.SliceOutputLength(3); err == nil {
				s += fmt.Sprint(" ", b)
			}
			add("pointserializer."+name, s)
		}
	})
}
