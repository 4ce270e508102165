package main

import (
	"fmt"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

// affSnapshot describes the point, not its representation.
func affSnapshot(pt PT) string {
	if pt.IsNaP() {
		return "NaP"
	}
	c := ptCoords(pt)
	if c.Z.Sign() != 0 {
		zi := invP(c.Z)
		return fmt.Sprintf("(%s, %s, %s)", hex(mulP(c.X, zi)), hex(mulP(c.Y, zi)), hex(mulP(c.T, zi)))
	}
	if c.T.Sign() != 0 {
		ti := invP(c.T)
		return fmt.Sprintf("(%s : %s : 1 : 0)", hex(mulP(c.X, ti)), hex(mulP(c.Y, ti)))
	}
	return c.String()
}

func init() {
	globalSnapshots = append(globalSnapshots, func(add func(name, value string)) {
		for name, v := range map[string]PT{
			"SubgroupGenerator_xtw_subgroup": &cp.SubgroupGenerator_xtw_subgroup,
			"NeutralElement_xtw_full":        &cp.NeutralElement_xtw_full, "NeutralElement_xtw_subgroup": &cp.NeutralElement_xtw_subgroup,
			"NeutralElement_axtw_full": &cp.NeutralElement_axtw_full, "NeutralElement_axtw_subgroup": &cp.NeutralElement_axtw_subgroup,
			"NeutralElement_efgh_full": &cp.NeutralElement_efgh_full, "NeutralElement_efgh_subgroup": &cp.NeutralElement_efgh_subgroup,
			"AffineOrderTwoPoint_xtw": &cp.AffineOrderTwoPoint_xtw, "AffineOrderTwoPoint_axtw": &cp.AffineOrderTwoPoint_axtw,
			"AffineOrderTwoPoint_efgh": &cp.AffineOrderTwoPoint_efgh,
			"InfinitePoint1_xtw":       &cp.InfinitePoint1_xtw, "InfinitePoint2_xtw": &cp.InfinitePoint2_xtw,
			"InfinitePoint1_efgh": &cp.InfinitePoint1_efgh, "InfinitePoint2_efgh": &cp.InfinitePoint2_efgh,
		} {
			add("curvePoints."+name, affSnapshot(v))
		}
		add("curvePoints.CurveParameterD_Int", cp.CurveParameterD_Int.String())
		add("curvePoints.CurveParameterA_Int", cp.CurveParameterA_Int.String())
		add("curvePoints.CurveParameterD_fe", feVal(&cp.CurveParameterD_fe).String())
		add("curvePoints.CurveParameterA_fe", feVal(&cp.CurveParameterA_fe).String())
		add("curvePoints.BaseFieldSize_Int", cp.BaseFieldSize_Int.String())
		add("curvePoints.GroupOrder_Int", cp.GroupOrder_Int.String())
	})
}
