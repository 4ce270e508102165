package curvePoints

import "math/big"

func init() {
	t := func(p interface{}) *point_xtw_base { return &p.(*Point_xtw_full).point_xtw_base }
	type I = interface{}
	VerifFormulas = append(VerifFormulas,
		VerifFormula{"addNaive_ttt", 't', 't', 't', false, true, "add", func(o, x, y I) { t(o).addNaive_ttt(t(x), t(y)) }},
	)
	VerifExp = func(out, p, e interface{}) { t(out).exp_naive_xx(t(p), e.(*big.Int)) }
}
