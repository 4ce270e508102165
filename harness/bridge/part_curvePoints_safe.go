package curvePoints

func init() {
	t := func(p interface{}) *point_xtw_base { return &p.(*Point_xtw_full).point_xtw_base }
	type I = interface{}
	VerifFormulas = append(VerifFormulas,
		VerifFormula{"add_safe_ttt", 't', 't', 't', false, false, "add", func(o, x, y I) { t(o).add_safe_ttt(t(x), t(y)) }},
		VerifFormula{"sub_safe_ttt", 't', 't', 't', true, false, "add", func(o, x, y I) { t(o).sub_safe_ttt(t(x), t(y)) }},
	)
}
