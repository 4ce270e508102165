package curvePoints

func init() {
	t := func(p interface{}) *point_xtw_base { return &p.(*Point_xtw_full).point_xtw_base }
	a := func(p interface{}) *point_axtw_base { return &p.(*Point_axtw_full).point_axtw_base }
	type I = interface{}
	VerifFormulas = append(VerifFormulas,
		VerifFormula{"neg_ta", 't', 'a', 0, false, false, "neg", func(o, x, y I) { t(o).neg_ta(a(x)) }},
		VerifFormula{"neg_tt", 't', 't', 0, false, false, "neg", func(o, x, y I) { t(o).neg_tt(t(x)) }},
	)
}
