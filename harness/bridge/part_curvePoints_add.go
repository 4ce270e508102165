package curvePoints

func init() {
	t := func(p interface{}) *point_xtw_base { return &p.(*Point_xtw_full).point_xtw_base }
	a := func(p interface{}) *point_axtw_base { return &p.(*Point_axtw_full).point_axtw_base }
	type I = interface{}
	VerifFormulas = append(VerifFormulas,
		VerifFormula{"add_ttt", 't', 't', 't', false, true, "add", func(o, x, y I) { t(o).add_ttt(t(x), t(y)) }},
		VerifFormula{"add_tta", 't', 't', 'a', false, true, "add", func(o, x, y I) { t(o).add_tta(t(x), a(y)) }},
		VerifFormula{"add_taa", 't', 'a', 'a', false, true, "add", func(o, x, y I) { t(o).add_taa(a(x), a(y)) }},
		VerifFormula{"sub_ttt", 't', 't', 't', true, true, "add", func(o, x, y I) { t(o).sub_ttt(t(x), t(y)) }},
		VerifFormula{"sub_tta", 't', 't', 'a', true, true, "add", func(o, x, y I) { t(o).sub_tta(t(x), a(y)) }},
		VerifFormula{"sub_tat", 't', 'a', 't', true, true, "add", func(o, x, y I) { t(o).sub_tat(a(x), t(y)) }},
		VerifFormula{"sub_taa", 't', 'a', 'a', true, true, "add", func(o, x, y I) { t(o).sub_taa(a(x), a(y)) }},
	)
}
