package main

import (
	"fmt"
	"reflect"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

func init() {
	register("C04", 10, runC04)
}

// a list of points of one concrete type, viewed as a CurvePointSlice
type ptList struct {
	k     *ptKind
	view  cp.CurvePointSlice
	elem  func(i int) PT // pointer to the element of the underlying Go slice
	want  []*rp          // nil: NaP
	guard func() string  // elements of the backing array outside the view
}

func listOf[P any, PP interface {
	*P
	cp.CurvePointPtrInterface
}](t *T, k *ptKind, want []*rp, mkNaP func(PT)) *ptList {
	r := t.R
	pad := 2
	back := make([]P, len(want)+2*pad)
	var outer []*rp
	for i := range back {
		var w *rp
		if i < pad || i >= pad+len(want) {
			w = genSub(r)
			outer = append(outer, w)
		} else {
			w = want[i-pad]
		}
		if w == nil {
			mkNaP(PP(&back[i]))
			continue
		}
		q := ptMake(r, k, w).(PP)
		back[i] = *q
	}
	v := back[pad : pad+len(want) : pad+len(want)]
	l := &ptList{k: k, want: want, elem: func(i int) PT { return PP(&v[i]) }}
	l.view = cp.AsCurvePointSlice[P, PP](v)
	l.guard = func() string {
		for j, w := range outer {
			i := j
			if j >= pad {
				i = len(want) + j
			}
			if bad := ptCoords(PP(&back[i])).is(w); bad != "" {
				return bad
			}
		}
		return ""
	}
	return l
}

func mkList(t *T, k *ptKind, want []*rp, mkNaP func(PT)) *ptList {
	switch k.name {
	case "xtw_full":
		return listOf[cp.Point_xtw_full](t, k, want, mkNaP)
	case "xtw_subgroup":
		return listOf[cp.Point_xtw_subgroup](t, k, want, mkNaP)
	case "axtw_full":
		return listOf[cp.Point_axtw_full](t, k, want, mkNaP)
	case "axtw_subgroup":
		return listOf[cp.Point_axtw_subgroup](t, k, want, mkNaP)
	case "efgh_full":
		return listOf[cp.Point_efgh_full](t, k, want, mkNaP)
	}
	return listOf[cp.Point_efgh_subgroup](t, k, want, mkNaP)
}

func (t *T) isPtOrNaP(key string, pt PT, want *rp, what string, a ...interface{}) bool {
	if want == nil {
		return t.Check(pt.IsNaP(), key, "%s: was a NaP and is a valid point now", fmt.Sprintf(what, a...))
	}
	return t.isPt(key, pt, want, what, a...)
}

func runC04(c *Ctx) {
	if !needRef(c) {
		return
	}
	c.Rule("A case is a list of points of one type (finite, infinite, uninitialized entries at drawn or enumerated positions, mixed representations) with a sequence of batch normalizations, or a single point; each entry is compared with the reference point afterwards, Z (or Y) with 1, and the reported indices with the positions the case was built with.")
	c.Assume("math/big is correct; the reference law passes its self check")
	poolOnce.Do(poolInit)

	c.Run("single", 120000, func(t *T) {
		r := t.R
		k := &ptKinds[t.Index%6]
		p := genRP(r)
		if !k.holds(p) {
			p = toSub(p)
		}
		pt := ptMake(r, k, p)
		for i := 0; i < 3; i++ {
			if n, ok := pt.(cp.NormalizerForZ); ok && r.Intn(2) == 0 {
				got := n.NormalizeForZ()
				t.EvalH(p.h(), hashStr(k.name, "Z"))
				t.Class("Z-" + k.name)
				t.Check(got == !p.inf(), "NormalizeForZ/"+k.name, "NormalizeForZ of %s %v = %v", k.name, p, got)
				if got {
					z := pt.Z_decaf_projective()
					t.Check(feVal(&z).Cmp(bOne) == 0, "NormalizeForZ/Z/"+k.name, "Z = %v after NormalizeForZ of %v", feVal(&z), p)
				}
				if !t.isPt("NormalizeForZ/point/"+k.name, pt, p, "%s after NormalizeForZ", k.name) {
					return
				}
			}
			if n, ok := pt.(cp.NormalizerForY); ok && r.Intn(2) == 0 {
				got := n.NormalizeForY()
				t.EvalH(p.h(), hashStr(k.name, "Y"))
				t.Class("Y-" + k.name)
				t.Check(got == !p.inf(), "NormalizeForY/"+k.name, "NormalizeForY of %s %v = %v", k.name, p, got)
				if got {
					y := pt.Y_decaf_projective()
					t.Check(feVal(&y).Cmp(bOne) == 0, "NormalizeForY/Y/"+k.name, "Y = %v after NormalizeForY of %v", feVal(&y), p)
				}
				if !t.isPt("NormalizeForY/point/"+k.name, pt, p, "%s after NormalizeForY", k.name) {
					return
				}
			}
			if r.Intn(3) == 0 {
				ptShake(r, pt, p)
			}
		}
	})
	for _, k := range []string{"Z-xtw_full", "Y-xtw_full", "Z-xtw_subgroup", "Y-xtw_subgroup", "Z-axtw_full", "Z-axtw_subgroup"} {
		c.Need("single/"+k, 1000)
	}

	batch := func(t *T, k *ptKind, want []*rp) {
		r := t.R
		l := mkList(t, k, want, func(PT) {})
		n := len(want)
		for i := 0; i < n; i++ {
			if got := l.view.GetByIndex(i); got != l.elem(i) {
				t.Failf("slice/pointer/"+k.name, "GetByIndex(%d) of a view of []%s does not point to the element", i, k.name)
				return
			}
		}
		t.Check(l.view.Len() == n, "slice/Len/"+k.name, "Len of a view of %d elements: %d", n, l.view.Len())
		var bad []int
		for i, w := range want {
			if w == nil || w.inf() {
				bad = append(bad, i)
			}
		}
		steps := 1 + r.Intn(3)
		for s := 0; s < steps; s++ {
			useY := r.Intn(2) == 0
			name := "BatchNormalizeForZ"
			var got []int
			if useY {
				b, ok := l.view.(cp.BatchNormalizerForY)
				if !ok {
					continue
				}
				name = "BatchNormalizeForY"
				got = b.BatchNormalizeForY()
			} else {
				b, ok := l.view.(cp.BatchNormalizerForZ)
				if !ok {
					continue
				}
				got = b.BatchNormalizeForZ()
			}
			key := name + "/" + k.name
			t.EvalH(append(hashPts(want), hashStr(key))...)
			t.Class(key)
			exp := bad
			if k.model == "axtw" { // Z is always 1; NaPs may go unrecognized
				exp = nil
			}
			if !(len(got) == 0 && len(exp) == 0 || reflect.DeepEqual(got, exp)) {
				t.Failf(key+"/indices", "%s reports %v, want %v (list %v)", key, got, exp, want)
				return
			}
			if len(exp) == 0 {
				t.Class("none-failing")
				t.Check(got == nil, key+"/nil", "%s without failing entries returned a non-nil slice", key)
			} else {
				t.Class("some-failing")
				t.Keep("list of failing indices", func() string { return fmt.Sprint(got) })
			}
			nb := 0
			for i, w := range want {
				if nb < len(exp) && exp[nb] == i {
					nb++
				} else if w != nil {
					if useY {
						y := l.elem(i).Y_decaf_projective()
						t.Check(feVal(&y).Cmp(bOne) == 0, key+"/Y", "Y of entry %d is %v after %s (list %v)", i, feVal(&y), key, want)
					} else {
						z := l.elem(i).Z_decaf_projective()
						t.Check(feVal(&z).Cmp(bOne) == 0, key+"/Z", "Z of entry %d is %v after %s (list %v)", i, feVal(&z), key, want)
					}
				}
				if k.model == "axtw" && w == nil {
					continue
				}
				if !t.isPtOrNaP(key+"/point", l.elem(i), w, "entry %d of %d after %s", i, n, key) {
					return
				}
			}
			if g := l.guard(); g != "" {
				t.Failf(key+"/outside", "%s changed an element outside of the slice: %s", key, g)
			}
			if r.Intn(2) == 0 && n > 0 {
				i := r.Intn(n)
				if want[i] != nil {
					ptShake(r, l.elem(i), want[i])
				}
			}
		}
	}
	draw := func(t *T, k *ptKind, pNaP, pInf int) *rp {
		r := t.R
		if pNaP > 0 && r.Intn(pNaP) == 0 {
			return nil
		}
		if k.inf && pInf > 0 && r.Intn(pInf) == 0 {
			return rpTor[2+r.Intn(2)]
		}
		p := genRP(r)
		for p.inf() && pInf == 0 || !k.holds(p) {
			p = toSub(p)
		}
		return p
	}
	// lengths 0..6 with every pattern of finite/infinite/NaP entries
	type pat struct{ n, code, k int }
	var pats []pat
	for ki := range ptKinds {
		if ptKinds[ki].model == "efgh" {
			continue
		}
		pow := 1
		for n := 0; n <= 6; n++ {
			for code := 0; code < pow; code++ {
				pats = append(pats, pat{n, code, ki})
			}
			pow *= 3
			if n == 5 && !ptKinds[ki].inf {
				break
			}
		}
	}
	c.RunN("patterns", len(pats)*2, func(t *T) {
		p := pats[t.Index%len(pats)]
		k := &ptKinds[p.k]
		var want []*rp
		for i, code := 0, p.code; i < p.n; i, code = i+1, code/3 {
			switch code % 3 {
			case 0:
				want = append(want, draw(t, k, 0, 0))
			case 1:
				if !k.inf {
					want = append(want, draw(t, k, 0, 0))
				} else {
					want = append(want, rpTor[2+t.R.Intn(2)])
				}
			case 2:
				want = append(want, nil)
			}
		}
		batch(t, k, want)
		t.Sample("%s: %v", k.name, want)
	})
	c.Run("lists", 6000, func(t *T) {
		k := &ptKinds[t.R.Intn(6)]
		n := t.R.Intn(40)
		if t.Index%40 == 0 {
			n = 200 + t.R.Intn(300)
			if t.Index%400 == 0 {
				n = 1000 + t.R.Intn(1100)
				if t.Index%2000 == 0 {
					n = 4090 + t.R.Intn(500)
				}
			}
		}
		pn, pi := []int{0, 2, 5, 20}[t.R.Intn(4)], []int{0, 2, 5, 20}[t.R.Intn(4)]
		var want []*rp
		for i := 0; i < n; i++ {
			want = append(want, draw(t, k, pn, pi))
		}
		batch(t, k, want)
	})
	c.Need("lists/some-failing", 300)
	c.Need("lists/none-failing", 300)
	c.Need("patterns/BatchNormalizeForZ/xtw_full", 500)
	c.Need("patterns/BatchNormalizeForY/xtw_full", 500)
	c.Need("patterns/BatchNormalizeForZ/xtw_subgroup", 200)
	c.Need("patterns/BatchNormalizeForY/xtw_subgroup", 200)

	c.Run("views", 3000, func(t *T) {
		r := t.R
		k := &ptKinds[t.Index%6]
		n := 1 + r.Intn(8)
		var want []*rp
		for i := 0; i < n; i++ {
			want = append(want, draw(t, k, 0, 4))
		}
		l := mkList(t, k, want, func(PT) {})
		var ptrs []cp.CurvePointPtrInterface
		for i := 0; i < n; i++ {
			ptrs = append(ptrs, l.elem(i))
		}
		views := []cp.CurvePointSlice{l.view, cp.AsCurvePointPtrSlice(ptrs), cp.GenericPointSlice(ptrs)}
		for vi, v := range views {
			t.Classf("view-%d", vi)
			t.Check(v.Len() == n, "view/Len", "Len of view %d: %d, want %d", vi, v.Len(), n)
			for i := 0; i < n; i++ {
				t.EvalH(uint64(vi), uint64(i), uint64(n), hashStr(k.name))
				t.Check(v.GetByIndex(i) == l.elem(i), "view/pointer", "GetByIndex(%d) of view %d of %s is another pointer", i, vi, k.name)
			}
			for _, i := range []int{-1, n, n + 1} {
				t.MustPanic("view/range", func() { v.GetByIndex(i) }, "GetByIndex(%d) with Len %d", i, n)
			}
			i := r.Intn(n)
			p := genSub(r)
			v.GetByIndex(i).SetFrom(ptMake(r, &ptKinds[1], p))
			want[i] = p
			for j := 0; j < n; j++ {
				if !t.isPt("view/write", l.elem(j), want[j], "element %d after writing element %d through view %d", j, i, vi) {
					return
				}
			}
		}
		for vi, v := range views {
			typed := reflect.ValueOf(v).MethodByName("GetByIndexTyped")
			if !typed.IsValid() || typed.Type().NumIn() != 1 || typed.Type().NumOut() != 1 {
				continue
			}
			for i := 0; i < n; i++ {
				t.Classf("typed-%d", vi)
				t.Check(typed.Call([]reflect.Value{reflect.ValueOf(i)})[0].Interface() == l.elem(i), "view/typed", "GetByIndexTyped(%d) of view %d of %s is another pointer", i, vi, k.name)
			}
			t.MustPanic("view/typed range", func() { typed.Call([]reflect.Value{reflect.ValueOf(n)}) }, "GetByIndexTyped(%d) with Len %d", n, n)
		}
		// views of the slices of other types
		us := make([]userPt, n+2)
		uv := cp.AsCurvePointSlice[userPt](us[1 : 1+n])
		t.Check(uv.Len() == n, "view/user", "Len of a view of a slice of a user's type: %d, want %d", uv.Len(), n)
		for i := 0; i < n; i++ {
			uv.GetByIndex(i).SetFrom(ptMake(r, &ptKinds[1], toSub(want[i])))
			us[1+i].tag = i
		}
		for i := 0; i < n; i++ {
			t.Check(uv.GetByIndex(i) == PT(&us[1+i]), "view/user", "GetByIndex(%d) of a view of a slice of a user's type is another pointer", i)
			t.isPt("view/user", &us[1+i].Point_xtw_full, toSub(want[i]), "entry %d of a view of a slice of a user's type", i)
		}
		t.MustPanic("view/user range", func() { uv.GetByIndex(n) }, "GetByIndex(%d) with Len %d", n, n)
		if cp.VerifMakeSlice != nil {
			et := reflect.TypeOf(l.elem(0)).Elem()
			v, val := cp.VerifMakeSlice(et, n)
			t.Class("made")
			t.Check(v.Len() == n && val.Len() == n && val.Type() == reflect.SliceOf(et), "view/made", "makePointSlice(%v, %d) made %d, %v", et, n, v.Len(), val.Type())
			for i := 0; i < n && i < val.Len(); i++ {
				t.Check(interface{}(v.GetByIndex(i)) == val.Index(i).Addr().Interface(), "view/made", "entry %d of a made slice is elsewhere", i)
			}
			for i := 0; i < n; i++ {
				v.GetByIndex(i).SetFrom(l.elem(i))
			}
			for i := 0; i < n; i++ {
				t.isPt("view/made", v.GetByIndex(i), want[i], "entry %d of a made slice", i)
			}
			for _, bad := range []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(l.elem(0)), reflect.TypeOf((*cp.CurvePointPtrInterface)(nil)).Elem()} {
				bad := bad
				t.MustPanic("view/made bad", func() { cp.VerifMakeSlice(bad, n) }, "makePointSlice(%v)", bad)
			}
		}
	})
}

// userPt is a point type of a user of the library that is none of its own
type userPt struct {
	cp.Point_xtw_full
	tag int
}

func hashPts(ps []*rp) []uint64 {
	var h []uint64
	for _, p := range ps {
		if p == nil {
			h = append(h, 12345)
		} else {
			h = append(h, p.h())
		}
	}
	return h
}
