package main

// M04: call counters against a model of their graph; results of field and curve
// operations with call counters on and off.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	cc "github.com/GottfriedHerold/Bandersnatch/internal/callcounters"
)

func init() {
	register("M04", 4, runM04)
}

type mcounter struct {
	id, disp string
	display  bool
	root     bool
	created  bool
	known    bool // created or referred to
	cc       *cc.CallCounter
	direct   int
	to       map[*mcounter]int // recursive additions, by multiplier
	children []*mcounter
	remain   bool
	topo     int
}

// counts of one counter: own increments plus those that add to it.
func (w *mworld) total(m *mcounter) int {
	if v, ok := w.memo[m]; ok {
		return v
	}
	s := m.direct
	for _, x := range w.all {
		if k := x.to[m]; k != 0 {
			s += k * w.total(x)
		}
	}
	w.memo[m] = s
	return s
}
func (w *mworld) rest(m *mcounter) int {
	s := w.total(m)
	for _, ch := range m.children {
		s -= w.total(ch)
	}
	return s
}

type mworld struct {
	all  []*mcounter
	memo map[*mcounter]int
}

// expected report below a node, children in any order
type rnode struct {
	tag   string
	calls int
	sub   []*rnode
}

func (w *mworld) tree(m *mcounter, onlyPositive, useDisplay bool) *rnode {
	if !m.display || onlyPositive && w.total(m) == 0 {
		return nil
	}
	n := &rnode{calls: w.total(m), tag: m.id}
	if useDisplay {
		n.tag = m.disp
	}
	for _, ch := range m.children {
		if s := w.tree(ch, onlyPositive, useDisplay); s != nil {
			n.sub = append(n.sub, s)
		}
	}
	if m.remain && !(onlyPositive && w.rest(m) == 0) {
		tag := m.id + "Other"
		if useDisplay {
			tag = m.id + "(other)"
		}
		n.sub = append(n.sub, &rnode{calls: w.rest(m), tag: tag})
	}
	return n
}

// consume matches the report from position i with the tree; -1: no match.
func (n *rnode) consume(rep []cc.CCReport, i int) int {
	if i >= len(rep) || rep[i].Tag != n.tag || rep[i].Calls != n.calls {
		return -1
	}
	i++
	left := append([]*rnode(nil), n.sub...)
	for len(left) > 0 {
		hit := -1
		for j, s := range left {
			if i < len(rep) && s.tag == rep[i].Tag {
				hit = j
				break
			}
		}
		if hit < 0 {
			return -1
		}
		if i = left[hit].consume(rep, i); i < 0 {
			return -1
		}
		left = append(left[:hit], left[hit+1:]...)
	}
	return i
}

// checkStructure compares the structure report (indent two blanks) with the
// forest of counters below the display roots.
func (w *mworld) checkStructure(t *T, s, pre string) {
	want, got := map[string]int{}, map[string]int{}
	below := map[*mcounter]bool{}
	var walk func(m *mcounter, depth int)
	walk = func(m *mcounter, depth int) {
		below[m] = true
		h := ""
		if !m.display {
			h = " hidden"
		}
		want[fmt.Sprintf("%d %s%s", depth, m.id, h)]++
		for _, ch := range m.children {
			walk(ch, depth+1)
		}
		if m.remain {
			want[fmt.Sprintf("%d %sOther", depth+1, m.id)]++
		}
	}
	for _, m := range w.all {
		if m.root {
			walk(m, 0)
		}
	}
	for _, m := range w.all {
		if !below[m] {
			h := ""
			if !m.display {
				h = " hidden"
			}
			want[fmt.Sprintf("1 %s%s", m.id, h)]++
		}
	}
	for _, line := range strings.Split(s, "\n") {
		l := strings.TrimLeft(line, " ")
		if !strings.HasPrefix(l, pre) {
			continue
		}
		depth := (len(line) - len(l)) / 2
		name, rest := l, ""
		if i := strings.IndexByte(l, ' '); i >= 0 {
			name, rest = l[:i], l[i:]
		}
		h := ""
		if strings.HasPrefix(rest, " (hidden)") {
			h = " hidden"
		}
		got[fmt.Sprintf("%d %s%s", depth, name, h)]++
	}
	t.evals++
	for k, n := range want {
		t.Check(got[k] == n, "structure", "the structure report lists %q %d times, want %d", k, got[k], n)
	}
	for k, n := range got {
		t.Check(want[k] == n, "structure", "the structure report lists %q %d times, want %d", k, n, want[k])
	}
}

func counterHistory(t *T) {
	r := t.R
	w := &mworld{}
	pre := fmt.Sprintf("v%d_", t.Index)
	n := 2 + r.Intn(9)
	for i := 0; i < n; i++ {
		w.all = append(w.all, &mcounter{id: fmt.Sprintf("%s%d", pre, i), to: map[*mcounter]int{}, topo: i})
	}
	// links go to counters with a smaller number
	lower := func(m *mcounter) *mcounter {
		if m.topo == 0 {
			return nil
		}
		return w.all[r.Intn(m.topo)]
	}
	link := func(src, dst *mcounter, k int) {
		src.to[dst] += k
		if k != 0 {
			src.known, dst.known = true, true
		}
	}
	addLink := func() {
		src := w.all[r.Intn(n)]
		dst := lower(src)
		if dst == nil {
			return
		}
		k := []int{1, -1, 2, 3, -2, 0, 5}[r.Intn(7)]
		if r.Intn(3) == 0 && src.to[dst] != 0 {
			k = -src.to[dst] // cancels
			t.Class("link cancelled")
		}
		t.Note("link %s -> %s x %d", src.id, dst.id, k)
		switch r.Intn(4) {
		case 0:
			cc.Id(src.id).AddThisToTarget(cc.Id(dst.id), k)
		case 1:
			cc.Id(dst.id).AddToThisFromSource(cc.Id(src.id), k)
		case 2:
			if src.cc == nil {
				return
			}
			src.cc.AddThisToTarget(cc.Id(dst.id), k)
		case 3:
			if dst.cc == nil {
				return
			}
			dst.cc.AddToThisFromSource(cc.Id(src.id), k)
		}
		link(src, dst, k)
	}
	setRemain := func(m *mcounter, b bool) {
		t.Note("SetDisplayRemaining(%s, %v)", m.id, b)
		if m.cc != nil && r.Intn(2) == 0 {
			m.cc.SetDisplayRemaining(b)
		} else {
			cc.Id(m.id).SetDisplayRemaining(b)
		}
		m.remain = b
		t.Classf("remaining:%v", b)
	}
	// creation in any order, with references to counters not created yet
	for _, i := range r.Perm(n) {
		m := w.all[i]
		for r.Intn(3) == 0 {
			addLink()
		}
		if r.Intn(6) == 0 {
			setRemain(w.all[r.Intn(n)], r.Intn(3) > 0)
		}
		par := lower(m)
		pid := ""
		if par != nil && r.Intn(4) > 0 {
			pid = par.id
		} else {
			par = nil
		}
		disp := ""
		if r.Intn(2) == 0 {
			disp = "D_" + m.id
		}
		t.Check(!cc.Id(m.id).Exists(), "exists", "%s exists before its creation", m.id)
		switch r.Intn(3) {
		case 0, 1:
			t.Note("CreateHierarchicalCallCounter(%q, %q, %q)", m.id, disp, pid)
			m.cc = cc.CreateHierarchicalCallCounter(cc.Id(m.id), disp, cc.Id(pid))
			m.display, m.root, m.disp = true, par == nil, disp
			if disp == "" {
				m.disp = m.id
			}
			if par != nil {
				link(m, par, 1)
			}
		case 2:
			disp = "D_" + m.id
			m.disp = disp
			if par != nil && r.Intn(2) == 0 {
				t.Note("CreateAttachedCallCounter(%q, %q, %q)", m.id, disp, pid)
				m.cc = cc.CreateAttachedCallCounter(cc.Id(m.id), disp, cc.Id(pid))
				m.display, m.root = true, false
				par.remain = true
			} else {
				m.display, m.root = r.Intn(5) > 0, par == nil || r.Intn(3) == 0
				t.Note("CreateNewCallCounter(%q, %q, %v, %q, %v)", m.id, disp, m.display, pid, m.root)
				m.cc = cc.CreateNewCallCounter(cc.Id(m.id), disp, m.display, cc.Id(pid), m.root)
			}
		}
		if par != nil {
			par.children = append(par.children, m)
		}
		m.created, m.known = true, true
		t.Check(cc.Id(m.id).Exists() && m.cc != nil, "exists", "%s does not exist after its creation", m.id)
		t.MustPanic("created twice", func() {
			if r.Intn(2) == 0 {
				cc.CreateHierarchicalCallCounter(cc.Id(m.id), "again", "")
			} else {
				cc.CreateNewCallCounter(cc.Id(m.id), "again", true, "", true)
			}
		}, "creating %s twice", m.id)
		// counting before all counters are created; those only referred to count as well
		for r.Intn(2) == 0 {
			x := w.all[r.Intn(n)]
			if x.created {
				cc.Id(x.id).Increment()
				x.direct++
				t.Note("Increment(%s)", x.id)
			} else {
				t.Check(!cc.Id(x.id).Exists(), "exists", "%s exists before its creation", x.id)
			}
		}
		if r.Intn(2) == 0 {
			w.memo = map[*mcounter]int{}
			for _, x := range w.all {
				if !x.known {
					continue
				}
				got, ok := cc.Id(x.id).Get()
				t.Check(ok && got == w.total(x), "count early", "counter %s (created: %v) shows %d (%v), the history gives %d", x.id, x.created, got, ok, w.total(x))
				if !x.created {
					t.Class("get of a counter only referred to")
				}
				t.evals++
			}
		}
		if r.Intn(8) == 0 {
			cc.ResetAllCounters()
			for _, x := range w.all {
				x.direct = 0
			}
			t.Note("ResetAllCounters()")
		}
	}
	compare := func() {
		w.memo = map[*mcounter]int{}
		for _, m := range w.all {
			var got int
			ok := true
			if r.Intn(2) == 0 {
				got, ok = cc.Id(m.id).Get()
			} else {
				got, ok = m.cc.Get()
			}
			if got != w.total(m) || !ok {
				t.Failf("count", "counter %s shows %d (%v), the history gives %d", m.id, got, ok, w.total(m))
			}
			t.evals++
		}
		onlyPositive, useDisplay := r.Intn(2) == 0, r.Intn(2) == 0
		rep := cc.ReportCallCounters(onlyPositive, useDisplay)
		// only the roots of this history
		roots := map[string]*rnode{}
		for _, m := range w.all {
			if m.root {
				if tr := w.tree(m, onlyPositive, useDisplay); tr != nil {
					roots[tr.tag] = tr
				}
			}
		}
		found := map[string]int{}
		for i := 0; i < len(rep); {
			if tag := strings.TrimPrefix(rep[i].Tag, "D_"); !strings.HasPrefix(tag, pre) {
				i++
				continue
			}
			tr := roots[rep[i].Tag]
			if tr == nil {
				t.Failf("report", "ReportCallCounters(%v, %v) lists %q = %d where no root is expected", onlyPositive, useDisplay, rep[i].Tag, rep[i].Calls)
				return
			}
			j := tr.consume(rep, i)
			if j < 0 {
				var got []string
				for k := i; k < len(rep) && k < i+20; k++ {
					got = append(got, fmt.Sprintf("%s=%d", rep[k].Tag, rep[k].Calls))
				}
				t.Failf("report", "ReportCallCounters(%v, %v) below %q is %v, want %s", onlyPositive, useDisplay, rep[i].Tag, got, tr)
				return
			}
			found[tr.tag]++
			i = j
		}
		for tag := range roots {
			t.Check(found[tag] == 1, "report", "root %q appears %d times in the report", tag, found[tag])
		}
		t.Classf("report onlyPositive:%v", onlyPositive)
		t.EvalH(uint64(t.Index), uint64(r.Uint32()))
	}
	compare()
	for k := 10 + r.Intn(60); k > 0; k-- {
		m := w.all[r.Intn(n)]
		switch r.Intn(24) {
		default:
			cc.Id(m.id).Increment()
			m.direct++
			t.Note("Increment(%s)", m.id)
		case 0:
			addLink()
		case 1:
			setRemain(m, r.Intn(2) == 0)
		case 2:
			cc.Id(m.id).Reset()
			m.direct = 0
			t.Note("Reset(%s)", m.id)
		case 3:
			m.cc.Reset()
			m.direct = 0
			t.Note("Reset(%s)", m.id)
		case 4, 5:
			compare()
		case 6:
			if r.Intn(3) == 0 {
				cc.ResetAllCounters()
				for _, x := range w.all {
					x.direct = 0
				}
				t.Note("ResetAllCounters()")
				t.Class("reset all")
			}
		case 7:
			s := cc.GetCallCounterStructureReport("  ")
			for _, x := range w.all {
				t.Check(strings.Contains(s, x.id), "structure", "the structure report does not mention %s", x.id)
			}
			w.checkStructure(t, s, pre)
		}
	}
	compare()
	// misuse
	missing := cc.Id(pre + "missing")
	t.Check(!missing.Exists(), "exists", "a counter that was never created exists")
	t.MustPanic("missing", func() { missing.Increment() }, "Increment of a missing counter")
	w.all[0].cc.AddThisToTarget(missing, 1) // now it is referred to
	t.Check(!missing.Exists(), "exists", "a counter that was only referred to exists")
	t.MustPanic("missing", func() { missing.Increment() }, "Increment of a counter only referred to")
	w.all[0].cc.AddThisToTarget(missing, -1)
	t.MustPanic("empty id", func() { cc.Id("").Increment() }, "Increment of the empty id")
	t.MustPanic("empty id", func() { cc.CreateHierarchicalCallCounter("", "x", "") }, "creating the empty id")
	t.MustPanic("empty id", func() { cc.CreateNewCallCounter("", "x", true, "", true) }, "creating the empty id")
	t.Check(!cc.Id("").Exists(), "exists", "the empty id exists")
	compare()
	cc.ResetAllCounters()
	for _, x := range w.all {
		x.direct = 0
	}
	compare()
}

// partlyCreated: histories in which some counters are referred to (as targets,
// sources or parents) but never created.
func partlyCreated(t *T) {
	r := t.R
	w := &mworld{}
	pre := fmt.Sprintf("p%d_", t.Index)
	n := 3 + r.Intn(8)
	for i := 0; i < n; i++ {
		w.all = append(w.all, &mcounter{id: fmt.Sprintf("%s%d", pre, i), to: map[*mcounter]int{}, topo: i})
	}
	link := func(src, dst *mcounter, k int) {
		src.to[dst] += k
		src.known, dst.known = true, true
	}
	for step := 10 + r.Intn(50); step > 0; step-- {
		i := r.Intn(n)
		m := w.all[i]
		var low *mcounter
		if i > 0 {
			low = w.all[r.Intn(i)]
		}
		switch k := r.Intn(12); {
		case k < 2 && !m.created && i%3 != 1: // every third one is never created
			if low != nil && r.Intn(2) == 0 {
				t.Note("CreateHierarchicalCallCounter(%q, %q)", m.id, low.id)
				m.cc = cc.CreateHierarchicalCallCounter(cc.Id(m.id), "", cc.Id(low.id))
				link(m, low, 1)
			} else {
				t.Note("CreateNewCallCounter(%q)", m.id)
				m.cc = cc.CreateNewCallCounter(cc.Id(m.id), "N_"+m.id, true, "", true)
			}
			m.created, m.known = true, true
		case k < 4 && low != nil:
			mul := []int{1, -1, 2, 3, -3}[r.Intn(5)]
			t.Note("link %s -> %s x %d", m.id, low.id, mul)
			if r.Intn(2) == 0 {
				cc.Id(m.id).AddThisToTarget(cc.Id(low.id), mul)
			} else {
				cc.Id(low.id).AddToThisFromSource(cc.Id(m.id), mul)
			}
			link(m, low, mul)
		case k < 8:
			if m.created {
				cc.Id(m.id).Increment()
				m.direct++
				t.Note("Increment(%s)", m.id)
			} else {
				t.MustPanic("missing", func() { cc.Id(m.id).Increment() }, "Increment of %s, which was not created", m.id)
			}
		case k < 10:
			w.memo = map[*mcounter]int{}
			for _, x := range w.all {
				t.Check(cc.Id(x.id).Exists() == x.created, "exists", "%s: Exists() is %v, created: %v", x.id, !x.created, x.created)
				if !x.known {
					continue
				}
				got, ok := cc.Id(x.id).Get()
				t.Check(ok && got == w.total(x), "count partly", "counter %s (created: %v) shows %d (%v), the history gives %d", x.id, x.created, got, ok, w.total(x))
				t.Classf("created %v", x.created)
				t.evals++
			}
		case k == 10:
			w.memo = map[*mcounter]int{}
			byID := map[string]*mcounter{}
			for _, x := range w.all {
				byID[x.id] = x
			}
			for _, e := range cc.ReportCallCounters(r.Intn(2) == 0, false) {
				if x := byID[e.Tag]; x != nil {
					t.Check(e.Calls == w.total(x), "report partly", "the report shows %s at %d, the history gives %d", x.id, e.Calls, w.total(x))
					t.Classf("reported, created %v", x.created)
				}
			}
			if r.Intn(4) == 0 {
				s := cc.GetCallCounterStructureReport("  ")
				for _, x := range w.all {
					t.Check(strings.Contains(s, x.id) || !x.known, "structure", "the structure report does not mention %s", x.id)
				}
			}
		default:
			if r.Intn(4) == 0 {
				cc.ResetAllCounters()
				for _, x := range w.all {
					x.direct = 0
				}
				t.Note("ResetAllCounters()")
			}
		}
	}
	t.EvalH(uint64(t.Index), uint64(r.Uint32()))
}

func (n *rnode) String() string {
	s := fmt.Sprintf("%s=%d", n.tag, n.calls)
	var sub []string
	for _, x := range n.sub {
		sub = append(sub, x.String())
	}
	sort.Strings(sub)
	if len(sub) > 0 {
		s += "{" + strings.Join(sub, " ") + "}"
	}
	return s
}

// --- results with and without call counters -----------------------------------

// flavourCase runs a fixed program of field and curve operations and describes
// all results.
func flavourCase(r *rand.Rand) string {
	var b strings.Builder
	put := func(name string, x *FE) { fmt.Fprintf(&b, "%s=%x ", name, feVal(x)) }
	try := func(name string, f func()) {
		if v, p := PanicVal(f); p {
			fmt.Fprintf(&b, "%s panics with %v ", name, v)
		}
	}
	var v [4]FE
	for i := range v {
		v[i], _ = genFE(r)
	}
	for k := 0; k < 24; k++ {
		x, y, z := &v[r.Intn(4)], &v[r.Intn(4)], &v[r.Intn(4)]
		switch r.Intn(22) {
		case 0:
			z.Add(x, y)
		case 1:
			z.Sub(x, y)
		case 2:
			z.Mul(x, y)
		case 3:
			z.Square(x)
		case 4:
			z.Neg(x)
		case 5:
			z.Double(x)
		case 6:
			z.MulFive(x)
		case 7:
			try("inv", func() { z.Inv(x) })
		case 8:
			try("div", func() { z.Divide(x, y) })
		case 9:
			z.AddEq(x)
		case 10:
			z.SubEq(x)
		case 11:
			z.MulEq(x)
		case 12:
			z.SquareEq()
		case 13:
			z.NegEq()
		case 14:
			z.DoubleEq()
		case 15:
			z.MulEqFive()
		case 16:
			try("inveq", func() { z.InvEq() })
		case 17:
			try("diveq", func() { z.DivideEq(x) })
		case 18:
			fmt.Fprintf(&b, "jac=%d sign=%d zero=%v eq=%v ", x.Jacobi(), x.Sign(), x.IsZero(), x.IsEqual(y))
		case 19:
			var s FE
			ok := s.SquareRoot(x)
			s.SquareEq()
			fmt.Fprintf(&b, "sqrt=%v ", ok)
			put("r2", &s)
		case 20:
			a, c2 := x.CmpAbs(y)
			fmt.Fprintf(&b, "cmp=%v%v ", a, c2)
		case 21:
			fmt.Fprintf(&b, "str=%s ", x.String())
		}
		put("z", z)
	}
	l := []FE{v[0], v[1], v[2], v[3]}
	idx := fe.MultiInvertEqSliceSkipZeros(l)
	fmt.Fprintf(&b, "zeros=%v ", idx)
	for i := range l {
		put("l", &l[i])
	}
	// curve
	xk, yk := &ptKinds[r.Intn(6)], &ptKinds[r.Intn(6)]
	zk := &ptKinds[[]int{0, 2, 4}[r.Intn(3)]]
	p, q := genSub(r), genSub(r)
	if r.Intn(4) == 0 {
		q = rpNeg(p)
	}
	P, Q, Z := ptMake(r, xk, p), ptMake(r, yk, q), zk.mk()
	show := func(name string, pt PT) {
		x, y := pt.XY_affine()
		put(name+".x", &x)
		put(name+".y", &y)
	}
	Z.Add(P, Q)
	show("add", Z)
	Z.Sub(P, Q)
	show("sub", Z)
	Z.Double(P)
	show("dbl", Z)
	Z.Neg(Q)
	show("neg", Z)
	Z.Endo(P)
	show("endo", Z)
	Z.AddEq(Q)
	show("addeq", Z)
	fmt.Fprintf(&b, "eq=%v sub=%v neutral=%v", Z.IsEqual(P), Z.IsInSubgroup(), Z.IsNeutralElement())
	return b.String()
}

func runM04(c *Ctx) {
	if !needRef(c) {
		return
	}
	flavour := os.Getenv("VERIF_FLAVOUR")
	active := flavour == "tags"
	c.Rule("A case is a history of counter creations, links, increments, resets and reports replayed on a model, or a program of field and curve operations whose results are compared between a build without and one with call counters.")
	c.Assume("the two builds are made from the same working tree and differ in the build tag only")
	c.extra["flavour"] = flavour
	graphs, partly := scaled(c, 150), scaled(c, 40)
	if graphs > 1000 { // all counters of a process stay, so that the cost is quadratic
		graphs, partly = 1000, 100
	}
	c.RunSeq("partly created", partly, partlyCreated)
	c.RunSeq("counter graphs", graphs, counterHistory)
	c.Need("partly created/created false", 50)
	c.Need("partly created/created true", 50)
	c.Need("counter graphs/reset all", 10)
	c.Need("counter graphs/remaining:true", 30)
	c.Need("counter graphs/link cancelled", 10)
	c.RunN("flavour", 1, func(t *T) {
		t.Eval(flavour)
		t.Check(fe.CallCountersActive == active && cp.CallCountersActive == active, "tag", "build flavour %s: CallCountersActive is %v and %v", flavour, fe.CallCountersActive, cp.CallCountersActive)
		// the counters of the field only count in one flavour
		cc.ResetAllCounters()
		var x FE
		x.SetInt64(3)
		x.Mul(&x, &x)
		n, _ := cc.Id("MulFe").Get()
		t.Check((n > 0) == active, "tag", "build flavour %s: one multiplication gives MulFe = %d", flavour, n)
		cc.ResetAllCounters()
		n, _ = cc.Id("FieldOps").Get()
		t.Check(n == 0, "reset", "FieldOps is %d after ResetAllCounters", n)
		t.Classf("active:%v", active)
	})
	// the programs, one after another: counters are not made for concurrent use
	path := filepath.Join(os.Getenv("VERIF_SCRATCH"), "m04-results.json")
	var prev map[string]string
	if active {
		raw, err := os.ReadFile(path)
		if err != nil || json.Unmarshal(raw, &prev) != nil {
			c.inconcl = append(c.inconcl, "no results of the build without call counters")
			return
		}
	}
	res := map[string]string{}
	c.RunSeq("results", scaled(c, 2500), func(t *T) {
		got := flavourCase(t.R)
		key := fmt.Sprint(t.Index)
		res[key] = fmt.Sprintf("%016x", hashStr(got))
		t.Eval(key)
		t.Class("programs")
		if active {
			t.Class("compared with the other build")
			if prev[key] != res[key] {
				t.Failf("flavours differ", "program %d gives other results with call counters than without; with: %s", t.Index, got)
			}
		}
	})
	if !active {
		if err := writeJSON(path, res); err != nil {
			c.inconcl = append(c.inconcl, err.Error())
		}
	} else {
		c.Need("results/compared with the other build", 100)
	}
	_ = big.NewInt
	_ = common.TrustedInput
}
