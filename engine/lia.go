package main

import (
	"math"
	"math/bits"
	"sort"
)

// A small linear-integer-arithmetic refuter used before the SMT solver.
// It reads 64-bit comparisons of the path condition as integer
// inequalities, but only where interval reasoning shows that no
// intermediate sum can leave the signed 64-bit range, and tries to
// derive a contradiction by Fourier-Motzkin elimination.  It only ever
// answers "infeasible" or "don't know".

type iv struct{ lo, hi int64 }

var fullIv = iv{math.MinInt64, math.MaxInt64}

type row struct { // sum co*x + c <= 0
	at []*Term
	co []int64
	c  int64
}

type liaCtx struct {
	iv    map[*Term]iv
	rows  []row
	pend  []*Term
	bad   bool // contradiction found while reading the path condition
	ready map[*Term]bool
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(absU(a), absU(b))
	if hi != 0 || lo > math.MaxInt64 {
		return 0, false
	}
	r := int64(lo)
	if (a < 0) != (b < 0) {
		r = -r
	}
	return r, true
}
func absU(a int64) uint64 {
	if a < 0 {
		return uint64(-a)
	}
	return uint64(a)
}

func (c *liaCtx) clone() *liaCtx {
	n := &liaCtx{iv: make(map[*Term]iv, len(c.iv)+4), rows: append([]row(nil), c.rows...), pend: append([]*Term(nil), c.pend...), bad: c.bad, ready: make(map[*Term]bool, len(c.ready)+2)}
	for k, v := range c.iv {
		n.iv[k] = v
	}
	for k := range c.ready {
		n.ready[k] = true
	}
	return n
}

func (c *liaCtx) ivOf(t *Term) iv {
	if v, ok := c.iv[t]; ok {
		return v
	}
	v := fullIv
	if t.ones <= math.MaxInt64 {
		v = iv{0, int64(t.ones)}
	} else if t.Op == OpSext {
		w := uint(t.Args[0].W)
		v = iv{-(int64(1) << (w - 1)), int64(1)<<(w-1) - 1}
	}
	c.iv[t] = v
	return v
}

type lexpr struct {
	m map[*Term]int64
	c int64
	r iv
}

func (c *liaCtx) opaque(t *Term) lexpr {
	return lexpr{map[*Term]int64{t: 1}, 0, c.ivOf(t)}
}

// read: the signed integer value of a 64-bit term.
func (c *liaCtx) read(tb *TB, t *Term) lexpr {
	switch t.Op {
	case OpConst:
		return lexpr{nil, int64(t.C), iv{int64(t.C), int64(t.C)}}
	case OpLin:
		out := lexpr{m: map[*Term]int64{}, c: int64(t.C), r: iv{int64(t.C), int64(t.C)}}
		for i, a := range t.Args {
			k := int64(t.Coef[i])
			x := c.read(tb, a)
			lo, o1 := mulOv(x.r.lo, k)
			hi, o2 := mulOv(x.r.hi, k)
			if k < 0 {
				lo, hi = hi, lo
			}
			var o3, o4 bool
			if o1 && o2 {
				out.r.lo, o3 = addOv(out.r.lo, lo)
				out.r.hi, o4 = addOv(out.r.hi, hi)
			}
			if !o1 || !o2 || !o3 || !o4 {
				return c.opaque(t)
			}
			for y, ky := range x.m {
				p, ok := mulOv(ky, k)
				if !ok {
					return c.opaque(t)
				}
				q, ok := addOv(out.m[y], p)
				if !ok {
					return c.opaque(t)
				}
				if q == 0 {
					delete(out.m, y)
				} else {
					out.m[y] = q
				}
			}
			p, ok := mulOv(x.c, k)
			if !ok {
				return c.opaque(t)
			}
			if out.c, ok = addOv(out.c, p); !ok {
				return c.opaque(t)
			}
		}
		return out
	case OpZext:
		x := t.Args[0]
		if x.Op == OpExtract && x.Args[0].W == 64 {
			hi, lo := int(x.C>>8), int(x.C&255)
			y := x.Args[0]
			if lo == 0 && hi < 62 {
				e := c.read(tb, y)
				if e.r.lo >= 0 && e.r.hi < int64(1)<<uint(hi+1) {
					return e
				}
			}
			if hi == 63 && lo > 0 && lo < 32 && !c.ready[t] {
				e := c.read(tb, y)
				if e.r.lo >= 0 {
					c.ready[t] = true
					k := int64(1) << uint(lo)
					c.iv[t] = iv{e.r.lo / k, e.r.hi / k}
					// k*t - y <= 0 ; y - k*t - (k-1) <= 0
					var r1, r2 row
					r1.c, r2.c = -e.c, e.c-(k-1)
					for a, co := range e.m {
						r1.at, r1.co = append(r1.at, a), append(r1.co, -co)
						r2.at, r2.co = append(r2.at, a), append(r2.co, co)
					}
					r1.at, r1.co = append(r1.at, t), append(r1.co, k)
					r2.at, r2.co = append(r2.at, t), append(r2.co, -k)
					c.addRow(r1)
					c.addRow(r2)
				}
			}
		}
	}
	return c.opaque(t)
}

func (c *liaCtx) addRow(r row) {
	sortRow(&r)
	for i := range c.rows {
		if sameLin(c.rows[i], r) {
			if r.c > c.rows[i].c {
				c.rows[i] = r
			}
			return
		}
	}
	c.rows = append(c.rows, r)
}

func sortRow(r *row) {
	sort.Sort(byID{r})
	g := int64(0)
	for _, k := range r.co {
		g = gcd(g, int64(absU(k)))
	}
	if g > 1 {
		for i := range r.co {
			r.co[i] /= g
		}
		// sum <= -c  =>  sum/g <= floor(-c/g)
		r.c = -floorDiv(-r.c, g)
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

type byID struct{ r *row }

func (b byID) Len() int           { return len(b.r.at) }
func (b byID) Less(i, j int) bool { return b.r.at[i].ID < b.r.at[j].ID }
func (b byID) Swap(i, j int) {
	b.r.at[i], b.r.at[j] = b.r.at[j], b.r.at[i]
	b.r.co[i], b.r.co[j] = b.r.co[j], b.r.co[i]
}

func sameLin(a, b row) bool {
	if len(a.at) != len(b.at) {
		return false
	}
	for i := range a.at {
		if a.at[i] != b.at[i] || a.co[i] != b.co[i] {
			return false
		}
	}
	return true
}

// diff builds x - y + k <= 0.
func diffRow(x, y lexpr, k int64) (row, bool) {
	m := map[*Term]int64{}
	for a, v := range x.m {
		m[a] = v
	}
	for a, v := range y.m {
		s, ok := addOv(m[a], -v)
		if !ok || v == math.MinInt64 {
			return row{}, false
		}
		m[a] = s
	}
	if y.c == math.MinInt64 {
		return row{}, false
	}
	cc, ok := addOv(x.c, -y.c)
	if !ok {
		return row{}, false
	}
	cc, ok = addOv(cc, k)
	if !ok || cc > 1<<62 || cc < -(1<<62) {
		return row{}, false
	}
	r := row{c: cc}
	for a, v := range m {
		if v > 1<<40 || v < -(1<<40) {
			return row{}, false
		}
		if v != 0 {
			r.at = append(r.at, a)
			r.co = append(r.co, v)
		}
	}
	return r, true
}

// facts reads a condition as a conjunction of rows; ok=false if it cannot
// be read (yet).
func (c *liaCtx) facts(tb *TB, t *Term) (rs []row, ok bool) {
	neg := false
	if t.Op == OpBNot {
		neg = true
		t = t.Args[0]
	}
	var x, y lexpr
	w64 := func(u *Term, signed bool) *Term {
		if u.W == 64 {
			return u
		}
		if signed {
			return tb.Sext(u, 64)
		}
		return tb.Zext(u, 64)
	}
	add := func(a, b lexpr, k int64) bool {
		r, k2 := diffRow(a, b, k)
		if !k2 {
			return false
		}
		rs = append(rs, r)
		return true
	}
	zero := lexpr{nil, 0, iv{0, 0}}
	switch t.Op {
	case OpSlt:
		x, y = c.read(tb, w64(t.Args[0], true)), c.read(tb, w64(t.Args[1], true))
		if !neg {
			return rs, add(x, y, 1)
		}
		return rs, add(y, x, 0)
	case OpUlt:
		x, y = c.read(tb, w64(t.Args[0], false)), c.read(tb, w64(t.Args[1], false))
		if !neg {
			if y.r.lo >= 0 {
				if x.r.lo < 0 && !add(zero, x, 0) {
					return nil, false
				}
				return rs, add(x, y, 1)
			}
			return nil, false
		}
		// x >= y unsigned
		if x.r.lo >= 0 {
			if y.r.lo < 0 && !add(zero, y, 0) {
				return nil, false
			}
			return rs, add(y, x, 0)
		}
		return nil, false
	case OpEq:
		if t.Args[0].W == 0 {
			return nil, false
		}
		if t.Args[0].W == 1 {
			return nil, false
		}
		x, y = c.read(tb, w64(t.Args[0], false)), c.read(tb, w64(t.Args[1], false))
		if !neg {
			ok = add(x, y, 0)
			if ok {
				ok = add(y, x, 0)
			}
			return rs, ok
		}
		// x != y at the border of a range
		if d, ok := diffRow(x, y, 0); ok && len(d.at) == 1 && (d.co[0] == 1 || d.co[0] == -1) {
			v := -d.c * d.co[0]
			r := c.ivOf(d.at[0])
			if r.lo == v && v < 1<<60 {
				return []row{{at: d.at, co: []int64{-1}, c: v + 1}}, true
			}
			if r.hi == v && v > -(1<<60) {
				return []row{{at: d.at, co: []int64{1}, c: -v + 1}}, true
			}
		}
		return nil, false
	}
	return nil, false
}

// add extends the context with a condition of the path.
func (c *liaCtx) add(tb *TB, t *Term) {
	switch {
	case t == tb.False:
		c.bad = true
		return
	case t.Op == OpBAnd:
		c.add(tb, t.Args[0])
		c.add(tb, t.Args[1])
		return
	case t.Op == OpBNot && t.Args[0].Op == OpBOr:
		c.add(tb, tb.BNot(t.Args[0].Args[0]))
		c.add(tb, tb.BNot(t.Args[0].Args[1]))
		return
	}
	rs, ok := c.facts(tb, t)
	if !ok {
		if len(c.pend) < 40 {
			c.pend = append(c.pend, t)
		}
		return
	}
	changed := false
	for _, r := range rs {
		changed = c.tighten(r) || changed
		c.addRow(r)
	}
	if changed {
		for round := 0; round < 4; round++ {
			ch := false
			for _, r := range c.rows {
				ch = c.tighten(r) || ch
			}
			if !ch {
				break
			}
		}
		p := c.pend
		c.pend = nil
		for _, q := range p {
			c.add(tb, q)
		}
	}
}

// tighten propagates r's bounds to its atoms.
func (c *liaCtx) tighten(r row) bool {
	ch := false
	for i, a := range r.at {
		// co_i * a <= -c - sum_{j!=i} co_j x_j  <= -c - min(sum)
		b, ok := int64(0), true
		b, ok = addOv(0, -r.c)
		for j, x := range r.at {
			if j == i || !ok {
				continue
			}
			v := c.ivOf(x)
			var m int64
			if r.co[j] > 0 {
				m, ok = mulOv(r.co[j], v.lo)
			} else {
				m, ok = mulOv(r.co[j], v.hi)
			}
			if ok && m != math.MinInt64 {
				b, ok = addOv(b, -m)
			} else {
				ok = false
			}
		}
		if !ok {
			continue
		}
		v := c.ivOf(a)
		if k := r.co[i]; k > 0 {
			if h := floorDiv(b, k); h < v.hi {
				v.hi = h
				ch = true
			}
		} else {
			// k*a <= b, k<0: a >= ceil(b/k) = -floor(b/-k)
			if l := -floorDiv(b, -k); l > v.lo {
				v.lo = l
				ch = true
			}
		}
		if v.lo > v.hi {
			c.bad = true
		}
		c.iv[a] = v
	}
	if len(r.at) == 0 && r.c > 0 {
		c.bad = true
	}
	return ch
}

func (e *Engine) liaOf(p *PC) *liaCtx {
	if p == nil {
		return &liaCtx{iv: map[*Term]iv{}, ready: map[*Term]bool{}}
	}
	if c, ok := e.lia[p]; ok {
		return c
	}
	if p.derived {
		return e.liaOf(p.prev)
	}
	c := e.liaOf(p.prev).clone()
	c.add(e.tb, p.c)
	e.lia[p] = c
	return c
}

// refuted: path condition and cond are certainly contradictory.
func (e *Engine) refuted(p *PC, cond *Term) bool {
	base := e.liaOf(p)
	if !e.refCase(base, cond, 0) {
		return false
	}
	e.audit(&e.liaAudit, p, cond)
	return true
}

// Audit counts how often the SMT solver was asked to confirm a step the
// front end settled by itself.
type Audit struct{ Steps, Confirmed, NoAnswer int }

// audit hands a step of the front end (path condition and c are
// contradictory) to the SMT solver: the first ones of a harness and then
// a sample; all of them would repeat the same few patterns.
func (e *Engine) audit(a *Audit, p *PC, c *Term) {
	a.Steps++
	n, every := 12, 256
	if e.thorough {
		n, every = 60, 32
	}
	if e.auditOff || a.Steps > n && a.Steps%every != 0 {
		return
	}
	if e.au == nil {
		e.au = newSolver(e.tb, 400, 1000)
		if e.thorough {
			e.au.timeout = 5000
		}
	}
	e.au.models = nil
	v, m := e.au.Check(append(p.list(), c), false)
	switch v {
	case Unsat:
		a.Confirmed++
	case Unknown:
		a.NoAnswer++
	case Sat:
		e.inc("the solver refutes a simplification: %.200s", showTerm(c, 6))
		_ = m
	}
}

func (e *Engine) refCase(base *liaCtx, cond *Term, depth int) bool {
	tb := e.tb
	if base.bad {
		return true
	}
	// disjunctions
	if depth < 3 {
		if cond.Op == OpBOr {
			return e.refCase(base, cond.Args[0], depth+1) && e.refCase(base, cond.Args[1], depth+1)
		}
		if cond.Op == OpBNot && cond.Args[0].Op == OpBAnd {
			x, y := cond.Args[0].Args[0], cond.Args[0].Args[1]
			return e.refCase(base, tb.BNot(x), depth+1) && e.refCase(base, tb.BNot(y), depth+1)
		}
		if cond.Op == OpBAnd {
			c := base.clone()
			c.add(tb, cond.Args[0])
			return c.bad || e.refCase(c, cond.Args[1], depth+1) || e.fm(c)
		}
	}
	c := base.clone()
	// idx >=u len with idx of unknown sign: two cases
	if cond.Op == OpBNot && cond.Args[0].Op == OpUlt && depth < 3 {
		u := cond.Args[0]
		if u.Args[0].W == 64 {
			x, y := c.read(tb, u.Args[0]), c.read(tb, u.Args[1])
			if x.r.lo < 0 && y.r.lo >= 0 {
				zero := tb.Const(64, 0)
				a, b := base.clone(), base.clone()
				a.add(tb, tb.mk(&Term{Op: OpSlt, W: 0, Args: []*Term{u.Args[0], zero}}))
				if !(a.bad || e.fm(a)) {
					return false
				}
				b.add(tb, tb.BNot(tb.mk(&Term{Op: OpSlt, W: 0, Args: []*Term{u.Args[0], zero}})))
				b.add(tb, tb.BNot(tb.mk(&Term{Op: OpSlt, W: 0, Args: []*Term{u.Args[0], u.Args[1]}})))
				return b.bad || e.fm(b)
			}
		}
	}
	if cond.Op == OpBNot && cond.Args[0].Op == OpEq && cond.Args[0].Args[0].W > 1 && depth < 3 {
		u := cond.Args[0]
		s := func(a, b *Term) *Term {
			if a.W < 64 {
				a, b = tb.Zext(a, 64), tb.Zext(b, 64)
			}
			return tb.Slt(a, b)
		}
		a, b := base.clone(), base.clone()
		a.add(tb, s(u.Args[0], u.Args[1]))
		if a.bad || e.fm(a) {
			b.add(tb, s(u.Args[1], u.Args[0]))
			return b.bad || e.fm(b)
		}
		return false
	}
	np := len(c.pend)
	c.add(tb, cond)
	if c.bad {
		return true
	}
	if len(c.pend) > np {
		return false // not readable
	}
	return e.fm(c)
}

// fm: Fourier-Motzkin over the rows of c; true if contradictory.
func (e *Engine) fm(c *liaCtx) bool {
	if len(c.rows) == 0 {
		return false
	}
	// relevant atoms: those connected to the last row
	rel := map[*Term]bool{}
	for _, a := range c.rows[len(c.rows)-1].at {
		rel[a] = true
	}
	used := make([]bool, len(c.rows))
	for ch := true; ch; {
		ch = false
		for i, r := range c.rows {
			if used[i] {
				continue
			}
			hit := i == len(c.rows)-1
			for _, a := range r.at {
				if rel[a] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, a := range r.at {
					rel[a] = true
				}
			}
		}
	}
	if len(rel) > 14 {
		return false
	}
	rows := map[string]row{}
	over := false
	put := func(r row) bool { // true: contradiction
		sortRow(&r)
		if len(r.at) == 0 {
			return r.c > 0
		}
		k := rowKey(r)
		if o, ok := rows[k]; ok && o.c >= r.c {
			return false
		}
		rows[k] = r
		return false
	}
	for i, r := range c.rows {
		if used[i] {
			if put(row{append([]*Term(nil), r.at...), append([]int64(nil), r.co...), r.c}) {
				return true
			}
		}
	}
	for a := range rel {
		v := c.ivOf(a)
		if v.lo > -(1 << 62) {
			if put(row{[]*Term{a}, []int64{-1}, v.lo}) {
				return true
			}
		}
		if v.hi < 1<<62 {
			if put(row{[]*Term{a}, []int64{1}, -v.hi}) {
				return true
			}
		}
	}
	var vars []*Term
	for a := range rel {
		vars = append(vars, a)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].ID < vars[j].ID })
	for len(vars) > 0 {
		best, bc := -1, 1<<30
		for i, v := range vars {
			p, n := 0, 0
			for _, r := range rows {
				switch k := coefOf(r, v); {
				case k > 0:
					p++
				case k < 0:
					n++
				}
			}
			if p*n-p-n < bc {
				best, bc = i, p*n-p-n
			}
		}
		v := vars[best]
		vars = append(vars[:best], vars[best+1:]...)
		var ps, ns []row
		for k, r := range rows {
			switch co := coefOf(r, v); {
			case co > 0:
				ps = append(ps, r)
				delete(rows, k)
			case co < 0:
				ns = append(ns, r)
				delete(rows, k)
			}
		}
		if len(ps)*len(ns) > 600 {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				r, ok := combine(p, n, v)
				if !ok {
					over = true
					continue
				}
				if put(r) {
					return true
				}
			}
		}
		if len(rows) > 800 {
			return false
		}
	}
	_ = over
	return false
}

func rowKey(r row) string {
	b := make([]byte, 0, len(r.at)*10)
	for i, a := range r.at {
		b = appendU(b, uint64(a.ID))
		b = appendU(b, uint64(r.co[i]))
	}
	return string(b)
}
func appendU(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func coefOf(r row, v *Term) int64 {
	for i, a := range r.at {
		if a == v {
			return r.co[i]
		}
	}
	return 0
}

func combine(p, n row, v *Term) (row, bool) {
	a, b := coefOf(p, v), -coefOf(n, v) // a,b > 0:  b*p + a*n
	g := gcd(a, b)
	a, b = a/g, b/g
	m := map[*Term]int64{}
	addm := func(r row, k int64) bool {
		for i, x := range r.at {
			y, ok := mulOv(r.co[i], k)
			if !ok {
				return false
			}
			m[x], ok = addOv(m[x], y)
			if !ok {
				return false
			}
		}
		return true
	}
	if !addm(p, b) || !addm(n, a) {
		return row{}, false
	}
	c1, o1 := mulOv(p.c, b)
	c2, o2 := mulOv(n.c, a)
	if !o1 || !o2 {
		return row{}, false
	}
	c, ok := addOv(c1, c2)
	if !ok {
		return row{}, false
	}
	r := row{c: c}
	for x, k := range m {
		if k != 0 {
			if k > 1<<45 || k < -(1<<45) {
				return row{}, false
			}
			r.at = append(r.at, x)
			r.co = append(r.co, k)
		}
	}
	return r, true
}
