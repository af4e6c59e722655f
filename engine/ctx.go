package main

// Contextual simplification: conditions inside a term that the path
// condition decides by linear arithmetic are replaced by their value
// before the solver sees the term.  Typically these are the "is this the
// store that wrote the byte" tests of a read from a written array.

const ctxLimit = 6000

func (e *Engine) simplifyUnder(p *PC, t *Term) *Term {
	if e.noLIA {
		return t
	}
	memo := map[*Term]*Term{}
	budget := ctxLimit
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		decided := false
		if t.W == 0 && !t.data && budget > 0 {
			switch t.Op {
			case OpEq, OpUlt, OpSlt, OpBAnd, OpBOr:
				budget--
				switch {
				case e.refuted(p, t):
					r, decided = e.tb.False, true
				case t.Op != OpEq && e.refuted(p, e.tb.BNot(t)):
					r, decided = e.tb.True, true
				}
			}
		}
		if !decided {
			args := make([]*Term, len(t.Args))
			same := true
			for i, a := range t.Args {
				args[i] = rec(a)
				same = same && args[i] == a
			}
			if !same {
				r = e.tb.rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// rebuild is t with other arguments.
func (b *TB) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OpSelect:
		return b.Select(t.Name, t.W, a[0])
	case OpLin:
		l := &lin{m: map[*Term]uint64{}, c: t.C}
		for i, x := range a {
			toLin(x, t.Coef[i], l)
		}
		return b.fromLin(t.W, l)
	case OpAnd:
		return b.And(a[0], a[1])
	case OpOr:
		return b.Or(a[0], a[1])
	case OpXor:
		return b.Xor(a[0], a[1])
	case OpNot:
		return b.Not(a[0])
	case OpExtract:
		return b.Extract(int(t.C>>8), int(t.C&255), a[0])
	case OpConcat:
		return b.Concat(a[0], a[1])
	case OpZext:
		return b.Zext(a[0], t.W)
	case OpSext:
		return b.Sext(a[0], t.W)
	case OpIte:
		return b.Ite(a[0], a[1], a[2])
	case OpEq:
		return b.Eq(a[0], a[1])
	case OpUlt:
		return b.Ult(a[0], a[1])
	case OpSlt:
		return b.Slt(a[0], a[1])
	case OpBAnd:
		return b.BAnd(a[0], a[1])
	case OpBOr:
		return b.BOr(a[0], a[1])
	case OpBNot:
		return b.BNot(a[0])
	}
	return b.mk(&Term{Op: t.Op, W: t.W, C: t.C, Name: t.Name, Args: a, Coef: t.Coef})
}

// cases splits a path condition on its last disjunctions, so that linear
// reasoning applies to each case.  Cases linear reasoning excludes are
// dropped.  The disjunction of the result is the path condition.
func (e *Engine) cases(p *PC) []*PC {
	out := []*PC{p}
	if p == nil {
		return []*PC{{depth: 1, c: e.tb.True}}
	}
	if e.noLIA {
		return out
	}
	n := 0
	for q := p; q != nil && n < 3; q = q.prev {
		if q.derived || q.c.data {
			continue
		}
		var a, b *Term
		switch {
		case q.c.Op == OpBOr:
			a, b = q.c.Args[0], q.c.Args[1]
		case q.c.Op == OpBNot && q.c.Args[0].Op == OpBAnd:
			a, b = e.tb.BNot(q.c.Args[0].Args[0]), e.tb.BNot(q.c.Args[0].Args[1])
		default:
			continue
		}
		n++
		var next []*PC
		for _, r := range out {
			for _, l := range []*Term{a, b} {
				if !e.refuted(r, l) {
					next = append(next, &PC{prev: r, depth: r.depth + 1, c: l})
				}
			}
		}
		out = next
	}
	return out
}
