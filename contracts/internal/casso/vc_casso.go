package casso

import "github.com/metafates/bento/internal/vc"

var _ = vc.Register(func(r *vc.R) Variable { return Variable(r.Intn(4)) })

var _ = vc.Register(func(r *vc.R) _Symbol {
	return _Symbol{Value: _Symbol{}.Value + 1 + vcSymValue(r.Intn(3)), Type: vc.Pick(r, SymbolTypeExternal, SymbolTypeSlack, SymbolTypeError, SymbolTypeDummy)}
})

var _ = vc.Register(func(r *vc.R) Strength { return vc.Pick(r, Required, Strong, Medium, Weak, 7) })

var _ = vc.Register(func(r *vc.R) RelationOperator {
	return vc.Pick(r, RelationOperatorLessThanEqual, RelationOperatorEqual, RelationOperatorGreaterThanEqual)
})

type vcSymValue = uint64

// vcClose: equal up to rounding (exactly equal in the proofs, where floats are reals).
func vcClose(a, b float64) bool {
	d := a - b
	if d < 0 {
		d = -d
	}
	m := b
	if m < 0 {
		m = -m
	}
	return d <= 1e-9*(1+m)
}

// vcSame: equal up to what counts as zero.
func vcSame(got, want float64) bool {
	return vcClose(got, want) || got == 0 && -1e-8 < want && want < 1e-8
}

// vcCoef is the coefficient of a variable in an expression: the expression is the constant plus the sum
// over all variables of coefficient times value, so equal coefficients and constants mean equal values
// for every assignment.
func vcCoef(e Expression, v Variable) float64 { return vcPart(e.Terms, len(e.Terms), v) }

// vcPart is the coefficient of a variable in the first n terms.
func vcPart(ts []Term, n int, v Variable) float64 {
	return vc.Total(n, func(i int) float64 {
		if ts[i].Variable == v {
			return ts[i].Coefficient
		}
		return 0
	})
}

//vc:target (Expression).Negate
//vc:prop C12
func spec_Expression_Negate(a Expression, v Variable) Expression {
	ca, ka, ts := vcCoef(a, v), a.Constant, a.Terms
	vcNegating(ts)
	n := a.Negate()
	vc.Induct("sum", len(n.Terms), func(i int) bool { return vcPart(n.Terms, i, v) == -vcPart(ts, i, v) })
	vc.Ensures("negation negates every coefficient", vcClose(vcCoef(n, v), -ca) && vcClose(n.Constant, -ka))
	vc.Ensures("the operand keeps its value", vcCoef(a, v) == ca && a.Constant == ka)
	return n
}

//vc:target (Expression).Sub
//vc:prop C12
//vc:use
func spec_Expression_Sub(a, b Expression, v Variable) Expression {
	ca, cb, ka, kb, ta, tb := vcCoef(a, v), vcCoef(b, v), a.Constant, b.Constant, a.Terms, b.Terms
	vcNegating(tb)
	d := a.Sub(b)
	vc.Induct("the left operand's terms", len(ta), func(i int) bool { return vcPart(d.Terms, i, v) == vcPart(ta, i, v) })
	vc.Induct("the right operand's terms", len(tb), func(i int) bool { return vcPart(d.Terms, len(ta)+i, v) == ca-vcPart(tb, i, v) })
	vc.Ensures("subtraction subtracts the coefficients", vcClose(vcCoef(d, v), ca-cb) && vcClose(d.Constant, ka-kb))
	vc.Ensures("the operands keep their value", vcCoef(a, v) == ca && vcCoef(b, v) == cb && a.Constant == ka && b.Constant == kb)
	return d
}

// vcNegating: what the loop in Negate does to the terms.
func vcNegating(ts []Term) {
	vc.InvariantIn("Negate", func(e Expression, i int) bool {
		return vc.Forall(0, i, func(j int) bool { return e.Terms[j].Variable == ts[j].Variable && e.Terms[j].Coefficient == -ts[j].Coefficient })
	})
	vc.InvariantIn("Negate", func(e Expression, i int) bool {
		return vc.Forall(i, len(e.Terms), func(j int) bool { return e.Terms[j] == ts[j] })
	})
}

//vc:target (Expression).SubVariable
//vc:prop C12
//vc:use
func spec_Expression_SubVariable(a Expression, u, v Variable) Expression {
	ca, ka, ta := vcCoef(a, v), a.Constant, a.Terms
	one := 0.0
	if u == v {
		one = 1
	}
	d := a.SubVariable(u)
	vc.Induct("the terms stay", len(ta), func(i int) bool { return vcPart(d.Terms, i, v) == vcPart(ta, i, v) })
	vc.Ensures("subtracting a variable lowers its coefficient by one", vcClose(vcCoef(d, v), ca-one) && vcClose(d.Constant, ka))
	vc.Ensures("the operand keeps its value", vcCoef(a, v) == ca && a.Constant == ka)
	return d
}

//vc:target (Expression).SubConstant
//vc:prop C12
//vc:use
func spec_Expression_SubConstant(a Expression, k float64, v Variable) Expression {
	vc.Requires(-1e6 < k && k < 1e6)
	ca, ka := vcCoef(a, v), a.Constant
	d := a.SubConstant(k)
	vc.Ensures("subtracting a constant lowers the constant", vcClose(vcCoef(d, v), ca) && vcClose(d.Constant, ka-k))
	vc.Ensures("the operand keeps its value", vcCoef(a, v) == ca && a.Constant == ka)
	return d
}

//vc:target (Expression).MulConstant
//vc:prop C12
func spec_Expression_MulConstant(a Expression, k float64, v Variable) Expression {
	vc.Requires(-1e6 < k && k < 1e6)
	ca, ka, ta := vcCoef(a, v), a.Constant, a.Terms
	vc.InvariantIn("MulConstant", func(e Expression, i int) bool {
		return vc.Forall(0, i, func(j int) bool { return e.Terms[j].Variable == ta[j].Variable && e.Terms[j].Coefficient == ta[j].Coefficient*k })
	})
	vc.InvariantIn("MulConstant", func(e Expression, i int) bool {
		return vc.Forall(i, len(e.Terms), func(j int) bool { return e.Terms[j] == ta[j] })
	})
	m := a.MulConstant(k)
	vc.Induct("every term", len(ta), func(i int) bool { return vcPart(m.Terms, i, v) == vcPart(ta, i, v)*k })
	vc.Ensures("scaling scales every coefficient", vcClose(vcCoef(m, v), ca*k) && vcClose(m.Constant, ka*k))
	vc.Ensures("the operand keeps its value", vcCoef(a, v) == ca && a.Constant == ka)
	return m
}

//vc:target (Expression).DivConstant
//vc:prop C12
func spec_Expression_DivConstant(a Expression, k float64, v Variable) Expression {
	vc.Requires(-1e6 < k && k < 1e6 && k != 0)
	ca, ka, ta := vcCoef(a, v), a.Constant, a.Terms
	vc.InvariantIn("DivConstant", func(e Expression, i int) bool {
		return vc.Forall(0, i, func(j int) bool { return e.Terms[j].Variable == ta[j].Variable && e.Terms[j].Coefficient == ta[j].Coefficient/k })
	})
	vc.InvariantIn("DivConstant", func(e Expression, i int) bool {
		return vc.Forall(i, len(e.Terms), func(j int) bool { return e.Terms[j] == ta[j] })
	})
	q := a.DivConstant(k)
	vc.Induct("every term", len(ta), func(i int) bool { return vcPart(q.Terms, i, v) == vcPart(ta, i, v)/k })
	vc.Ensures("dividing divides every coefficient", vcClose(vcCoef(q, v), ca/k) && vcClose(q.Constant, ka/k))
	vc.Ensures("the operand keeps its value", vcCoef(a, v) == ca && a.Constant == ka)
	return q
}

// Several results built from one expression are independent of each other.
//
//vc:prop C12
func spec_Expression_shared(a, b Expression, u, w, v Variable, k float64) {
	vc.Requires(-1e6 < k && k < 1e6)
	vcNegating(b.Terms)
	d := a.Sub(b)
	cd, kd := vcCoef(d, v), d.Constant
	du := a.SubVariable(u)
	cu := vcCoef(du, v)
	dw := a.SubVariable(w)
	cw := vcCoef(dw, v)
	ca, ka := vcCoef(a, v), a.Constant
	e := d.SubVariable(w)
	vc.Ensures("an earlier result keeps its value", vcCoef(d, v) == cd && d.Constant == kd && vcCoef(du, v) == cu)
	m := a.MulConstant(k)
	vc.Ensures("an earlier result keeps its value", vcCoef(d, v) == cd && vcCoef(du, v) == cu && vcCoef(dw, v) == cw && vcCoef(a, v) == ca && a.Constant == ka)
	_, _ = e, m
}

//vc:prop C12
func spec_Variable_expressions(a, b, v Variable, k float64, t Term) {
	val := func(x Variable) float64 {
		if x == v {
			return 1
		}
		return 0
	}
	d := a.Sub(b)
	vc.Ensures("the difference of variables", vcClose(vcCoef(d, v), val(a)-val(b)) && d.Constant == 0)
	e := NewExpressionFromTerm(NewTerm(a, k))
	vc.Ensures("a term", vcClose(vcCoef(e, v), k*val(a)) && e.Constant == 0)
	c := NewExpressionFromConstant(k)
	vc.Ensures("a constant", vcCoef(c, v) == 0 && c.Constant == k)
	x := NewExpression(k, t, NewTerm(b, 2))
	vc.Ensures("a sum of terms", vcClose(vcCoef(x, v), t.Coefficient*val(t.Variable)+2*val(b)) && x.Constant == k)
	n := t.Negate()
	vc.Ensures("a negated term", n.Coefficient == -t.Coefficient && n.Variable == t.Variable)
}

//vc:prop C12
func spec_relations(a, b Expression, u, v Variable, k float64, s Strength) {
	vc.Requires(-1e6 < k && k < 1e6)
	ca, cb, ka, kb := vcCoef(a, v), vcCoef(b, v), a.Constant, b.Constant
	one := 0.0
	if u == v {
		one = 1
	}
	for _, x := range []struct {
		w  WeightedRelation
		op RelationOperator
	}{{Equal(s), RelationOperatorEqual}, {LessThanEqual(s), RelationOperatorLessThanEqual}, {GreaterThanEqual(s), RelationOperatorGreaterThanEqual}} {
		c := x.w.ExpressionLHS(a).ExpressionRHS(b)
		vc.Ensures("left and right expression are compared by their difference", vcClose(vcCoef(c.expression, v), ca-cb) && vcClose(c.expression.Constant, ka-kb))
		vc.Ensures("the relation and strength are the ones asked for", c.op == x.op && c.strength == s)
		c = x.w.VariableLHS(u).ConstantRHS(k)
		vc.Ensures("a variable is compared with a constant by their difference", vcClose(vcCoef(c.expression, v), one) && vcClose(c.expression.Constant, -k))
		vc.Ensures("the relation and strength are the ones asked for", c.op == x.op && c.strength == s)
		c = x.w.ExpressionLHS(a).VariableRHS(u)
		vc.Ensures("an expression is compared with a variable by their difference", vcClose(vcCoef(c.expression, v), ca-one) && vcClose(c.expression.Constant, ka))
		vc.Ensures("the relation and strength are the ones asked for", c.op == x.op && c.strength == s)
	}
}

//vc:target (*_Row).InsertSymbol
//vc:prop C12
func spec_Row_InsertSymbol(r *_Row, s _Symbol, coefficient float64, q _Symbol) {
	vc.Requires(r.cells != nil)
	was, k := r.cells[q], r.constant
	r.InsertSymbol(s, coefficient)
	if q == s {
		vc.Ensures("the symbol's coefficient grows by the given one", vcSame(r.cells[q], was+coefficient))
		_, ok := r.cells[q]
		vc.Ensures("a coefficient that cancels is removed", vc.Implies(ok && was != 0, !nearZero(r.cells[q])))
	} else {
		vc.Ensures("other coefficients stay", r.cells[q] == was)
	}
	vc.Ensures("the constant stays", r.constant == k)
}

//vc:target (*_Row).InsertRow
//vc:prop C12
func spec_Row_InsertRow(r *_Row, other _Row, coefficient float64, q _Symbol) bool {
	vc.Requires(r.cells != nil && other.cells != nil)
	was, k, o := r.cells[q], r.constant, other.cells[q]
	vc.InvariantIn("InsertRow", func() bool {
		if vc.Visited(q) {
			return vcSame(r.cells[q], was+coefficient*o)
		}
		return r.cells[q] == was
	})
	res := r.InsertRow(other, coefficient)
	vc.Ensures("the row grows by the multiple of the other row", vcSame(r.cells[q], was+coefficient*o))
	vc.Ensures("and so does the constant", vcClose(r.constant, k+coefficient*other.constant))
	vc.Ensures("the result tells whether the constant changed", vc.Implies(r.constant != k, res))
	vc.Ensures("the other row stays", other.cells[q] == o)
	return res
}

//vc:target (*_Row).SolveForSymbol
//vc:prop C12
func spec_Row_SolveForSymbol(r *_Row, s _Symbol, q _Symbol) {
	vc.Requires(r.cells != nil && !nearZero(r.cells[s]))
	was, by, k := r.cells[q], r.cells[s], r.constant
	vc.InvariantIn("SolveForSymbol", func() bool {
		if vc.Visited(q) {
			return r.cells[q] == was*(-1/by)
		}
		return r.cells[q] == was || q == s
	})
	vc.InvariantIn("SolveForSymbol", func() bool {
		_, ok := r.cells[s]
		return !ok
	})
	r.SolveForSymbol(s)
	// 0 = k + by*s + sum(was*q)  is  s = -k/by + sum(-was/by*q)
	if q != s {
		vc.Ensures("the row is solved for the symbol", vcClose(r.cells[q], -was/by))
	} else {
		_, ok := r.cells[q]
		vc.Ensures("the symbol leaves the row", !ok)
	}
	vc.Ensures("the constant is solved too", vcClose(r.constant, -k/by))
}

//vc:target (*_Row).SolveForSymbols
//vc:prop C12
func spec_Row_SolveForSymbols(r *_Row, lhs, rhs _Symbol, q _Symbol) {
	vc.Requires(r.cells != nil && !nearZero(r.cells[rhs]) && r.cells[lhs] == 0 && lhs != rhs)
	was, by, k := r.cells[q], r.cells[rhs], r.constant
	with := was // after lhs has been brought in
	if q == lhs {
		with = -1
	}
	vc.InvariantIn("SolveForSymbol", func() bool {
		if vc.Visited(q) {
			return r.cells[q] == with*(-1/by)
		}
		return r.cells[q] == with || q == rhs
	})
	vc.InvariantIn("SolveForSymbol", func() bool {
		_, ok := r.cells[rhs]
		return !ok
	})
	r.SolveForSymbols(lhs, rhs)
	// lhs = k + by*rhs + sum(was*q)  is  rhs = -k/by + lhs/by + sum(-was/by*q)
	switch q {
	case rhs:
		_, ok := r.cells[q]
		vc.Ensures("the symbol leaves the row", !ok)
	case lhs:
		vc.Ensures("the other symbol enters the row", vcClose(r.cells[q], 1/by))
	default:
		vc.Ensures("the row is solved for the symbol", vcClose(r.cells[q], -was/by))
	}
	vc.Ensures("the constant is solved too", vcClose(r.constant, -k/by))
}

//vc:target (*_Row).Substitute
//vc:prop C12
func spec_Row_Substitute(r *_Row, s _Symbol, row _Row, q _Symbol) bool {
	vc.Requires(r.cells != nil && row.cells != nil && row.cells[s] == 0)
	was, by, k, o := r.cells[q], r.cells[s], r.constant, row.cells[q]
	left := was // once s is gone
	if q == s {
		left = 0
	}
	vc.InvariantIn("InsertRow", func() bool {
		if q == s {
			return r.cells[q] == 0
		}
		if vc.Visited(q) {
			return vcSame(r.cells[q], left+by*o)
		}
		return r.cells[q] == left
	})
	res := r.Substitute(s, row)
	// s = row.constant + sum(o*q)
	if q == s {
		_, ok := r.cells[q]
		vc.Ensures("the symbol leaves the row", !ok || r.cells[q] == 0)
	} else {
		vc.Ensures("its row takes its place", vcSame(r.cells[q], was+by*o))
	}
	vc.Ensures("the constant follows", vcClose(r.constant, k+by*row.constant))
	vc.Ensures("the result tells whether the constant changed", vc.Implies(r.constant != k, res))
	vc.Ensures("the other row stays", row.cells[q] == o)
	return res
}

//vc:target (*_Row).Clone
//vc:prop C12
func spec_Row_Clone(r *_Row, s, q _Symbol, x float64) _Row {
	vc.Requires(r.cells != nil)
	was, ok := r.cells[q]
	k := r.constant
	c := r.Clone()
	now, okc := c.cells[q]
	vc.Ensures("a clone has the same coefficients", now == was && ok == okc && c.constant == k)
	c.cells[s] = x
	vc.Ensures("a clone is independent", r.cells[q] == was && r.constant == k)
	return c
}

//vc:target (*_Row).reverseSign
//vc:prop C12
func spec_Row_reverseSign(r *_Row, q _Symbol) {
	vc.Requires(r.cells != nil)
	was, k := r.cells[q], r.constant
	vc.InvariantIn("reverseSign", func() bool {
		if vc.Visited(q) {
			return r.cells[q] == -was
		}
		return r.cells[q] == was
	})
	r.reverseSign()
	vc.Ensures("every coefficient changes its sign", r.cells[q] == -was)
	vc.Ensures("and the constant", r.constant == -k)
}

//vc:prop C12
func spec_Row_Add(r *_Row, v float64, q _Symbol) {
	vc.Requires(r.cells != nil)
	was, k := r.cells[q], r.constant
	res := r.Add(v)
	vc.Ensures("adding changes the constant", r.constant == k+v && res == r.constant && r.cells[q] == was)
	r.Remove(q)
	_, ok := r.cells[q]
	vc.Ensures("removing removes", !ok && vc.Implies(true, r.CoefficientFor(q) == 0))
}

// vcSolver: two solvers over a handful of constraints.
//
//vc:prop C12
//vc:bounded
func spec_Solver_rows(cs []Constraint, val []float64) {
	s := NewSolver()
	for _, c := range cs {
		vc.Requires(c != nil)
		if s.AddConstraint(c) != nil {
			vc.Requires(false)
		}
	}
	// the basic solution: parametric symbols are zero, basic ones their row's constant
	for _, c := range cs {
		if c.strength < Required {
			continue
		}
		x := c.expression.Constant
		for _, t := range c.expression.Terms {
			x += t.Coefficient * s.GetValue(t.Variable)
		}
		switch c.op {
		case RelationOperatorEqual:
			vc.Ensures("a required equation holds in the solution", -1e-6 < x && x < 1e-6)
		case RelationOperatorLessThanEqual:
			vc.Ensures("a required upper bound holds in the solution", x < 1e-6)
		case RelationOperatorGreaterThanEqual:
			vc.Ensures("a required lower bound holds in the solution", x > -1e-6)
		}
	}
}

var _ = vc.Register(func(r *vc.R) Constraint {
	e := vc.Make[Expression](r)
	if len(e.Terms) > 3 {
		e.Terms = e.Terms[:3]
	}
	return NewConstraint(e, vc.Make[RelationOperator](r), vc.Make[Strength](r))
})

// Rely and guarantee: every access to the counter is an indivisible step that does not decrease it, and the
// number returned was passed over by a step of this very call. By the lemma below no other step passes over it.
//
//vc:prop C21
//vc:opts concurrent noterm
func spec_NewVariable_claims() {
	a := NewVariable()
	vc.Ensures("the variable was claimed by a step of this call alone", vc.Claims(uint64(a)))
}

// Steps are totally ordered and the counter does not decrease between them: a later step starts where an
// earlier one ended or beyond, so no number is claimed twice.
//
//vc:prop C21
func spec_claims_distinct(pre1, post1, pre2, post2, a, b uint64) {
	vc.Requires(pre1 <= post1 && post1 <= pre2 && pre2 <= post2)
	vc.Requires(pre1 <= a && a < post1 && pre2 <= b && b < post2)
	vc.Ensures("numbers claimed by different steps differ", a != b)
}

//vc:prop C21
//vc:bounded
func spec_NewVariable_concurrent(n int) {
	vc.Requires(0 <= n && n < 40)
	const workers = 6
	got := make([][]Variable, workers)
	done := make(chan int)
	start := make(chan struct{})
	for g := 0; g < workers; g++ {
		go func() {
			<-start
			for i := 0; i < 50*n; i++ {
				got[g] = append(got[g], NewVariable())
			}
			done <- g
		}()
	}
	close(start)
	for g := 0; g < workers; g++ {
		<-done
	}
	seen := map[Variable]bool{}
	for _, vs := range got {
		for _, v := range vs {
			vc.Ensures("every variable is new", !seen[v])
			seen[v] = true
		}
	}
}
