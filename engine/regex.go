package main

// Symbolic leftmost-first regular expression matching over the program that
// regexp/syntax compiles from the actual pattern.

import (
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Regex struct {
	src     string
	prog    *syntax.Prog
	ncap    int
	names   []string
	sets    map[uint32]*[256]bool
	longest bool
}

func compileRegex(p string) (*Regex, error) {
	if _, err := regexp.Compile(p); err != nil {
		return nil, err
	}
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return nil, err
	}
	names := re.CapNames()
	ncap := re.MaxCap()
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &Regex{src: p, prog: prog, ncap: ncap, names: names, sets: map[uint32]*[256]bool{}}, nil
}

func (r *Regex) set(pc uint32) *[256]bool {
	if s, ok := r.sets[pc]; ok {
		return s
	}
	in := &r.prog.Inst[pc]
	s := &[256]bool{}
	for b := 0; b < 128; b++ {
		s[b] = in.MatchRune(rune(b))
	}
	hi := in.MatchRune(0xFFFD) && in.MatchRune(0x80) && in.MatchRune(0x10FFFF)
	for b := 128; b < 256; b++ {
		s[b] = hi
	}
	r.sets[pc] = s
	return s
}

type matcher struct {
	m    *Machine
	r    *Regex
	s    Str
	memo map[int64]*Term
	char map[int64]*Term
	clos map[int64][]uint32
}

func (x *matcher) charTerm(pc uint32, pos int) *Term {
	m := x.m
	c := m.at(x.s, pos)
	set := x.r.set(pc)
	if c.IsConst() {
		return m.tc.Bool(set[c.val])
	}
	k := int64(pc)<<32 | int64(pos)
	if t, ok := x.char[k]; ok {
		return t
	}
	// fewest intervals: positive or complement
	build := func(want bool) *Term {
		t := m.tc.F
		for b := 0; b < 256; {
			if set[b] != want {
				b++
				continue
			}
			e := b
			for e < 255 && set[e+1] == want {
				e++
			}
			var iv *Term
			switch {
			case b == e:
				iv = m.tc.Eq(c, m.tc.Const(8, uint64(b)))
			case b == 0:
				iv = m.tc.Cmp(OUle, c, m.tc.Const(8, uint64(e)))
			case e == 255:
				iv = m.tc.Cmp(OUle, m.tc.Const(8, uint64(b)), c)
			default:
				iv = m.tc.And(m.tc.Cmp(OUle, m.tc.Const(8, uint64(b)), c), m.tc.Cmp(OUle, c, m.tc.Const(8, uint64(e))))
			}
			t = m.tc.Or(t, iv)
			b = e + 1
		}
		return t
	}
	n := 0
	for b := 0; b < 256; b++ {
		if set[b] {
			n++
		}
	}
	var t *Term
	if n == 256 {
		t = m.tc.T
	} else if n > 128 {
		t = m.tc.Not(build(false))
	} else {
		t = build(true)
	}
	x.char[k] = t
	return t
}

func (x *matcher) emptyOK(op syntax.EmptyOp, pos int) bool {
	n := x.s.Len()
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != n {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 {
		if !x.m.branch(x.m.tc.Eq(x.m.at(x.s, pos-1), x.m.tc.Const(8, '\n'))) {
			return false
		}
	}
	if op&syntax.EmptyEndLine != 0 && pos != n {
		if !x.m.branch(x.m.tc.Eq(x.m.at(x.s, pos), x.m.tc.Const(8, '\n'))) {
			return false
		}
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		word := func(p int) bool {
			if p < 0 || p >= n {
				return false
			}
			c := x.m.at(x.s, p)
			rg := func(a, b byte) *Term {
				return x.m.tc.And(x.m.tc.Cmp(OUle, x.m.tc.Const(8, uint64(a)), c), x.m.tc.Cmp(OUle, c, x.m.tc.Const(8, uint64(b))))
			}
			return x.m.branch(x.m.tc.Or(x.m.tc.Or(rg('a', 'z'), rg('A', 'Z')), x.m.tc.Or(rg('0', '9'), rg('_', '_'))))
		}
		b := word(pos-1) != word(pos)
		if op&syntax.EmptyWordBoundary != 0 && !b || op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}

// closure: consuming or match instructions reachable from pc without input
func (x *matcher) closure(pc uint32, pos int) []uint32 {
	key := int64(pc)<<32 | int64(pos)
	if c, ok := x.clos[key]; ok {
		return c
	}
	var out []uint32
	seen := map[uint32]bool{}
	var rec func(p uint32)
	rec = func(p uint32) {
		if seen[p] {
			return
		}
		seen[p] = true
		in := &x.r.prog.Inst[p]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			rec(in.Out)
			rec(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			rec(in.Out)
		case syntax.InstEmptyWidth:
			if x.emptyOK(syntax.EmptyOp(in.Arg), pos) {
				rec(in.Out)
			}
		case syntax.InstFail:
		default:
			out = append(out, p)
		}
	}
	rec(pc)
	x.clos[key] = out
	return out
}

func (x *matcher) can(pc uint32, pos int) *Term {
	key := int64(pc)<<32 | int64(pos)
	if t, ok := x.memo[key]; ok {
		return t
	}
	m := x.m
	r := m.tc.F
	for _, p := range x.closure(pc, pos) {
		in := &x.r.prog.Inst[p]
		if in.Op == syntax.InstMatch {
			r = m.tc.T
			break
		}
		if pos >= x.s.Len() {
			continue
		}
		c := x.charTerm(p, pos)
		if c == m.tc.F {
			continue
		}
		r = m.tc.Or(r, m.tc.And(c, x.can(in.Out, pos+1)))
		if r == m.tc.T {
			break
		}
	}
	x.memo[key] = r
	return r
}

// matchAt assumes can(start,pos) and returns the captures.
func (x *matcher) matchAt(pos int) []int {
	caps := make([]int, 2*(x.r.ncap+1))
	for i := range caps {
		caps[i] = -1
	}
	caps[0] = pos
	pc := uint32(x.r.prog.Start)
	visited := map[uint32]bool{}
	for steps := 0; ; steps++ {
		if steps > 100000 {
			x.m.unsupported("regexp walk")
		}
		in := &x.r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			if !visited[in.Out] && x.m.branch(x.can(in.Out, pos)) {
				visited[in.Out] = true
				pc = in.Out
			} else {
				pc = in.Arg
			}
		case syntax.InstCapture:
			if int(in.Arg) < len(caps) {
				caps[in.Arg] = pos
			}
			pc = in.Out
		case syntax.InstNop, syntax.InstEmptyWidth:
			pc = in.Out
		case syntax.InstMatch:
			caps[1] = pos
			return caps
		case syntax.InstFail:
			x.m.unsupported("regexp walk reached fail")
		default:
			x.m.assume(x.charTerm(pc, pos))
			pos++
			pc = in.Out
			visited = map[uint32]bool{}
		}
	}
}

func (m *Machine) newMatcher(r *Regex, s Str) *matcher {
	return &matcher{m: m, r: r, s: s, memo: map[int64]*Term{}, char: map[int64]*Term{}, clos: map[int64][]uint32{}}
}

func (x *matcher) find(pos int) []int {
	for p := pos; p <= x.s.Len(); p++ {
		if x.m.branch(x.can(uint32(x.r.prog.Start), p)) {
			return x.matchAt(p)
		}
	}
	return nil
}

func (m *Machine) reAll(r *Regex, s Str, n int) [][]int {
	if s.conc() {
		re := regexp.MustCompile(r.src)
		return re.FindAllStringSubmatchIndex(s.s, n)
	}
	x := m.newMatcher(r, s)
	var out [][]int
	end := s.Len()
	if n < 0 {
		n = end + 1
	}
	for pos, i, prev := 0, 0, -1; i < n && pos <= end; {
		c := x.find(pos)
		if c == nil {
			break
		}
		accept := true
		if c[1] == pos {
			if c[0] == prev {
				accept = false
			}
			pos++
		} else {
			pos = c[1]
		}
		prev = c[1]
		if accept {
			out = append(out, c)
			i++
		}
	}
	return out
}

func (m *Machine) reOne(r *Regex, s Str) []int {
	if s.conc() {
		return regexp.MustCompile(r.src).FindStringSubmatchIndex(s.s)
	}
	return m.newMatcher(r, s).find(0)
}

func (m *Machine) ints(x []int) Value {
	if x == nil {
		return Slice{}
	}
	a := make([]Value, len(x))
	for i, v := range x {
		a[i] = m.i64(v)
	}
	return Slice{a}
}

func (m *Machine) subs(s Str, c []int) Value {
	if c == nil {
		return Slice{}
	}
	a := make([]Value, len(c)/2)
	for i := range a {
		if c[2*i] >= 0 {
			a[i] = m.substr(s, c[2*i], c[2*i+1])
		} else {
			a[i] = Str{}
		}
	}
	return Slice{a}
}

func regRegexp(reg func(intrinsic, ...string)) {
	type A = []Value
	comp := func(m *Machine, p string) (*Native, error) {
		if n, ok := m.eng.reCache.Load(p); ok {
			// sets are filled lazily: keep one copy per worker call
			r := *n.(*Regex)
			r.sets = map[uint32]*[256]bool{}
			return &Native{"regexp", &r}, nil
		}
		r, err := compileRegex(p)
		if err != nil {
			return nil, err
		}
		m.eng.reCache.Store(p, r)
		r2 := *r
		r2.sets = map[uint32]*[256]bool{}
		return &Native{"regexp", &r2}, nil
	}
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		n, err := comp(m, m.cs(a[0]))
		if err != nil {
			panic(targetPanic{Iface{t: types.Typ[types.String], v: Str{s: "regexp: Compile: " + err.Error()}}})
		}
		return n
	}, "regexp.MustCompile")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		n, err := comp(m, m.cs(a[0]))
		if err != nil {
			return Tuple{(*Value)(nil), m.newError(th, Str{s: err.Error()})}
		}
		return Tuple{n, Iface{}}
	}, "regexp.Compile")
	get := func(m *Machine, v Value) *Regex {
		r := regexpOf(v)
		if r == nil {
			m.nilDeref()
		}
		return r
	}
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return Str{s: get(m, a[0]).src} }, "(*regexp.Regexp).String")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return m.i64(get(m, a[0]).ncap) }, "(*regexp.Regexp).NumSubexp")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		var r []Value
		for _, n := range get(m, a[0]).names {
			r = append(r, Str{s: n})
		}
		return Slice{r}
	}, "(*regexp.Regexp).SubexpNames")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		for i, n := range get(m, a[0]).names {
			if n != "" && n == m.cs(a[1]) {
				return m.i64(i)
			}
		}
		return m.i64(-1)
	}, "(*regexp.Regexp).SubexpIndex")
	// the subject is a string or a byte slice
	subj := func(m *Machine, v Value) Str {
		if s, ok := v.(Str); ok {
			return s
		}
		return sliceStr(m, v)
	}
	all := func(f func(m *Machine, s Str, c []int) Value) intrinsic {
		return func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
			s := subj(m, a[1])
			ms := m.reAll(get(m, a[0]), s, m.concInt(a[2].(*Term)))
			if ms == nil {
				return Slice{}
			}
			r := make([]Value, len(ms))
			for i, c := range ms {
				r[i] = f(m, s, c)
			}
			return Slice{r}
		}
	}
	one := func(f func(m *Machine, s Str, c []int) Value) intrinsic {
		return func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
			s := subj(m, a[1])
			return f(m, s, m.reOne(get(m, a[0]), s))
		}
	}
	idx := func(m *Machine, s Str, c []int) Value {
		if c == nil {
			return Slice{}
		}
		return m.ints(c[:2])
	}
	idxs := func(m *Machine, s Str, c []int) Value { return m.ints(c) }
	sub := func(m *Machine, s Str, c []int) Value { return m.subs(s, c) }
	str := func(m *Machine, s Str, c []int) Value {
		if c == nil {
			return Str{}
		}
		return m.substr(s, c[0], c[1])
	}
	reg(all(idx), "(*regexp.Regexp).FindAllStringIndex", "(*regexp.Regexp).FindAllIndex")
	reg(all(idxs), "(*regexp.Regexp).FindAllStringSubmatchIndex", "(*regexp.Regexp).FindAllSubmatchIndex")
	reg(all(sub), "(*regexp.Regexp).FindAllStringSubmatch")
	reg(all(str), "(*regexp.Regexp).FindAllString")
	reg(one(idx), "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindIndex")
	reg(one(idxs), "(*regexp.Regexp).FindStringSubmatchIndex", "(*regexp.Regexp).FindSubmatchIndex")
	reg(one(sub), "(*regexp.Regexp).FindStringSubmatch")
	reg(one(str), "(*regexp.Regexp).FindString")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		s := subj(m, a[1])
		return m.b(m.reOne(get(m, a[0]), s) != nil)
	}, "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		n, err := comp(m, m.cs(a[0]))
		if err != nil {
			return Tuple{m.tc.F, m.newError(th, Str{s: err.Error()})}
		}
		return Tuple{m.b(m.reOne(n.x.(*Regex), subj(m, a[1])) != nil), Iface{}}
	}, "regexp.MatchString")
	repl := func(f func(m *Machine, th *Thread, a A, s Str, c []int) Str) intrinsic {
		return func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
			s := a[1].(Str)
			out := Str{}
			pos := 0
			for _, c := range m.reAll(get(m, a[0]), s, -1) {
				out = m.concat(out, m.substr(s, pos, c[0]))
				out = m.concat(out, f(m, th, a, s, c))
				pos = c[1]
			}
			return m.concat(out, m.substr(s, pos, s.Len()))
		}
	}
	reg(repl(func(m *Machine, th *Thread, a A, s Str, c []int) Str { return a[2].(Str) }), "(*regexp.Regexp).ReplaceAllLiteralString")
	reg(repl(func(m *Machine, th *Thread, a A, s Str, c []int) Str {
		t := m.cs(a[2])
		if !strings.Contains(t, "$") {
			return Str{s: t}
		}
		return m.reExpand(get(m, a[0]), t, s, c)
	}), "(*regexp.Regexp).ReplaceAllString")
	reg(repl(func(m *Machine, th *Thread, a A, s Str, c []int) Str {
		return m.call(th, nil, a[2], []Value{m.substr(s, c[0], c[1])}).(Str)
	}), "(*regexp.Regexp).ReplaceAllStringFunc")
}

// reExpand is regexp.Regexp.Expand.
func (m *Machine) reExpand(re *Regex, t string, s Str, c []int) Str {
	out := Str{}
	word := func(b byte) bool {
		return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= 0x80
	}
	for {
		i := strings.IndexByte(t, '$')
		if i < 0 {
			return m.concat(out, Str{s: t})
		}
		out = m.concat(out, Str{s: t[:i]})
		t = t[i+1:]
		if t != "" && t[0] == '$' {
			out, t = m.concat(out, Str{s: "$"}), t[1:]
			continue
		}
		name, rest, brace := "", t, strings.HasPrefix(t, "{")
		if brace {
			rest = rest[1:]
		}
		for rest != "" && word(rest[0]) {
			name, rest = name+rest[:1], rest[1:]
		}
		if name == "" || brace && !strings.HasPrefix(rest, "}") {
			out = m.concat(out, Str{s: "$"})
			continue
		}
		if brace {
			rest = rest[1:]
		}
		t = rest
		k, err := strconv.Atoi(name)
		if err != nil {
			k = -1
			for j, n := range re.names {
				if n == name && 2*j+1 < len(c) && c[2*j] >= 0 {
					k = j
					break
				}
			}
		}
		if k >= 0 && 2*k+1 < len(c) && c[2*k] >= 0 {
			out = m.concat(out, m.substr(s, c[2*k], c[2*k+1]))
		}
	}
}
