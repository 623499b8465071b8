package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// T is a hash-consed SMT term.
type T struct {
	op    string // "var", "lit", "forall", "exists", or SMT operator / function symbol
	name  string // var name, literal text, or bound variable list for quantifiers
	args  []*T
	sort  string
	id    int
	hasBV bool // contains bound variables
	pats  [][]*T
	big   *big.Int // for integer literals
	mf    int // largest fresh index of a variable inside
}

var (
	termMu  sync.Mutex
	termTab = map[string]*T{}
	termSeq = 0
)

func mk(op, name, srt string, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &T{op: op, name: name, args: args, sort: srt, id: termSeq}
	for _, a := range args {
		if a.hasBV {
			t.hasBV = true
		}
		if a.mf > t.mf {
			t.mf = a.mf
		}
	}
	if op == "var" || op == "bvar" {
		if i := strings.LastIndexByte(name, '!'); i >= 0 {
			fmt.Sscanf(name[i+1:], "%d", &t.mf)
		}
	}
	if op == "bvar" {
		t.hasBV = true
	}
	termTab[k] = t
	return t
}

func Var(name, srt string) *T { return mk("var", name, srt) }

var freshCnt int64

func Fresh(pfx, srt string) *T {
	n := atomic.AddInt64(&freshCnt, 1)
	return mk("var", fmt.Sprintf("%s!%d", sanitize(pfx), n), srt)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func BVar(name, srt string) *T {
	n := atomic.AddInt64(&freshCnt, 1)
	return mk("bvar", fmt.Sprintf("%s?%d", sanitize(name), n), srt)
}

func IntB(b *big.Int) *T {
	t := mk("lit", b.String(), "Int")
	t.big = new(big.Int).Set(b)
	return t
}
func IntL(i int64) *T { return IntB(big.NewInt(i)) }
func RealL(s string) *T {
	if !strings.Contains(s, ".") && !strings.Contains(s, "/") {
		s += ".0"
	}
	return mk("lit", s, "Real")
}

var True = mk("lit", "true", "Bool")
var False = mk("lit", "false", "Bool")

func BoolL(b bool) *T {
	if b {
		return True
	}
	return False
}

// strings are interned: a literal is an integer below zero, "" is 0.
var strTab = map[string]int64{"": 0}
var strRev = map[int64]string{0: ""}

func StrL(s string) *T {
	termMu.Lock()
	id, ok := strTab[s]
	if !ok {
		id = -int64(len(strTab)) - 1000
		strTab[s] = id
		strRev[id] = s
	}
	termMu.Unlock()
	return IntL(id)
}

// litStr gives the text of a string literal term.
func litStr(t *T) (string, bool) {
	if t.big == nil || !t.big.IsInt64() {
		return "", false
	}
	s, ok := strRev[t.big.Int64()]
	return s, ok
}

func (t *T) isLit() bool { return t.op == "lit" }

func App(op, srt string, args ...*T) *T { return mk(op, "", srt, args...) }

func Not(a *T) *T {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	}
	return App("not", "Bool", a)
}

func And(as ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	var add func(a *T) bool
	add = func(a *T) bool {
		if a == True {
			return true
		}
		if a == False {
			return false
		}
		if a.op == "and" {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("and", "Bool", out...)
}

func Or(as ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	var add func(a *T) bool
	add = func(a *T) bool {
		if a == False {
			return true
		}
		if a == True {
			return false
		}
		if a.op == "or" {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("or", "Bool", out...)
}

func Imp(a, b *T) *T {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return App("=>", "Bool", a, b)
}

func Ite(c, a, b *T) *T {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == "Bool" {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return App("ite", a.sort, c, a, b)
}

func Eq(a, b *T) *T {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		if a.sort == "Int" && b.sort == "Real" {
			a = ToReal(a)
		} else if a.sort == "Real" && b.sort == "Int" {
			b = ToReal(b)
		} else {
			panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", a, a.sort, b, b.sort))
		}
		return Eq(a, b)
	}
	if a.isLit() && b.isLit() {
		if a.sort == "Real" {
			if ra, ok := new(big.Rat).SetString(a.name); ok {
				if rb, ok2 := new(big.Rat).SetString(b.name); ok2 {
					return BoolL(ra.Cmp(rb) == 0)
				}
			}
		}
		return False
	}
	if a.sort == "Bool" {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort == "Int" {
		// x + c == y + d
		ba, ca := splitConst(a)
		bb, cb := splitConst(b)
		if ba == bb {
			return BoolL(ca.Cmp(cb) == 0)
		}
	}
	if a.op == "ite" && b.isLit() {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && a.isLit() {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", "Bool", a, b)
}

func splitConst(a *T) (*T, *big.Int) {
	if a.big != nil {
		return nil, a.big
	}
	if a.op == "+" && len(a.args) == 2 && a.args[1].big != nil {
		return a.args[0], a.args[1].big
	}
	return a, new(big.Int)
}

func ToReal(a *T) *T {
	if a.big != nil {
		return RealL(a.big.String())
	}
	return App("to_real", "Real", a)
}

func Add(a, b *T) *T {
	if a.sort == "Real" {
		return App("+", "Real", a, b)
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	c := new(big.Int).Add(ca, cb)
	var base *T
	switch {
	case ba == nil && bb == nil:
		return IntB(c)
	case ba == nil:
		base = bb
	case bb == nil:
		base = ba
	default:
		// x + (-1*x)
		if isNegOf(ba, bb) || isNegOf(bb, ba) {
			return IntB(c)
		}
		// (x - y) + y
		if ba.op == "-" && len(ba.args) == 2 && ba.args[1] == bb {
			return Add(ba.args[0], IntB(c))
		}
		if bb.op == "-" && len(bb.args) == 2 && bb.args[1] == ba {
			return Add(bb.args[0], IntB(c))
		}
		if ba.id > bb.id {
			ba, bb = bb, ba
		}
		base = App("+", "Int", ba, bb)
	}
	if c.Sign() == 0 {
		return base
	}
	return App("+", "Int", base, IntB(c))
}

func isNegOf(a, b *T) bool {
	return a.op == "*" && len(a.args) == 2 && a.args[0].big != nil && a.args[0].big.Cmp(big.NewInt(-1)) == 0 && a.args[1] == b
}

func Sub(a, b *T) *T {
	if a.sort == "Real" {
		return App("-", "Real", a, b)
	}
	if b.big != nil {
		return Add(a, IntB(new(big.Int).Neg(b.big)))
	}
	if a == b {
		return IntL(0)
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	c := new(big.Int).Sub(ca, cb)
	if ba == bb {
		return IntB(c)
	}
	if ba != nil && ba.op == "+" && len(ba.args) == 2 {
		if ba.args[0] == bb {
			return Add(ba.args[1], IntB(c))
		}
		if ba.args[1] == bb {
			return Add(ba.args[0], IntB(c))
		}
	}
	if ba == nil {
		return Add(Mul(IntL(-1), bb), IntB(c))
	}
	return Add(App("-", "Int", ba, bb), IntB(c))
}

func Mul(a, b *T) *T {
	if a.sort == "Real" {
		return App("*", "Real", a, b)
	}
	if a.big != nil && b.big != nil {
		return IntB(new(big.Int).Mul(a.big, b.big))
	}
	if b.big != nil {
		a, b = b, a
	}
	if a.big != nil {
		if a.big.Sign() == 0 {
			return IntL(0)
		}
		if a.big.Cmp(big.NewInt(1)) == 0 {
			return b
		}
		if b.op == "*" && b.args[0].big != nil {
			return Mul(IntB(new(big.Int).Mul(a.big, b.args[0].big)), b.args[1])
		}
		if b.op == "+" && len(b.args) == 2 && b.args[1].big != nil {
			return Add(Mul(a, b.args[0]), IntB(new(big.Int).Mul(a.big, b.args[1].big)))
		}
	}
	return App("*", "Int", a, b)
}

// Div and Mod are euclidean (SMT-LIB) with positive constant divisor.
func Div(a, b *T) *T {
	if a.big != nil && b.big != nil && b.big.Sign() > 0 {
		q, _ := new(big.Int).DivMod(a.big, b.big, new(big.Int))
		return IntB(q)
	}
	if b.big != nil && b.big.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return App("div", "Int", a, b)
}
func Mod(a, b *T) *T {
	if a.big != nil && b.big != nil && b.big.Sign() > 0 {
		_, m := new(big.Int).DivMod(a.big, b.big, new(big.Int))
		return IntB(m)
	}
	return App("mod", "Int", a, b)
}

func cmp(op string, a, b *T) *T {
	if a.sort == "Real" || b.sort == "Real" {
		if a.sort == "Int" {
			a = ToReal(a)
		}
		if b.sort == "Int" {
			b = ToReal(b)
		}
		if a.isLit() && b.isLit() {
			ra, ok := new(big.Rat).SetString(a.name)
			rb, ok2 := new(big.Rat).SetString(b.name)
			if ok && ok2 {
				c := ra.Cmp(rb)
				return BoolL(op == "<" && c < 0 || op == "<=" && c <= 0)
			}
		}
	} else if a.sort == "Int" {
		ba, ca := splitConst(a)
		bb, cb := splitConst(b)
		if ba == bb {
			c := ca.Cmp(cb)
			return BoolL(op == "<" && c < 0 || op == "<=" && c <= 0)
		}
	}
	if a == b {
		return BoolL(op == "<=")
	}
	return App(op, "Bool", a, b)
}
func Lt(a, b *T) *T { return cmp("<", a, b) }
func Le(a, b *T) *T { return cmp("<=", a, b) }
func Gt(a, b *T) *T { return cmp("<", b, a) }
func Ge(a, b *T) *T { return cmp("<=", b, a) }

func arrayElem(srt string) string {
	// "(Array K V)" -> V
	s := strings.TrimSuffix(strings.TrimPrefix(srt, "(Array "), ")")
	depth := 0
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[i+1:]
			}
		}
	}
	panic("bad array sort " + srt)
}
func arrayKey(srt string) string {
	s := strings.TrimSuffix(strings.TrimPrefix(srt, "(Array "), ")")
	depth := 0
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[:i]
			}
		}
	}
	panic("bad array sort " + srt)
}

const allocBase = 1000000

func distinctLit(i, j *T) bool {
	return i.isLit() && j.isLit() && i != j
}

func Select(a, i *T) *T {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctLit(a.args[1], i) {
			a = a.args[0]
			continue
		}
		if i.sort == "Int" && Eq(a.args[1], i) == False {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store") {
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	return App("select", arrayElem(a.sort), a, i)
}

func Store(a, i, v *T) *T {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return App("store", a.sort, a, i, v)
}

func ConstArr(srt string, v *T) *T { return mk("constarr", "", srt, v) }

func Forall(vs []*T, body *T, pats ...[]*T) *T {
	if len(pats) == 0 {
		// one quantifier instead of nested ones
		in, guard := body, True
		if body.op == "=>" {
			guard, in = body.args[0], body.args[1]
		}
		if in.op == "forall" && len(in.pats) == 0 {
			bvMu.Lock()
			iv := quantVars[in.id]
			bvMu.Unlock()
			vs = append(append([]*T(nil), vs...), iv...)
			body = Imp(guard, in.args[0])
			if in.args[0].op == "=>" {
				body = Imp(And(guard, in.args[0].args[0]), in.args[0].args[1])
			}
		}
	}
	return quant("forall", vs, body, pats...)
}
func Exists(vs []*T, body *T) *T               { return quant("exists", vs, body) }

func quant(q string, vs []*T, body *T, pats ...[]*T) *T {
	if body == True || body == False {
		return body
	}
	if len(pats) == 0 {
		vs, body = rebaseVars(vs, body)
	}
	// drop unused
	used := map[int]bool{}
	collectBVars(body, used, map[int]bool{})
	var vv []*T
	for _, v := range vs {
		if used[v.id] {
			vv = append(vv, v)
		}
	}
	if len(vv) == 0 {
		return body
	}
	var names []string
	for _, v := range vv {
		names = append(names, fmt.Sprintf("(|%s| %s)", v.name, v.sort))
	}
	pats = goodPats(pats)
	t := mk(q, strings.Join(names, " ")+patKey(pats), "Bool", body)
	t.pats = pats
	t.name = strings.Join(names, " ") + patKey(pats)
	// recompute hasBV: free bound vars other than vv
	inner := map[int]bool{}
	for _, v := range vv {
		inner[v.id] = true
	}
	t.hasBV = false
	for id := range freeBVars(body) {
		if !inner[id] {
			t.hasBV = true
		}
	}
	bvMu.Lock()
	quantVars[t.id] = vv
	bvMu.Unlock()
	return t
}

// goodPats leaves out patterns with logical connectives, which solvers do not accept.
func goodPats(pats [][]*T) [][]*T {
	var out [][]*T
	for _, p := range pats {
		ok := true
		for _, x := range p {
			if !patOK(x, map[int]bool{}) {
				ok = false
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

func patOK(t *T, seen map[int]bool) bool {
	if seen[t.id] {
		return true
	}
	seen[t.id] = true
	switch t.op {
	case "and", "or", "not", "=>", "ite", "=", "<", "<=", "forall", "exists":
		return !t.hasBV && len(seen) > 1
	}
	for _, a := range t.args {
		if t.hasBV && !patOK(a, seen) {
			return false
		}
	}
	return true
}

func patKey(pats [][]*T) string {
	if len(pats) == 0 {
		return ""
	}
	var sb strings.Builder
	sb.WriteString("\x00")
	for _, p := range pats {
		for _, x := range p {
			fmt.Fprintf(&sb, "%d,", x.id)
		}
		sb.WriteString(";")
	}
	return sb.String()
}

var quantVars = map[int][]*T{}
var bvMu sync.Mutex

func collectBVars(t *T, used map[int]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "bvar" {
		used[t.id] = true
	}
	for _, a := range t.args {
		collectBVars(a, used, seen)
	}
}

func freeBVars(t *T) map[int]bool {
	res := map[int]bool{}
	var rec func(t *T, bound map[int]bool)
	rec = func(t *T, bound map[int]bool) {
		if !t.hasBV {
			return
		}
		if t.op == "bvar" {
			if !bound[t.id] {
				res[t.id] = true
			}
			return
		}
		if t.op == "forall" || t.op == "exists" {
			nb := map[int]bool{}
			for k := range bound {
				nb[k] = true
			}
			bvMu.Lock()
			qv := quantVars[t.id]
			bvMu.Unlock()
			for _, v := range qv {
				nb[v.id] = true
			}
			rec(t.args[0], nb)
			return
		}
		for _, a := range t.args {
			rec(a, bound)
		}
	}
	rec(t, map[int]bool{})
	return res
}

// Subst replaces terms by id.
func Subst(t *T, m map[int]*T) *T {
	cache := map[int]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t.id]; ok {
			return r
		}
		changed := false
		na := make([]*T, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = rebuild(t, na)
			if t.op == "forall" || t.op == "exists" {
				var pats [][]*T
				for _, p := range t.pats {
					var np []*T
					for _, x := range p {
						np = append(np, rec(x))
					}
					pats = append(pats, np)
				}
				bvMu.Lock()
				qv := quantVars[t.id]
				bvMu.Unlock()
				r = quant(t.op, qv, na[0], pats...)
			}
		}
		cache[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *T, a []*T) *T {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		if t.sort == "Int" {
			return Add(a[0], a[1])
		}
	case "-":
		if t.sort == "Int" {
			return Sub(a[0], a[1])
		}
	case "*":
		if t.sort == "Int" {
			return Mul(a[0], a[1])
		}
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	}
	return mk(t.op, t.name, t.sort, a...)
}

// ---- printing ----

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, c := range []byte(s) {
		if c == '"' {
			sb.WriteString("\"\"")
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&sb, "\\u{%x}", c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func litText(t *T) string {
	switch t.sort {
	case "String":
		return smtStr(t.name)
	case "Int", "Real":
		n := t.name
		if strings.Contains(n, "/") {
			p := strings.SplitN(n, "/", 2)
			neg := strings.HasPrefix(p[0], "-")
			x := fmt.Sprintf("(/ %s.0 %s.0)", strings.TrimPrefix(p[0], "-"), p[1])
			if neg {
				return "(- " + x + ")"
			}
			return x
		}
		if strings.HasPrefix(n, "-") {
			return "(- " + n[1:] + ")"
		}
		return n
	}
	return t.name
}

func (t *T) String() string {
	var sb strings.Builder
	writeTerm(&sb, t, nil, 0)
	s := sb.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func symText(n string) string {
	return "|" + n + "|"
}

func writeTerm(sb *strings.Builder, t *T, named map[int]bool, depth int) {
	if named != nil && named[t.id] && depth > 0 {
		fmt.Fprintf(sb, "n%d", t.id)
		return
	}
	if named == nil && sb.Len() > 5000 {
		sb.WriteString("..")
		return
	}
	switch t.op {
	case "var", "bvar":
		sb.WriteString(symText(t.name))
	case "lit":
		sb.WriteString(litText(t))
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		writeTerm(sb, t.args[0], named, depth+1)
		sb.WriteByte(')')
	case "forall", "exists":
		nm := t.name
		if i := strings.IndexByte(nm, 0); i >= 0 {
			nm = nm[:i]
		}
		fmt.Fprintf(sb, "(%s (%s) ", t.op, nm)
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.args[0], named, depth+1)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					writeTerm(sb, x, named, depth+1)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteByte(')')
	default:
		if len(t.args) == 0 {
			sb.WriteString(t.op)
			return
		}
		if strings.HasPrefix(t.op, "is-") {
			fmt.Fprintf(sb, "((_ is %s)", t.op[3:])
		} else {
			sb.WriteByte('(')
			sb.WriteString(t.op)
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			writeTerm(sb, a, named, depth+1)
		}
		sb.WriteByte(')')
	}
}

// Script accumulates declarations and definitions for a query.
type Script struct {
	sb       strings.Builder
	declared map[int]bool
	defined  map[int]bool
	funs     map[string]bool
	vars     []*T
}

func newScript() *Script {
	return &Script{declared: map[int]bool{}, defined: map[int]bool{}, funs: map[string]bool{}}
}

// prepare emits declarations and shared definitions needed to print ts.
func (s *Script) prepare(ts []*T) {
	cnt := map[int]int{}
	var order []*T
	seen := map[int]bool{}
	var visit func(t *T)
	visit = func(t *T) {
		cnt[t.id]++
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				visit(x)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		visit(t)
	}
	for _, t := range order {
		if t.op == "var" && !s.declared[t.id] {
			s.declared[t.id] = true
			s.vars = append(s.vars, t)
			fmt.Fprintf(&s.sb, "(declare-const %s %s)\n", symText(t.name), t.sort)
		}
		if t.op != "var" && t.op != "bvar" && t.op != "lit" {
			s.funs[t.op] = true
		}
	}
	for _, t := range order {
		if len(t.args) > 0 && !t.hasBV && cnt[t.id] > 1 && !s.defined[t.id] {
			fmt.Fprintf(&s.sb, "(define-fun n%d () %s ", t.id, t.sort)
			writeTerm(&s.sb, t, s.defined, 0)
			s.sb.WriteString(")\n")
			s.defined[t.id] = true
		}
	}
}

func (s *Script) assert(t *T) {
	s.sb.WriteString("(assert ")
	writeTerm(&s.sb, t, s.defined, 1)
	s.sb.WriteString(")\n")
}

func symbolsOf(ts []*T) map[string]bool {
	res := map[string]bool{}
	seen := map[int]bool{}
	var visit func(t *T)
	visit = func(t *T) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.op {
		case "var":
			res["var:"+t.name] = true
		case "bvar", "lit":
		default:
			res[t.op] = true
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range ts {
		visit(t)
	}
	return res
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func containsVar(t *T, set map[int]bool, cache map[int]bool) bool {
	if r, ok := cache[t.id]; ok {
		return r
	}
	r := set[t.id]
	if !r {
		for _, a := range t.args {
			if containsVar(a, set, cache) {
				r = true
				break
			}
		}
	}
	cache[t.id] = r
	return r
}

// rebaseVars changes an index variable j that is only used with an offset, a[c+j], to k = c+j,
// so that a[k] can serve as a trigger.
func rebaseVars(vs []*T, body *T) ([]*T, *T) {
	out := append([]*T(nil), vs...)
	for vi, v := range vs {
		if v.sort != "Int" {
			continue
		}
		plain := false
		var off *T
		seen := map[int]bool{}
		var visit func(t *T)
		visit = func(t *T) {
			if seen[t.id] || !t.hasBV || plain {
				return
			}
			seen[t.id] = true
			if t.op == "select" {
				ix := t.args[1]
				if ix == v {
					plain = true
					return
				}
				if ix.op == "+" {
					var rest []*T
					n := 0
					for _, a := range ix.args {
						if a == v {
							n++
						} else {
							rest = append(rest, a)
						}
					}
					if n == 1 && off == nil {
						ok := true
						var r *T
						for _, a := range rest {
							if a.hasBV {
								ok = false
							}
							if r == nil {
								r = a
							} else {
								r = Add(r, a)
							}
						}
						if ok && r != nil && r.big == nil {
							off = r
						}
					}
				}
			}
			for _, a := range t.args {
				visit(a)
			}
		}
		visit(body)
		if plain || off == nil {
			continue
		}
		k := BVar("x", "Int")
		nb := Subst(body, map[int]*T{v.id: Sub(k, off)})
		out[vi], body = k, nb
	}
	return out, body
}
