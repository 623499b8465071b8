package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- contracts ----

type specErr struct{ msg string }

func sfail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

type Clause struct {
	assumed bool // applied at calls, never checked; reported as an assumption
	label string
	props map[string]bool
	expr  ast.Expr
	src   string
	where string
}

func (c *Clause) forProp(p string) bool { return c.props == nil || c.props[p] }

type LoopTmpl struct {
	cl      *Clause
	binders []binder
}
// a binder marked var stands for values the loop changes only
type binder struct {
	name, typ string
	isVar     bool
}

type Contract struct {
	name     string
	iface    bool
	params   []string
	results  []string
	requires []*Clause
	ensures  []*Clause
	modifies []*Clause
	tasks    []*Clause // hold when a goroutine started by the function ends
	closures []*Clause // function values of the result that implement a hook
	modAll   bool
	loops    []*LoopTmpl
	safety   map[string]bool
	applyFor map[string]bool // nil: every property
	noapply  bool
	only     string
	home     string // the property whose check discharges this contract
	optional bool
	impls    []string
	noinline map[string]bool
	pure     bool
	where    string
}

type chanInvT struct {
	v       string
	typ     string
	clauses []*Clause
}

type macro struct {
	params []string
	body   ast.Expr
	src    string
}
type ufDecl struct {
	args []string
	ret  string
}
type Lemma struct {
	cl    *Clause
	heaps bool
}

type Specs struct {
	contracts map[string]*Contract
	order     []string
	macros    map[string]*macro
	ufs       map[string]ufDecl
	chans     []*chanInvT
	lemmas    []*Clause
	axioms    []*Clause
	axTrig    map[*Clause][]string
	recs      map[string]*macro
}

func newSpecs() *Specs {
	return &Specs{contracts: map[string]*Contract{}, macros: map[string]*macro{}, ufs: map[string]ufDecl{}, axTrig: map[*Clause][]string{}, recs: map[string]*macro{}}
}

func (s *Specs) chanInv(ex *Exec, el types.Type) *chanInvT {
	for _, c := range s.chans {
		t := ex.prog.lookupType(c.typ)
		if t != nil && types.Identical(t, el) {
			return c
		}
	}
	return nil
}

var funcRe = regexp.MustCompile(`^((?:\(\*?[\w./]+\)\.)?[\w./$]+(?:@\w+)?)\(([^)]*)\)\s*(?:\(([^)]*)\))?$`)
var propRe = regexp.MustCompile(`^C[0-9][0-9]$`)
var clauseRe = regexp.MustCompile(`^(requires|ensures|closure|task|assume|lemma|axiom|loop|inv|modifies)(?:\[([^\]]*)\])?\s*(.*)$`)

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func propSet(s string) map[string]bool {
	if strings.TrimSpace(s) == "" || strings.TrimSpace(s) == "*" {
		return nil
	}
	m := map[string]bool{}
	for _, x := range strings.Fields(strings.ReplaceAll(s, ",", " ")) {
		if !propRe.MatchString(x) {
			panic("bad property name in contracts: " + x)
		}
		m[x] = true
	}
	return m
}

func mustParse(src, where string) ast.Expr {
	e, err := parser.ParseExpr(src)
	if err != nil {
		fmt.Fprintf(os.Stderr, "%s: cannot parse %q: %v\n", where, src, err)
		os.Exit(2)
	}
	return e
}

// labelled splits "label: expr".
func labelled(s string) (string, string) {
	// the label ends at the first ':' followed by a space that is outside of quotes and parentheses
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case '"':
			return "", s
		case ':':
			if depth == 0 {
				return strings.TrimSpace(s[:i]), strings.TrimSpace(s[i+1:])
			}
		}
	}
	return "", s
}

func loadSpecs(dir string) *Specs {
	sp := newSpecs()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		sp.load(f)
	}
	return sp
}

func (sp *Specs) load(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	type item struct {
		ind   int
		text  string
		where string
	}
	var items []item
	for n, line := range strings.Split(string(b), "\n") {
		if i := strings.Index(line, " #"); i >= 0 {
			line = line[:i]
		}
		if strings.HasPrefix(line, "#") || strings.TrimSpace(line) == "" {
			continue
		}
		ind := len(line) - len(strings.TrimLeft(line, " "))
		t := strings.TrimSpace(line)
		if ind >= 4 && len(items) > 0 {
			items[len(items)-1].text += " " + t
			continue
		}
		items = append(items, item{ind, t, fmt.Sprintf("%s:%d", filepath.Base(file), n+1)})
	}
	var cur *Contract
	var curChan *chanInvT
	die := func(it item, msg string) {
		fmt.Fprintf(os.Stderr, "%s: %s: %s\n", it.where, msg, it.text)
		os.Exit(2)
	}
	for _, it := range items {
		if it.ind == 0 {
			cur, curChan = nil, nil
			kw, rest, _ := strings.Cut(it.text, " ")
			rest = strings.TrimSpace(rest)
			if i := strings.IndexByte(kw, '['); i >= 0 {
				rest = kw[i:] + " " + rest
				kw = kw[:i]
			}
			switch kw {
			case "def", "rec":
				i := strings.IndexByte(rest, '=')
				j := strings.IndexByte(rest, '(')
				k := strings.IndexByte(rest, ')')
				if j < 0 || j > i || k > i {
					die(it, "bad def")
				}
				name := strings.TrimSpace(rest[:j])
				m := &macro{params: splitNames(rest[j+1 : k]), src: rest[i+1:]}
				m.body = mustParse(m.src, it.where)
				if kw == "def" {
					sp.macros[name] = m
				} else {
					sp.recs[name] = m
					var as []string
					for _, p := range m.params {
						_, s, ok := strings.Cut(p, " ")
						if !ok {
							s = "Int"
						}
						as = append(as, sortName(s))
					}
					ret := strings.TrimSpace(rest[k+1 : i])
					sp.ufs[name] = ufDecl{as, sortName(ret)}
				}
			case "uf":
				j := strings.IndexByte(rest, '(')
				k := strings.IndexByte(rest, ')')
				var as []string
				for _, a := range splitNames(rest[j+1 : k]) {
					as = append(as, sortName(a))
				}
				sp.ufs[strings.TrimSpace(rest[:j])] = ufDecl{as, sortName(strings.TrimSpace(rest[k+1:]))}
			case "lemma", "axiom":
				m := clauseRe.FindStringSubmatch(kw + rest)
				if !strings.HasPrefix(rest, "[") {
					m = clauseRe.FindStringSubmatch(kw + " " + rest)
				}
				if m == nil {
					die(it, "bad lemma")
				}
				l, src := labelled(m[3])
				c := &Clause{label: l, src: src, expr: mustParse(src, it.where), where: it.where}
				if kw == "lemma" {
					c.props = propSet(m[2])
					sp.lemmas = append(sp.lemmas, c)
				} else {
					sp.axTrig[c] = splitNames(m[2])
					sp.axioms = append(sp.axioms, c)
				}
			case "chaninv":
				// chaninv TYPE (x)
				i := strings.IndexByte(rest, '(')
				curChan = &chanInvT{typ: strings.TrimSpace(rest[:i]), v: strings.Trim(rest[i:], "() :")}
				sp.chans = append(sp.chans, curChan)
			case "func", "iface":
				m := funcRe.FindStringSubmatch(rest)
				if m == nil {
					die(it, "bad function header")
				}
				cur = &Contract{name: m[1], params: splitNames(m[2]), results: splitNames(m[3]), iface: kw == "iface", noapply: true, safety: map[string]bool{}, where: it.where}
				if sp.contracts[m[1]] != nil {
					die(it, "duplicate contract")
				}
				sp.contracts[m[1]] = cur
				sp.order = append(sp.order, m[1])
			default:
				die(it, "unknown item")
			}
			continue
		}
		if curChan != nil {
			m := clauseRe.FindStringSubmatch(it.text)
			if m == nil || m[1] != "inv" {
				die(it, "bad channel invariant")
			}
			l, src := labelled(m[3])
			curChan.clauses = append(curChan.clauses, &Clause{label: l, props: propSet(m[2]), src: src, expr: mustParse(src, it.where), where: it.where})
			continue
		}
		if cur == nil {
			die(it, "clause outside of a contract")
		}
		kw, rest, _ := strings.Cut(it.text, " ")
		rest = strings.TrimSpace(rest)
		switch kw {
		case "safety":
			for _, p := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				cur.safety[p] = true
			}
			continue
		case "apply":
			cur.noapply = false
			if rest != "*" {
				cur.applyFor = map[string]bool{}
				for _, p := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
					cur.applyFor[p] = true
				}
			}
			continue
		case "optional":
			cur.optional = true
			continue
		case "only": // verify only the goroutines it starts (tasks) or only its own body
			cur.only = rest
			continue
		case "home":
			cur.home = rest
			continue
		case "impl":
			cur.impls = strings.Fields(rest)
			continue
		}
		m := clauseRe.FindStringSubmatch(it.text)
		if m == nil {
			die(it, "bad clause")
		}
		switch m[1] {
		case "requires", "ensures", "assume":
			l, src := labelled(m[3])
			c := &Clause{label: l, props: propSet(m[2]), src: src, expr: mustParse(src, it.where), where: it.where}
			if m[1] == "requires" {
				cur.requires = append(cur.requires, c)
			} else {
				c.assumed = m[1] == "assume"
				cur.ensures = append(cur.ensures, c)
			}
		case "task":
			l, src := labelled(m[3])
			cur.tasks = append(cur.tasks, &Clause{label: l, props: propSet(m[2]), src: src, expr: mustParse(src, it.where), where: it.where})
		case "closure":
			l, src := labelled(m[3])
			cur.closures = append(cur.closures, &Clause{label: l, props: propSet(m[2]), src: src, expr: mustParse(src, it.where), where: it.where})
		case "modifies":
			if m[3] == "nothing" {
				continue
			}
			if m[3] == "*" {
				cur.modAll = true
				continue
			}
			for _, x := range splitTop(m[3]) {
				cur.modifies = append(cur.modifies, &Clause{label: x, props: propSet(m[2]), src: x, expr: mustParse(x, it.where), where: it.where})
			}
		case "loop":
			rest := m[3]
			t := &LoopTmpl{}
			if strings.HasPrefix(rest, "(") {
				i := strings.IndexByte(rest, ')')
				for _, b := range splitNames(rest[1:i]) {
					b = strings.TrimSpace(b)
					isVar := strings.HasPrefix(b, "var ")
					n, ty, _ := strings.Cut(strings.TrimSpace(strings.TrimPrefix(b, "var ")), " ")
					t.binders = append(t.binders, binder{n, strings.TrimSpace(ty), isVar})
				}
				rest = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[i+1:]), ":"))
			}
			l, src := labelled(rest)
			if l == "" {
				l = src
			}
			t.cl = &Clause{label: l, props: propSet(m[2]), src: src, expr: mustParse(src, it.where), where: it.where}
			cur.loops = append(cur.loops, t)
		default:
			die(it, "bad clause")
		}
	}
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if x := strings.TrimSpace(s[st:]); x != "" {
		out = append(out, x)
	}
	return out
}

func sortName(s string) string {
	switch strings.ToLower(strings.TrimSpace(s)) {
	case "bool":
		return "Bool"
	case "real":
		return "Real"
	case "arr":
		return "(Array Int Int)"
	case "arrr":
		return "(Array Int Real)"
	case "arrb":
		return "(Array Int Bool)"
	}
	return "Int"
}

// ---- spec values ----

// SV is a value in a specification; t is nil for values of the logic.
type SV struct {
	v Val
	t types.Type
}

// LocV is a memory location holding a struct or container.
type LocV struct{ p *PtrV }

type nilV struct{}

type SpecCtx struct {
	ex     *Exec
	st     *State
	h      *Heap
	old    *Heap
	pre    *Heap
	oldCtr int64
	vars   map[string]SV
	it     *T
	loop   *LoopDesc
	depth  int
}

func (ex *Exec) specCtx(st *State, vars map[string]SV) *SpecCtx {
	c := &SpecCtx{ex: ex, st: st, h: st.h, old: st.old, oldCtr: st.oldCtr, vars: map[string]SV{}}
	for k, v := range vars {
		c.vars[k] = v
	}
	return c
}

func (c *SpecCtx) boolExpr(cl *Clause) *T {
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(specErr); ok {
				panic(specErr{cl.where + ": " + se.msg})
			}
			panic(e)
		}
	}()
	return c.bool(cl.expr)
}

func (c *SpecCtx) bool(e ast.Expr) *T {
	v := c.eval(e)
	t, ok := v.v.(*T)
	if !ok || t.sort != "Bool" {
		sfail("not a boolean: %s", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func logic(t *T) SV { return SV{t, nil} }

func (c *SpecCtx) with(h *Heap) *SpecCtx {
	n := *c
	n.h = h
	return &n
}

func (c *SpecCtx) load(p *PtrV) SV {
	return SV{build(loadFrom(c.h, p), p.typ), p.typ}
}

func (c *SpecCtx) term(e ast.Expr) *T { return c.asTerm(c.eval(e), e) }

func (c *SpecCtx) asTerm(v SV, e ast.Expr) *T {
	switch x := v.v.(type) {
	case *T:
		return x
	case *PtrV:
		return flatten(x, nil)[0]
	case nilV:
		return IntL(0)
	case *IfaceV:
		return x.pay
	case *SliceV:
		return x.ref
	case *LocV:
		if isOpaque(x.p.typ) {
			return flatten(c.load(x.p).v, x.p.typ)[0]
		}
		return x.p.ref
	}
	sfail("not a scalar: %s (%T)", exprStr(e), v.v)
	return nil
}

func (c *SpecCtx) eval(e ast.Expr) SV {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.eval(x.X)
	case *ast.Ident:
		if v, ok := c.vars[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return logic(True)
		case "false":
			return logic(False)
		case "nil":
			return SV{nilV{}, nil}
		case "it":
			if c.it == nil {
				sfail("it outside of a loop")
			}
			return logic(c.it)
		}
		sfail("unknown name %s", x.Name)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			b, _ := new(big.Int).SetString(x.Value, 0)
			return logic(IntB(b))
		case token.FLOAT:
			v := constant.MakeFromLiteral(x.Value, token.FLOAT, 0)
			return logic(realConst(v))
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return SV{StrL(s), strType}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(strings.Trim(x.Value, "'"), '\'')
			return logic(IntL(int64(r)))
		}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return logic(Not(c.bool(x.X)))
		case token.SUB:
			t := c.term(x.X)
			if t.sort == "Real" {
				return logic(Sub(RealL("0"), t))
			}
			return logic(Sub(IntL(0), t))
		}
	case *ast.StarExpr:
		v := c.eval(x.X)
		if p, ok := v.v.(*PtrV); ok {
			return c.loc(p)
		}
		sfail("dereference of %s", exprStr(x.X))
	case *ast.BinaryExpr:
		return c.binary(x)
	case *ast.SelectorExpr:
		return c.selector(x)
	case *ast.IndexExpr:
		v := c.eval(x.X)
		i := c.term(x.Index)
		switch s := v.v.(type) {
		case *SliceV:
			return c.loc(&PtrV{ref: s.ref, key: elemKey(s.elem), idx: Add(s.off, i), typ: s.elem})
		case *T:
			if v.t != nil {
				if mt, ok := v.t.Underlying().(*types.Map); ok {
					return SV{build(mapVal(c.h, mt, s, i), mt.Elem()), mt.Elem()}
				}
			}
			if strings.HasPrefix(s.sort, "(Array") {
				return logic(Select(s, i))
			}
		}
		sfail("index of %s", exprStr(x.X))
	case *ast.CallExpr:
		return c.call(x)
	}
	sfail("expression %s", exprStr(e))
	return SV{}
}

// loc: value at a location; structs stay locations.
func (c *SpecCtx) loc(p *PtrV) SV {
	if _, ok := p.typ.Underlying().(*types.Struct); ok || isOpaque(p.typ) {
		if named(p.typ) == "time.Time" {
			return c.load(p)
		}
		return SV{&LocV{p}, p.typ}
	}
	if _, ok := p.typ.Underlying().(*types.Array); ok {
		return SV{&LocV{p}, p.typ}
	}
	return c.load(p)
}

func (c *SpecCtx) field(v SV, name string) SV {
	switch x := v.v.(type) {
	case *PtrV:
		return c.fieldOf(x, name)
	case *LocV:
		return c.fieldOf(x.p, name)
	case *StructV:
		u := x.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return SV{x.f[i], u.Field(i).Type()}
			}
		}
		sfail("no field %s", name)
	}
	sfail("field %s of %T", name, v.v)
	return SV{}
}

func (c *SpecCtx) fieldOf(p *PtrV, name string) SV {
	obj, index, _ := types.LookupFieldOrMethod(p.typ, true, nil, name)
	u, ok := p.typ.Underlying().(*types.Struct)
	if !ok {
		sfail("field %s of non struct %s", name, p.typ)
	}
	if obj == nil {
		// unexported
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				index = []int{i}
			}
		}
		if index == nil {
			sfail("no field %s in %s", name, p.typ)
		}
	}
	cur := p
	for k, i := range index {
		u, ok := cur.typ.Underlying().(*types.Struct)
		if !ok {
			sfail("embedded pointer in %s", p.typ)
		}
		f := u.Field(i)
		np := &PtrV{ref: cur.ref, key: cur.key + "." + f.Name(), idx: cur.idx, typ: f.Type()}
		if k == len(index)-1 {
			return c.loc(np)
		}
		if pt, ok := f.Type().Underlying().(*types.Pointer); ok {
			r := loadFrom(c.h, np)[0]
			cur = mkPtr(r, pt.Elem())
			continue
		}
		cur = np
	}
	return SV{}
}

func (c *SpecCtx) pkg(name string) *types.Package {
	if name == "pb" {
		name = "veriservice"
	}
	if p := c.ex.prog.pkgs[name]; p != nil {
		return p.Pkg
	}
	for sp, p := range c.ex.prog.pkgs {
		if strings.HasSuffix(sp, "/"+name) {
			return p.Pkg
		}
	}
	for _, p := range c.ex.prog.pkgs {
		for _, i := range p.Pkg.Imports() {
			if i.Name() == name || i.Path() == name {
				return i
			}
		}
	}
	return nil
}

func (c *SpecCtx) selector(x *ast.SelectorExpr) SV {
	if id, ok := x.X.(*ast.Ident); ok {
		if _, bound := c.vars[id.Name]; !bound {
			if p := c.pkg(id.Name); p != nil {
				o := p.Scope().Lookup(x.Sel.Name)
				switch o := o.(type) {
				case *types.Const:
					switch o.Val().Kind() {
					case constant.Int:
						b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
						return SV{IntB(b), o.Type()}
					case constant.Float:
						return SV{realConst(o.Val()), o.Type()}
					case constant.String:
						return SV{StrL(constant.StringVal(o.Val())), o.Type()}
					case constant.Bool:
						return SV{BoolL(constant.BoolVal(o.Val())), o.Type()}
					}
				case *types.Var:
					ref := globalRef(o.Pkg().Path() + "." + o.Name())
					return c.loc(&PtrV{ref: ref, key: rootKey(o.Type()), typ: o.Type()})
				case *types.Func:
					if f := c.ex.prog.ssa.FuncValue(o); f != nil {
						return SV{funcRef(f), o.Type()}
					}
				}
				sfail("unknown %s.%s", id.Name, x.Sel.Name)
			}
		}
	}
	return c.field(c.eval(x.X), x.Sel.Name)
}

func coerce(a, b *T) (*T, *T) {
	if a.sort == "Real" && b.sort == "Int" {
		return a, toReal(b)
	}
	if b.sort == "Real" && a.sort == "Int" {
		return toReal(a), b
	}
	return a, b
}

func toReal(a *T) *T {
	if a.big != nil {
		return RealL(a.big.String())
	}
	return ToReal(a)
}

func concatPure(a, b *T) *T {
	la, oka := litStr(a)
	lb, okb := litStr(b)
	switch {
	case oka && okb:
		return StrL(la + lb)
	case oka && la == "":
		return b
	case okb && lb == "":
		return a
	}
	return UF("concat", "Int", a, b)
}

func (c *SpecCtx) binary(x *ast.BinaryExpr) SV {
	switch x.Op {
	case token.LAND:
		return logic(And(c.bool(x.X), c.bool(x.Y)))
	case token.LOR:
		return logic(Or(c.bool(x.X), c.bool(x.Y)))
	case token.EQL, token.NEQ:
		a, b := c.eval(x.X), c.eval(x.Y)
		e := c.eq(a, b, x)
		if x.Op == token.NEQ {
			e = Not(e)
		}
		return logic(e)
	}
	va, vb := c.eval(x.X), c.eval(x.Y)
	a, b := c.asTerm(va, x.X), c.asTerm(vb, x.Y)
	str := va.t != nil && isStringType(va.t) || vb.t != nil && isStringType(vb.t)
	if str {
		switch x.Op {
		case token.ADD:
			return SV{concatPure(a, b), strType}
		case token.LSS:
			return logic(UF("strless", "Bool", a, b))
		}
		sfail("string operator %s", x.Op)
	}
	a, b = coerce(a, b)
	switch x.Op {
	case token.ADD:
		return logic(Add(a, b))
	case token.SUB:
		return logic(Sub(a, b))
	case token.MUL:
		return logic(Mul(a, b))
	case token.QUO:
		if a.sort == "Real" {
			return logic(App("/", "Real", a, b))
		}
		return logic(Div(a, b))
	case token.REM:
		return logic(Mod(a, b))
	case token.LSS:
		return logic(Lt(a, b))
	case token.LEQ:
		return logic(Le(a, b))
	case token.GTR:
		return logic(Gt(a, b))
	case token.GEQ:
		return logic(Ge(a, b))
	}
	sfail("operator %s", x.Op)
	return SV{}
}

func (c *SpecCtx) eq(a, b SV, x ast.Expr) *T {
	if _, ok := a.v.(nilV); ok {
		a, b = b, a
	}
	if l, ok := a.v.(*LocV); ok {
		a = c.load(l.p)
	}
	if l, ok := b.v.(*LocV); ok {
		b = c.load(l.p)
	}
	if _, ok := b.v.(nilV); ok {
		switch v := a.v.(type) {
		case *PtrV:
			if !v.plain() {
				return False
			}
			return Eq(v.ref, IntL(0))
		case *SliceV:
			return Eq(v.ref, IntL(0))
		case *IfaceV:
			return Eq(v.tag, IntL(0))
		case *T:
			return Eq(v, IntL(0))
		case nilV:
			return True
		}
		sfail("comparison with nil: %s", exprStr(x))
	}
	switch v := a.v.(type) {
	case *T:
		if w, ok := b.v.(*T); ok {
			p, q := coerce(v, w)
			if p.sort != q.sort {
				sfail("comparison of different sorts: %s", exprStr(x))
			}
			return Eq(p, q)
		}
		if w, ok := b.v.(*PtrV); ok {
			return Eq(v, flatten(w, nil)[0])
		}
	case *SliceV:
		if w, ok := b.v.(*SliceV); ok {
			return And(Eq(v.ref, w.ref), Eq(v.off, w.off), Eq(v.ln, w.ln))
		}
	case *PtrV:
		if w, ok := b.v.(*T); ok {
			return Eq(w, flatten(v, nil)[0])
		}
	}
	return c.ex.equal(c.st, a.v, b.v, a.t, b.t)
}

func (c *SpecCtx) typ(name string) types.Type {
	t := c.ex.prog.lookupType(name)
	if t == nil {
		sfail("unknown type %s", name)
	}
	return t
}

func strArg(e ast.Expr) string {
	if l, ok := e.(*ast.BasicLit); ok && l.Kind == token.STRING {
		s, _ := strconv.Unquote(l.Value)
		return s
	}
	sfail("string literal expected: %s", exprStr(e))
	return ""
}

func (c *SpecCtx) sliceArg(e ast.Expr) *SliceV {
	v := c.eval(e)
	if l, ok := v.v.(*LocV); ok {
		v = c.load(l.p)
	}
	s, ok := v.v.(*SliceV)
	if !ok {
		sfail("slice expected: %s", exprStr(e))
	}
	return s
}

func (c *SpecCtx) bind(name string, v SV) *SpecCtx {
	n := *c
	n.vars = make(map[string]SV, len(c.vars)+1)
	for k, x := range c.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (c *SpecCtx) container(e ast.Expr) (kind string, key string, ref *T, mt *types.Map) {
	v := c.eval(e)
	switch x := v.v.(type) {
	case *LocV:
		if named(x.p.typ) == "sync.Map" {
			return "sm", x.p.key, x.p.ref, nil
		}
	case *PtrV:
		n := named(x.typ)
		if n == "github.com/bgokden/go-cache.Cache" {
			return "gc", "GC", x.ref, nil
		}
		if n == "sync.Map" {
			return "sm", x.key, x.ref, nil
		}
	case *T:
		if v.t != nil {
			if mt, ok := v.t.Underlying().(*types.Map); ok {
				return "m", mapKey(mt), x, mt
			}
		}
	}
	sfail("not a container: %s (%T)", exprStr(e), v.v)
	return
}

func (c *SpecCtx) chanArg(e ast.Expr) (*T, types.Type) {
	v := c.eval(e)
	t, ok := v.v.(*T)
	if !ok || v.t == nil {
		sfail("channel expected: %s", exprStr(e))
	}
	ct, ok := v.t.Underlying().(*types.Chan)
	if !ok {
		sfail("channel expected: %s", exprStr(e))
	}
	return t, ct.Elem()
}

func (c *SpecCtx) call(x *ast.CallExpr) SV {
	if s, ok := x.Fun.(*ast.SelectorExpr); ok {
		n := s.Sel.Name
		if strings.HasPrefix(n, "Get") && len(x.Args) == 0 {
			recv := c.eval(s.X)
			p, ok := recv.v.(*PtrV)
			if !ok {
				sfail("getter on %s", exprStr(s.X))
			}
			f := c.fieldOf(p, n[3:])
			if l, ok := f.v.(*LocV); ok {
				f = c.load(l.p)
			}
			fs, zs := flatten(f.v, f.t), flatten(zeroVal(f.t), f.t)
			var rs []*T
			for i := range fs {
				rs = append(rs, Ite(Eq(p.ref, IntL(0)), zs[i], fs[i]))
			}
			return SV{build(rs, f.t), f.t}
		}
		sfail("call of %s", exprStr(x))
	}
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		sfail("call of %s", exprStr(x))
	}
	arg := func(i int) ast.Expr {
		if i >= len(x.Args) {
			sfail("missing argument in %s", exprStr(x))
		}
		return x.Args[i]
	}
	h := c.h
	switch id.Name {
	case "forall", "exists":
		// forall(i, lo, hi, body)
		n := arg(0).(*ast.Ident).Name
		b := BVar(n, "Int")
		lo, hi := c.term(arg(1)), c.term(arg(2))
		body := c.bind(n, logic(b)).bool(arg(3))
		g := And(Le(lo, b), Lt(b, hi))
		if id.Name == "exists" {
			return logic(Exists([]*T{b}, And(g, body)))
		}
		return logic(Forall([]*T{b}, Imp(g, body)))
	case "all", "some":
		// all(x, "type", body)
		n := arg(0).(*ast.Ident).Name
		tn := strArg(arg(1))
		var sv SV
		var b *T
		switch tn {
		case "Int", "Real", "Bool":
			b = BVar(n, tn)
			sv = logic(b)
		default:
			t := c.typ(tn)
			ls := leaves(t)
			if len(ls) != 1 {
				sfail("quantification over %s", tn)
			}
			b = BVar(n, ls[0].sort)
			sv = SV{build([]*T{b}, t), t}
		}
		body := c.bind(n, sv).bool(arg(2))
		if id.Name == "some" {
			return logic(Exists([]*T{b}, body))
		}
		return logic(Forall([]*T{b}, body))
	case "let":
		n := arg(0).(*ast.Ident).Name
		return c.bind(n, c.eval(arg(1))).eval(arg(2))
	case "imp":
		a := c.bool(arg(0))
		if a == False {
			return logic(True)
		}
		return logic(Imp(a, c.bool(arg(1))))
	case "iff":
		return logic(Eq(c.bool(arg(0)), c.bool(arg(1))))
	case "ite":
		cc := c.bool(arg(0))
		a, b := c.eval(arg(1)), c.eval(arg(2))
		ta, oka := a.v.(*T)
		tb, okb := b.v.(*T)
		if oka && okb {
			ta, tb = coerce(ta, tb)
			t := a.t
			if t == nil {
				t = b.t
			}
			return SV{Ite(cc, ta, tb), t}
		}
		t := a.t
		if t == nil {
			t = b.t
		}
		fa, fb := flatten(a.v, t), flatten(b.v, t)
		var rs []*T
		for i := range fa {
			rs = append(rs, Ite(cc, fa[i], fb[i]))
		}
		return SV{build(rs, t), t}
	case "old":
		if c.old == nil {
			sfail("no old state")
		}
		return c.with(c.old).eval(arg(0))
	case "pre":
		if c.pre == nil {
			sfail("no loop entry state")
		}
		return c.with(c.pre).eval(arg(0))
	case "len":
		v := c.eval(arg(0))
		if l, ok := v.v.(*LocV); ok {
			v = c.load(l.p)
		}
		switch s := v.v.(type) {
		case *SliceV:
			return logic(s.ln)
		case *T:
			if v.t != nil && isStringType(v.t) {
				if l, ok := litStr(s); ok {
					return logic(IntL(int64(len(l))))
				}
				return logic(UF("strlen", "Int", s))
			}
			if v.t != nil {
				if mt, ok := v.t.Underlying().(*types.Map); ok {
					return logic(Ite(Eq(s, IntL(0)), IntL(0), Select(h.arr1(mapKey(mt)+"#n", "Int", ""), s)))
				}
			}
		}
		sfail("len of %s", exprStr(arg(0)))
	case "cap":
		return logic(c.sliceArg(arg(0)).cp)
	case "off":
		return logic(c.sliceArg(arg(0)).off)
	case "ref":
		v := c.eval(arg(0))
		switch s := v.v.(type) {
		case *SliceV:
			return logic(s.ref)
		case *PtrV:
			return logic(s.ref)
		case *LocV:
			return logic(s.p.ref)
		case *T:
			return logic(s)
		case *IfaceV:
			return logic(s.pay)
		}
	case "payload":
		v := c.eval(arg(0))
		if s, ok := v.v.(*IfaceV); ok {
			return logic(s.pay)
		}
		sfail("interface expected")
	case "tag":
		v := c.eval(arg(0))
		if s, ok := v.v.(*IfaceV); ok {
			return logic(s.tag)
		}
		sfail("interface expected")
	case "has":
		kind, key, ref, _ := c.container(arg(0))
		k := c.term(arg(1))
		_ = kind
		hs := Select(Select(h.arr2(key+"#has", "Bool", ""), ref), k)
		if kind == "m" {
			hs = And(Not(Eq(ref, IntL(0))), hs)
		}
		return logic(hs)
	case "get":
		kind, key, ref, mt := c.container(arg(0))
		k := c.term(arg(1))
		if kind == "m" {
			return SV{build(mapVal(h, mt, ref, k), mt.Elem()), mt.Elem()}
		}
		return SV{&IfaceV{Select(Select(h.arr2(key+"#t", "Int", "tag"), ref), k), Select(Select(h.arr2(key+"#v", "Int", "pay"), ref), k)}, types.NewInterfaceType(nil, nil)}
	case "row":
		// membership row of a container
		_, key, ref, _ := c.container(arg(0))
		return logic(Select(h.arr2(key+"#has", "Bool", ""), ref))
	case "expd":
		_, key, ref, _ := c.container(arg(0))
		return logic(Select(Select(h.arr2(key+"#exp", "Int", ""), ref), c.term(arg(1))))
	case "as":
		v := c.eval(arg(0))
		t := c.typ(strArg(arg(1)))
		i, ok := v.v.(*IfaceV)
		if !ok {
			if tt, ok := v.v.(*T); ok { // a bare reference
				return SV{build([]*T{tt}, t), t}
			}
			sfail("interface expected: %s", exprStr(arg(0)))
		}
		return SV{c.ex.unbox(c.st, h, i, t), t}
	case "typeis":
		v := c.eval(arg(0))
		i, ok := v.v.(*IfaceV)
		if !ok {
			sfail("interface expected: %s", exprStr(arg(0)))
		}
		return logic(Eq(i.tag, typeTag(c.typ(strArg(arg(1))))))
	case "errmsg":
		i, ok := c.eval(arg(0)).v.(*IfaceV)
		if !ok {
			sfail("error expected")
		}
		return SV{errMsg(i), strType}
	case "sent":
		ch, _ := c.chanArg(arg(0))
		return logic(Select(h.arr1("chan#n", "Int", ""), ch))
	case "received":
		ch, _ := c.chanArg(arg(0))
		return logic(Select(h.arr1("chan#rn", "Int", ""), ch))
	case "sentv":
		ch, el := c.chanArg(arg(0))
		return SV{build(chanElem(h, el, ch, c.term(arg(1))), el), el}
	case "closed":
		ch, _ := c.chanArg(arg(0))
		return logic(Select(h.arr1("chan#closed", "Bool", ""), ch))
	case "wgadd", "wgdone":
		return logic(Select(h.arr1("wg#"+id.Name[2:], "Int", ""), c.term(arg(0))))
	case "wglate":
		return logic(Select(h.arr1("wg#late", "Bool", ""), c.term(arg(0))))
	case "ghost":
		return logic(Select(h.arr1("G:"+strArg(arg(0)), "Int", ""), IntL(0)))
	case "ghostb":
		return logic(Select(h.arr1("G:"+strArg(arg(0)), "Bool", ""), IntL(0)))
	case "glog":
		return logic(Select(Select(h.arr2(strArg(arg(0)), "Int", ""), IntL(0)), c.term(arg(1))))
	case "glogb":
		return logic(Select(Select(h.arr2(strArg(arg(0)), "Bool", ""), IntL(0)), c.term(arg(1))))
	case "gattr": // attribute of an object: gattr("conn#addr", obj)
		return logic(Select(h.arr1(strArg(arg(0)), "Int", ""), c.term(arg(1))))
	case "gattrb":
		return logic(Select(h.arr1(strArg(arg(0)), "Bool", ""), c.term(arg(1))))
	case "gattr2":
		return logic(Select(Select(h.arr2(strArg(arg(0)), "Int", ""), c.term(arg(1))), c.term(arg(2))))
	case "gattr2b":
		return logic(Select(Select(h.arr2(strArg(arg(0)), "Bool", ""), c.term(arg(1))), c.term(arg(2))))
	case "vec":
		return logic(c.ex.vecTerm(h, c.sliceArg(arg(0))))
	case "bstr":
		s := c.sliceArg(arg(0))
		return SV{bstrTerm(c.ex.sliceRow(h, s), s.off, s.ln), strType}
	case "bstrn": // bytes [lo,hi) of a slice
		s := c.sliceArg(arg(0))
		lo, hi := c.term(arg(1)), c.term(arg(2))
		return SV{bstrTerm(c.ex.sliceRow(h, s), Add(s.off, lo), Sub(hi, lo)), strType}
	case "seqid":
		return logic(seqTerm(c.ex, h, c.sliceArg(arg(0))))
	case "member": // is the value an element of the slice?
		sl := c.sliceArg(arg(0))
		return logic(Select(UF("setof", "(Array Int Bool)", c.ex.sliceRow(h, sl), sl.off, sl.ln), c.term(arg(1))))
	case "msid":
		return logic(msTerm(c.ex, h, c.sliceArg(arg(0))))
	case "elems": // element row of a slice
		return logic(c.ex.sliceRow(h, c.sliceArg(arg(0))))
	case "score":
		return logic(applyScore(c.term(arg(0)), c.term(arg(1)), c.term(arg(2))))
	case "f32bits", "f64bits":
		return logic(UF(id.Name, "Int", c.term(arg(0))))
	case "fresh":
		return logic(Ge(c.term(arg(0)), IntL(c.oldCtr)))
	case "allocated": // existed when the function was entered
		return logic(Lt(c.term(arg(0)), IntL(c.oldCtr)))
	case "visited":
		if c.loop == nil || c.loop.visObj == nil {
			sfail("no iteration")
		}
		return logic(Select(Select(h.arr2(c.loop.visKey, "Bool", ""), c.loop.visObj), c.term(arg(0))))
	case "iterrow":
		if c.loop == nil || c.loop.mapRow == nil {
			sfail("no iteration")
		}
		return logic(Select(c.loop.mapRow(h), c.term(arg(0))))
	case "viscnt":
		if c.loop == nil || c.loop.visObj == nil {
			sfail("no iteration")
		}
		return logic(Select(h.arr1("viscnt", "Int", ""), c.loop.visObj))
	case "iface": // iface(x): boxed value
		v := c.eval(arg(0))
		return SV{c.ex.makeIface(c.st, v.v, v.t), types.NewInterfaceType(nil, nil)}
	case "contentid": // identity of the exported content of a struct
		p, ok := c.eval(arg(0)).v.(*PtrV)
		if !ok {
			sfail("pointer expected")
		}
		return logic(c.ex.jsonTerm(h, p))
	case "fadd", "fsub", "fmul", "fdiv":
		return logic(fop(id.Name, 64, c.term(arg(0)), c.term(arg(1))))
	case "fadd32", "fsub32", "fmul32", "fdiv32":
		return logic(UF(id.Name, "Real", c.term(arg(0)), c.term(arg(1))))
	case "real":
		return logic(toReal(c.term(arg(0))))
	case "pointer": // pointer("T", ref)
		t := c.typ("*" + strArg(arg(0)))
		return SV{build([]*T{c.term(arg(1))}, t), t}
	case "fref": // reference of a function by name
		f := c.ex.prog.fns[strArg(arg(0))]
		if f == nil {
			sfail("unknown function %s", strArg(arg(0)))
		}
		return logic(funcRef(f))
	case "distinct2":
		return logic(Not(Eq(c.term(arg(0)), c.term(arg(1)))))
	case "strof":
		return SV{c.term(arg(0)), strType}
	}
	sp := c.ex.prog.specs
	if m, ok := sp.macros[id.Name]; ok {
		if len(m.params) != len(x.Args) {
			sfail("macro %s wants %d arguments", id.Name, len(m.params))
		}
		if c.depth > 40 {
			sfail("macro recursion %s", id.Name)
		}
		n := *c
		n.depth++
		n.vars = map[string]SV{}
		for i, p := range m.params {
			n.vars[p] = c.eval(x.Args[i])
		}
		return n.eval(m.body)
	}
	if u, ok := sp.ufs[id.Name]; ok {
		if len(u.args) != len(x.Args) {
			sfail("%s wants %d arguments", id.Name, len(u.args))
		}
		var ts []*T
		for i, a := range x.Args {
			t := c.term(a)
			if u.args[i] == "Real" && t.sort == "Int" {
				t = toReal(t)
			}
			if t.sort != u.args[i] {
				sfail("argument %d of %s has sort %s", i, id.Name, t.sort)
			}
			ts = append(ts, t)
		}
		if len(ts) == 0 {
			return logic(Var("uf0:"+id.Name, u.ret))
		}
		return logic(UF(id.Name, u.ret, ts...))
	}
	sfail("unknown function %s", id.Name)
	return SV{}
}

// install registers axioms and recursive definitions.
func (sp *Specs) install(ex *Exec) {
	st := ex.blankState()
	for _, a := range sp.axioms {
		ctx := ex.specCtx(st, nil)
		addAxiom(a.label+a.where, ctx.boolExpr(a), sp.axTrig[a]...)
	}
	for name, m := range sp.recs {
		name, m := name, m
		ctx := ex.specCtx(st, nil)
		recDefs[name] = &recDef{name: name, unfold: func(app *T) *T {
			c := ctx
			for i, p := range m.params {
				pn, _, _ := strings.Cut(p, " ")
				c = c.bind(pn, logic(app.args[i]))
			}
			v := c.eval(m.body)
			t := v.v.(*T)
			a, b := coerce(app, t)
			return Eq(a, b)
		}}
	}
}

// ---- applying contracts ----

func (ex *Exec) applyContract(st *State, c *Contract, args []Val, sig *types.Signature, pos string, k func(*State, []Val)) bool {
	var as []SV
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(ts) == len(args)-1 { // interface method expressions
		ts = append([]types.Type{types.NewInterfaceType(nil, nil)}, ts...)
	}
	for i, a := range args {
		var t types.Type
		if i < len(ts) {
			t = ts[i]
		}
		as = append(as, SV{a, t})
	}
	ex.used[c.name] = true
	vars := map[string]SV{}
	for i, p := range c.params {
		if i < len(as) {
			vars[p] = as[i]
		}
	}
	// preconditions
	for _, r := range c.requires {
		if !r.forProp(ex.prop) {
			continue
		}
		ctx := ex.specCtx(st, vars)
		ctx.old = st.h
		ctx.oldCtr = st.ctr
		ex.oblige(st, "requires", "precondition of "+c.name+": "+r.label, ctx.boolExpr(r), pos)
	}
	old := st.h.clone()
	oldCtr := st.bumpAlloc()
	ex.havocMods(st, c, vars, old, oldCtr)
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := st.freshVal(fmt.Sprintf("%s.r%d", c.name, i), t)
		rs = append(rs, v)
		if i < len(c.results) {
			vars[c.results[i]] = SV{v, t}
		}
	}
	for _, e := range c.ensures {
		if !e.forProp(ex.prop) {
			continue
		}
		ctx := ex.specCtx(st, vars)
		ctx.old, ctx.oldCtr = old, oldCtr
		if e.assumed {
			ex.assumed[c.name+": "+e.label] = true
		}
		st.assume(ctx.boolExpr(e))
	}
	lastResult = rs
	return false
}

// applyHook applies the contract of a function value kept by a library (the New function
// of a pool, the loader of a cache).
func (ex *Exec) applyHook(st *State, c *Contract, args []SV, res []types.Type) []Val {
	ex.used[c.name] = true
	vars := map[string]SV{}
	for i, p := range c.params {
		if i < len(args) {
			vars[p] = args[i]
		}
	}
	old := st.h.clone()
	oldCtr := st.bumpAlloc()
	ex.havocMods(st, c, vars, old, oldCtr)
	var rs []Val
	for i, t := range res {
		v := st.freshVal(fmt.Sprintf("%s.r%d", c.name, i), t)
		rs = append(rs, v)
		if i < len(c.results) {
			vars[c.results[i]] = SV{v, t}
		}
	}
	for _, e := range c.ensures {
		if !e.forProp(ex.prop) {
			continue
		}
		ctx := ex.specCtx(st, vars)
		ctx.old, ctx.oldCtr = old, oldCtr
		st.assume(ctx.boolExpr(e))
	}
	return rs
}

// checkHook checks that a function value made here implements the contract of a hook, whatever
// the fields of objects that other functions assign hold when it is called.
func (ex *Exec) checkHook(st0 *State, f *T, c *Contract, args []SV, callArgs []Val, callTypes []types.Type, sig *types.Signature, pos string) {
	if f.big == nil {
		unsup("a function value for %s that is not known here", c.name)
	}
	ex.used[c.name] = true
	st := st0.clone()
	root := ex.root
	for _, k := range sortedKeys(st.h.m) {
		if strings.HasPrefix(k, "S:") && ex.prog.assignedOutside(k, root) {
			a, meta := st.h.m[k], keySort[k]
			nv := Fresh("hv:"+k, a.sort)
			registerBase(nv.name, a.sort, meta.kind, meta.typ, st.ctr)
			st.setHeap(k, nil, nil, nv)
		}
	}
	vars := map[string]SV{}
	for i, p := range c.params {
		if i < len(args) {
			vars[p] = args[i]
		}
	}
	old := st.h.clone()
	oldCtr := st.bumpAlloc()
	done := func(s *State, rs []Val) {
		rv := map[string]SV{}
		for k, v := range vars {
			rv[k] = v
		}
		for i, p := range c.results {
			if i < len(rs) {
				rv[p] = SV{rs[i], sig.Results().At(i).Type()}
			}
		}
		for k, v := range s.h.m {
			if _, ok := old.m[k]; !ok {
				_ = v
				old.at(k)
			}
		}
		for _, e := range c.ensures {
			if !e.forProp(ex.prop) || e.assumed {
				continue
			}
			ctx := ex.specCtx(s, rv)
			ctx.old, ctx.oldCtr = old, oldCtr
			pc := s.pc
			ex.oblige(s, "hook", c.name+": "+e.label, ctx.boolExpr(e), e.where)
			s.pc = pc
		}
	}
	if !ex.callValue(st, f, sig, callArgs, callTypes, pos, done) {
		done(st, lastResult)
	}
}

// assignedOutside: a function other than fn and its closures stores to the field of the key.
func (p *Prog) assignedOutside(key string, fn *ssa.Function) bool {
	for _, g := range p.fns {
		h := g
		for h.Parent() != nil {
			h = h.Parent()
		}
		if h == fn {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem()
				n, ok := st.(*types.Named)
				if !ok || "S:"+n.String()+"."+n.Underlying().(*types.Struct).Field(fa.Field).Name() != key {
					continue
				}
				for _, r := range *fa.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
						return true
					}
					if _, ok := r.(*ssa.UnOp); !ok { // the address goes somewhere else
						if _, isStore := r.(*ssa.Store); !isStore {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

type modRow struct {
	key string
	ref *T // nil: the whole array
}

// modRows lists what a contract may modify, evaluated in the given heap.
func (ex *Exec) modRows(st *State, c *Contract, vars map[string]SV, h *Heap) []modRow {
	var out []modRow
	for _, m := range c.modifies {
		if !m.forProp(ex.prop) {
			continue
		}
		ctx := ex.specCtx(st, vars)
		ctx.h, ctx.old = h, h
		out = append(out, ctx.modItem(m.expr)...)
	}
	return out
}

func (c *SpecCtx) typeRows(t types.Type, key string, ref *T, two bool) []modRow {
	var out []modRow
	for _, l := range leaves(t) {
		k := key + l.path
		c.h.get(k, keySortOf(k, l.sort, two), l.kind, l.typ)
		out = append(out, modRow{k, ref})
		if n := named(l.typ); n == "sync.Map" {
			out = append(out, c.smRows(k, ref)...)
		}
	}
	return out
}

func (c *SpecCtx) smRows(key string, ref *T) []modRow {
	c.h.arr2(key+"#has", "Bool", "")
	c.h.arr2(key+"#t", "Int", "tag")
	c.h.arr2(key+"#v", "Int", "pay")
	return []modRow{{key + "#has", ref}, {key + "#t", ref}, {key + "#v", ref}}
}

func (c *SpecCtx) modItem(e ast.Expr) []modRow {
	if x, ok := e.(*ast.CallExpr); ok {
		id, _ := x.Fun.(*ast.Ident)
		if id == nil {
			sfail("modifies %s", exprStr(e))
		}
		switch id.Name {
		case "elems":
			s := c.sliceArg(x.Args[0])
			return c.typeRows(s.elem, elemKey(s.elem), s.ref, true)
		case "content":
			kind, key, ref, mt := c.container(x.Args[0])
			switch kind {
			case "sm":
				return c.smRows(key, ref)
			case "gc":
				c.h.arr2(key+"#exp", "Int", "")
				c.h.arr2(key+"#claim", "Bool", "")
				return append(c.smRows(key, ref), modRow{key + "#exp", ref}, modRow{key + "#claim", ref})
			default:
				c.h.arr2(key+"#has", "Bool", "")
				c.h.arr1(key+"#n", "Int", "")
				out := []modRow{{key + "#has", ref}, {key + "#n", ref}}
				for _, l := range leaves(mt.Elem()) {
					k := key + "#val" + l.path
					c.h.get(k, "(Array Int (Array Int "+l.sort+"))", l.kind, l.typ)
					out = append(out, modRow{k, ref})
				}
				return out
			}
		case "channel":
			ch, el := c.chanArg(x.Args[0])
			out := []modRow{}
			c.h.arr1("chan#n", "Int", "")
			out = append(out, modRow{"chan#n", ch})
			for _, l := range leaves(el) {
				k := chanKey(el) + l.path
				c.h.get(k, "(Array Int (Array Int "+l.sort+"))", l.kind, l.typ)
				out = append(out, modRow{k, ch})
			}
			return out
		case "wg":
			r := c.term(x.Args[0])
			c.h.arr1("wg#add", "Int", "")
			c.h.arr1("wg#done", "Int", "")
			c.h.arr1("wg#late", "Bool", "")
			return []modRow{{"wg#add", r}, {"wg#done", r}, {"wg#late", r}}
		case "ghost":
			k := "G:" + strArg(x.Args[0])
			c.h.arr1(k, "Int", "")
			return []modRow{{k, IntL(0)}}
		case "ghostb":
			k := "G:" + strArg(x.Args[0])
			c.h.arr1(k, "Bool", "")
			return []modRow{{k, IntL(0)}}
		case "glog":
			k := strArg(x.Args[0])
			c.h.arr2(k, "Int", "")
			return []modRow{{k, IntL(0)}}
		case "glogb":
			k := strArg(x.Args[0])
			c.h.arr2(k, "Bool", "")
			return []modRow{{k, IntL(0)}}
		case "gattr":
			k := strArg(x.Args[0])
			c.h.arr1(k, "Int", "")
			return []modRow{{k, c.term(x.Args[1])}}
		case "gattrb":
			k := strArg(x.Args[0])
			c.h.arr1(k, "Bool", "")
			return []modRow{{k, c.term(x.Args[1])}}
		case "anyattr":
			k := strArg(x.Args[0])
			c.h.arr1(k, "Int", "")
			return []modRow{{k, nil}}
		case "anyattrb":
			k := strArg(x.Args[0])
			c.h.arr1(k, "Bool", "")
			return []modRow{{k, nil}}
		case "anyattr2":
			k := strArg(x.Args[0])
			c.h.arr2(k, "Int", "")
			return []modRow{{k, nil}}
		case "anyattr2b":
			k := strArg(x.Args[0])
			c.h.arr2(k, "Bool", "")
			return []modRow{{k, nil}}
		case "allof":
			// allof("data.Data.N")
			s := strArg(x.Args[0])
			i := strings.LastIndexByte(s, '.')
			t := c.typ(s[:i])
			f := c.fieldOf(mkPtr(IntL(0), t), s[i+1:])
			ft := f.t
			key := rootKey(t) + "." + s[i+1:]
			rows := c.typeRows(ft, key, nil, false)
			if named(ft) == "sync.Map" {
				rows = append(rows, c.smRows(key, nil)...)
			}
			for i := range rows {
				rows[i].ref = nil
			}
			return rows
		case "allelems":
			t := c.typ(strArg(x.Args[0]))
			rows := c.typeRows(t, elemKey(t), nil, true)
			for i := range rows {
				rows[i].ref = nil
			}
			return rows
		}
	}
	if s, ok := e.(*ast.StarExpr); ok {
		p, ok := c.eval(s.X).v.(*PtrV)
		if !ok {
			sfail("modifies %s", exprStr(e))
		}
		return c.typeRows(p.typ, p.key, p.ref, false)
	}
	if s, ok := e.(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok {
			if _, bound := c.vars[id.Name]; !bound {
				if p := c.pkg(id.Name); p != nil {
					if o, ok := p.Scope().Lookup(s.Sel.Name).(*types.Var); ok {
						return c.typeRows(o.Type(), rootKey(o.Type()), globalRef(o.Pkg().Path()+"."+o.Name()), false)
					}
				}
			}
		}
		v := c.eval(s.X)
		var p *PtrV
		switch x := v.v.(type) {
		case *PtrV:
			p = x
		case *LocV:
			p = x.p
		}
		if p == nil {
			sfail("modifies %s", exprStr(e))
		}
		f := c.fieldOf(p, s.Sel.Name)
		rows := c.typeRows(f.t, p.key+"."+s.Sel.Name, p.ref, p.idx != nil)
		if named(f.t) == "sync.Map" {
			rows = append(rows, c.smRows(p.key+"."+s.Sel.Name, p.ref)...)
		}
		return rows
	}
	sfail("modifies %s", exprStr(e))
	return nil
}

func (ex *Exec) havocMods(st *State, c *Contract, vars map[string]SV, old *Heap, oldCtr int64) {
	if c.modAll {
		for _, k := range sortedKeys(st.h.m) {
			if strings.HasPrefix(k, "B:") || k == "G:clock" {
				continue
			}
			a := st.h.m[k]
			meta := keySort[k]
			nv := Fresh("hv:"+k, a.sort)
			registerBase(nv.name, a.sort, meta.kind, meta.typ, st.ctr)
			st.setHeap(k, nil, nil, nv)
		}
		// keys not seen yet
		heapEpoch++
		st.h.epoch = fmt.Sprintf("%d", heapEpoch)
		st.h.bound = st.ctr
	} else {
		for _, m := range ex.modRows(st, c, vars, st.h) {
			a, ok := st.h.m[m.key]
			meta := keySort[m.key]
			if !ok {
				a = st.h.get(m.key, meta.srt, meta.kind, meta.typ)
			}
			if m.ref == nil {
				nv := Fresh("hv:"+m.key, a.sort)
				registerBase(nv.name, a.sort, meta.kind, meta.typ, st.ctr)
				st.setHeap(m.key, nil, nil, nv)
				continue
			}
			es := arrayElem(a.sort)
			nv := Fresh("hv:"+m.key, es)
			if strings.HasPrefix(es, "(Array") {
				registerRow(nv.name, es, meta.kind, meta.typ, st.ctr)
			} else {
				if meta.kind == "ref" {
					refBound[nv.id] = st.ctr
				}
				st.leafFacts(Leaf{"", es, tyOr(meta.typ), meta.kind}, nv)
			}
			st.setHeap(m.key, m.ref, nil, Store(a, m.ref, nv))
		}
	}
	prev := st.ghost("clock", "Int")
	t := Fresh("clock", "Int")
	st.assume(Le(prev, t), Lt(t, IntB(pow2(40))))
	st.setGhost("clock", t)
}

var heapEpoch = 0

// ---- loop templates ----

type bindCand struct {
	name string
	f    func(s *State, vals []Val) SV
}

func (ex *Exec) templateCands(st *State, d *LoopDesc, W *writeSet, head *State, headVals []Val) []candidate {
	if ex.rootC == nil {
		return nil
	}
	var out []candidate
	pre := st.h
	for _, t := range ex.rootC.loops {
		if !t.cl.forProp(ex.prop) {
			continue
		}
		t := t
		choices := make([][]bindCand, len(t.binders))
		okb := true
		for i, b := range t.binders {
			typ := ex.prog.lookupType(b.typ)
			if typ == nil {
				okb = false
				break
			}
			choices[i] = distinctBinds(ex.bindCands(st, d, typ, b.isVar, W), st, initVals(d), head, headVals)
			if len(choices[i]) == 0 {
				okb = false
			}
		}
		if !okb {
			continue
		}
		n := 0
		pick := make([]int, len(t.binders))
		for {
			sel := make([]bindCand, len(t.binders))
			dup := false
			for i := range sel {
				sel[i] = choices[i][pick[i]]
				for j := 0; j < i; j++ {
					if t.binders[j].typ == t.binders[i].typ && pick[j] == pick[i] {
						dup = true
					}
				}
			}
			if !dup {
				nm := t.cl.label
				for i := range sel {
					nm += " " + t.binders[i].name + "=" + sel[i].name
				}
				out = append(out, candidate{name: nm, spec: true, f: func(s *State, vals []Val, it *T) *T {
					ctx := ex.specCtx(s, ex.rootVars)
					ctx.pre = pre
					ctx.it = it
					ctx.loop = d
					for i, b := range t.binders {
						ctx.vars[b.name] = sel[i].f(s, vals)
					}
					return ctx.boolExpr(t.cl)
				}})
				n++
			}
			if n > 150 {
				break
			}
			i := len(pick) - 1
			for i >= 0 {
				pick[i]++
				if pick[i] < len(choices[i]) {
					break
				}
				pick[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
	return out
}

// distinctBinds drops choices that have the same value as an earlier one both on
// entry and at the head of an arbitrary iteration.
func distinctBinds(cs []bindCand, st *State, iv []Val, head *State, hv []Val) []bindCand {
	seen := map[string]bool{}
	var out []bindCand
	for _, c := range cs {
		key := func() (k string) {
			defer func() {
				if recover() != nil {
					k = ""
				}
			}()
			a, b := c.f(st, iv), c.f(head, hv)
			if !plainVal(a.v, a.t) || !plainVal(b.v, b.t) {
				return ""
			}
			for _, x := range flatten(a.v, a.t) {
				k += fmt.Sprintf(":%d", x.id)
			}
			for _, x := range flatten(b.v, b.t) {
				k += fmt.Sprintf(",%d", x.id)
			}
			return k
		}()
		if key != "" && seen[key] {
			continue
		}
		seen[key] = true
		out = append(out, c)
	}
	return out
}

// bindCands lists the values of a type that are around.
func (ex *Exec) bindCands(st *State, d *LoopDesc, typ types.Type, onlyVar bool, W *writeSet) []bindCand {
	var out []bindCand
	seen := map[string]bool{}
	add := func(id, name string, f func(s *State, vals []Val) SV) {
		if seen[id] {
			return
		}
		seen[id] = true
		out = append(out, bindCand{name, f})
	}
	same := func(t types.Type) bool {
		if types.Identical(t, typ) {
			return true
		}
		a, ok1 := t.Underlying().(*types.Chan)
		b, ok2 := typ.Underlying().(*types.Chan)
		return ok1 && ok2 && types.Identical(a.Elem(), b.Elem())
	}
	vid := func(v Val, t types.Type) string {
		s := "v"
		for _, x := range flatten(v, t) {
			s += fmt.Sprintf(":%d", x.id)
		}
		return s
	}
	for i, v := range d.vars {
		if same(v.typ) {
			i, v := i, v
			add(fmt.Sprintf("loop%d", i), v.name, func(s *State, vals []Val) SV { return SV{vals[i], v.typ} })
		}
	}
	for fi := len(st.frames) - 1; fi >= 0; fi-- {
		fr := st.frames[fi]
		type nv struct {
			n string
			v ssa.Value
		}
		var vs []nv
		for v := range fr.env {
			vs = append(vs, nv{v.Name(), v})
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].n < vs[j].n })
		isParam := func(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }
		sort.SliceStable(vs, func(i, j int) bool { return isParam(vs[i].v) && !isParam(vs[j].v) })
		for _, x := range vs {
			val := fr.env[x.v]
			t := x.v.Type()
			if _, ok := val.(*IterV); ok {
				continue
			}
			if same(t) && !onlyVar && ex.live(x.v, fr, d, fi == len(st.frames)-1) {
				vv := val
				add(vid(vv, t), x.n, func(s *State, vals []Val) SV { return SV{vv, t} })
			}
			// cells
			if p, ok := val.(*PtrV); ok {
				isCell := false
				switch x.v.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					isCell = true
				}
				if isCell && same(p.typ) && (!onlyVar || W.touches(p)) {
					pp := p
					add(fmt.Sprintf("cell:%s:%d", pp.key, pp.ref.id), "*"+x.n, func(s *State, vals []Val) SV {
						return SV{build(loadFrom(s.h, pp), pp.typ), pp.typ}
					})
				}
			}
		}
	}
	return out
}
