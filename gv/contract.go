package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Clause is one line of a contract.
type Clause struct {
	kind   string // requires, ensures, invariant, assumes, modifies, ...
	label  string
	expr   ast.Expr
	src    string
	props  []string
	roles  []Role     // invariant: role variables
	list   []ast.Expr // tokens
	expr2  ast.Expr
	target ast.Expr // lockset: what it is about, instead of the owner of the lock
	at     string   // unlock: the lock
	file   string
	line   int
}

type Role struct {
	name string
	typ  ast.Expr
	src  string
}

type Behavior struct {
	name    string
	props   []string
	ghosts  []Role
	clauses []*Clause
	flags   map[string]string
}

// Contract of a function, a trusted function or an interface method.
type Contract struct {
	name      string // relative name, e.g. (*pg.ReadBuffer).ReadBytes
	params    []string
	results   []string
	trusted   bool
	behaviors []*Behavior
	file      string
	line      int
	flags     map[string]string
	target    string // function that is verified, if it is not the one of the name
	iface     bool   // contract of an interface method: every implementation is verified against it
	impls     []string
}

func (c *Contract) fn() string {
	if c.target != "" {
		return c.target
	}
	return c.name
}

type SpecFunc struct {
	name   string
	params []Role
	body   ast.Expr
	src    string
}

type Contracts struct {
	funcs    map[string]*Contract
	specs    map[string]*SpecFunc
	flatDefs map[string]*SpecFunc
	ufuncs   map[string][]string // name -> sorts (last one is the result)
	mutable  map[string]*MutClass
	ownedIDs map[string]int
	axioms   []*Clause
	conforms []*Conform
	trustedN int

	lockOrder []string
	chans     map[string]*ChanDecl
	events    map[string]*ChanDecl
	groups    map[string]string
	linear    map[string]bool // tokens that must be used up
}

// MutClass describes a struct type whose objects are mutable and shared.
type MutClass struct {
	name                                    string
	guarded                                 map[string]string // field -> mutex field
	lockInv                                 map[string][]*Clause
	writer                                  map[string]string // field -> token of the only goroutine that writes it
	lockSet, lockTrans, waits, adds, clears map[string][]*Clause
	havoc                                   map[string][]string // lock -> ghosts that others change without it
	always                                  []*Clause
	atomic                                  map[string]bool
	atomicGhost                             map[string]string
	onces                                   map[string]map[string]string
	subs                                    map[string]string
	tracks                                  map[string]string // map -> linear token of its keys
	owned                                   []string          // fields with objects that no other owned field has
	tokens                                  map[string]bool
	setOnce                                 map[string]bool
	keeps                                   map[string]*Clause   // field -> the connection that is handed over when the field is written
	assign                                  map[string][]*Clause // field -> what is true of a value that is written to it
}

func newMutClass(n string) *MutClass {
	return &MutClass{name: n, guarded: map[string]string{}, lockInv: map[string][]*Clause{}, writer: map[string]string{}, lockSet: map[string][]*Clause{}, lockTrans: map[string][]*Clause{}, waits: map[string][]*Clause{}, adds: map[string][]*Clause{}, clears: map[string][]*Clause{}, havoc: map[string][]string{}, atomic: map[string]bool{}, atomicGhost: map[string]string{}, onces: map[string]map[string]string{}, subs: map[string]string{}, tracks: map[string]string{}, tokens: map[string]bool{}, setOnce: map[string]bool{}, keeps: map[string]*Clause{}, assign: map[string][]*Clause{}}
}

type Conform struct {
	typ   string
	iface string
	recv  string
	eqs   []*Clause
}

var contracts = &Contracts{funcs: map[string]*Contract{}, specs: map[string]*SpecFunc{}, flatDefs: map[string]*SpecFunc{}, ufuncs: map[string][]string{}, mutable: map[string]*MutClass{}, chans: map[string]*ChanDecl{}, events: map[string]*ChanDecl{}, groups: map[string]string{}, linear: map[string]bool{}, ownedIDs: map[string]int{}}

func parseExpr(s string) (ast.Expr, error) {
	return parser.ParseExpr(s)
}

func parseRoles(s string) []Role {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	var out []Role
	for _, p := range splitTop(s, ',') {
		p = strings.TrimSpace(p)
		i := strings.IndexAny(p, " \t")
		if i < 0 {
			out = append(out, Role{name: p})
			continue
		}
		ty := strings.TrimSpace(p[i:])
		e, err := parser.ParseExpr(ty)
		if err != nil {
			panic(fmt.Sprintf("bad type %q: %v", ty, err))
		}
		out = append(out, Role{name: p[:i], typ: e, src: ty})
	}
	return out
}

func splitTop(s string, sep byte) []string {
	var out []string
	depth, start := 0, 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case sep:
			if depth == 0 {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	return append(out, s[start:])
}

func loadContracts(dir string) error {
	files, err := filepath.Glob(filepath.Join(dir, "*.gv"))
	if err != nil {
		return err
	}
	sort.Strings(files)
	for _, f := range files {
		if err := loadContractFile(f); err != nil {
			return fmt.Errorf("%s: %w", f, err)
		}
	}
	return nil
}

func loadContractFile(file string) (err error) {
	fh, err := os.Open(file)
	if err != nil {
		return err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	type item struct {
		text string
		line int
	}
	var items []item
	n := 0
	for sc.Scan() {
		n++
		l := sc.Text()
		l = strings.TrimPrefix(l, "//@")
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "//") || strings.HasPrefix(t, "#") {
			continue
		}
		if strings.HasPrefix(t, "| ") && len(items) > 0 { // continuation line
			items[len(items)-1].text += " " + strings.TrimSpace(t[2:])
			continue
		}
		items = append(items, item{t, n})
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	var cur *Contract
	var beh *Behavior
	var props []string
	var curChan *ChanDecl
	for _, it := range items {
		kw, rest, _ := strings.Cut(it.text, " ")
		rest = strings.TrimSpace(rest)
		fail := func(f string, a ...any) {
			panic(fmt.Sprintf("line %d: %s: %s", it.line, it.text, fmt.Sprintf(f, a...)))
		}
		expr := func(s string) ast.Expr {
			e, err := parser.ParseExpr(s)
			if err != nil {
				fail("%v", err)
			}
			return e
		}
		switch kw {
		case "spec", "flat":
			// spec name(a T, b T) = expr
			head, body, ok := strings.Cut(rest, " = ")
			if !ok {
				fail("missing =")
			}
			i := strings.Index(head, "(")
			j := strings.LastIndex(head, ")")
			sf := &SpecFunc{name: strings.TrimSpace(head[:i]), params: parseRoles(head[i+1 : j]), body: expr(body), src: body}
			if kw == "spec" {
				contracts.specs[sf.name] = sf
			} else {
				contracts.flatDefs[sf.name] = sf
			}
		case "ufunc":
			// ufunc name(sort, sort) sort
			i := strings.Index(rest, "(")
			j := strings.LastIndex(rest, ")")
			var ss []string
			for _, p := range strings.Split(rest[i+1:j], ",") {
				if p = strings.TrimSpace(p); p != "" {
					ss = append(ss, p)
				}
			}
			ss = append(ss, strings.TrimSpace(rest[j+1:]))
			contracts.ufuncs[rest[:i]] = ss
		case "mutable":
			// mutable server.Server: mu guards listener, sessions
			name, spec, _ := strings.Cut(rest, ":")
			mc := contracts.mutable[strings.TrimSpace(name)]
			if mc == nil {
				mc = newMutClass(strings.TrimSpace(name))
				contracts.mutable[mc.name] = mc
			}
			for _, g := range strings.Split(spec, ";") {
				fs := strings.Fields(strings.ReplaceAll(g, ",", " "))
				switch {
				case len(fs) == 0:
				case fs[0] == "atomic": // atomic field ghost
					mc.atomic[fs[1]] = true
					mc.atomicGhost[fs[1]] = fs[2]
				case fs[0] == "once": // once field begin end closer
					mc.onces[fs[1]] = map[string]string{"begin": fs[2], "end": fs[3], "closer": fs[4]}
				case fs[0] == "subscribers": // map whose keys are channels that may be sent to with the lock held
					mc.subs[fs[1]] = "yes"
				case fs[0] == "owns": // fields that get a new object in the constructor, which no other owning field has
					mc.owned = append(mc.owned, fs[1:]...)
				case fs[0] == "tracks": // map whose keys are removed by whom entered them: tracks field token
					mc.tracks[fs[1]] = fs[2]
					contracts.linear[fs[2]] = true
				case fs[0] == "havoc": // havoc mu ghost
					mc.havoc[fs[1]] = append(mc.havoc[fs[1]], fs[2:]...)
				case fs[0] == "setonce":
					mc.setOnce[fs[1]] = true
				case fs[0] == "token":
					for _, t := range fs[1:] {
						mc.tokens[t] = true
					}
				case len(fs) > 2 && fs[1] == "guards":
					k := len(fs)
					w := ""
					if k > 4 && fs[k-2] == "writer" {
						w = fs[k-1]
						k -= 2
					}
					for _, f := range fs[2:k] {
						mc.guarded[f] = fs[0]
						if w != "" {
							mc.writer[f] = w
						}
					}
				default:
					fail("unknown declaration %q", g)
				}
			}
		case "linear":
			for _, n := range strings.Fields(rest) {
				contracts.linear[n] = true
			}
		case "keeps", "assign":
			// keeps server.Session.dbConn(s) expr
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			full := rest[:i]
			k := strings.LastIndex(full, ".")
			mc := contracts.mutable[full[:k]]
			if mc == nil {
				fail("unknown mutable class %q", full[:k])
			}
			cl := mkClause(kw, rest[j+1:], it.line, file, nil)
			cl.roles = parseRoles(rest[i+1 : j])
			if kw == "keeps" {
				mc.keeps[full[k+1:]] = cl
			} else {
				mc.assign[full[k+1:]] = append(mc.assign[full[k+1:]], cl)
			}
		case "lockorder":
			contracts.lockOrder = append(contracts.lockOrder, strings.Fields(rest)...)
		case "group":
			// group NAME token Class.field, token Class.field
			n, l, _ := strings.Cut(rest, " ")
			for _, t := range strings.Split(l, ",") {
				contracts.groups[strings.TrimSpace(t)] = n
			}
		case "chan", "event":
			// chan server.Session.clientIn(s, v) flags
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			d := &ChanDecl{name: rest[:i], flags: map[string]string{}}
			ns := strings.Split(rest[i+1:j], ",")
			d.owner = strings.TrimSpace(ns[0])
			if len(ns) > 1 {
				d.val = strings.TrimSpace(ns[1])
			}
			for _, f := range strings.Fields(rest[j+1:]) {
				k, v, _ := strings.Cut(f, ":")
				d.flags[k] = v
				if v == "" {
					d.flags[k] = "yes"
				}
			}
			if kw == "chan" {
				contracts.chans[d.name] = d
			} else {
				contracts.events[d.name] = d
			}
			curChan = d
			props = nil
		case "send", "recv", "elem", "close", "when", "wait", "gained", "grants":
			if curChan == nil {
				fail("no channel")
			}
			if kw == "grants" {
				c := &Clause{kind: kw, line: it.line, file: filepath.Base(file), src: rest, label: kw}
				for _, t := range splitTop(rest, ',') {
					c.list = append(c.list, expr(strings.TrimSpace(t)))
				}
				curChan.clauses = append(curChan.clauses, c)
				break
			}
			curChan.clauses = append(curChan.clauses, mkClause(kw, rest, it.line, file, props))
		case "holds", "takes", "gives", "consumes":
			if beh == nil {
				fail("no function")
			}
			c := &Clause{kind: kw, line: it.line, file: filepath.Base(file), src: rest, label: kw}
			l, cond, has := strings.Cut(rest, " if ")
			for _, t := range splitTop(l, ',') {
				c.list = append(c.list, expr(strings.TrimSpace(t)))
			}
			if has {
				c.expr = expr(cond)
			}
			beh.clauses = append(beh.clauses, c)
		case "drops":
			// drops TOKEN(role) label: expr
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			c := mkClause(kw, rest[j+1:], it.line, file, props)
			c.at = rest[:i]
			c.roles = []Role{{name: rest[i+1 : j]}}
			beh.clauses = append(beh.clauses, c)
		case "before":
			// before FUNC(roles) label: expr   before every call of a function under contract
			j := strings.Index(rest, ") ")
			i := strings.LastIndex(rest[:j], "(")
			c := mkClause(kw, rest[j+1:], it.line, file, props)
			c.at = rest[:i]
			for _, n := range strings.Split(rest[i+1:j], ",") {
				c.roles = append(c.roles, Role{name: strings.TrimSpace(n)})
			}
			beh.clauses = append(beh.clauses, c)
		case "receives":
			// receives TYPE label: expr   before every receive from a channel of this type
			at, r, _ := strings.Cut(rest, " ")
			c := mkClause(kw, r, it.line, file, props)
			c.at = at
			beh.clauses = append(beh.clauses, c)
		case "unlock", "section", "ifsection", "callback":
			// unlock server.Class.mu label: expr
			at, r, _ := strings.Cut(rest, " ")
			c := mkClause(kw, r, it.line, file, props)
			c.at = at
			beh.clauses = append(beh.clauses, c)
		case "always":
			// always server.Event(e) label: expr
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			mc := contracts.mutable[rest[:i]]
			if mc == nil {
				fail("unknown mutable class %q", rest[:i])
			}
			cl := mkClause(kw, rest[j+1:], it.line, file, nil)
			cl.roles = []Role{{name: rest[i+1 : j]}}
			mc.always = append(mc.always, cl)
		case "lockinv", "lockset", "locktrans", "waitrule", "addrule", "clears":
			// lockinv server.Server.mu(srv) label: expr
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			full := rest[:i]
			k := strings.LastIndex(full, ".")
			mc := contracts.mutable[full[:k]]
			if mc == nil {
				fail("unknown mutable class %q", full[:k])
			}
			j = matchParen(rest, i)
			text := rest[j+1:]
			var target ast.Expr
			if l, r, ok := strings.Cut(text, "]:"); kw == "lockset" && ok && strings.Contains(l, "[") {
				n, t, _ := strings.Cut(l, "[")
				target = expr(t)
				text = n + ":" + r
			}
			cl := mkClause(kw, text, it.line, file, nil)
			cl.target = target
			cl.roles = parseRoles(rest[i+1 : j])
			dst := map[string]map[string][]*Clause{"lockinv": mc.lockInv, "lockset": mc.lockSet, "locktrans": mc.lockTrans, "waitrule": mc.waits, "addrule": mc.adds, "clears": mc.clears}[kw]
			dst[full[k+1:]] = append(dst[full[k+1:]], cl)
		case "conform":
			// conform pg.StandardFrame pg.Frame (f)
			fs := strings.Fields(rest)
			contracts.conforms = append(contracts.conforms, &Conform{typ: fs[0], iface: fs[1], recv: strings.Trim(fs[2], "()")})
			cur, beh = nil, nil
		case "eq":
			c := contracts.conforms[len(contracts.conforms)-1]
			c.eqs = append(c.eqs, mkClause(kw, rest, it.line, file, nil))
		case "func", "trusted", "iface", "field":
			c := &Contract{trusted: kw == "trusted", iface: kw == "iface" || kw == "field", file: file, line: it.line, flags: map[string]string{}}
			// name(params) (results)   -- the name may start with a parenthesised receiver
			r := rest
			i := 0
			if strings.HasPrefix(r, "(") {
				i = strings.Index(r, ")") + 1
			}
			i += strings.Index(r[i:], "(")
			c.name = r[:i]
			if kw == "field" { // contract of the functions in a field
				c.name = "field:" + c.name
			}
			j := i + strings.Index(r[i:], ")")
			for _, p := range strings.Split(r[i+1:j], ",") {
				if p = strings.TrimSpace(p); p != "" {
					c.params = append(c.params, p)
				}
			}
			res := strings.TrimSpace(r[j+1:])
			res = strings.Trim(res, "()")
			for _, p := range strings.Split(res, ",") {
				if p = strings.TrimSpace(p); p != "" {
					c.results = append(c.results, p)
				}
			}
			if old := contracts.funcs[c.name]; old != nil {
				fail("duplicate contract")
			}
			contracts.funcs[c.name] = c
			if c.trusted {
				contracts.trustedN++
			}
			cur = c
			beh = &Behavior{name: "main", flags: map[string]string{}}
			c.behaviors = append(c.behaviors, beh)
			props = nil
		case "behavior":
			// behavior name(ghosts) [C01,C02]
			if cur == nil {
				fail("no function")
			}
			if !strings.Contains(rest, "(") {
				nm, pr, _ := strings.Cut(rest, " ")
				rest = nm + "() " + pr
			}
			i := strings.Index(rest, "(")
			j := matchParen(rest, i)
			beh = &Behavior{name: strings.TrimSpace(rest[:i]), ghosts: parseRoles(rest[i+1 : j]), flags: map[string]string{}}
			if t := strings.TrimSpace(rest[j+1:]); t != "" {
				beh.props = strings.Split(strings.Trim(t, "[]"), ",")
			}
			cur.behaviors = append(cur.behaviors, beh)
			props = nil
		case "props":
			beh.props = strings.Split(strings.ReplaceAll(rest, " ", ""), ",")
		case "for":
			props = strings.Split(strings.ReplaceAll(rest, " ", ""), ",")
		case "flag":
			k, v, _ := strings.Cut(rest, " ")
			if v = strings.TrimSpace(v); v == "" {
				v = "yes"
			}
			if beh != nil && beh.name != "main" {
				beh.flags[k] = strings.TrimSpace(v)
			} else {
				cur.flags[k] = strings.TrimSpace(v)
			}
		case "requires", "ensures", "assumes", "invariant", "modifies", "ghost", "decreases", "assert", "effect", "spawns", "use", "at":
			if beh == nil {
				fail("no function")
			}
			beh.clauses = append(beh.clauses, mkClause(kw, rest, it.line, file, props))
		default:
			fail("unknown keyword %q", kw)
		}
	}
	return nil
}

func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic("unbalanced parentheses in " + s)
}

// (m *pg.Message) looks like a product
var starRoles = regexp.MustCompile(`^\w+( \*?[A-Za-z][\w.]*)?(, *\w+( \*?[A-Za-z][\w.]*)?)*$`)

func mkClause(kind, rest string, line int, file string, props []string) *Clause {
	c := &Clause{kind: kind, line: line, file: filepath.Base(file), props: props}
	rest = strings.TrimSpace(rest)
	// optional roles
	if kind == "invariant" && strings.HasPrefix(rest, "(") {
		j := matchParen(rest, 0)
		// roles look like "(i int, rem []byte) expr"
		tail := strings.TrimSpace(rest[j+1:])
		if _, err := parser.ParseExpr("f" + rest[:j+1]); (err != nil || starRoles.MatchString(rest[1:j])) && tail != "" {
			c.roles = parseRoles(rest[1:j])
			rest = tail
		}
	}
	// optional label
	if i := strings.Index(rest, ": "); i > 0 && isIdent(rest[:i]) {
		c.label = rest[:i]
		rest = strings.TrimSpace(rest[i+2:])
	}
	c.src = rest
	if kind == "modifies" || kind == "effect" || kind == "spawns" || kind == "use" {
		return c
	}
	e, err := parser.ParseExpr(rest)
	if err != nil {
		panic(fmt.Sprintf("line %d: %q: %v", line, rest, err))
	}
	c.expr = e
	if c.label == "" {
		c.label = fmt.Sprintf("L%d", line)
	}
	return c
}

func isIdent(s string) bool {
	for i, c := range s {
		if !(c == '_' || c == '-' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}
