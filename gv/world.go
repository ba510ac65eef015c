package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var debug = os.Getenv("GV_DEBUG") != ""

// World is the loaded program.
type World struct {
	prog    *ssa.Program
	dir     string
	pkgs    map[string]*ssa.Package // by name
	tpkgs   map[string]*types.Package
	funcs   map[string]*ssa.Function // by short name
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	written map[*ssa.Global]bool
	module  string
	ours    map[*types.Package]bool
}

var pathRe = regexp.MustCompile(`(?:[A-Za-z0-9_.\-]+/)+`)

// gopkg.in paths: kingpin.v2.New
var verRe = regexp.MustCompile(`\.v[0-9]+\.`)

func shortName(f *ssa.Function) string {
	if len(renamed) > 0 {
		if n, ok := renamed[f]; ok {
			return n
		}
		if p := f.Parent(); p != nil && strings.HasPrefix(f.Name(), p.Name()+"$") {
			return shortName(p) + strings.TrimPrefix(f.Name(), p.Name())
		}
	}
	return verRe.ReplaceAllString(pathRe.ReplaceAllString(f.String(), ""), ".")
}

func loadWorld(dir string, overlay map[string][]byte) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	if fl := os.Getenv("GV_GOFLAGS"); fl != "" {
		cfg.Env = append(cfg.Env, "GOFLAGS="+fl)
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	w := &World{prog: prog, dir: dir, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, written: map[*ssa.Global]bool{}, ours: map[*types.Package]bool{}}
	for _, p := range ps {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		w.ours[p.Types] = true
		w.pkgs[p.Types.Name()] = sp
		w.tpkgs[p.Types.Name()] = p.Types
		for _, i := range p.Types.Imports() {
			if _, ok := w.tpkgs[i.Name()]; !ok {
				w.tpkgs[i.Name()] = i
			}
		}
		sp.Build()
	}
	all := ssautil.AllFunctions(prog)
	// methods that nobody calls
	for _, p := range w.tpkgs {
		if !w.ours[p] {
			continue
		}
		for _, n := range p.Scope().Names() {
			tn, ok := p.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if f := prog.FuncValue(nt.Method(i)); f != nil {
					all[f] = true
					for _, a := range f.AnonFuncs {
						all[a] = true
					}
				}
			}
		}
	}
	for f := range all {
		if f.Pkg == nil || !w.ours[f.Pkg.Pkg] {
			// wrappers have no package
			continue
		}
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		w.funcs[shortName(f)] = f
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && !isInit {
						w.written[g] = true
					}
					continue
				}
				// any other use of the address may write
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch u := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							_ = u
							if !isInit {
								w.written[g] = true
							}
						}
					}
				}
				// writes into a map loaded from a global
				if mu, ok := in.(*ssa.MapUpdate); ok && !isInit {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							w.written[g] = true
						}
					}
				}
			}
		}
	}
	w.findRenamed()
	return w, nil
}

// renamed maps a function to the name its contract has for it.
var renamed = map[*ssa.Function]string{}

// findRenamed looks for the functions of the contracts that are gone: another function of the same package and with
// the same shape that has no contract takes the place of one (it is then verified against that contract, and every
// caller sees it through the contract; a wrong guess can only make obligations fail).
func (w *World) findRenamed() {
	for _, n := range contractNames() {
		con := contracts.funcs[n]
		if con.trusted || con.iface || con.target != "" || strings.Contains(n, ":") || w.funcs[n] != nil {
			continue
		}
		i := strings.LastIndex(n, ".")
		if i < 0 {
			continue
		}
		pre, base := n[:i+1], n[i+1:]
		best, dist := "", 0
		for c, f := range w.funcs {
			j := strings.LastIndex(c, ".")
			if j < 0 || c[:j+1] != pre || contracts.funcs[c] != nil || f.Synthetic != "" || f.Parent() != nil || f.Name() == "init" {
				continue
			}
			if _, taken := renamed[f]; taken || len(f.Params) != len(con.params) || f.Signature.Results().Len() != len(con.results) {
				continue
			}
			if d := editDistance(base, c[j+1:]); best == "" || d < dist || d == dist && c < best {
				best, dist = c, d
			}
		}
		if best != "" {
			f := w.funcs[best]
			delete(w.funcs, best)
			w.funcs[n] = f
			renamed[f] = n
			fmt.Fprintf(os.Stderr, "%s is taken to be %s\n", best, n)
		}
	}
}

func editDistance(a, b string) int {
	row := make([]int, len(b)+1)
	for j := range row {
		row[j] = j
	}
	for i := 1; i <= len(a); i++ {
		diag := row[0]
		row[0] = i
		for j := 1; j <= len(b); j++ {
			d := diag
			if a[i-1] != b[j-1] {
				d++
			}
			if row[j]+1 < d {
				d = row[j] + 1
			}
			if row[j-1]+1 < d {
				d = row[j-1] + 1
			}
			diag, row[j] = row[j], d
		}
	}
	return row[len(b)]
}

func (w *World) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	l, ok := w.loops[f]
	if !ok {
		l = findLoops(f)
		w.loops[f] = l
	}
	return l
}

func (w *World) globalWritten(g *ssa.Global) bool { return w.written[g] }

// ConstMapVal is a package-level map that is only written by its initialiser.
type ConstMapVal struct {
	g    *ssa.Global
	keys []*Term
	vals []Val
	vt   types.Type
	kt   types.Type
}

// globalInit evaluates the initialiser of a package-level map.
func (w *World) globalInit(x *Exec, st *State, g *ssa.Global) (Val, bool) {
	mt, ok := under(deref(g.Type())).(*types.Map)
	if !ok {
		return nil, false
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil, false
	}
	var mm *ssa.MakeMap
	n := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				n++
				mm, _ = s.Val.(*ssa.MakeMap)
			}
		}
	}
	if n != 1 || mm == nil {
		return nil, false
	}
	r := &ConstMapVal{g: g, vt: mt.Elem(), kt: mt.Key()}
	for _, u := range *mm.Referrers() {
		switch u := u.(type) {
		case *ssa.MapUpdate:
			k, ok := u.Key.(*ssa.Const)
			if !ok {
				return nil, false
			}
			kt := x.constVal(st, k).(*Term)
			v := initVal(x, st, u.Value)
			if v == nil {
				return nil, false
			}
			r.keys = append(r.keys, kt)
			r.vals = append(r.vals, v)
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return r, true
}

func initVal(x *Exec, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Function:
		return &FuncVal{fn: v}
	case *ssa.ChangeInterface:
		return initVal(x, st, v.X)
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.String() == "reflect.TypeOf" {
			if mi, ok := v.Call.Args[0].(*ssa.MakeInterface); ok {
				return &RTypeVal{t: mi.X.Type()}
			}
		}
	}
	return nil
}

// sharedVar reports if the escaped object is a variable shared with other goroutines (or an object of a mutable class).
func (w *World) sharedVar(o *Obj) bool {
	return o.ref != nil && o.kind == "sharedvar"
}

func (w *World) pkgByName(n string) *types.Package { return w.tpkgs[n] }

func (w *World) resolveType(e ast.Expr, pkg *types.Package) types.Type {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		switch e.Name {
		case "bytes":
			return types.NewSlice(types.Typ[types.Uint8])
		}
		if o := types.Universe.Lookup(e.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if pkg != nil {
			if tn, ok := pkg.Scope().Lookup(e.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
		return nil
	case *ast.SelectorExpr:
		id, ok := e.X.(*ast.Ident)
		if !ok {
			return nil
		}
		p := w.pkgByName(id.Name)
		if p == nil {
			return nil
		}
		if tn, ok := p.Scope().Lookup(e.Sel.Name).(*types.TypeName); ok {
			return tn.Type()
		}
		return nil
	case *ast.StarExpr:
		if t := w.resolveType(e.X, pkg); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ArrayType:
		t := w.resolveType(e.Elt, pkg)
		if t == nil {
			return nil
		}
		if e.Len == nil {
			return types.NewSlice(t)
		}
		if l, ok := e.Len.(*ast.BasicLit); ok {
			v := constant.MakeFromLiteral(l.Value, l.Kind, 0)
			n, _ := constant.Int64Val(v)
			return types.NewArray(t, n)
		}
	case *ast.MapType:
		k, v := w.resolveType(e.Key, pkg), w.resolveType(e.Value, pkg)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.ChanType:
		if v := w.resolveType(e.Value, pkg); v != nil {
			d := types.SendRecv
			if e.Dir == ast.SEND {
				d = types.SendOnly
			} else if e.Dir == ast.RECV {
				d = types.RecvOnly
			}
			return types.NewChan(d, v)
		}
	case *ast.ParenExpr:
		return w.resolveType(e.X, pkg)
	}
	return nil
}

func (w *World) conPkg(c *Contract) *types.Package {
	if c == nil {
		return nil
	}
	n := strings.TrimLeft(strings.TrimPrefix(c.name, "field:"), "(*")
	if i := strings.Index(n, "."); i > 0 {
		if n[:i] == "gevulot" {
			return w.tpkgs["main"]
		}
		return w.tpkgs[n[:i]]
	}
	return nil
}

func bignumU(u uint64) *Term { return bignum(new(big.Int).SetUint64(u)) }

// lemma functions of the contracts directory become part of the packages through an in-memory overlay
func lemmaOverlay(repo, dir string) map[string][]byte {
	ov := map[string][]byte{}
	files, _ := filepath.Glob(filepath.Join(dir, "lemmas_*.go.txt"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		n := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(f), "lemmas_"), ".go.txt")
		ov[filepath.Join(repo, "pkg", n, "zz_gv_lemmas.go")] = b
	}
	return ov
}

func andMask(st *State, a, m *Term, t types.Type) *Term {
	n := m.val
	// 2^k - 1
	k := uint(n.BitLen())
	if new(big.Int).Sub(pow2(k), big1).Cmp(n) == 0 {
		return emod(a, bignum(pow2(k)))
	}
	// a single bit
	if k > 0 && pow2(k-1).Cmp(n) == 0 {
		return mul(bignum(n), emod(ediv(a, bignum(pow2(k-1))), num(2)))
	}
	return bitOp(st, token.AND, a, m, t)
}

// orDisjoint: x<<8 | y with y < 256 is an addition (of the mathematical values: what was cut off at the top of x<<8
// stays cut off).
func orDisjoint(a, b *Term, t types.Type) *Term {
	for i := 0; i < 2; i++ {
		if bb, ok := bounds(b); ok && bb.lo.Sign() >= 0 {
			k := uint(bb.hi.BitLen())
			if o, ok := wrapped[a]; ok && o.bits >= k && multipleOf(o.x, pow2(k)) {
				return wrap(add(o.x, b), t)
			}
			if multipleOf(a, pow2(k)) {
				return wrap(add(a, b), t)
			}
		}
		a, b = b, a
	}
	return nil
}

// multipleOf says if every value of the term is a multiple of a power of two.
func multipleOf(t *Term, m *big.Int) bool {
	l := toLin(t)
	if new(big.Int).Mod(l.c, m).Sign() != 0 {
		return false
	}
	for a, c := range l.m {
		if new(big.Int).Mod(c, m).Sign() != 0 {
			if o, ok := wrapped[a]; !ok || pow2(o.bits).Cmp(m) < 0 || !multipleOf(o.x, m) {
				return false
			}
		}
	}
	return true
}

// namedType finds a type by its name with the package, e.g. pg.Frame.
func (w *World) namedType(n string) types.Type {
	i := strings.LastIndex(n, ".")
	if p := w.pkgByName(n[:i]); p != nil {
		if o, ok := p.Scope().Lookup(n[i+1:]).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

// implementations lists the concrete types of the module that implement an interface.
func (w *World) implementations(it types.Type) []types.Type {
	ifc, ok := under(it).(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, p := range w.tpkgs {
		if !w.ours[p] {
			continue
		}
		for _, n := range p.Scope().Names() {
			tn, ok := p.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, isI := under(t).(*types.Interface); isI {
				continue
			}
			if types.Implements(t, ifc) {
				out = append(out, t)
			} else if pt := types.NewPointer(t); types.Implements(pt, ifc) {
				out = append(out, pt)
			}
		}
	}
	return out
}
