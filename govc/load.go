package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Contract is one specification function: a Go function in the spec files that
// calls the function under contract exactly once.
type Contract struct {
	name   string
	fn     *ssa.Function
	target *ssa.Function
	props  map[string]bool
	lemma  bool // no target: a lemma over the contracts
	useOff bool // verify only: call sites inline the body
	tmo    int
	mode   string
	file   string
	line   int
}

type InvTemplate struct {
	name string
	fn   *ssa.Function
	only []string // function names it applies to ("" = all)
}

type Program struct {
	fset      *token.FileSet
	pkg       *packages.Package
	prog      *ssa.Program
	spkg      *ssa.Package
	contracts []*Contract
	byTarget  map[*ssa.Function][]*Contract
	invs      []*InvTemplate
	decs []*InvTemplate
	fixed     map[string]uint64
	fixedBad  []string
	ufs       map[*ssa.Function]bool
	opaque    map[*ssa.Function]bool
	specFiles map[string]bool
	trusted   []string
	funcs     map[string]*ssa.Function
	roots     []*ssa.Function
	lost      []lostContract
}

// lostContract no longer fits the code: its target is gone or its signature changed.
type lostContract struct {
	name, why string
	props     map[string]bool
}

func (p *Program) isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pos() == token.NoPos {
		return false
	}
	return p.specFiles[p.fset.Position(fn.Pos()).Filename]
}

func funcName(fn *ssa.Function) string {
	s := fn.RelString(fn.Package().Pkg)
	s = strings.ReplaceAll(s, "(*", "")
	return strings.ReplaceAll(s, ")", "")
}

func loadProgram(repo, specDir string) (*Program, error) {
	overlay := map[string][]byte{}
	specs, _ := filepath.Glob(filepath.Join(specDir, "*.go"))
	sort.Strings(specs)
	p := &Program{specFiles: map[string]bool{}, byTarget: map[*ssa.Function][]*Contract{}, fixed: map[string]uint64{}, ufs: map[*ssa.Function]bool{}, opaque: map[*ssa.Function]bool{}, funcs: map[string]*ssa.Function{}}
	for _, s := range specs {
		b, err := os.ReadFile(s)
		if err != nil {
			return nil, err
		}
		dst := filepath.Join(repo, "zz_verif_"+filepath.Base(s))
		overlay[dst] = b
		p.specFiles[dst] = true
	}
	var pkgs []*packages.Package
	for round := 0; ; round++ {
		p.fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
				packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir:     repo,
			Overlay: overlay,
			Fset:    p.fset,
		}
		var err error
		pkgs, err = packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		if len(pkgs) != 1 {
			return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
		}
		if len(pkgs[0].Errors) == 0 {
			break
		}
		// contracts that do not fit the code any more are set aside (and reported)
		n := 0
		var sb strings.Builder
		for _, e := range pkgs[0].Errors {
			fmt.Fprintln(&sb, e)
			if p.setAside(overlay, e) {
				n++
			}
		}
		if n == 0 || round > 20 {
			return nil, fmt.Errorf("package does not type-check with the contracts:\n%s", sb.String())
		}
	}
	p.pkg = pkgs[0]
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	p.spkg = spkgs[0]
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Package() == p.spkg && fn.Parent() == nil {
			p.funcs[funcName(fn)] = fn
		}
	}
	for _, f := range p.pkg.Syntax {
		fname := p.fset.Position(f.Pos()).Filename
		if !p.specFiles[fname] {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			fn := p.spkg.Func(fd.Name.Name)
			if fn == nil {
				continue
			}
			dirs := directives(fd.Doc)
			name := fd.Name.Name
			if s, ok := dirs["fixed"]; ok {
				if err := p.addFixed(s); err != nil {
					return nil, err
				}
			}
			if _, ok := dirs["uf"]; ok {
				p.ufs[fn] = true
			}
			if _, ok := dirs["opaque"]; ok {
				p.opaque[fn] = true
			}
			if strings.HasPrefix(name, "dec_") {
				it := &InvTemplate{name: name, fn: fn}
				if s, ok := dirs["for"]; ok {
					it.only = strings.Fields(s)
				}
				p.decs = append(p.decs, it)
			}
			if strings.HasPrefix(name, "inv_") {
				it := &InvTemplate{name: name, fn: fn}
				if s, ok := dirs["for"]; ok {
					it.only = strings.Fields(s)
				}
				p.invs = append(p.invs, it)
			}
			tgt, isC := dirs["contract"]
			_, isL := dirs["lemma"]
			if isC || isL {
				c := &Contract{name: strings.TrimPrefix(name, "contract_"), fn: fn, props: map[string]bool{}, lemma: isL,
					file: filepath.Base(fname), line: p.fset.Position(fd.Pos()).Line}
				for _, pr := range strings.Fields(dirs["props"]) {
					c.props[pr] = true
				}
				if isC {
					fs := strings.Fields(tgt)
					t := p.funcs[fs[0]]
					if t == nil {
						p.lost = append(p.lost, lostContract{c.name, "function " + fs[0] + " is not in the package", c.props})
						continue
					}
					c.target = t
					for _, o := range fs[1:] {
						if o == "verifyonly" {
							c.useOff = true
						}
					}
				}
				if s, ok := dirs["timeout"]; ok {
					fmt.Sscan(s, &c.tmo)
				}
				c.mode = strings.TrimSpace(dirs["mode"])
				p.contracts = append(p.contracts, c)
				if c.target != nil && !c.useOff {
					p.byTarget[c.target] = append(p.byTarget[c.target], c)
				}
			}
		}
	}
	return p, nil
}

// setAside blanks the declaration a type error lies in.
func (p *Program) setAside(overlay map[string][]byte, e packages.Error) bool {
	parts := strings.Split(e.Pos, ":")
	if len(parts) < 2 {
		return false
	}
	src, ok := overlay[parts[0]]
	if !ok {
		return false
	}
	line := 0
	fmt.Sscan(parts[1], &line)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, parts[0], src, parser.ParseComments)
	if err != nil {
		return false
	}
	for _, d := range f.Decls {
		a, b := fset.Position(d.Pos()), fset.Position(d.End())
		if line < a.Line || line > b.Line {
			continue
		}
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			return false
		}
		dirs := directives(fd.Doc)
		l := lostContract{strings.TrimPrefix(fd.Name.Name, "contract_"), e.Msg, map[string]bool{}}
		for _, pr := range strings.Fields(dirs["props"]) {
			l.props[pr] = true
		}
		if len(l.props) > 0 {
			p.lost = append(p.lost, l)
		}
		start := a.Offset
		if fd.Doc != nil {
			start = fset.Position(fd.Doc.Pos()).Offset
		}
		c := append([]byte{}, src...)
		for i := start; i < b.Offset; i++ {
			if c[i] != '\n' {
				c[i] = ' '
			}
		}
		overlay[parts[0]] = c
		return true
	}
	return false
}

func directives(doc *ast.CommentGroup) map[string]string {
	r := map[string]string{}
	if doc == nil {
		return r
	}
	for _, c := range doc.List {
		t := strings.TrimPrefix(c.Text, "//")
		if !strings.HasPrefix(t, "verif:") {
			continue
		}
		t = strings.TrimPrefix(t, "verif:")
		kv := strings.SplitN(t, " ", 2)
		v := ""
		if len(kv) == 2 {
			v = kv[1]
		}
		if old, ok := r[kv[0]]; ok {
			v = old + " " + v
		}
		r[kv[0]] = v
	}
	return r
}

// ---------------------------------------------------------------- loops

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	idx    int
}

type cfgInfo struct {
	rpo   []*ssa.BasicBlock
	pos   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loopInfo
	bad   string
}

var cfgMemo = map[*ssa.Function]*cfgInfo{}

func cfgOf(fn *ssa.Function) *cfgInfo {
	if c, ok := cfgMemo[fn]; ok {
		return c
	}
	c := &cfgInfo{pos: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	cfgMemo[fn] = c
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.pos[post[i]] = len(c.rpo)
		c.rpo = append(c.rpo, post[i])
	}
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if c.pos[s] <= c.pos[b] {
				if !s.Dominates(b) {
					c.bad = "irreducible control flow"
					continue
				}
				l := c.loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	n := 0
	for _, b := range c.rpo {
		if l, ok := c.loops[b]; ok {
			l.idx = n
			n++
		}
	}
	return c
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// addFixed: "Type.field N": the slice field always holds a whole array of N
// elements.  Every store to it in the package is checked to be make([]T, N).
func (p *Program) addFixed(s string) error {
	var tf string
	var n uint64
	fmt.Sscan(s, &tf, &n)
	i := strings.Index(tf, ".")
	if i < 0 {
		return fmt.Errorf("bad fixed directive %q", s)
	}
	o := p.spkg.Pkg.Scope().Lookup(tf[:i])
	if o == nil {
		p.fixedBad = append(p.fixedBad, "type "+tf[:i]+" is not in the package")
		return nil
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		p.fixedBad = append(p.fixedBad, tf[:i]+" is not a struct")
		return nil
	}
	fi := -1
	for j := 0; j < st.NumFields(); j++ {
		if st.Field(j).Name() == tf[i+1:] {
			fi = j
		}
	}
	if fi < 0 {
		p.fixedBad = append(p.fixedBad, tf+" is not in the package")
		return nil
	}
	p.fixed[fmt.Sprintf("T:%s@%d", typeKey(o.Type()), fieldOff(st, fi))] = n
	stores := 0
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Package() != p.spkg || p.isSpec(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && types.Identical(s.Val.Type(), o.Type()) {
					p.fixedBad = append(p.fixedBad, fmt.Sprintf("%s overwritten at %s", tf[:i], p.fset.Position(s.Pos())))
				}
				if a, ok := ins.(*ssa.Alloc); ok && types.Identical(under(a.Type()).(*types.Pointer).Elem(), o.Type()) {
					set := false
					for _, r := range *a.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == fi && fa.Block() == a.Block() {
							for _, r2 := range *fa.Referrers() {
								if s, ok := r2.(*ssa.Store); ok && s.Block() == a.Block() {
									set = true
								}
							}
						}
					}
					if !set {
						p.fixedBad = append(p.fixedBad, fmt.Sprintf("%s made without %s at %s", tf[:i], tf[i+1:], p.fset.Position(a.Pos())))
					}
				}
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || fa.Field != fi || !types.Identical(under(fa.X.Type()).(*types.Pointer).Elem(), o.Type()) {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp:
					case *ssa.Store:
						stores++
						if r.Addr == fa && wholeArray(r.Val, n) {
							continue
						}
						p.fixedBad = append(p.fixedBad, fmt.Sprintf("%s is set to something other than a new array of %d at %s", tf, n, p.fset.Position(r.Pos())))
					default:
						p.fixedBad = append(p.fixedBad, fmt.Sprintf("address of %s taken at %s", tf, p.fset.Position(fa.Pos())))
					}
				}
			}
		}
	}
	return nil
}

func wholeArray(v ssa.Value, n uint64) bool {
	isN := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Uint64() == n
	}
	switch v := v.(type) {
	case *ssa.MakeSlice:
		return isN(v.Len) && isN(v.Cap)
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.Max != nil || (v.High != nil && !isN(v.High)) {
			return false
		}
		at, ok := under(under(a.Type()).(*types.Pointer).Elem()).(*types.Array)
		return ok && uint64(at.Len()) == n
	}
	return false
}
