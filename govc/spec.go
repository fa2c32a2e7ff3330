package main

// Loading the code under verification together with its contracts.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const specPrefix = "zz_verif_spec_"

type Loaded struct {
	Prog  *ssa.Program
	Fset  *token.FileSet
	Ofx   *types.Package
	Main  *types.Package
	paths map[string]bool
	pkgs  map[string]*ssa.Package
	// contract functions which no longer fit the code
	Dropped []string
}

func (l *Loaded) isLocal(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && l.paths[p.Pkg.Path()]
}
func (l *Loaded) localPkg(path string) bool { return l.paths[path] }
func (l *Loaded) isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if !fn.Pos().IsValid() {
		return false
	}
	return strings.HasPrefix(filepath.Base(l.Fset.Position(fn.Pos()).Filename), specPrefix)
}

type SpecFn struct {
	name, prop, kind, target, label, on string
	fn                                  *ssa.Function
}

type Specs struct {
	by      map[string]map[string][]*SpecFn
	Partial bool
	Paths   map[string]bool // functions whose paths are not merged
	// specification functions which are unfolded once where they are used
	Recursive map[string]bool
	Bounded   []string // functions decided by a bounded check, with reasons
	Trusted   []string // additional trusted statements
	PkgMain   bool
	Files     []string
	Progress  bool
	Want      []string // contract functions the files declare
}

func (s *Specs) contractFor(target string) []*SpecFn { return s.by["contract"][target] }

type specFile struct {
	prop string
	path string // where it is
	as   string // where it appears to be
	src  []byte
}

var useRe = regexp.MustCompile(`(?m)^//govc:(\w+)[ \t]*(.*)$`)

// readSpecs reads the contract file of a property and those it uses.
func readSpecs(dir, repo, prop string) ([]*specFile, *Specs, error) {
	sp := &Specs{by: map[string]map[string][]*SpecFn{}, Paths: map[string]bool{}, Recursive: map[string]bool{}}
	seen := map[string]bool{}
	var files []*specFile
	var read func(p string) error
	read = func(p string) error {
		if seen[p] {
			return nil
		}
		seen[p] = true
		path := filepath.Join(dir, p+".go")
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if p == prop {
			for _, m := range useRe.FindAllStringSubmatch(string(src), -1) {
				switch m[1] {
				case "package":
					sp.PkgMain = strings.TrimSpace(m[2]) == "main"
				case "partial":
					sp.Partial = true
				case "progress":
					sp.Progress = true
				}
			}
		}
		for _, m := range useRe.FindAllStringSubmatch(string(src), -1) {
			switch m[1] {
			case "use":
				for _, u := range strings.Fields(m[2]) {
					if err := read(u); err != nil {
						return err
					}
				}
			case "bounded":
				sp.Bounded = append(sp.Bounded, strings.TrimSpace(m[2]))
			case "paths":
				for _, f := range strings.Fields(m[2]) {
					sp.Paths[f] = true
				}
			case "recursive":
				for _, f := range strings.Fields(m[2]) {
					sp.Recursive[f] = true
				}
			case "trusted":
				sp.Trusted = append(sp.Trusted, strings.TrimSpace(m[2]))
			}
		}
		sp.Files = append(sp.Files, path)
		files = append(files, &specFile{prop: p, path: path, src: src})
		return nil
	}
	if err := read(prop); err != nil {
		return nil, nil, err
	}
	if err := read("prelude"); err != nil {
		return nil, nil, err
	}
	for _, f := range files {
		d := repo
		if sp.PkgMain {
			d = filepath.Join(repo, "cmd", "ofx")
			f.src = regexp.MustCompile(`(?m)^package \w+`).ReplaceAll(f.src, []byte("package main"))
		}
		f.as = filepath.Join(d, specPrefix+f.prop+".go")
	}
	return files, sp, nil
}

var lineRe = regexp.MustCompile(`^(.*?):(\d+):(\d+)`)

func load(dir, repo, prop string) (*Loaded, *Specs, error) {
	files, sp, err := readSpecs(dir, repo, prop)
	if err != nil {
		return nil, nil, err
	}
	var dropped []string
	for round := 0; round < 12; round++ {
		ov := map[string][]byte{}
		for _, f := range files {
			ov[f.as] = f.src
		}
		cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps, Dir: repo, Overlay: ov, Env: os.Environ()}
		cfg.Mode = packages.LoadSyntax
		pats := []string{"."}
		if sp.PkgMain {
			pats = append(pats, "./cmd/ofx")
		}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, nil, err
		}
		bad := false
		blanked := false
		var msgs []string
		for _, p := range pkgs {
			for _, e := range p.Errors {
				bad = true
				msgs = append(msgs, e.Error())
				m := lineRe.FindStringSubmatch(e.Pos)
				if m == nil {
					continue
				}
				line, _ := strconv.Atoi(m[2])
				for _, f := range files {
					if filepath.Base(f.as) == filepath.Base(m[1]) {
						if n := blank(f, line); n != "" {
							blanked = true
							dropped = append(dropped, n+": "+e.Msg)
						}
					}
				}
			}
		}
		if bad && blanked {
			continue
		}
		if bad {
			return nil, nil, fmt.Errorf("the code does not type-check: %s", strings.Join(msgs, "; "))
		}
		l := &Loaded{paths: map[string]bool{}, pkgs: map[string]*ssa.Package{}, Dropped: dropped}
		prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		l.Prog, l.Fset = prog, prog.Fset
		for i, p := range spkgs {
			if p == nil {
				return nil, nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
			}
			l.paths[p.Pkg.Path()] = true
			l.pkgs[p.Pkg.Path()] = p
			if p.Pkg.Name() == "main" {
				l.Main = p.Pkg
			} else {
				l.Ofx = p.Pkg
			}
		}
		if l.Main == nil {
			l.Main = l.Ofx
		}
		for _, f := range files {
			sp.Want = append(sp.Want, declared(f)...)
		}
		specPkg := l.pkgs[l.Main.Path()]
		for _, name := range sortedKeys(specPkg.Members) {
			fn, ok := specPkg.Members[name].(*ssa.Function)
			if !ok || !l.isSpec(fn) {
				continue
			}
			part := strings.Split(name, "__")
			if len(part) < 3 {
				continue
			}
			s := &SpecFn{name: name, prop: part[0], kind: part[1], target: part[2], fn: fn}
			if len(part) > 3 {
				s.label = part[3]
			}
			if len(part) > 4 {
				s.on = part[4]
			}
			if sp.by[s.kind] == nil {
				sp.by[s.kind] = map[string][]*SpecFn{}
			}
			sp.by[s.kind][s.target] = append(sp.by[s.kind][s.target], s)
		}
		return l, sp, nil
	}
	return nil, nil, fmt.Errorf("the contracts do not fit the code: %s", strings.Join(dropped, "; "))
}

func declared(f *specFile) []string {
	src, err := os.ReadFile(f.path)
	if err != nil {
		return nil
	}
	var out []string
	for _, m := range regexp.MustCompile(`(?m)^func (\w+__\w+)\(`).FindAllSubmatch(src, -1) {
		out = append(out, string(m[1]))
	}
	return out
}

// blank removes the declaration around a line of a contract file.
func blank(f *specFile, line int) string {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, f.as, f.src, parser.ParseComments)
	if err != nil {
		return ""
	}
	wipe := func(n ast.Node) {
		a, b := fset.Position(n.Pos()).Offset, fset.Position(n.End()).Offset
		src := append([]byte{}, f.src...)
		for i := a; i < b; i++ {
			if src[i] != '\n' {
				src[i] = ' '
			}
		}
		f.src = src
	}
	for _, d := range af.Decls {
		a, b := fset.Position(d.Pos()).Line, fset.Position(d.End()).Line
		if line < a || line > b {
			continue
		}
		switch x := d.(type) {
		case *ast.FuncDecl:
			wipe(d)
			return x.Name.Name
		case *ast.GenDecl:
			for _, s := range x.Specs {
				if l := fset.Position(s.Pos()).Line; line >= l && line <= fset.Position(s.End()).Line {
					if x.Tok == token.IMPORT || x.Lparen.IsValid() {
						wipe(s)
						if !x.Lparen.IsValid() {
							wipe(d)
						}
					} else {
						wipe(d)
					}
					return fmt.Sprintf("%s declaration, line %d", x.Tok, line)
				}
			}
			wipe(d)
			return "declaration"
		}
	}
	return ""
}

// findFunc finds the function a contract is about.
func (l *Loaded) findFunc(target string) *ssa.Function {
	pkg := l.pkgs[l.Main.Path()]
	name := target
	if l.Main != l.Ofx && strings.HasPrefix(name, l.Ofx.Name()+"_") {
		pkg = l.pkgs[l.Ofx.Path()]
		name = strings.TrimPrefix(name, l.Ofx.Name()+"_")
	}
	if fn, ok := pkg.Members[name].(*ssa.Function); ok {
		return fn
	}
	i := strings.LastIndex(name, "_")
	for ; i > 0; i = strings.LastIndex(name[:i], "_") {
		t, ok := pkg.Members[name[:i]].(*ssa.Type)
		if !ok {
			continue
		}
		m := name[i+1:]
		for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := l.Prog.MethodSets.MethodSet(rt)
			sel := ms.Lookup(pkg.Pkg, m)
			if sel == nil {
				continue
			}
			fn := l.Prog.MethodValue(sel)
			if fn != nil && fn.Synthetic == "" {
				return fn
			}
		}
	}
	return nil
}

func sortSpecTargets(m map[string][]*SpecFn) []string {
	ks := sortedKeys(m)
	sort.Strings(ks)
	return ks
}

var _ = bytes.NewReader
