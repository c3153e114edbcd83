// ssadump loads packages with go/packages, builds go/ssa for the packages of
// the module under verification (and, on request, for named dependency
// packages) and writes the SSA of every function as JSON.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	fset    *token.FileSet
	typeIDs = map[string]int{}
	typeTab []M
	prog    *ssa.Program
	funcs   = map[string]*ssa.Function{}
	queue   []*ssa.Function
	dyn     = map[types.Type]bool{}
	repoDir string
)

func qual(p *types.Package) string { return p.Path() }

func typ(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, qual)
	if _, ok := t.(*types.TypeParam); ok {
		key = fmt.Sprintf("%s#%p", key, t)
	}
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	m := M{"s": key}
	typeTab = append(typeTab, m)
	switch t := t.(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = t.Name()
	case *types.Named:
		m["k"] = "named"
		m["under"] = typ(t.Underlying())
		ms := types.NewMethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText":
				m["json"] = true
			}
		}
	case *types.Pointer:
		m["k"] = "ptr"
		m["elem"] = typ(t.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["elem"] = typ(t.Elem())
	case *types.Array:
		m["k"] = "array"
		m["elem"] = typ(t.Elem())
		m["len"] = t.Len()
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"n": f.Name(), "t": typ(f.Type()), "e": f.Embedded(), "tag": t.Tag(i)})
		}
		m["fields"] = fs
	case *types.Map:
		m["k"] = "map"
		m["key"] = typ(t.Key())
		m["elem"] = typ(t.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["elem"] = typ(t.Elem())
	case *types.Signature:
		m["k"] = "func"
		m["params"] = tuple(t.Params())
		m["results"] = tuple(t.Results())
	case *types.Interface:
		m["k"] = "iface"
		ms := []string{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Tuple:
		m["k"] = "tuple"
		m["elems"] = tuple(t)
	case *types.TypeParam:
		m["k"] = "typeparam"
	default:
		m["k"] = "other"
	}
	return id
}

func tuple(t *types.Tuple) []int {
	r := []int{}
	for i := 0; i < t.Len(); i++ {
		r = append(r, typ(t.At(i).Type()))
	}
	return r
}

func want(f *ssa.Function) {
	if f == nil {
		return
	}
	n := f.String()
	if _, ok := funcs[n]; ok {
		return
	}
	funcs[n] = f
	queue = append(queue, f)
}

func val(v ssa.Value) any {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		m := M{"k": "const", "t": typ(v.Type())}
		if v.Value == nil {
			m["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(v.Value)
			case constant.String:
				b := []int{}
				for _, c := range []byte(constant.StringVal(v.Value)) {
					b = append(b, int(c))
				}
				m["str"] = b
			case constant.Int:
				m["int"] = v.Value.ExactString()
			default:
				if i := constant.ToInt(v.Value); i.Kind() == constant.Int {
					m["int"] = i.ExactString()
				} else {
					m["float"] = v.Value.ExactString()
				}
			}
		}
		return m
	case *ssa.Function:
		want(v)
		return M{"k": "func", "n": v.String(), "t": typ(v.Type())}
	case *ssa.Global:
		return M{"k": "global", "n": v.String(), "t": typ(v.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": v.Name()}
	case *ssa.Parameter:
		return M{"k": "local", "n": v.Name()}
	case *ssa.FreeVar:
		return M{"k": "local", "n": v.Name()}
	default:
		return M{"k": "local", "n": v.Name()}
	}
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

func common(m M, c *ssa.CallCommon) {
	args := []any{}
	for _, a := range c.Args {
		args = append(args, val(a))
	}
	m["args"] = args
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
		m["recvt"] = typ(c.Value.Type())
	} else {
		m["fn"] = val(c.Value)
	}
	rs := c.Signature().Results()
	m["results"] = tuple(rs)
	m["sig"] = typ(c.Signature())
}

func dumpFn(f *ssa.Function) M {
	m := M{"name": f.String(), "pos": pos(f.Pos())}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		m["pkg"] = f.Origin().Pkg.Pkg.Path()
	}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": typ(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": p.Name(), "t": typ(p.Type())})
	}
	m["freevars"] = fv
	m["results"] = tuple(f.Signature.Results())
	m["synthetic"] = f.Synthetic
	if f.Parent() != nil {
		m["parent"] = f.Parent().String()
	}
	if f.Origin() != nil {
		m["origin"] = f.Origin().String()
	}
	if f.Blocks == nil {
		m["external"] = true
		return m
	}
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	blocks := []M{}
	for _, b := range f.Blocks {
		bm := M{}
		succ, pred := []int{}, []int{}
		for _, s := range b.Succs {
			succ = append(succ, s.Index)
		}
		for _, s := range b.Preds {
			pred = append(pred, s.Index)
		}
		bm["succs"] = succ
		bm["preds"] = pred
		bm["comment"] = b.Comment
		ins := []M{}
		for _, i := range b.Instrs {
			ins = append(ins, dumpInstr(i))
		}
		bm["instrs"] = ins
		blocks = append(blocks, bm)
	}
	m["blocks"] = blocks
	return m
}

func dumpInstr(i ssa.Instruction) M {
	m := M{}
	if v, ok := i.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = typ(v.Type())
	}
	if p := pos(i.Pos()); p != "" {
		m["pos"] = p
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = i.Heap
		m["comment"] = i.Comment
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["tok"] = i.Op.String()
		m["x"], m["y"] = val(i.X), val(i.Y)
		m["xt"] = typ(i.X.Type())
		m["yt"] = typ(i.Y.Type())
	case *ssa.Call:
		m["op"] = "Call"
		common(m, &i.Call)
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = val(i.X)
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = val(i.X)
	case *ssa.MultiConvert:
		m["op"] = "Convert"
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
	case *ssa.DebugRef:
		m["op"] = "DebugRef"
	case *ssa.Defer:
		m["op"] = "Defer"
		common(m, &i.Call)
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = val(i.Tuple)
		m["i"] = i.Index
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = val(i.X)
		m["i"] = i.Field
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = val(i.X)
		m["i"] = i.Field
	case *ssa.Go:
		m["op"] = "Go"
		common(m, &i.Call)
	case *ssa.If:
		m["op"] = "If"
		m["x"] = val(i.Cond)
	case *ssa.Index:
		m["op"] = "Index"
		m["x"], m["y"] = val(i.X), val(i.Index)
		m["xt"] = typ(i.X.Type())
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"], m["y"] = val(i.X), val(i.Index)
		m["xt"] = typ(i.X.Type())
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"], m["y"] = val(i.X), val(i.Index)
		m["xt"] = typ(i.X.Type())
		m["commaok"] = i.CommaOk
	case *ssa.MakeChan:
		m["op"] = "MakeChan"
		m["size"] = val(i.Size)
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = val(i.Fn)
		bs := []any{}
		for _, b := range i.Bindings {
			bs = append(bs, val(b))
		}
		m["bindings"] = bs
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
		dyn[i.X.Type()] = true
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["len"], m["cap"] = val(i.Len), val(i.Cap)
	case *ssa.MapUpdate:
		m["op"] = "MapUpdate"
		m["m"], m["key"], m["v"] = val(i.Map), val(i.Key), val(i.Value)
		m["mt"] = typ(i.Map.Type())
	case *ssa.Next:
		m["op"] = "Next"
		m["x"] = val(i.Iter)
		m["isstr"] = i.IsString
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = val(i.X)
	case *ssa.Phi:
		m["op"] = "Phi"
		m["comment"] = i.Comment
		es := []any{}
		for _, e := range i.Edges {
			es = append(es, val(e))
		}
		m["edges"] = es
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
	case *ssa.Return:
		m["op"] = "Return"
		rs := []any{}
		for _, e := range i.Results {
			rs = append(rs, val(e))
		}
		m["results"] = rs
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.Select:
		m["op"] = "Select"
		m["blocking"] = i.Blocking
		ss := []M{}
		for _, s := range i.States {
			sm := M{"dir": int(s.Dir), "chan": val(s.Chan), "ct": typ(s.Chan.Type())}
			if s.Send != nil {
				sm["send"] = val(s.Send)
			}
			ss = append(ss, sm)
		}
		m["states"] = ss
	case *ssa.Send:
		m["op"] = "Send"
		m["chan"], m["x"] = val(i.Chan), val(i.X)
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
		m["low"], m["high"], m["max"] = val(i.Low), val(i.High), val(i.Max)
	case *ssa.SliceToArrayPointer:
		m["op"] = "SliceToArrayPointer"
		m["x"] = val(i.X)
	case *ssa.Store:
		m["op"] = "Store"
		m["addr"], m["x"] = val(i.Addr), val(i.Val)
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = val(i.X)
		m["at"] = typ(i.AssertedType)
		m["commaok"] = i.CommaOk
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["tok"] = i.Op.String()
		m["x"] = val(i.X)
		m["xt"] = typ(i.X.Type())
		m["commaok"] = i.CommaOk
	default:
		m["op"] = "Unknown"
		m["go"] = fmt.Sprintf("%T", i)
	}
	return m
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	out := flag.String("o", "", "output file")
	deps := flag.String("deps", "", "comma separated dependency packages to include with bodies")
	flag.Parse()
	repoDir = *dir
	pats := flag.Args()
	if len(pats) == 0 {
		pats = []string{"./..."}
	}
	roots := map[string]bool{}
	for _, d := range strings.Split(*deps, ",") {
		if d != "" {
			pats = append(pats, d)
			roots[d] = true
		}
	}
	cfg := &packages.Config{Dir: *dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
		packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
		packages.NeedDeps | packages.NeedExportFile | packages.NeedModule}
	// NeedDeps with NeedSyntax would type-check every dependency from source;
	// without NeedDeps the dependencies come from compiler export data.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	fset = pkgs[0].Fset
	var spkgs []*ssa.Package
	prog, spkgs = ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	files := []string{}
	for i, p := range spkgs {
		if p == nil {
			fmt.Fprintln(os.Stderr, "no ssa for", pkgs[i].PkgPath)
			os.Exit(3)
		}
		roots[p.Pkg.Path()] = true
		for _, f := range pkgs[i].CompiledGoFiles {
			files = append(files, f)
		}
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		pk := ""
		if f.Pkg != nil {
			pk = f.Pkg.Pkg.Path()
		} else if f.Origin() != nil && f.Origin().Pkg != nil {
			pk = f.Origin().Pkg.Pkg.Path()
		}
		if roots[pk] {
			want(f)
		}
	}
	for _, p := range spkgs {
		for _, mem := range p.Members {
			if f, ok := mem.(*ssa.Function); ok {
				want(f)
			}
			if t, ok := mem.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if n, ok := t.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
						continue
					}
					if types.IsInterface(tt) {
						continue
					}
					dyn[tt] = true
				}
			}
		}
	}
	fns := []M{}
	done := map[string]bool{}
	drain := func() {
		for len(queue) > 0 {
			f := queue[0]
			queue = queue[1:]
			n := f.String()
			if done[n] {
				continue
			}
			done[n] = true
			fns = append(fns, dumpFn(f))
		}
	}
	drain()
	methods := map[string]map[string]string{}
	seen := map[types.Type]bool{}
	for again := true; again; {
		again = false
		for t := range dyn {
			if seen[t] {
				continue
			}
			seen[t] = true
			again = true
			ms := prog.MethodSets.MethodSet(t)
			mm := map[string]string{}
			for i := 0; i < ms.Len(); i++ {
				f := prog.MethodValue(ms.At(i))
				if f == nil {
					continue
				}
				mm[ms.At(i).Obj().Name()] = f.String()
				want(f)
			}
			typ(t)
			methods[types.TypeString(types.Unalias(t), qual)] = mm
		}
		drain()
	}
	// named type method tables for every named type seen (non-interface)
	globals := M{}
	for _, p := range spkgs {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				globals[g.String()] = typ(g.Type())
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i]["name"].(string) < fns[j]["name"].(string) })
	sort.Strings(files)
	o := os.Stdout
	if *out != "" {
		o, err = os.Create(*out)
		if err != nil {
			panic(err)
		}
	}
	enc := json.NewEncoder(o)
	if err := enc.Encode(M{"types": typeTab, "funcs": fns, "methods": methods, "files": files, "globals": globals}); err != nil {
		panic(err)
	}
	o.Close()
}
