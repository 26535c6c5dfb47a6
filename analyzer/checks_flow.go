package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = checkVariants
	checks["C13"] = checkMirrors
	checks["C14"] = checkErrorCodes
	checks["C22"] = checkTypedGetters
}

// methodOrFunc finds Recv.Name ("" for a package function).
func (p *Program) lookup(recv, name string) *ssa.Function {
	if recv == "" {
		return p.SSA.Func(name)
	}
	tn, ok := p.Pkg.Types.Scope().Lookup(recv).(*types.TypeName)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
		ms := p.Prog.MethodSets.MethodSet(t)
		if sel := ms.Lookup(p.Pkg.Types, name); sel != nil {
			if f := p.Prog.MethodValue(sel); f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

func fnName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		return typeName(t) + "." + f.Name()
	}
	return f.Name()
}

// exported lists the exported functions of the package and the exported methods of its exported types.
func (p *Program) exported() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || !ast.IsExported(f.Name()) {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			n, ok := t.(*types.Named)
			if !ok || !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func qual(p *Program) types.Qualifier {
	return func(q *types.Package) string {
		if q == p.Pkg.Types {
			return ""
		}
		return q.Name()
	}
}

// specFn is a reference function written next to the code, in a file that exists only in memory.
type specFn struct {
	key    string // construct
	impl   string // receiver.name or name
	recv   string
	name   string
	src    string
	spec   string // name of the reference function
	rule   string
	unless string
}

const specHeader = "package jin\n\nimport (\n\t\"fmt\"\n\t\"strconv\"\n)\n\nvar _ = fmt.Errorf\nvar _ = strconv.Itoa\n\n"

// compareSpecs loads the package together with the reference functions and compares value-flows.
func compareSpecs(p *Program, r *Report, specs []specFn, opaque [][2]string) {
	src := specHeader
	for _, s := range specs {
		src += s.src + "\n"
	}
	p2, err := loadProgram(p.Dir, map[string][]byte{filepath.Join(p.Dir, "zz_verif_reference.go"): []byte(src)})
	if err != nil {
		r.add("reference-loads", "package jin with reference functions", p.Dir, false, err.Error())
		return
	}
	e := newTermEval(p2)
	for _, o := range opaque {
		if f := p2.lookup(o[0], o[1]); f != nil {
			e.opaque[f] = true
		}
	}
	pathsTotal, pairsTotal := 0, 0
	for _, s := range specs {
		f := p2.lookup(s.recv, s.name)
		g := p2.SSA.Func(s.spec)
		if f == nil || g == nil {
			r.add(s.rule, s.key, "package jin", false, "function is gone")
			continue
		}
		where := p2.pos(f.Pos()) + " " + fnName(f)
		was := e.opaque[f]
		e.opaque[f] = false
		var args []*Term
		for i := range f.Params {
			args = append(args, mk("arg", fmt.Sprint(i)))
		}
		// what both call is a call on both sides first, then functions with many paths are: what agrees then agrees
		agreed := false
		for _, closer := range []func(f, g *ssa.Function) []*ssa.Function{e.closeShared, e.closeLarge} {
			was2 := closer(f, g)
			if len(was2) == 0 {
				continue
			}
			a, b, err, err2 := e.EvalBoth(f, g, args)
			for _, h := range was2 {
				delete(e.opaque, h)
			}
			if err == nil && err2 == nil {
				if pairs, diffs := samePaths(a, b); pairs > 0 && len(diffs) == 0 {
					e.opaque[f] = was
					pathsTotal += len(a)
					pairsTotal += pairs
					r.add(s.rule, s.key, where, true, fmt.Sprintf("%d paths agree with the reference", len(a)))
					agreed = true
					break
				}
			}
		}
		if agreed {
			continue
		}
		a, b, err, err2 := e.EvalBoth(f, g, args)
		e.opaque[f] = was
		if err != nil {
			r.add(s.rule, s.key, where, false, "undecided: "+err.Error())
			continue
		}
		if err2 != nil {
			r.add(s.rule, s.key, where, false, "reference undecided: "+err2.Error())
			continue
		}
		pairs, diffs := samePaths(a, b)
		pathsTotal += len(a)
		pairsTotal += pairs
		if pairs == 0 {
			r.add(s.rule, s.key, where, false, "no path of the function matches the reference")
			continue
		}
		if len(diffs) > 0 {
			d := diffs[0]
			r.add(s.rule, s.key, where, false, fmt.Sprintf("when %s: %s, expected %s", d.when, d.got, d.want))
			continue
		}
		r.add(s.rule, s.key, where, true, fmt.Sprintf("%d paths agree with the reference", len(a)))
	}
	r.Stats["paths_followed"] = pathsTotal
	r.Stats["path_pairs_compared"] = pairsTotal
}

// params prints the parameters of a signature with names a0, a1, ..
func paramList(p *Program, sig *types.Signature, skip int) (decl, use []string) {
	for i := skip; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		n := fmt.Sprintf("a%d", i)
		if sig.Variadic() && i == sig.Params().Len()-1 {
			decl = append(decl, n+" ..."+types.TypeString(t.(*types.Slice).Elem(), qual(p)))
			use = append(use, n+"...")
		} else {
			decl = append(decl, n+" "+types.TypeString(t, qual(p)))
			use = append(use, n)
		}
	}
	return
}

func resultList(p *Program, sig *types.Signature) string {
	var out []string
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, types.TypeString(sig.Results().At(i).Type(), qual(p)))
	}
	return "(" + strings.Join(out, ", ") + ")"
}

// stringEncoder finds the one rule strings are written by: the unexported func(string) string
// that the String variants go through.
func stringEncoder(p *Program) (string, int) {
	count := map[string]int{}
	for _, f := range p.exported() {
		if !strings.HasSuffix(f.Name(), "String") {
			continue
		}
		seen := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || g.Package() != p.SSA || g.Signature.Recv() != nil {
					continue
				}
				s := g.Signature
				if s.Params().Len() == 1 && s.Results().Len() == 1 && isStringType(s.Params().At(0).Type()) && isStringType(s.Results().At(0).Type()) && !seen[g.Name()] {
					seen[g.Name()] = true
					count[g.Name()]++
				}
			}
		}
	}
	best, n := "", 0
	var names []string
	for k := range count {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if count[k] > n {
			best, n = k, count[k]
		}
	}
	return best, n
}

func checkVariants(p *Program, r *Report) {
	r.Expl = "Every path of every typed variant of an edit (package functions, JO and Parser methods) was followed over SSA with helpers expanded, and compared with a reference: the base edit applied to the canonical encoding of the value, with the same document, key, index and path. Base edits that contain loops are uninterpreted calls, so the comparison says the variant is the base edit on that encoding whatever the base edit does."
	r.Assume = []string{"calls to the same function with the same arguments give the same result (C09)", "strconv and fmt behave as documented"}
	enc, n := stringEncoder(p)
	r.add("one-string-encoder", "String variants", "package jin", n >= 5, fmt.Sprintf("%d String variants write strings with %s", n, enc))
	if n == 0 {
		return
	}
	bases := []string{"AddKeyValue", "Add", "Insert", "Set", "Store"}
	suffix := map[string]string{"String": "string", "Int": "int", "Int32": "int32", "Int64": "int64", "Uint": "uint", "Uint32": "uint32", "Uint64": "uint64", "Float": "float64", "Bool": "bool"}
	var sufs []string
	for s := range suffix {
		sufs = append(sufs, s)
	}
	sort.Strings(sufs)
	var specs []specFn
	var opaque [][2]string
	for _, recv := range []string{"", "JO", "Parser"} {
		for _, b := range bases {
			base := p.lookup(recv, b)
			if base == nil {
				continue
			}
			if recv == "Parser" {
				opaque = append(opaque, [2]string{recv, b})
			}
			bs := base.Signature
			// the []byte parameter that carries the value is the last one before the path
			vi := bs.Params().Len() - 2
			for _, s := range sufs {
				f := p.lookup(recv, b+s)
				if f == nil || !ast.IsExported(f.Name()) {
					continue
				}
				sig := f.Signature
				key := fnName(f)
				where := p.pos(f.Pos())
				if sig.Params().Len() != bs.Params().Len() || types.TypeString(sig.Params().At(vi).Type(), nil) != suffix[s] {
					r.add("variant-is-base-on-encoding", key, where, false, "its parameters are not those of "+b+" with a "+suffix[s]+" value")
					continue
				}
				decl, use := paramList(p, sig, 0)
				v := use[vi]
				name := fmt.Sprintf("verifReference%d", len(specs))
				var body strings.Builder
				fail := func(cond, code string) {
					switch recv {
					case "":
						fmt.Fprintf(&body, "\tif %s {\n\t\treturn a0, fmt.Errorf(\"%%02d\", %s)\n\t}\n", cond, code)
					default:
						fmt.Fprintf(&body, "\tif %s {\n\t\treturn fmt.Errorf(\"%%02d\", %s)\n\t}\n", cond, code)
					}
				}
				off := 1
				if recv != "" {
					off = 0
				}
				if b == "AddKeyValue" {
					fail(fmt.Sprintf("len(a%d) == 0", off), "19")
				}
				if b == "Insert" {
					fail(fmt.Sprintf("a%d < 0", off), "7")
				}
				call := b
				if recv != "" {
					call = "r." + b
				}
				ret := func(enc string) string {
					u := append([]string(nil), use...)
					u[vi] = enc
					return "return " + call + "(" + strings.Join(u, ", ") + ")"
				}
				switch s {
				case "String":
					body.WriteString("\t" + ret("[]byte("+enc+"("+v+"))") + "\n")
				case "Float":
					body.WriteString("\t" + ret("[]byte(strconv.FormatFloat("+v+", 'f', -1, 64))") + "\n")
				case "Bool":
					body.WriteString("\tif " + v + " {\n\t\t" + ret(`[]byte("true")`) + "\n\t}\n\t" + ret(`[]byte("false")`) + "\n")
				case "Uint", "Uint32", "Uint64":
					body.WriteString("\t" + ret("[]byte(strconv.FormatUint(uint64("+v+"), 10))") + "\n")
				default:
					body.WriteString("\t" + ret("[]byte(strconv.FormatInt(int64("+v+"), 10))") + "\n")
				}
				rd := ""
				if recv != "" {
					rd = "r *" + recv + ", "
				}
				src := fmt.Sprintf("func %s(%s%s) %s {\n%s}\n", name, rd, strings.Join(decl, ", "), resultList(p, sig), body.String())
				specs = append(specs, specFn{key: key, recv: recv, name: f.Name(), src: src, spec: name, rule: "variant-is-base-on-encoding"})
			}
		}
	}
	r.floor("variant-is-base-on-encoding", 50)
	compareSpecs(p, r, specs, opaque)
}

func checkMirrors(p *Program, r *Report) {
	r.Expl = "Every path of every JO method that has a package function of the same name was followed over SSA with helpers expanded and compared with the reference: the package function applied to the document the JO holds, and for edits the returned document stored back. JO methods without such a function (New, JSON, String, NewJSON) are compared with their documented meaning."
	r.Assume = []string{"calls to the same function with the same arguments give the same result (C09)"}
	var specs []specFn
	for _, f := range p.exported() {
		if f.Signature.Recv() == nil || !strings.HasPrefix(fnName(f), "JO.") {
			continue
		}
		key := fnName(f)
		name := fmt.Sprintf("verifReference%d", len(specs))
		sig := f.Signature
		decl, use := paramList(p, sig, 0)
		g := p.SSA.Func(f.Name())
		var src string
		if g != nil && g.Signature.Params().Len() == sig.Params().Len()+1 && isByteSlice(g.Signature.Params().At(0).Type()) {
			all := append([]string{"r.body"}, use...)
			call := g.Name() + "(" + strings.Join(all, ", ") + ")"
			gr, fr := g.Signature.Results(), sig.Results()
			switch {
			case types.Identical(gr, fr):
				src = fmt.Sprintf("func %s(%s) %s {\n\treturn %s\n}\n", name, strings.Join(append([]string{"r *JO"}, decl...), ", "), resultList(p, sig), call)
			case gr.Len() == fr.Len()+1 && isByteSlice(gr.At(0).Type()):
				src = fmt.Sprintf("func %s(%s) error {\n\tbody, err := %s\n\tr.body = body\n\treturn err\n}\n", name, strings.Join(append([]string{"r *JO"}, decl...), ", "), call)
			default:
				r.add("method-is-function-on-body", key, p.pos(f.Pos()), false, "its results are not those of "+g.Name())
				continue
			}
		} else {
			switch f.Name() {
			case "JSON":
				src = fmt.Sprintf("func %s(r *JO) []byte { return r.body }\n", name)
			case "String":
				src = fmt.Sprintf("func %s(r *JO) string { return string(r.body) }\n", name)
			default:
				continue // a method of its own, there is nothing to mirror
			}
		}
		specs = append(specs, specFn{key: key, recv: "JO", name: f.Name(), src: src, spec: name, rule: "method-is-function-on-body"})
	}
	specs = append(specs,
		specFn{key: "New", name: "New", src: "func verifReferenceNew(b []byte) *JO { return &JO{body: b} }\n", spec: "verifReferenceNew", rule: "constructor-holds-document"},
		specFn{key: "NewJSON", name: "NewJSON", src: "func verifReferenceNewJSON() *JO { return &JO{body: []byte(\"{}\")} }\n", spec: "verifReferenceNewJSON", rule: "constructor-holds-document"})
	r.floor("method-is-function-on-body", 45)
	r.floor("constructor-holds-document", 2)
	compareSpecs(p, r, specs, nil)
}

func checkTypedGetters(p *Program, r *Report) {
	r.Expl = "Every path of the typed getters (package functions and Parser methods) was followed over SSA with helpers expanded and compared with a reference: the text Get returns, parsed by the conversion of that type; the error of Get passes through; a text that does not convert gives the error code of that type."
	r.Assume = []string{"strconv.Atoi, strconv.ParseInt and strconv.ParseFloat behave as documented"}
	var specs []specFn
	for _, recv := range []string{"", "Parser"} {
		decl, call := "json []byte, path ...string", "Get(json, path...)"
		if recv != "" {
			decl, call = "r *Parser, path ...string", "r.Get(path...)"
		}
		mkSpec := func(name, res, body string) {
			sn := "verifReference" + recv + name
			src := fmt.Sprintf("func %s(%s) %s {\n%s}\n", sn, decl, res, strings.ReplaceAll(body, "GET", call))
			key := name
			if recv != "" {
				key = recv + "." + name
			}
			specs = append(specs, specFn{key: key, recv: recv, name: name, src: src, spec: sn, rule: "getter-is-conversion-of-get"})
		}
		mkSpec("GetString", "(string, error)", "\tv, err := GET\n\tif err != nil {\n\t\treturn \"\", err\n\t}\n\treturn string(v), nil\n")
		mkSpec("GetInt", "(int, error)", "\tv, err := GET\n\tif err != nil {\n\t\treturn -1, err\n\t}\n\tn, err := strconv.Atoi(string(v))\n\tif err != nil {\n\t\treturn -1, fmt.Errorf(\"%02d\", 12)\n\t}\n\treturn n, nil\n")
		mkSpec("GetFloat", "(float64, error)", "\tv, err := GET\n\tif err != nil {\n\t\treturn -1, err\n\t}\n\tn, err := strconv.ParseFloat(string(v), 64)\n\tif err != nil {\n\t\treturn -1, fmt.Errorf(\"%02d\", 13)\n\t}\n\treturn n, nil\n")
		mkSpec("GetBool", "(bool, error)", "\tv, err := GET\n\tif err != nil {\n\t\treturn false, err\n\t}\n\tif string(v) == \"true\" {\n\t\treturn true, nil\n\t}\n\tif string(v) == \"false\" {\n\t\treturn false, nil\n\t}\n\treturn false, fmt.Errorf(\"%02d\", 14)\n")
		mkSpec("GetStringArray", "([]string, error)", "\tb, err := GET\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tv := string(b)\n\tif len(v) < 2 || v[0] != '[' || v[len(v)-1] != ']' {\n\t\treturn nil, fmt.Errorf(\"%02d\", 15)\n\t}\n\ta := ParseArray(v)\n\tif a == nil {\n\t\treturn nil, fmt.Errorf(\"%02d\", 15)\n\t}\n\treturn a, nil\n")
	}
	r.floor("getter-is-conversion-of-get", 10)
	compareSpecs(p, r, specs, nil)
}

func checkErrorCodes(p *Program, r *Report) {
	r.Expl = "The exported error codes, every place in the package that creates an error, and ErrEqual. Codes are compared as constants; every error created must end in two digits that are one of the codes, one condition per code; every path of ErrEqual is compared with the reference that reads those two digits."
	r.Assume = []string{"errors from strconv and the file system are passed on or replaced, they carry no code of this package"}
	scope := p.Pkg.Types.Scope()
	codes := map[int64]string{}
	byName := map[string]int64{}
	for _, n := range scope.Names() {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok || !strings.HasPrefix(n, "ErrCode") {
			continue
		}
		v, _ := constant.Int64Val(c.Val())
		where := p.pos(c.Pos())
		byName[n] = v
		if o, dup := codes[v]; dup {
			r.add("codes-are-distinct", n, where, false, fmt.Sprintf("has the value %d of %s", v, o))
			continue
		}
		codes[v] = n
		r.add("codes-are-distinct", n, where, v >= 0 && v <= 99, fmt.Sprintf("value %d", v))
	}
	// documented values: a program compiled against an older version compares with these
	documented := map[string]int64{"ErrCodeNullPath": 0, "ErrCodeEmptyArray": 2, "ErrCodeIndexExpected": 3, "ErrCodeObjectExpected": 5, "ErrCodeArrayExpected": 6, "ErrCodeIndexOutOfRange": 7, "ErrCodeKeyNotFound": 8, "ErrCodeBadJSON": 9, "ErrCodeKeyAlreadyExist": 11, "ErrCodeIntegerParse": 12, "ErrCodeFloatParse": 13, "ErrCodeBoolParse": 14, "ErrCodeStringArrayParse": 15, "ErrCodeIntegerArrayParse": 16, "ErrCodeFloatArrayParse": 17, "ErrCodeBoolArrayParse": 18, "ErrCodeNullKey": 19, "ErrCodeEmpty": 20}
	var dn []string
	for n := range documented {
		dn = append(dn, n)
	}
	sort.Strings(dn)
	for _, n := range dn {
		v, ok := byName[n]
		r.add("code-has-documented-value", n, "errors.go", ok && v == documented[n], fmt.Sprintf("value %d, documented %d", v, documented[n]))
	}
	// creation sites
	type site struct {
		fn   *ssa.Function
		code int64
		pos  token.Pos
	}
	var sites []site
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil {
					continue
				}
				n := g.String()
				if n != "fmt.Errorf" && n != "errors.New" {
					continue
				}
				code, ok := errorCodeOf(c)
				where := p.pos(c.Pos()) + " " + fnName(f)
				if !ok {
					// the text or the code is a parameter: every caller has to fix it
					cs := callerCodes(p, f, 0)
					if len(cs) > 0 {
						for _, x := range cs {
							_, known := codes[x.code]
							r.add("error-ends-in-its-code", fnName(x.fn), p.pos(x.pos)+" "+fnName(x.fn)+" through "+fnName(f), x.ok && known, fmt.Sprintf("code %02d (%s)", x.code, codes[x.code]))
							if x.ok {
								sites = append(sites, site{x.fn, x.code, x.pos})
							}
						}
						continue
					}
				}
				_, known := codes[code]
				r.add("error-ends-in-its-code", fnName(f), where, ok && known, fmt.Sprintf("code %02d (%s)", code, codes[code]))
				if ok {
					sites = append(sites, site{f, code, c.Pos()})
				}
			}
		}
	}
	// an empty path is refused as such, and an empty key
	makes := map[*ssa.Function]int64{}
	for _, s := range sites {
		makes[s.fn] = s.code
	}
	emptyRefusals(p, func(f *ssa.Function, in ssa.Instruction, g *ssa.Function, key bool) {
		code, ok := makes[g]
		if !ok {
			return
		}
		want := "ErrCodeNullPath"
		if key {
			want = "ErrCodeNullKey"
		}
		r.add("empty-argument-has-its-code", fnName(f)+"/"+want, p.pos(in.Pos())+" "+fnName(f), codes[code] == want, fmt.Sprintf("refuses an empty argument with code %02d (%s), not %s", code, codes[code], want))
	})
	// one condition, one code: a function that only makes an error is a condition
	owner := map[int64]*ssa.Function{}
	for _, s := range sites {
		if !isErrorMaker(s.fn) {
			continue
		}
		key := s.fn.Name()
		where := p.pos(s.pos) + " " + key
		if o, ok := owner[s.code]; ok && o != s.fn {
			r.add("one-condition-per-code", key, where, false, fmt.Sprintf("writes code %02d, which is the code of %s", s.code, o.Name()))
			continue
		}
		owner[s.code] = s.fn
		// err<Condition> and ErrCode<Condition> name the same condition
		want, has := byName["ErrCode"+strings.TrimPrefix(key, "err")]
		if strings.HasPrefix(key, "err") && has && want != s.code {
			r.add("one-condition-per-code", key, where, false, fmt.Sprintf("writes code %02d, the code of its condition is %02d", s.code, want))
			continue
		}
		r.add("one-condition-per-code", key, where, true, fmt.Sprintf("code %02d", s.code))
	}
	r.floor("codes-are-distinct", 18)
	r.floor("error-ends-in-its-code", 18)
	src := `func verifReferenceErrEqual(err error, code int) bool {
	if err == nil {
		return false
	}
	s := err.Error()
	if len(s) < 2 {
		return false
	}
	c, err := strconv.Atoi(s[len(s)-2:])
	if err != nil {
		return false
	}
	return c == code
}
`
	compareSpecs(p, r, []specFn{{key: "ErrEqual", name: "ErrEqual", src: src, spec: "verifReferenceErrEqual", rule: "errequal-reads-the-code"}}, nil)
	r.floor("errequal-reads-the-code", 1)
}

type codeSite struct {
	fn   *ssa.Function
	pos  token.Pos
	code int64
	ok   bool
}

// callerCodes resolves the code of errors made by f at each of its call sites.
func callerCodes(p *Program, f *ssa.Function, depth int) []codeSite {
	var out []codeSite
	if depth > 4 || hasLoop(f) {
		return nil
	}
	e := newTermEval(p)
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != f {
					continue
				}
				var args []*Term
				for i, a := range c.Call.Args {
					args = append(args, argTerm(a, i))
				}
				code, good := int64(-1), true
				paths, err := e.Eval(f, args)
				if err != nil {
					good = false
				}
				for _, q := range paths {
					for _, t := range q.results {
						if t.op != "err" {
							continue
						}
						var n int64
						if _, err := fmt.Sscanf(t.aux, "%02d", &n); err != nil || (code != -1 && code != n) {
							good = false
						}
						code = n
					}
				}
				if good && code >= 0 {
					out = append(out, codeSite{g, c.Pos(), code, true})
					continue
				}
				up := callerCodes(p, g, depth+1)
				if len(up) == 0 {
					out = append(out, codeSite{g, c.Pos(), code, false})
				}
				out = append(out, up...)
			}
		}
	}
	return out
}

// argTerm is the term of an argument at a call site: constants and lists of constants are kept.
func argTerm(v ssa.Value, i int) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.MakeInterface:
		return mk("iface", typeName(v.X.Type()), argTerm(v.X, i))
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok {
			arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if ok {
				els := make([]*Term, arr.Len())
				for k := range els {
					els[k] = mk("arg", fmt.Sprintf("%d.%d", i, k))
				}
				for _, ref := range *al.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						if ic, ok := ia.Index.(*ssa.Const); ok {
							for _, r2 := range *ia.Referrers() {
								if st, ok := r2.(*ssa.Store); ok {
									els[ic.Int64()] = argTerm(st.Val, i)
								}
							}
						}
					}
				}
				return mk("list", "", els...)
			}
		}
	}
	return mk("arg", fmt.Sprint(i))
}

func isErrorMaker(f *ssa.Function) bool {
	if f.Signature.Results().Len() != 1 || types.TypeString(f.Signature.Results().At(0).Type(), nil) != "error" || len(f.Blocks) != 1 {
		return false
	}
	return true
}

// errorCodeOf reads the two digits an error created by fmt.Errorf or errors.New ends with.
func errorCodeOf(c *ssa.Call) (int64, bool) {
	args := c.Call.Args
	k, ok := args[0].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return 0, false
	}
	f := constant.StringVal(k.Value)
	if strings.HasSuffix(f, "%02d") {
		if len(args) < 2 {
			return 0, false
		}
		// last element of the variadic list
		sl, ok := args[1].(*ssa.Slice)
		if !ok {
			return 0, false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return 0, false
		}
		n := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		// the verbs consume the list in order: the last verb takes the last element
		if int64(strings.Count(strings.ReplaceAll(f, "%%", ""), "%")) != n {
			return 0, false
		}
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ic, ok := ia.Index.(*ssa.Const)
			if !ok || ic.Int64() != n-1 {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok {
					continue
				}
				mi, ok := st.Val.(*ssa.MakeInterface)
				if !ok {
					return 0, false
				}
				kc, ok := mi.X.(*ssa.Const)
				if !ok || kc.Value == nil || kc.Value.Kind() != constant.Int {
					return 0, false
				}
				return kc.Int64(), kc.Int64() >= 0 && kc.Int64() < 100
			}
		}
		return 0, false
	}
	if len(f) >= 2 && isDigit(f[len(f)-2]) && isDigit(f[len(f)-1]) {
		return int64(f[len(f)-2]-'0')*10 + int64(f[len(f)-1]-'0'), true
	}
	return 0, false
}

func isDigit(b byte) bool { return b >= '0' && b <= '9' }

// emptyRefusals gives every branch on an empty path or key (a []string parameter, or a string one that is called a key) that returns an error made by g at once.
func emptyRefusals(p *Program, found func(f *ssa.Function, in ssa.Instruction, g *ssa.Function, key bool)) {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			op, ok := br.Cond.(*ssa.BinOp)
			if !ok || op.Op != token.EQL {
				continue
			}
			c, ok := op.X.(*ssa.Call)
			k, ok2 := op.Y.(*ssa.Const)
			if !ok || !ok2 || k.Value == nil || k.Value.String() != "0" {
				continue
			}
			bi, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				continue
			}
			prm, ok := c.Call.Args[0].(*ssa.Parameter)
			if !ok {
				continue
			}
			path, key := prm.Type().String() == "[]string", isStringType(prm.Type()) && strings.Contains(strings.ToLower(prm.Name()), "key")
			t := b.Succs[0]
			ret, ok := t.Instrs[len(t.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) == 0 || !path && !key {
				continue
			}
			e, ok := ret.Results[len(ret.Results)-1].(*ssa.Call)
			if !ok || e.Block() != t || !isErrorType(e.Type()) {
				continue
			}
			if g := e.Call.StaticCallee(); g != nil && g.Package() == p.SSA {
				found(f, e, g, key)
			}
		}
	}
}
