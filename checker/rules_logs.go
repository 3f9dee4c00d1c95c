package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		id:        "C40",
		technique: "interprocedural taint analysis over the intermediate representation: context-sensitive function summaries, field-based memory, calls through interfaces and function values resolved to all candidates; sources are the fields, results, parameters and request metadata that hold secrets, sinks are all log statements",
		rule:      "no argument of a log statement receives a secret, a hash of one, a token, a private key, stored data, or a value whose type contains one of these",
		run:       runC40,
	})
}

func runC40(c *Ctx) {
	t := &taint{P: c.P}
	// fields of messages that hold secrets
	fields := map[string]bool{}
	for _, sp := range c.P.byPkg {
		for _, im := range sp.Pkg.Imports() {
			if !strings.HasPrefix(im.Path(), protoPath) {
				continue
			}
			for _, n := range im.Scope().Names() {
				tn, ok := im.Scope().Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				s, ok := tn.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					if f := s.Field(i).Name(); f == "Secret" || f == "Token" {
						fields[t.cellOf(tn.Type(), i).name] = true
					}
				}
			}
		}
	}
	var fl []string
	for f := range fields {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for _, f := range fl {
		c.ob("sources", f)
	}
	fields["github.com/dgrijalva/jwt-go.Token.Raw"] = true
	fields["github.com/dgrijalva/jwt-go.Token.Signature"] = true
	fields["github.com/golang-jwt/jwt.Token.Raw"] = true
	fields["github.com/golang-jwt/jwt.Token.Signature"] = true
	t.cellSrc = func(n string) bool { return fields[n] }
	// operations that are given, or provide, secrets
	params := map[*ssa.Function]map[int]bool{}
	results := map[*ssa.Function]map[int]bool{}
	mark := func(m map[*ssa.Function]map[int]bool, f *ssa.Function, i int) {
		if m[f] == nil {
			m[f] = map[int]bool{}
		}
		m[f][i] = true
	}
	type decl struct {
		pkg, iface, method string
		params             []int // without the receiver
		result             bool
	}
	for _, d := range []decl{
		{"internal/crypto", "EMCrypto", "SecureSecret", []int{0}, true},
		{"internal/crypto", "EMCrypto", "VerifySecret", []int{0, 1}, false},
		{"internal/token", "Service", "Generate", nil, true},
		{"internal/token", "Service", "Validate", []int{0}, false},
		{cachePkg, "TokenCache", "PutToken", []int{1}, false},
		{cachePkg, "TokenCache", "GetToken", nil, true},
		{"internal/db", "KVStore", "Put", []int{1}, false},
		{"internal/db", "KVStore", "Get", nil, true},
	} {
		it := c.P.namedType(d.pkg, d.iface)
		if it == nil {
			c.unresolved("sources", d.pkg+"."+d.iface)
			continue
		}
		iface, ok := it.Underlying().(*types.Interface)
		if !ok {
			c.unresolved("sources", d.pkg+"."+d.iface)
			continue
		}
		n := 0
		for _, f := range c.P.fns {
			r := f.Signature.Recv()
			if r == nil || f.Name() != d.method || !types.Implements(r.Type(), iface) && !types.Implements(types.NewPointer(r.Type()), iface) {
				continue
			}
			n++
			for _, i := range d.params {
				// values are grouped differently by some
				if i+1 < len(f.Params) {
					mark(params, f, i+1)
				} else {
					c.unresolved("sources", d.iface+"."+d.method)
				}
			}
			if d.result {
				mark(results, f, 0)
			}
		}
		if n == 0 {
			c.unresolved("sources", d.iface+"."+d.method)
		}
		c.ob("sources", d.iface+"."+d.method)
	}
	if f := c.P.fn(clientPkg + ".Authorize"); f != nil {
		mark(params, f, 1)
		c.ob("sources", "Authorize")
	} else {
		c.unresolved("sources", "Authorize")
	}
	c.ob("sources", "private keys")
	c.ob("sources", "request metadata")
	t.param = func(f *ssa.Function, i int) bool { return params[f][i] }
	t.result = func(f *ssa.Function, i int) bool { return results[f][i] }
	t.source = func(f *ssa.Function, call ssa.CallInstruction, name string) string {
		switch {
		case strings.HasSuffix(name, "viper.GetString"):
			if k, ok := call.Common().Args[0].(*ssa.Const); ok && k.Value != nil && strings.EqualFold(k.Value.String(), `"secret"`) {
				return "the secret given to the command"
			}
		case strings.HasPrefix(name, "github.com/bgentry/speakeasy."):
			return "the secret that was entered"
		case name == "os.ReadFile" || name == "io/ioutil.ReadFile" || name == "io.ReadAll" || name == "io/ioutil.ReadAll":
			if f.Pkg != nil && strings.HasPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "internal/token/") {
				return "the contents of a key file"
			}
		}
		return ""
	}
	user := func(f *ssa.Function) bool {
		if f.Pkg == nil {
			return false
		}
		p := strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath)
		return p == ctlPkg || p == "cmd/netauth"
	}
	// output to the terminal of the server's processes is a log as well
	t.sink = func(f *ssa.Function, cc *ssa.CallCommon) bool {
		g := cc.StaticCallee()
		if g == nil || g.Object() == nil || user(f) {
			return false
		}
		switch g.String() {
		case "fmt.Print", "fmt.Printf", "fmt.Println":
			return true
		case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
			if m, ok := cc.Args[0].(*ssa.MakeInterface); ok {
				if u, ok := m.X.(*ssa.UnOp); ok {
					if gl, ok := u.X.(*ssa.Global); ok {
						return gl.String() == "os.Stderr" || gl.String() == "os.Stdout"
					}
				}
			}
		}
		return false
	}
	t.quiet = func(f *ssa.Function) bool { return false }
	t.solve()
	if t.changed {
		c.violate("logs", "undecided", 0, nil, "analysis incomplete: no fixed point was reached")
	}
	for _, f := range t.fns {
		c.fns[fnName(f)] = true
	}
	c.states += len(t.fns)
	var ids []string
	for id := range t.logs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		c.ob("logs", id)
		h := t.hits[id]
		if h == nil {
			continue
		}
		l := t.logs[id]
		c.violate("logs", id, l.call.Pos(), h.via, "a log statement of %s receives %s", fnName(l.in), h.origin)
	}
	c.need("sources", 14)
	c.need("logs", 250)
}
