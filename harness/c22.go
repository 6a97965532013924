package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"pgregory.net/rapid"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/rules"
)

// C22: configurations of TLS. Each unit is a literal of tls.Config, or an assignment to fields of one, on lines of its own;
// whether it has to be reported follows from its own values alone.

type tlsField struct {
	Name string
	V    int // version, or index of the value
	Form int // how it is written
	List []int
}

type tlsUnit struct {
	Kind   int // shape of the literal or of the assignment
	Fields []tlsField
	Inner  *tlsUnit // a configuration inside this one
	Split  bool     // one field per line
	File   int
	Own    bool // a type of the package that looks like tls.Config
}

type tlsCase struct {
	Units   []tlsUnit
	Alias   [2]string
	Files   int
	Reverse bool // declarations come after their uses
	Profile int  // 0: what G402 requires; 1, 2: the strictest and the oldest of the profiles, of which a program can make a rule
}

type tlsProfile struct {
	min, max int
	good     []string
}

// what the profiles accept, of the names that crypto/tls declares
var tlsProfiles = []tlsProfile{
	{0x303, 0x304, tlsGood},
	{0x304, 0x304, tlsGood[:3]},
	{0x301, 0x304, append([]string{"TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256", "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256", "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA", "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA",
		"TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA", "TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA", "TLS_RSA_WITH_AES_128_GCM_SHA256", "TLS_RSA_WITH_AES_256_GCM_SHA384", "TLS_RSA_WITH_AES_128_CBC_SHA256",
		"TLS_RSA_WITH_AES_128_CBC_SHA", "TLS_RSA_WITH_AES_256_CBC_SHA", "TLS_RSA_WITH_3DES_EDE_CBC_SHA"}, tlsGood...)},
}

func (p tlsProfile) accepts(suite string) bool { return slices.Contains(p.good, suite) }

var tlsGood = []string{"TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256", "TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256", "TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256",
	"TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384", "TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384", "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305", "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305",
	"TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256", "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256"}

var tlsBad = []string{"TLS_RSA_WITH_RC4_128_SHA", "TLS_RSA_WITH_3DES_EDE_CBC_SHA", "TLS_RSA_WITH_AES_128_CBC_SHA", "TLS_RSA_WITH_AES_256_CBC_SHA", "TLS_RSA_WITH_AES_128_CBC_SHA256",
	"TLS_RSA_WITH_AES_128_GCM_SHA256", "TLS_RSA_WITH_AES_256_GCM_SHA384", "TLS_ECDHE_ECDSA_WITH_RC4_128_SHA", "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA", "TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA",
	"TLS_ECDHE_RSA_WITH_RC4_128_SHA", "TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA", "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA", "TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA", "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256",
	"TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256"}

var tlsVersions = map[int]string{0x300: "VersionSSL30", 0x301: "VersionTLS10", 0x302: "VersionTLS11", 0x303: "VersionTLS12", 0x304: "VersionTLS13"}

var tlsOther = []string{`ServerName: "localhost"`, `NextProtos: []string{"h2", "InsecureSkipVerify"}`, `Certificates: nil`, `Rand: nil`, `SessionTicketsDisabled: true`, `ClientAuth: TLS.NoClientCert`,
	`Renegotiation: TLS.RenegotiateNever`, `DynamicRecordSizingDisabled: true`, `CurvePreferences: []TLS.CurveID{TLS.CurveP256, TLS.X25519}`, `KeyLogWriter: nil`, `Time: nil`}

const (
	tlsForms  = 23 // ways to write a version
	tlsShapes = 16 // ways to write a literal
	tlsSets   = 9  // ways to write an assignment
)

func genTLSVersion(t *rapid.T) int {
	return sampled([]int{0, 0x300, 0x301, 0x302, 0x303, 0x303, 0x304, 0x304}).Draw(t, "version")
}

func genTLSFields(t *rapid.T, names []string) []tlsField {
	var fs []tlsField
	perm := rapid.Permutation(names).Draw(t, "fields")
	for _, n := range perm[:upTo(t, len(perm), "nfields")] {
		f := tlsField{Name: n, Form: upTo(t, tlsForms-1, "form")}
		switch n {
		case "MinVersion", "MaxVersion":
			f.V = genTLSVersion(t)
		case "CipherSuites":
			for i := upTo(t, 3, "nciph"); i > 0; i-- {
				if oneIn(t, 3, "bad") {
					f.List = append(f.List, -1-upTo(t, len(tlsBad)-1, "b"))
				} else {
					f.List = append(f.List, upTo(t, len(tlsGood)-1, "g"))
				}
			}
		case "other":
			f.V = upTo(t, len(tlsOther)-1, "o")
		default:
			// mostly the value that is accepted
			f.V = sampled([]int{0, 0, 0, 1, 2}).Draw(t, "bool")
		}
		fs = append(fs, f)
	}
	return fs
}

func genTLSUnit(t *rapid.T, depth int) tlsUnit {
	u := tlsUnit{Kind: upTo(t, tlsShapes+tlsSets-1, "shape"), Split: rapid.Bool().Draw(t, "split"), Own: oneIn(t, 9, "own")}
	if depth > 0 && u.Kind >= tlsShapes {
		u.Kind %= tlsShapes
	}
	names := []string{"InsecureSkipVerify", "PreferServerCipherSuites", "MinVersion", "MaxVersion", "CipherSuites", "other"}
	if oneIn(t, 2, "few") { // mostly versions
		names = []string{"MinVersion", "MaxVersion", "other"}
	}
	u.Fields = genTLSFields(t, names)
	if u.Kind < tlsShapes && !u.Own {
		has := false
		for _, f := range u.Fields {
			has = has || f.Name == "MinVersion"
		}
		if !has && !oneIn(t, 4, "nomin") {
			u.Fields = append(u.Fields, tlsField{Name: "MinVersion", V: 0x303 + upTo(t, 1, "v"), Form: upTo(t, tlsForms-1, "form")})
		}
		if depth == 0 && oneIn(t, 6, "inner") {
			in := genTLSUnit(t, 1)
			in.Kind = upTo(t, 3, "inkind")
			u.Inner, u.Split = &in, true
		}
	}
	if depth > 0 {
		u.Own = false
	}
	return u
}

func genTLS(t *rapid.T) tlsCase {
	c := tlsCase{Files: 1 + upTo(t, 1, "files"), Reverse: rapid.Bool().Draw(t, "reverse"), Profile: sampled([]int{0, 0, 0, 0, 1, 2}).Draw(t, "profile")}
	for i := 0; i < c.Files; i++ {
		c.Alias[i] = sampled([]string{"", "", "tls2", "cryptotls"}).Draw(t, "alias")
	}
	for i := 1 + upTo(t, 5, "units"); i > 0; i-- {
		u := genTLSUnit(t, 0)
		u.File = upTo(t, c.Files-1, "file")
		c.Units = append(c.Units, u)
	}
	return c
}

type tlsBuild struct {
	n     int
	prof  tlsProfile
	decls []string // package level declarations, placed in a file of choice
	pre   []string // statements in front
}

// version writes a version in one of the forms; zero is the value of forms that do not name one.
func (b *tlsBuild) version(v, form int) string {
	b.n++
	name := fmt.Sprintf("ver%d", b.n)
	lit := fmt.Sprintf("0x%04x", v)
	if s := tlsVersions[v]; s != "" && form%2 == 0 {
		lit = "TLS." + s
	}
	switch form {
	case 2, 3:
		b.decls = append(b.decls, fmt.Sprintf("const %s = %s", name, lit))
		return name
	case 4, 5:
		b.decls = append(b.decls, fmt.Sprintf("var %s uint16 = %s", name, lit))
		return name
	case 6:
		b.pre = append(b.pre, fmt.Sprintf("const %s = %s", name, lit))
		return name
	case 7, 8:
		b.pre = append(b.pre, fmt.Sprintf("%s := uint16(%s)", name, lit))
		return name
	case 9:
		b.pre = append(b.pre, fmt.Sprintf("var %s uint16 = %s", name, lit))
		return name
	case 10:
		b.pre = append(b.pre, fmt.Sprintf("var other%d, %s uint16 = 0x0301, %s", b.n, name, lit), fmt.Sprintf("use(other%d)", b.n))
		return name
	case 11:
		b.decls = append(b.decls, fmt.Sprintf("var other%d, %s uint16 = 0x0304, %s", b.n, name, lit))
		return name
	case 12:
		b.decls = append(b.decls, fmt.Sprintf("const (\n\tother%d = 7\n\t%s uint16 = %s\n)", b.n, name, lit))
		return name
	case 13:
		return "(" + lit + ")"
	case 14:
		return "uint16(" + lit + ")"
	case 15:
		if v > 1 {
			return fmt.Sprintf("%#x + 1", v-1)
		}
		return lit
	case 16:
		return fmt.Sprint(v)
	case 17:
		b.pre = append(b.pre, fmt.Sprintf("more%d, %s := \"0x0301\", uint16(%s)", b.n, name, lit), fmt.Sprintf("use(more%d)", b.n))
		return name
	case 18:
		return fmt.Sprintf("0b%b", v)
	case 19, 20, 21, 22: // another variable or constant has the same name
		other := 0x304
		if v >= 0x303 {
			other = 0x301
		}
		switch form {
		case 19:
			b.decls = append(b.decls, fmt.Sprintf("var %s uint16 = %#x", name, other))
			b.pre = append(b.pre, fmt.Sprintf("%s := uint16(%s)", name, lit))
		case 20:
			b.decls = append(b.decls, fmt.Sprintf("const %s = %#x", name, other))
			b.pre = append(b.pre, fmt.Sprintf("const %s = %s", name, lit))
		case 21:
			b.pre = append(b.pre, fmt.Sprintf("{\n%s := uint16(%#x)\nuse(%s)\n}", name, other, name), fmt.Sprintf("%s := uint16(%s)", name, lit))
		default:
			b.decls = append(b.decls, fmt.Sprintf("var %s uint16 = %s", name, lit))
			b.pre = append(b.pre, fmt.Sprintf("{\nconst %s = %#x\nuse(%s)\n}", name, other, name))
		}
		return name
	}
	return lit
}

func (b *tlsBuild) value(f tlsField) (string, bool) { // text and whether it is accepted on its own
	switch f.Name {
	case "MinVersion", "MaxVersion":
		return b.version(f.V, f.Form), true
	case "CipherSuites":
		var cs []string
		ok := true
		for _, i := range f.List {
			name := ""
			if i < 0 {
				name = tlsBad[-1-i]
			} else {
				name = tlsGood[i]
			}
			cs = append(cs, "TLS."+name)
			ok = ok && b.prof.accepts(name)
		}
		if f.Form%3 == 0 && len(cs) > 0 {
			return "[]uint16{\n" + strings.Join(cs, ",\n") + ",\n}", ok
		}
		return "[]uint16{" + strings.Join(cs, ", ") + "}", ok
	case "InsecureSkipVerify":
		return []string{"false", "true", "anyBool()"}[f.V], f.V == 0
	case "PreferServerCipherSuites":
		return []string{"true", "false", "anyBool()"}[f.V], f.V == 0
	}
	return "", true
}

// literal writes the braces of a unit with markers around it, which tell the lines apart.
func (b *tlsBuild) literal(u *tlsUnit, id int, inner string) (string, bool) {
	bad := false
	minV, maxV := 0, 0
	var els []string
	for _, f := range u.Fields {
		if f.Name == "other" {
			if !u.Own {
				els = append(els, tlsOther[f.V])
			}
			continue
		}
		v, ok := b.value(f)
		els = append(els, f.Name+": "+v)
		bad = bad || !ok
		switch f.Name {
		case "MinVersion":
			minV = f.V
		case "MaxVersion":
			maxV = f.V
		}
	}
	if minV < b.prof.min || maxV != 0 && maxV < b.prof.max {
		bad = true
	}
	if inner != "" {
		els = append([]string{inner}, els...)
	}
	if u.Split {
		return "{\n" + strings.Join(els, ",\n") + strings.Repeat(",", min(1, len(els))) + "\n}", bad && !u.Own
	}
	return "{" + strings.Join(els, ", ") + "}", bad && !u.Own
}

// unit writes one unit; the text between \x01<id>\x02 and \x03 belongs to configuration id.
func (b *tlsBuild) unit(u *tlsUnit, id *int, want map[int]bool) string {
	k := *id
	*id++
	T := "TLS.Config"
	if u.Own {
		T = "own"
	}
	if u.Kind < tlsShapes {
		inner := ""
		if u.Inner != nil {
			ik := *id
			*id++
			lit, bad := b.literal(u.Inner, ik, "")
			want[ik] = bad
			lit = fmt.Sprintf("\x01%d\x02TLS.Config%s\x03", ik, lit)
			switch u.Inner.Kind {
			case 0:
				inner = "GetConfigForClient: func(*TLS.ClientHelloInfo) (*TLS.Config, error) {\nreturn &" + lit + ", nil\n}"
			case 1:
				inner = "VerifyConnection: func(TLS.ConnectionState) error {\nx := " + lit + "\nuse(&x)\nreturn nil\n}"
			case 2:
				inner = "GetConfigForClient: func(*TLS.ClientHelloInfo) (*TLS.Config, error) {\nc := &" + lit + "\nreturn c, nil\n}"
			default:
				inner = "EncryptedClientHelloConfigList: []byte(\nfunc() string {\nreturn (&" + lit + ").ServerName\n}(),\n)"
			}
		}
		lit, bad := b.literal(u, k, inner)
		want[k] = bad
		m := func(s string) string { return fmt.Sprintf("\x01%d\x02%s\x03", k, s) }
		whole := m(T + lit)
		if u.Own && u.Kind >= 6 {
			u.Kind %= 6
		}
		b.n++
		n := b.n
		switch u.Kind {
		case 0:
			return fmt.Sprintf("x%d := %s\nuse(&x%d)", n, whole, n)
		case 1:
			return fmt.Sprintf("x%d := &%s\nuse(x%d)", n, whole, n)
		case 2:
			return "use(&" + whole + ")"
		case 3:
			return fmt.Sprintf("var x%d *%s = &%s\nuse(x%d)", n, T, whole, n)
		case 4:
			return fmt.Sprintf("func() *%s {\nreturn &%s\n}()", T, whole)
		case 5:
			return fmt.Sprintf("if x%d := (&%s); anyBool() {\nuse(x%d)\n}", n, whole, n)
		case 6:
			return fmt.Sprintf("t%d := &http.Transport{\nTLSClientConfig: &%s,\n}\nuse(t%d)", n, whole, n)
		case 7:
			return fmt.Sprintf("x%d := []TLS.Config{\n%s,\n}\nuse(x%d)", n, m(lit), n)
		case 8:
			return fmt.Sprintf("x%d := []*TLS.Config{\nnil,\n%s,\n}\nuse(x%d)", n, m(lit), n)
		case 9:
			return fmt.Sprintf("x%d := map[string]*TLS.Config{\n\"a\": %s,\n}\nuse(x%d)", n, m(lit), n)
		case 10:
			return fmt.Sprintf("x%d := holder{\nC: &%s,\n}\nuse(x%d)", n, whole, n)
		case 11:
			return fmt.Sprintf("x%d := conf%s\nuse(&x%d)", n, m(lit), n)
		case 12:
			return fmt.Sprintf("defer use(&%s)", whole)
		case 13:
			return fmt.Sprintf("x%d := [...]TLS.Config{2: %s}\nuse(&x%d)", n, m(lit), n)
		case 14:
			return fmt.Sprintf("var x%d, y%d = 1, &%s\nuse(x%d, y%d)", n, n, whole, n, n)
		default:
			return fmt.Sprintf("func(c *TLS.Config) {\nuse(c)\n}(&%s)", whole)
		}
	}
	// an assignment
	b.n++
	n := b.n
	bad := false
	var lhs, rhs []string
	x := fmt.Sprintf("x%d", n)
	decl, end := "", ""
	kind := u.Kind - tlsShapes
	switch kind {
	case 0, 6:
		decl = fmt.Sprintf("var %s %s", x, T)
	case 1, 7:
		decl = fmt.Sprintf("%s := new(%s)", x, T)
	case 2:
		decl = fmt.Sprintf("var h%d struct{ C *%s }", n, T)
		x = fmt.Sprintf("h%d.C", n)
	case 3:
		decl = fmt.Sprintf("h%d := new(struct{ C %s })", n, T)
		x = fmt.Sprintf("h%d.C", n)
	case 4:
		decl = fmt.Sprintf("%s := new(%s)\n%s = (%s)", x, T, x, x)
		x = "(*" + x + ")"
	case 5:
		decl = fmt.Sprintf("func(%s *%s, n int) {", x, T)
		end = "}(nil, 1)"
	case 8:
		decl = fmt.Sprintf("h%d := make([]*%s, 3)", n, T)
		x = fmt.Sprintf("h%d[1]", n)
	}
	for _, f := range u.Fields {
		if f.Name == "other" {
			continue
		}
		if strings.HasSuffix(f.Name, "Version") {
			f.Form &= 1 // no declarations behind
		}
		v, ok := b.value(f)
		lhs, rhs = append(lhs, x+"."+f.Name), append(rhs, v)
		bad = bad || !ok
	}
	want[k] = bad && !u.Own
	set := ""
	switch {
	case len(lhs) == 0:
		set = x + ".ServerName = \"x\""
		if u.Own {
			set = x + ".MinVersion = 1"
		}
	case kind >= 6 && len(lhs) > 1:
		set = strings.Join(lhs, ", ") + " = " + strings.Join(rhs, ", ")
	case kind == 7:
		set = "use2, " + lhs[0] + " = 3, " + rhs[0]
	default:
		for i := range lhs {
			set += lhs[i] + " = " + rhs[i] + "\n"
		}
		set = strings.TrimSuffix(set, "\n")
	}
	out := decl + "\n" + fmt.Sprintf("\x01%d\x02%s\x03", k, set)
	if end != "" {
		return out + "\n" + end
	}
	return out + "\nuse(&" + x + ")"
}

func (c tlsCase) build() ([]File, map[string]map[int]int, map[int]bool) {
	want := map[int]bool{}
	lines := map[string]map[int]int{}
	id := 0
	bodies := make([]string, c.Files)
	decls := make([]string, c.Files)
	for i := range c.Units {
		u := c.Units[i]
		b := &tlsBuild{n: 100 * i, prof: tlsProfiles[c.Profile]}
		text := b.unit(&u, &id, want)
		f := u.File % c.Files
		bodies[f] += fmt.Sprintf("func f%d() {\n%s%s\n}\n\n", i, strings.Join(append(b.pre, ""), "\n"), text)
		for j, d := range b.decls {
			g := (f + j + i) % c.Files
			decls[g] += d + "\n\n"
		}
	}
	var out []File
	for f := 0; f < c.Files; f++ {
		alias := "tls"
		if c.Alias[f] != "" {
			alias = c.Alias[f]
		}
		imp := "import (\n\t" + c.Alias[f] + " \"crypto/tls\"\n\t\"net/http\"\n)\n\n"
		body := bodies[f]
		if c.Reverse {
			body = body + decls[f]
		} else {
			body = decls[f] + body
		}
		src := "package p\n\n" + imp + "var _ TLS.Config\n\nvar _ http.Client\n\n" + body
		if f == 0 {
			src += "type conf = TLS.Config\n\ntype holder struct{ C *TLS.Config }\n\nvar use2 int\n\nfunc use(a ...any) any { return len(a) }\n\nfunc anyBool() bool { return use() == nil }\n\n" +
				"type own struct {\n\tInsecureSkipVerify, PreferServerCipherSuites bool\n\tMinVersion, MaxVersion uint16\n\tCipherSuites []uint16\n}\n"
		}
		src = strings.ReplaceAll(src, "TLS.", alias+".")
		// markers to lines
		name := fmt.Sprintf("f%d.go", f)
		lines[name] = map[int]int{}
		var stack []int
		var o strings.Builder
		l := 1
		for i := 0; i < len(src); i++ {
			switch ch := src[i]; ch {
			case 1:
				j := i + strings.IndexByte(src[i:], 2)
				k := 0
				fmt.Sscan(src[i+1:j], &k)
				stack = append(stack, k)
				lines[name][l] = k
				i = j
			case 3:
				stack = stack[:len(stack)-1]
			case '\n':
				l++
				o.WriteByte(ch)
				if len(stack) > 0 {
					lines[name][l] = stack[len(stack)-1]
				}
			default:
				o.WriteByte(ch)
			}
		}
		out = append(out, File{name, o.String()})
	}
	return out, lines, want
}

func runTLS(c tlsCase, s *Stats) error {
	files, lines, want := c.build()
	id := []string{"G402", "G497", "G498"}[c.Profile]
	o := ScanOpts{Include: []string{id}, NoAnalyze: true}
	if c.Profile > 0 {
		o.Builders = map[string]gosec.RuleBuilder{id: []gosec.RuleBuilder{nil, rules.NewModernTLSCheck, rules.NewOldTLSCheck}[c.Profile]}
	}
	res, err := MustScan(files, o)
	if err != nil {
		return err
	}
	got := map[int]int{}
	for _, i := range res.Issues {
		if i.RuleID != id {
			return violf("the rule %s reports an issue of %s", id, i.RuleID)
		}
		a, _ := lineOf(i)
		k, ok := lines[i.File[strings.LastIndexByte(i.File, '/')+1:]][a]
		if !ok {
			return violf("%s reported in %s:%d, outside of every configuration\n%s", id, i.File, a, dumpFiles(files))
		}
		got[k]++
	}
	var ks []int
	for k := range want {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	bad := 0
	for _, k := range ks {
		if want[k] {
			bad++
		}
		if want[k] != (got[k] > 0) {
			what := "an acceptable configuration is reported"
			if want[k] {
				what = "a bad configuration is not reported"
			}
			for _, f := range files {
				for n, l := range strings.Split(f.Src, "\n") {
					if i, ok := lines[f.Name][n+1]; ok && i == k {
						what += fmt.Sprintf("\n%s:%d: %s", f.Name, n+1, l)
					}
				}
			}
			return violf("%s\n%s", what, dumpFiles(files))
		}
	}
	s.Label([]string{"profile intermediate", "profile modern", "profile old"}[c.Profile])
	s.LabelN("bad configurations", bad)
	s.LabelN("acceptable configurations", len(want)-bad)
	if bad > 0 && bad < len(want) {
		s.NonTrivial()
	}
	return nil
}

func init() {
	register("C22", "distinct programs with bad and acceptable configurations", 30000, 800000, genTLS, runTLS)
}
