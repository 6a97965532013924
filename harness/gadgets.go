package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// A gadget is a piece of Go code whose findings are known by construction. ⟦...⟧ encloses a node that must be
// reported; @{path} stands for the name under which path is imported; $n is a number unique to the use.
type gadget struct {
	Name string
	Rule string // "" for a look-alike that must not be reported by any call rule
	Sev  string
	Conf string
	Kind byte // 'e' expression, 's' statements of a function body, 'd' top-level declarations
	N    int  // number of results of an expression
	Text string
	Call bool // the expression may stand alone as a statement
}

const (
	mOpen  = "⟦"
	mClose = "⟧"
)

func ge(name, rule, sev, conf string, n int, text string) gadget {
	return gadget{Name: name, Rule: rule, Sev: sev, Conf: conf, Kind: 'e', N: n, Text: text, Call: true}
}

func gs(name, rule, sev, conf, text string) gadget {
	return gadget{Name: name, Rule: rule, Sev: sev, Conf: conf, Kind: 's', Text: text}
}

// helperFile gives every generated package values that no rule can know.
const helperFile = `package p

func use(a ...any) any { return len(a) }

func anyBytes() []byte { return make([]byte, anyInt()) }

func anyStr() string { return string(anyBytes()) }

var counter int

func anyInt() int { counter++; return counter }

func anyBool() bool { return anyInt() > 3 }

func anyErr() error { return nil }

func anyAny() any { return nil }
`

// callGadgets are the expressions of the call-list rules and their look-alikes.
func callGadgets() []gadget {
	var g []gadget
	call := func(rule, sev, conf, path, fn string, n int, args ...string) {
		x := ge(path+"."+fn, rule, sev, conf, n, mOpen+"@{"+path+"}."+fn+"("+strings.Join(args, ", ")+")"+mClose)
		if path == "unsafe" || path == "html/template" {
			x.Call = false
		}
		if rule == "" {
			x.Text = strings.NewReplacer(mOpen, "", mClose, "").Replace(x.Text)
		}
		g = append(g, x)
	}
	// G401
	for _, h := range []string{"crypto/md5", "crypto/sha1"} {
		call("G401", "MEDIUM", "HIGH", h, "New", 1)
		call("G401", "MEDIUM", "HIGH", h, "Sum", 1, "anyBytes()")
	}
	// G405
	call("G405", "MEDIUM", "HIGH", "crypto/des", "NewCipher", 2, "anyBytes()")
	call("G405", "MEDIUM", "HIGH", "crypto/des", "NewTripleDESCipher", 2, "anyBytes()")
	call("G405", "MEDIUM", "HIGH", "crypto/rc4", "NewCipher", 2, "anyBytes()")
	// G406
	call("G406", "MEDIUM", "HIGH", "golang.org/x/crypto/md4", "New", 1)
	call("G406", "MEDIUM", "HIGH", "golang.org/x/crypto/ripemd160", "New", 1)
	// G404
	r1 := map[string][]string{"Float32": nil, "Float64": nil, "Int": nil, "Int31": nil, "Int31n": {"7"}, "Int63": nil, "Int63n": {"7"}, "Intn": {"9"}, "NormFloat64": nil, "Uint32": nil, "Uint64": nil}
	for _, f := range sortedKeys(r1) {
		call("G404", "HIGH", "MEDIUM", "math/rand", f, 1, r1[f]...)
	}
	call("G404", "HIGH", "MEDIUM", "math/rand", "New", 1, "@{math/rand}.NewSource(7)")
	call("G404", "HIGH", "MEDIUM", "math/rand", "Read", 2, "anyBytes()")
	r2 := map[string][]string{"Float32": nil, "Float64": nil, "Int": nil, "Int32": nil, "Int32N": {"7"}, "Int64": nil, "Int64N": {"7"}, "IntN": {"9"}, "NormFloat64": nil, "Uint32": nil, "Uint32N": {"5"}, "Uint64": nil, "Uint64N": {"5"}, "UintN": {"5"}, "N": {"10"}}
	for _, f := range sortedKeys(r2) {
		call("G404", "HIGH", "MEDIUM", "math/rand/v2", f, 1, r2[f]...)
	}
	call("G404", "HIGH", "MEDIUM", "math/rand/v2", "New", 1, "@{math/rand/v2}.NewPCG(1, 2)")
	// G103
	call("G103", "LOW", "HIGH", "unsafe", "Pointer", 1, "new(int)")
	call("G103", "LOW", "HIGH", "unsafe", "String", 1, "new(byte)", "anyInt()")
	call("G103", "LOW", "HIGH", "unsafe", "StringData", 1, "anyStr()")
	call("G103", "LOW", "HIGH", "unsafe", "Slice", 1, "new(byte)", "anyInt()")
	call("G103", "LOW", "HIGH", "unsafe", "SliceData", 1, "anyBytes()")
	// G106
	call("G106", "MEDIUM", "HIGH", "golang.org/x/crypto/ssh", "InsecureIgnoreHostKey", 1)
	// G114
	call("G114", "MEDIUM", "HIGH", "net/http", "ListenAndServe", 1, `anyStr()`, "nil")
	call("G114", "MEDIUM", "HIGH", "net/http", "ListenAndServeTLS", 1, `anyStr()`, "anyStr()", "anyStr()", "nil")
	call("G114", "MEDIUM", "HIGH", "net/http", "Serve", 1, `nil`, "nil")
	call("G114", "MEDIUM", "HIGH", "net/http", "ServeTLS", 1, `nil`, "nil", "anyStr()", "anyStr()")
	// G403
	for _, b := range []string{"512", "1024", "2047", "0x400", "0b11111111111", "0o3777", "1_024", "03777", "1"} {
		call("G403", "MEDIUM", "HIGH", "crypto/rsa", "GenerateKey", 2, "@{crypto/rand}.Reader", b)
	}
	for _, b := range []string{"2048", "2049", "4096", "0x800", "0b100000000000", "0o4000", "2_048", "04000", "3072"} {
		call("", "", "", "crypto/rsa", "GenerateKey", 2, "@{crypto/rand}.Reader", b)
	}
	// G102
	for _, a := range []string{`"0.0.0.0:80"`, `":80"`, `":"`, "`0.0.0.0:0`", `":http"`, `"0.0.0.0"`} {
		call("G102", "MEDIUM", "HIGH", "net", "Listen", 2, `"tcp"`, a)
		call("G102", "MEDIUM", "HIGH", "crypto/tls", "Listen", 2, `"tcp"`, a, "nil")
	}
	for _, a := range []string{`"127.0.0.1:80"`, `"localhost:0"`, `"[::1]:80"`, `"10.0.0.0:80"`, `"[::]x"`, `" :80"`, `""`, `anyStr()`} {
		call("", "", "", "net", "Listen", 2, `"tcp"`, a)
		call("", "", "", "crypto/tls", "Listen", 2, `"tcp"`, a, "nil")
	}
	// G203
	for _, f := range []string{"CSS", "HTML", "HTMLAttr", "JS", "JSStr", "Srcset", "URL"} {
		call("G203", "MEDIUM", "LOW", "html/template", f, 1, "anyStr()")
		call("", "", "", "html/template", f, 1, `"<b>x</b>"`)
		call("", "", "", "html/template", f, 1, "`x`")
	}
	// G303
	for _, a := range []string{`"/tmp/a"`, `"/tmp"`, `"/var/tmp/x"`, `"/usr/tmp/x/y"`, `"/tmp/a" + anyStr()`, `@{os}.TempDir()`, `@{os}.TempDir() + "/x"`, `@{path}.Join("/tmp", anyStr())`, `@{path/filepath}.Join("/var/tmp", "z")`, `@{path/filepath}.Join(@{os}.TempDir(), "z")`, `@{path}.Join("/tmp/q" + anyStr(), "w")`, `@{path}.Join(@{path/filepath}.Join("/tmp", "a"), "b")`} {
		call("G303", "MEDIUM", "HIGH", "os", "Create", 2, a)
		call("G303", "MEDIUM", "HIGH", "os", "WriteFile", 1, a, "anyBytes()", "0o600")
		call("G303", "MEDIUM", "HIGH", "io/ioutil", "WriteFile", 1, a, "anyBytes()", "0o600")
	}
	for _, a := range []string{`"/tmpx/a"`, `"tmp/a"`, `"/home/tmp/x"`, `"/opt/tmp"`, `"./tmp/x"`, `@{path}.Join("/var", "tmp")`, `@{path/filepath}.Join(anyStr(), "/tmp")`, `anyStr() + "/tmp"`, `"/var/lib/tmp/x"`} {
		call("", "", "", "os", "Create", 2, a)
		call("", "", "", "os", "WriteFile", 1, a, "anyBytes()", "0o600")
	}
	// functions that are not on the lists
	call("", "", "", "os", "CreateTemp", 2, `"/tmp"`, `"x"`)
	call("", "", "", "os", "MkdirTemp", 2, `"/tmp"`, `"x"`)
	call("", "", "", "crypto/sha256", "New", 1)
	call("", "", "", "crypto/sha256", "Sum256", 1, "anyBytes()")
	call("", "", "", "crypto/sha512", "New", 1)
	call("", "", "", "crypto/aes", "NewCipher", 2, "anyBytes()")
	call("", "", "", "crypto/rand", "Read", 2, "anyBytes()")
	call("", "", "", "crypto/rand", "Int", 2, "@{crypto/rand}.Reader", "nil")
	call("", "", "", "math/rand", "NewSource", 1, "9")
	call("", "", "", "math/rand/v2", "NewPCG", 1, "9", "8")
	call("", "", "", "unsafe", "Sizeof", 1, "1")
	call("", "", "", "unsafe", "Alignof", 1, "1")
	call("", "", "", "golang.org/x/crypto/ssh", "FixedHostKey", 1, "nil")
	call("", "", "", "net/http", "NewServeMux", 1)
	call("", "", "", "net/http", "FileServer", 1, "nil")
	call("", "", "", "crypto/des", "NewCipher", 2, "anyBytes()")
	g = g[:len(g)-1]
	call("", "", "", "math/rand/v2", "NewChaCha8", 1, "[32]byte{}")
	// the same names in other packages
	call("", "", "", "example.com/crypto/md5", "New", 1)
	call("", "", "", "example.com/crypto/md5", "Sum", 1, "anyBytes()")
	call("", "", "", "example.com/crypto/sha1", "New", 1)
	call("", "", "", "example.com/crypto/des", "NewCipher", 2, "anyBytes()")
	call("", "", "", "example.com/crypto/des", "NewTripleDESCipher", 2, "anyBytes()")
	call("", "", "", "example.com/crypto/rc4", "NewCipher", 2, "anyBytes()")
	call("", "", "", "crypto/md5/v2", "New", 1)
	call("", "", "", "example.com/math/rand", "Int", 1)
	call("", "", "", "example.com/math/rand", "Intn", 1, "4")
	call("", "", "", "example.com/math/rand", "Read", 2, "anyBytes()")
	call("", "", "", "example.com/math/rand", "New", 1, "4")
	call("", "", "", "example.com/unsafe", "String", 1, "new(byte)", "4")
	call("", "", "", "example.com/unsafe", "Slice", 1, "new(byte)", "4")
	call("", "", "", "example.com/x/ssh", "InsecureIgnoreHostKey", 1)
	call("", "", "", "example.com/net/http", "ListenAndServe", 1, "anyStr()", "nil")
	call("", "", "", "example.com/net/http", "Serve", 1, "nil", "nil")
	call("", "", "", "example.com/crypto/rsa", "GenerateKey", 2, "nil", "512")
	call("", "", "", "example.com/os", "Create", 2, `"/tmp/x"`)
	call("", "", "", "example.com/os", "WriteFile", 1, `"/tmp/x"`, "nil", "0o777")
	call("", "", "", "example.com/net", "Listen", 2, `"tcp"`, `":80"`)
	call("", "", "", "example.com/template", "HTML", 1, `anyStr()`)
	call("", "", "", "example.com/template", "JS", 1, `anyStr()`)
	// G112: composite literals
	for _, p := range []string{"", "&"} {
		for _, b := range []string{"{}", `{Addr: "localhost:1"}`, "{Handler: nil, WriteTimeout: 3}", "{IdleTimeout: 5}"} {
			x := ge("http.Server"+p+b, "G112", "MEDIUM", "LOW", 1, p+mOpen+"@{net/http}.Server"+b+mClose)
			x.Call = false
			g = append(g, x)
		}
		for _, b := range []string{"{ReadHeaderTimeout: 3}", "{Addr: anyStr(), ReadTimeout: 4}", "{ReadTimeout: 1, WriteTimeout: 3}"} {
			x := ge("http.Server"+p+b, "", "", "", 1, p+"@{net/http}.Server"+b)
			x.Call = false
			g = append(g, x)
		}
	}
	x := ge("srv.ListenAndServe", "", "", "", 1, "(&@{net/http}.Server{ReadTimeout: 4}).ListenAndServe()")
	g = append(g, x)
	return g
}

// stmtGadgets are statement sequences of the rules that follow variables.
func stmtGadgets() []gadget {
	g := []gadget{
		gs("shadow md5", "", "", "", "md5 := fakeHash{}\nuse(md5.New(), md5.Sum(nil))"),
		gs("shadow rand", "", "", "", "var rand fakeRand\nuse(rand.Int(), rand.Intn(3))"),
		gs("shadow http", "", "", "", "for _, http := range []fakeHTTP{{}} {\n\tuse(http.ListenAndServe(\"\", nil), http.Serve(nil, nil))\n}"),
		gs("shadow des", "", "", "", "func(des fakeHash) {\n\tuse(des.NewCipher(nil))\n}(fakeHash{})"),
		gs("shadow os", "", "", "", "os := fakeHash{}\nuse(os.Create(\"/tmp/x\"))"),
		gs("shadow net", "", "", "", "net := fakeHash{}\nuse(net.Listen(\"tcp\", \":80\"))"),
		// G102 through a variable
		gs("bind var", "G102", "MEDIUM", "HIGH", "addr$n := \":8080\"\nl$n, err$n := ⟦@{net}.Listen(\"tcp\", addr$n)⟧\nuse(l$n, err$n)"),
		gs("bind const", "G102", "MEDIUM", "HIGH", "const addr$n = \"0.0.0.0:1\"\nuse(⟦@{net}.Listen(\"tcp\", addr$n)⟧)"),
		gs("bind var ok", "", "", "", "addr$n := \"127.0.0.1:8080\"\nuse(@{net}.Listen(\"tcp\", addr$n))"),
		gs("bind var2", "G102", "MEDIUM", "HIGH", "var addr$n = \"0.0.0.0\"\nuse(⟦@{crypto/tls}.Listen(\"tcp\", addr$n, nil)⟧)"),
		// G109
		gs("atoi int32", "G109", "HIGH", "MEDIUM", "v$n, err$n := @{strconv}.Atoi(anyStr())\nuse(err$n)\nuse(⟦int32(v$n)⟧)"),
		gs("atoi int16", "G109", "HIGH", "MEDIUM", "v$n, _ := @{strconv}.Atoi(anyStr())\nif anyBool() {\n\tw$n := ⟦int16(v$n)⟧\n\tuse(w$n)\n}"),
		gs("atoi twice", "G109", "HIGH", "MEDIUM", "v$n, err$n := @{strconv}.Atoi(anyStr())\nuse(err$n, ⟦int16(v$n)⟧, ⟦int32(v$n)⟧)"),
		gs("atoi var", "G109", "HIGH", "MEDIUM", "var v$n int\nvar err$n error\nv$n, err$n = @{strconv}.Atoi(anyStr())\nuse(err$n, ⟦int32(v$n)⟧)"),
		gs("atoi int64", "", "", "", "v$n, err$n := @{strconv}.Atoi(anyStr())\nuse(err$n, int64(v$n), uint64(v$n), float64(v$n))"),
		gs("atoi other", "", "", "", "v$n, err$n := @{strconv}.Atoi(anyStr())\nw$n := anyInt()\nuse(err$n, v$n, int32(w$n), int16(w$n))"),
		gs("parseint", "", "", "", "v$n, err$n := @{strconv}.ParseInt(anyStr(), 10, 32)\nuse(err$n, int32(v$n))"),
		// G305
		gs("zip field", "G305", "MEDIUM", "HIGH", "var f$n *@{archive/zip}.File\nuse(⟦@{path/filepath}.Join(anyStr(), f$n.Name)⟧)"),
		gs("zip loop", "G305", "MEDIUM", "HIGH", "var r$n *@{archive/zip}.ReadCloser\nfor _, f$n := range r$n.File {\n\tp$n := ⟦@{path}.Join(\"dst\", f$n.Name)⟧\n\tuse(p$n)\n}"),
		gs("tar field", "G305", "MEDIUM", "HIGH", "var tr$n *@{archive/tar}.Reader\nh$n, err$n := tr$n.Next()\nuse(err$n)\nuse(⟦@{path/filepath}.Join(anyStr(), h$n.Name)⟧)"),
		gs("tar var", "G305", "MEDIUM", "HIGH", "var tr$n *@{archive/tar}.Reader\nh$n, err$n := tr$n.Next()\nuse(err$n)\nname$n := h$n.Name\nuse(⟦@{path}.Join(anyStr(), name$n)⟧)"),
		gs("zip var", "G305", "MEDIUM", "HIGH", "f$n := new(@{archive/zip}.File)\nname$n := f$n.Name\nif name$n != \"\" {\n\tuse(⟦@{path/filepath}.Join(name$n, \"x\")⟧)\n}"),
		gs("zip other", "", "", "", "f$n := struct{ Name string }{anyStr()}\nuse(@{path/filepath}.Join(anyStr(), f$n.Name))"),
		gs("join const", "", "", "", "use(@{path/filepath}.Join(\"a\", \"b\"), @{path}.Join(anyStr(), \"c\"))"),
		gs("zip base", "", "", "", "f$n := new(@{archive/zip}.File)\nuse(@{path/filepath}.Base(f$n.Name))"),
		// G110
		gs("bomb fixed", "", "", "", "r$n, err$n := @{compress/gzip}.NewReader(nil)\nuse(err$n)\nn$n, err$n := @{io}.CopyN(nil, r$n, 10)\nuse(n$n, err$n)"),
		gs("copy plain", "", "", "", "var r$n @{io}.Reader\nn$n, err$n := @{io}.Copy(nil, r$n)\nuse(n$n, err$n)"),
		gs("copy other", "", "", "", "r$n, err$n := @{compress/gzip}.NewReader(nil)\nvar q$n @{io}.Reader\nn$n, err$n := @{io}.Copy(nil, q$n)\nuse(n$n, err$n, r$n)"),
		gs("zip open", "G110", "MEDIUM", "MEDIUM", "f$n := new(@{archive/zip}.File)\nrc$n, err$n := f$n.Open()\nm$n, err$n := ⟦@{io}.Copy(nil, rc$n)⟧\nuse(err$n, m$n)"),
		gs("zip open loop", "G110", "MEDIUM", "MEDIUM", "var z$n @{archive/zip}.Reader\nfor _, f$n := range z$n.File {\n\trc$n, err$n := f$n.Open()\n\tm$n, err$n := ⟦@{io}.CopyBuffer(nil, rc$n, nil)⟧\n\tuse(err$n, m$n)\n}"),
	}
	readers := map[string]string{
		"@{compress/gzip}.NewReader(nil)": "2", "@{compress/zlib}.NewReader(nil)": "2", "@{compress/zlib}.NewReaderDict(nil, nil)": "2",
		"@{compress/bzip2}.NewReader(nil)": "1", "@{compress/flate}.NewReader(nil)": "1", "@{compress/flate}.NewReaderDict(nil, nil)": "1",
		"@{compress/lzw}.NewReader(nil, 0, 8)": "1", "@{archive/tar}.NewReader(nil)": "1",
	}
	for _, r := range sortedKeys(readers) {
		lhs := "r$n"
		tailv := ""
		if readers[r] == "2" {
			lhs, tailv = "r$n, err$n", ", err$n"
		}
		g = append(g, gs("bomb "+r, "G110", "MEDIUM", "MEDIUM", lhs+" := "+r+"\nm$n, e$n := ⟦@{io}.Copy(nil, r$n)⟧\nuse(m$n, e$n"+tailv+")"))
		g = append(g, gs("bombbuf "+r, "G110", "MEDIUM", "MEDIUM", lhs+" := "+r+"\nfor anyBool() {\n\tuse(⟦@{io}.CopyBuffer(nil, r$n, anyBytes())⟧)\n}\nuse(r$n"+tailv+")"))
	}
	return g
}

// callRules are the rules the call gadgets speak about.
var callRules = map[string]bool{"G401": true, "G405": true, "G406": true, "G404": true, "G103": true, "G106": true, "G114": true, "G403": true,
	"G102": true, "G203": true, "G303": true, "G112": true, "G109": true, "G305": true, "G110": true}

const fakeDecls = `package p

type fakeHash struct{}

func (fakeHash) New() int                          { return 0 }
func (fakeHash) Sum(b []byte) int                  { return 0 }
func (fakeHash) NewCipher(b []byte) (int, error)   { return 0, nil }
func (fakeHash) Create(s string) (int, error)      { return 0, nil }
func (fakeHash) Listen(a, b string) (int, error)   { return 0, nil }

type fakeRand struct{}

func (fakeRand) Int() int       { return 0 }
func (fakeRand) Intn(n int) int { return n }

type fakeHTTP struct{}

func (fakeHTTP) ListenAndServe(a string, h any) error { return nil }
func (fakeHTTP) Serve(l any, h any) error             { return nil }
`

// exprContexts are places an expression $E may stand in. "1:" prefix: only for single-valued expressions.
var exprContexts = []string{
	"func f$n() {\n\tuse($E)\n}",
	"1:func f$n() {\n\t_ = $E\n}",
	"1:func f$n() {\n\tx := $E\n\tuse(x)\n}",
	"1:func f$n() any {\n\treturn $E\n}",
	"1:var g$n = $E",
	"k:func f$n() {\n\tif v := $E; use(v) != nil {\n\t\tuse(1)\n\t}\n}",
	"func f$n() {\n\tfor i := 0; i < 2; i++ {\n\t\tuse(use($E), i)\n\t}\n}",
	"func f$n() {\n\tdefer use($E)\n}",
	"func f$n() {\n\tgo use($E)\n}",
	"func f$n() {\n\tfunc() {\n\t\tuse($E)\n\t}()\n}",
	"type t$n struct{}\n\nfunc (t$n) m() {\n\tuse($E)\n}",
	"type t$n struct{ n int }\n\nfunc (x *t$n) m(a, b int) (any, error) {\n\treturn use($E), nil\n}",
	"1:func f$n() {\n\tm := map[string]any{\"a\": $E}\n\tuse(m)\n}",
	"func f$n() {\n\tswitch use($E) {\n\tcase nil:\n\t\tuse(0)\n\t}\n}",
	"1:func f$n() {\n\tch := make(chan any, 1)\n\tch <- $E\n}",
	"func f$n() {\n\tselect {\n\tdefault:\n\t\tuse($E)\n\t}\n}",
	"func init() {\n\tuse($E)\n}",
	"var g$n = func() any { return use($E) }",
	"1:func f$n(a any) {\n\ta = $E\n\tuse(a)\n}",
	"func f$n() {\n\tuse(1, use(use($E)))\n}",
	"func f$n[T any](x T) {\n\tuse(x, use($E))\n}",
	"func f$n() {\n\t{\n\t\t{\n\t\t\tuse($E)\n\t\t}\n\t}\n}",
	"1:func f$n() {\n\tuse([...]any{1, $E}[0])\n}",
	"1:func f$n() {\n\tuse(struct{ A any }{A: $E})\n}",
	"1:func f$n() {\n\tuse(($E))\n}",
	"1:func f$n() {\n\tuse(\n\t\t1,\n\t\t$E,\n\t)\n}",
	"1:func f$n() {\n\tuse($E, 2)\n\tuse(3, $E)\n}",
	"1:func f$n() {\n\tswitch v := any($E).(type) {\n\tcase int:\n\t\tuse(v)\n\t}\n}",
	"func f$n() {\n\tif anyBool() {\n\t\tuse(1)\n\t} else if anyBool() {\n\t\tuse(2)\n\t} else {\n\t\tuse($E)\n\t}\n}",
	"func f$n() {\n\tswitch anyInt() {\n\tcase 1, 2:\n\t\tuse($E)\n\tdefault:\n\t}\n}",
	"1:func f$n() {\n\tvar x any = $E\n\tuse(x)\n}",
	"1:var (\n\tg$n = 1\n\th$n = $E\n)",
	"2:func f$n() {\n\ta, b := $E\n\tuse(a, b)\n}",
	"2:func f$n() {\n\tif a, b := $E; use(a, b) != nil {\n\t\tuse(b)\n\t}\n}",
	"2:var g$n, h$n = $E",
	"2:func f$n() {\n\tvar a, b = $E\n\tuse(a, b)\n}",
	"c:func f$n() {\n\t$E\n}",
	"c:func f$n() {\n\tdefer $E\n}",
	"c:func f$n() {\n\tgo $E\n}",
	"func f$n() {\n\tfor range 3 {\n\t\tuse($E)\n\t}\n}",
	"func f$n() {\nlbl:\n\tfor {\n\t\tuse($E)\n\t\tbreak lbl\n\t}\n}",
	"1:func f$n() (r any) {\n\tdefer func() { r = $E }()\n\treturn 1\n}",
	"func f$n() {\n\tx := func(a any) any { return a }(use($E))\n\tuse(x)\n}",
	"1:func f$n() {\n\ta, b := 1, $E\n\tuse(a, b)\n}",
	"1:func f$n() {\n\tp := &[]any{$E}\n\tuse(p)\n}",
}

var stmtContexts = []string{
	"func f$n() {\n$S\n}",
	"func f$n() {\n\tif anyBool() {\n$S\n\t}\n}",
	"func f$n() {\n\tfunc() {\n$S\n\t}()\n}",
	"type t$n struct{}\n\nfunc (t$n) m() {\n$S\n}",
	"func f$n() {\n\tfor anyBool() {\n$S\n\t}\n}",
	"var g$n = func() any {\n$S\n\treturn nil\n}",
	"func f$n(a, b int, c ...string) (int, error) {\n$S\n\treturn 0, nil\n}",
	"func f$n() {\n\tswitch {\n\tcase anyBool():\n$S\n\tdefault:\n\t}\n}",
	"func f$n[T any]() {\n$S\n}",
	"func init() {\n$S\n}",
}

func (g gadget) fits(ctx string) bool {
	switch {
	case strings.HasPrefix(ctx, "1:"):
		return g.N == 1
	case strings.HasPrefix(ctx, "2:"):
		return g.N == 2
	case strings.HasPrefix(ctx, "c:"):
		return g.Call
	case strings.HasPrefix(ctx, "k:"):
		return g.N == 1 && g.Call
	}
	return true
}

// place puts the gadget into a context, giving one or more top-level declarations (markers still inside).
func (g gadget) place(ctx, n string) string {
	switch g.Kind {
	case 'e':
		c := ctxPrefix.ReplaceAllString(ctx, "")
		return strings.ReplaceAll(strings.ReplaceAll(c, "$E", g.Text), "$n", n)
	case 's':
		return strings.ReplaceAll(strings.ReplaceAll(ctx, "$S", g.Text), "$n", n)
	}
	return strings.ReplaceAll(g.Text, "$n", n)
}

// contextsFor lists the indices of the contexts the gadget can stand in.
func (g gadget) contextsFor() []int {
	var out []int
	switch g.Kind {
	case 'e':
		for i, c := range exprContexts {
			if g.fits(c) {
				out = append(out, i)
			}
		}
	case 's':
		for i := range stmtContexts {
			out = append(out, i)
		}
	default:
		out = []int{0}
	}
	return out
}

func (g gadget) context(i int) string {
	switch g.Kind {
	case 'e':
		return exprContexts[i%len(exprContexts)]
	case 's':
		return stmtContexts[i%len(stmtContexts)]
	}
	return ""
}

var ctxPrefix = regexp.MustCompile(`^[12ck]:`)

var qualRe = regexp.MustCompile(`@\{([^}]+)\}`)

// mark is a span of the final source.
type mark struct {
	Line, Col, EndLine int
	Tag                string
}

// buildFile assembles a file from top-level pieces: it writes the import block with the wanted aliases and
// returns the source with the positions of the markers, tagged by piece.
func buildFile(pkg, header string, pieces []string, tags []string, alias map[string]string) (string, []mark) {
	used := map[string]bool{}
	for _, p := range pieces {
		for _, m := range qualRe.FindAllStringSubmatch(p, -1) {
			used[m[1]] = true
		}
	}
	names := importNames(used, alias)
	var b strings.Builder
	b.WriteString(header)
	fmt.Fprintf(&b, "package %s\n\n", pkg)
	paths := sortedKeys(used)
	if len(paths) == 1 {
		b.WriteString("import " + importLine(paths[0], names) + "\n\n")
	} else if len(paths) > 1 {
		b.WriteString("import (\n")
		for _, p := range paths {
			b.WriteString("\t" + importLine(p, names) + "\n")
		}
		b.WriteString(")\n\n")
	}
	var marks []mark
	line := strings.Count(b.String(), "\n") + 1
	for i, p := range pieces {
		p = qualRe.ReplaceAllStringFunc(p, func(m string) string { return names[m[2:len(m)-1]] })
		clean, ms := stripMarks(p)
		for _, m := range ms {
			m.Line += line - 1
			m.EndLine += line - 1
			if i < len(tags) {
				m.Tag = tags[i]
			}
			marks = append(marks, m)
		}
		b.WriteString(clean + "\n\n")
		line += strings.Count(clean, "\n") + 2
	}
	return b.String(), marks
}

// stripMarks removes the markers and reports where they stood (1-based within s).
func stripMarks(s string) (string, []mark) {
	var b strings.Builder
	var out []mark
	var stack []int
	line, col := 1, 1
	for len(s) > 0 {
		switch {
		case strings.HasPrefix(s, mOpen):
			out = append(out, mark{Line: line, Col: col})
			stack = append(stack, len(out)-1)
			s = s[len(mOpen):]
		case strings.HasPrefix(s, mClose):
			k := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			out[k].EndLine = line
			s = s[len(mClose):]
		default:
			b.WriteByte(s[0])
			if s[0] == '\n' {
				line++
				col = 1
			} else {
				col++
			}
			s = s[1:]
		}
	}
	return b.String(), out
}

func importLine(path string, names map[string]string) string {
	if names[path] == pkgBase(path) {
		return `"` + path + `"`
	}
	return names[path] + ` "` + path + `"`
}

// importNames chooses the local name of every used package: the wanted alias, or the base name unless taken.
func importNames(used map[string]bool, alias map[string]string) map[string]string {
	names := map[string]string{}
	taken := map[string]bool{}
	for _, p := range sortedKeys(used) {
		if a := alias[p]; a != "" && !taken[a] {
			names[p] = a
			taken[a] = true
		}
	}
	for _, p := range sortedKeys(used) {
		if names[p] != "" {
			continue
		}
		b := pkgBase(p)
		for k := 2; taken[b]; k++ {
			b = fmt.Sprintf("%s%d", pkgBase(p), k)
		}
		names[p] = b
		taken[b] = true
	}
	return names
}

var aliasPool = []string{"", "", "zz", "x1", "crypto", "a_b", "Über", "str", "pkg", "io2"}

// genAliases draws aliases for the packages used in pieces.
func genAliases(t *rapid.T, pieces []string) map[string]string {
	used := map[string]bool{}
	for _, p := range pieces {
		for _, m := range qualRe.FindAllStringSubmatch(p, -1) {
			used[m[1]] = true
		}
	}
	out := map[string]string{}
	for i, p := range sortedKeys(used) {
		a := sampled(aliasPool).Draw(t, "alias")
		if a != "" {
			out[p] = fmt.Sprintf("%s%d", a, i)
		}
	}
	return out
}

func sortedMarks(ms []mark) []mark {
	sort.Slice(ms, func(i, j int) bool {
		if ms[i].Line != ms[j].Line {
			return ms[i].Line < ms[j].Line
		}
		return ms[i].Col < ms[j].Col
	})
	return ms
}
