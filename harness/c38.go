package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mozilla/tls-observatory/constants"
	"pgregory.net/rapid"
)

// C38: tlsconfig is run against a stand-in for the server of Mozilla (a proxy on the loopback interface with its own
// certificate), with recommendations which are generated. What it writes is parsed and compared with them.

type mozProfile struct {
	Suites   []string `json:"openssl_ciphersuites"`
	Ciphers  []string `json:"openssl_ciphers"`
	Versions []string `json:"tls_versions"`
}

type tlsGenCase struct {
	Profiles map[string]mozProfile
	Pkg      string
	Out      string
	Dir      int    // 0: where it is started; 1: a directory; 2: one which does not exist; 3: two directories
	Fault    string // of the server
	Old      string // what the file holds before
	Compile  bool   // the generated file is compiled together with the rules
}

var tlsProfileNames = []string{"modern", "intermediate", "old"}

func genTLSConfig(t *rapid.T) tlsGenCase {
	c := tlsGenCase{Profiles: map[string]mozProfile{}}
	known := sortedKeys(constants.CipherSuites)
	for _, n := range append([]string{"other"}, tlsProfileNames...) {
		var p mozProfile
		for k := upTo(t, 3, "suites"); k > 0; k-- {
			p.Suites = append(p.Suites, sampled([]string{"TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256", "TLS_NEW_ONE"}).Draw(t, "suite"))
		}
		for k := upTo(t, 8, "ciphers"); k > 0; k-- {
			if oneIn(t, 6, "unknown") {
				p.Ciphers = append(p.Ciphers, sampled([]string{"NO-SUCH-CIPHER", "", "tls_rsa", "ECDHE"}).Draw(t, "cipher"))
			} else {
				p.Ciphers = append(p.Ciphers, known[upTo(t, len(known)-1, "cipher")])
			}
		}
		for k := 1 + upTo(t, 3, "versions"); k > 0; k-- {
			p.Versions = append(p.Versions, sampled([]string{"TLSv1", "TLSv1.1", "TLSv1.2", "TLSv1.3", "TLSv1.3", "SSLv3", "TLSv1.4"}).Draw(t, "version"))
		}
		if n != "other" && oneIn(t, 30, "missing") {
			continue
		}
		c.Profiles[n] = p
	}
	c.Pkg = sampled([]string{"", "", "rules", "main", "other", "x1"}).Draw(t, "pkg")
	c.Out = sampled([]string{"", "", "tls_config.go", "out.go", "a b.txt"}).Draw(t, "out")
	c.Dir = sampled([]int{0, 0, 0, 1, 1, 1, 1, 1, 2, 3}).Draw(t, "dir")
	if oneIn(t, 6, "fault") {
		c.Fault = sampled([]string{"close", "refuse", "text", "cut", "type", "empty"}).Draw(t, "kind")
	}
	if c.Compile = oneIn(t, 300, "compile"); c.Compile {
		c.Pkg, c.Fault = sampled([]string{"", "rules"}).Draw(t, "pkg"), ""
	}
	if oneIn(t, 2, "old") {
		c.Old = sampled([]string{"package old\n", strings.Repeat("// a long file\n", 1000)}).Draw(t, "text")
	}
	return c
}

// standIn answers requests for the recommendations.
type standIn struct {
	proxy string
	ca    string
	mu    sync.Mutex
	fault string
	body  []byte
	asked int
}

var theStandIn *standIn

func startStandIn() (*standIn, error) {
	if theStandIn != nil {
		return theStandIn, nil
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil, err
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "stand-in"}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(10000 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, DNSNames: []string{"statics.tls.security.mozilla.org", "localhost"}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		return nil, err
	}
	s := &standIn{ca: filepath.Join(filepath.Dir(scratchDir), "ca-"+filepath.Base(scratchDir)+".pem")}
	if err := os.WriteFile(s.ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644); err != nil {
		return nil, err
	}
	conf := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s.proxy = "http://" + l.Addr().String()
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(conn, conf)
		}
	}()
	theStandIn = s
	return s, nil
}

func (s *standIn) serve(conn net.Conn, conf *tls.Config) {
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
	s.mu.Lock()
	fault, body := s.fault, s.body
	s.asked++
	s.mu.Unlock()
	r, err := http.ReadRequest(bufio.NewReader(conn))
	if err != nil {
		return
	}
	var c net.Conn = conn
	if r.Method == http.MethodConnect {
		if fault == "refuse" {
			fmt.Fprint(conn, "HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n")
			return
		}
		fmt.Fprint(conn, "HTTP/1.1 200 OK\r\n\r\n")
		if fault == "close" {
			return
		}
		t := tls.Server(conn, conf)
		defer t.Close()
		c = t
		if _, err = http.ReadRequest(bufio.NewReader(c)); err != nil {
			return
		}
	}
	fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n", len(body))
	_, _ = c.Write(body)
}

var tlsVersionNumbers = map[string]int64{"TLSv1": 0x301, "TLSv1.1": 0x302, "TLSv1.2": 0x303, "TLSv1.3": 0x304}

// generatedRule is what a generated constructor sets.
type generatedRule struct {
	required string
	min, max int64
	ciphers  []string
}

func parseGenerated(src []byte) (pkg string, out map[string]generatedRule, err error) {
	f, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
	if err != nil {
		return "", nil, err
	}
	out = map[string]generatedRule{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		var g generatedRule
		ast.Inspect(fd, func(n ast.Node) bool {
			kv, ok := n.(*ast.KeyValueExpr)
			if !ok {
				return true
			}
			k, _ := kv.Key.(*ast.Ident)
			if k == nil {
				return true
			}
			lit, _ := kv.Value.(*ast.BasicLit)
			switch {
			case k.Name == "requiredType" && lit != nil:
				g.required, _ = strconv.Unquote(lit.Value)
			case k.Name == "MinVersion" && lit != nil:
				g.min, _ = strconv.ParseInt(lit.Value, 0, 64)
			case k.Name == "MaxVersion" && lit != nil:
				g.max, _ = strconv.ParseInt(lit.Value, 0, 64)
			case k.Name == "goodCiphers":
				if cl, ok := kv.Value.(*ast.CompositeLit); ok {
					for _, e := range cl.Elts {
						if l, ok := e.(*ast.BasicLit); ok {
							v, _ := strconv.Unquote(l.Value)
							g.ciphers = append(g.ciphers, v)
						}
					}
				}
			}
			return true
		})
		out[fd.Name.Name] = g
	}
	return f.Name.Name, out, nil
}

func runTLSConfig(c tlsGenCase, s *Stats) error {
	srv, err := startStandIn()
	if err != nil {
		return harnessf("%v", err)
	}
	body, err := json.Marshal(map[string]any{"configurations": c.Profiles, "version": 5.7, "href": "x"})
	if err != nil {
		return harnessf("%v", err)
	}
	switch c.Fault {
	case "text":
		body = []byte("<html>not found</html>")
	case "cut":
		body = body[:len(body)/2]
	case "type":
		body = []byte(`{"configurations": ["modern"]}`)
	case "empty":
		body = nil
	}
	srv.mu.Lock()
	srv.fault, srv.body, srv.asked = c.Fault, body, 0
	srv.mu.Unlock()
	dir := caseDir()
	var args []string
	pkg, out, target := "rules", "tls_config.go", dir
	if c.Pkg != "" {
		pkg = c.Pkg
		args = append(args, "-pkg", c.Pkg)
	}
	if c.Out != "" {
		out = c.Out
		args = append(args, "-outputFile="+c.Out)
	}
	for _, d := range []string{"d one", "two"} {
		if err := os.Mkdir(filepath.Join(dir, d), 0o755); err != nil {
			return harnessf("%v", err)
		}
	}
	switch c.Dir {
	case 1:
		args, target = append(args, "d one"), filepath.Join(dir, "d one")
	case 2:
		args, target = append(args, "nosuch"), filepath.Join(dir, "nosuch")
	case 3:
		args = append(args, "d one", "two")
	}
	path := filepath.Join(target, out)
	if c.Old != "" && c.Dir != 2 {
		if err := os.WriteFile(path, []byte(c.Old), 0o644); err != nil {
			return harnessf("%v", err)
		}
	}
	r, err := runBin(tlsconfigBin, dir, []string{"HTTPS_PROXY=" + srv.proxy, "HTTP_PROXY=" + srv.proxy, "SSL_CERT_FILE=" + srv.ca, "SSL_CERT_DIR=/nonexistent", "unset:NO_PROXY", "unset:no_proxy", "unset:https_proxy", "unset:ALL_PROXY"}, args...)
	if err != nil && c.Fault == "" {
		return err
	}
	fail := func(format string, a ...any) error {
		e := ""
		if r != nil {
			e = fmt.Sprintf("exit status %d: %s", r.Exit, tail(r.Stderr, 1500))
		}
		return violf("tlsconfig %q: %s\n%s\nrecommendations: %s", args, fmt.Sprintf(format, a...), e, tail(string(body), 3000))
	}
	// the names of the ciphers and the versions
	usable := c.Fault == "" && c.Dir < 2
	want := map[string]generatedRule{}
	for _, n := range tlsProfileNames {
		p, ok := c.Profiles[n]
		g := generatedRule{required: "crypto/tls.Config", ciphers: append([]string{}, p.Suites...)}
		for _, x := range p.Ciphers {
			suite := constants.CipherSuites[x]
			if suite.IANAName == "" {
				continue
			}
			g.ciphers = append(g.ciphers, suite.IANAName)
			if suite.NSSName != "" && suite.NSSName != suite.IANAName {
				g.ciphers = append(g.ciphers, suite.NSSName)
			}
		}
		for _, v := range p.Versions {
			x := tlsVersionNumbers[v]
			if x != 0 && (g.min == 0 || x < g.min) {
				g.min = x
			}
			g.max = max(g.max, x)
		}
		usable = usable && ok && g.min > 0
		want["New"+strings.ToUpper(n[:1])+n[1:]+"TLSCheck"] = g
	}
	have, readErr := os.ReadFile(path)
	if !usable {
		s.Label("unusable")
		if r != nil && r.Exit == 0 {
			return fail("exit status 0, although there is nothing to generate from")
		}
		if c.Old != "" && c.Dir != 2 && string(have) != c.Old || c.Old == "" && readErr == nil {
			return fail("the output file was changed: %q", tail(string(have), 300))
		}
		return nil
	}
	if r.Exit != 0 {
		return fail("fails")
	}
	if readErr != nil {
		return fail("no output file: %v", readErr)
	}
	srv.mu.Lock()
	asked := srv.asked
	srv.mu.Unlock()
	if asked == 0 {
		return harnessf("the stand-in was not asked")
	}
	name, got, err := parseGenerated(have)
	if err != nil {
		return fail("the generated file is no Go program: %v\n%s", err, have)
	}
	if name != pkg {
		return fail("the package is %q", name)
	}
	if len(got) != len(want) {
		return fail("the generated file declares %q", sortedKeys(got))
	}
	for _, n := range sortedKeys(want) {
		g, w := got[n], want[n]
		slices.Sort(g.ciphers)
		slices.Sort(w.ciphers)
		g.ciphers, w.ciphers = slices.Compact(g.ciphers), slices.Compact(w.ciphers)
		if fmt.Sprint(g) != fmt.Sprint(w) {
			return fail("%s has %v, expected %v", n, g, w)
		}
	}
	var left []string
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() && p != path {
			left = append(left, p)
		}
		return nil
	})
	if len(left) > 0 {
		return fail("wrote %q, too", left)
	}
	if c.Compile {
		harness := filepath.Join(verifRoot, "harness")
		l, err := runBin("go", harness, nil, "list", "-f", "{{.Dir}}", "github.com/securego/gosec/v2/rules")
		if err != nil || l.Exit != 0 {
			return harnessf("go list: %v %v", err, l)
		}
		overlay, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(strings.TrimSpace(l.Stdout), "tls_config.go"): path}})
		if err := os.WriteFile(filepath.Join(dir, "overlay.json"), overlay, 0o644); err != nil {
			return harnessf("%v", err)
		}
		b, err := runBin("go", harness, nil, "build", "-overlay", filepath.Join(dir, "overlay.json"), "-o", os.DevNull, "github.com/securego/gosec/v2/cmd/gosec")
		if err != nil {
			return err
		}
		if b.Exit != 0 {
			return fail("gosec does not build with the generated file: %s\n%s", tail(b.Stderr, 1000), have)
		}
		s.Label("compiled with the rules")
	}
	if !bytes.Equal(have, []byte(c.Old)) && (c.Pkg != "" || c.Out != "" || c.Dir == 1) {
		s.NonTrivial()
	}
	return nil
}

func init() {
	register("C38", "distinct recommendations turned into a file with a package, a name or a directory of its own", 2500, 100000, genTLSConfig, runTLSConfig, needTools)
}
