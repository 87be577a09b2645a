// C15: the index client returns only what the index names, verified.
package main

import (
	"bytes"
	"context"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"html"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strings"
	"sync"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"

	"verif/h"
)

const joinOracle = `
from urllib.parse import urljoin
def answer(req):
    return [urljoin(b, r) for b, r in req]
`

// server is a recording index on the loopback network.
type server struct {
	*httptest.Server
	mu   sync.Mutex
	log  []string
	resp map[string]func(w http.ResponseWriter)
}

func newServer(t *h.T) *server {
	s := &server{resp: map[string]func(http.ResponseWriter){}}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		s.log = append(s.log, r.Method+" "+r.URL.RequestURI())
		f := s.resp[r.URL.EscapedPath()]
		s.mu.Unlock()
		t.Observe("http_requests", 1)
		if f == nil {
			http.NotFound(w, r)
			return
		}
		f(w)
	}))
	return s
}

func (s *server) requests() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := append([]string{}, s.log...)
	s.log = nil
	return r
}

func (s *server) page(path, body string) {
	s.resp[path] = func(w http.ResponseWriter) {
		w.Header().Set("Content-Type", "text/html")
		_, _ = w.Write([]byte(body))
	}
}

func (s *server) redirect(path, to string, code int) {
	s.resp[path] = func(w http.ResponseWriter) {
		w.Header().Set("Location", to)
		w.WriteHeader(code)
	}
}

func (s *server) data(path string, code int, body []byte) {
	s.resp[path] = func(w http.ResponseWriter) {
		w.WriteHeader(code)
		if code != 204 && code != 304 {
			_, _ = w.Write(body)
		}
	}
}

type wlink struct {
	text, href string
	attrs      map[string]string
}

func quoteAttr(t *h.T, s string) string {
	switch {
	case t.P(0.2) && s != "" && !strings.ContainsAny(s, " \t\n\"'=<>`&/"):
		return s
	case t.P(0.3) && !strings.Contains(s, "'"):
		return "'" + strings.NewReplacer("&", "&amp;", "<", "&lt;").Replace(s) + "'"
	}
	return `"` + html.EscapeString(s) + `"`
}

func mixCase(t *h.T, s string) string {
	if t.P(0.8) {
		return s
	}
	return strings.ToUpper(s)
}

// renderPage writes a page and returns the links in document order.
func renderPage(t *h.T, links []wlink, meta string) string {
	var b strings.Builder
	if t.P(0.8) {
		b.WriteString("<!DOCTYPE html>\n")
	}
	full := t.P(0.8) || meta != ""
	if full {
		b.WriteString("<html><head>" + meta + "<title>Links &lt;a href=x&gt;</title>")
		if t.P(0.3) {
			b.WriteString("<link href='/css' rel=stylesheet><script>var x = '<a href=\"/evil\">evil</a>';</script>")
		}
		b.WriteString("</head><body><h1>Links</h1>\n")
	}
	for _, l := range links {
		if t.P(0.1) {
			b.WriteString("<!-- <a href='/commented'>no</a> -->")
		}
		wrap := t.Pick("", "", "p", "li", "div", "td")
		if wrap != "" && wrap != "td" {
			b.WriteString("<" + wrap + ">")
		}
		var at []string
		at = append(at, mixCase(t, "href")+"="+quoteAttr(t, l.href))
		for k, v := range l.attrs {
			if v == "" && t.P(0.5) {
				at = append(at, k)
			} else {
				at = append(at, mixCase(t, k)+"="+quoteAttr(t, v))
			}
		}
		if t.P(0.3) {
			at = append(at, `rel="internal"`, `class='data-x'`)
		}
		t.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
		b.WriteString("<" + mixCase(t, "a") + " " + strings.Join(at, t.Pick(" ", "\n ", "  ")) + ">")
		txt := l.text
		if len(txt) > 3 && t.P(0.3) {
			k := 1 + t.Intn(len(txt)-2)
			for k < len(txt) && txt[k]&0xc0 == 0x80 {
				k++
			}
			in := t.Pick("b", "b", "span", "code", "em", "tt", "i", "kbd", "small", "font", "wbr", "q")
			open := "<" + in + t.Pick("", " class=x", " hidden") + ">"
			end := "</" + in + ">"
			if t.P(0.2) {
				open, end = open+"<u>", "</u>"+end
			}
			b.WriteString(html.EscapeString(txt[:k]) + t.Pick("", "<!-- c -->") + open + html.EscapeString(txt[k:]) + end)
		} else {
			b.WriteString(html.EscapeString(txt))
		}
		b.WriteString("</" + mixCase(t, "a") + ">")
		b.WriteString(t.Pick("<br>", "<br/>\n", "\n", " text "))
		if wrap != "" && wrap != "td" {
			b.WriteString("</" + wrap + ">")
		}
	}
	if full {
		b.WriteString("</body></html>")
	}
	return b.String()
}

func normName(s string) string {
	var b strings.Builder
	run := false
	for _, r := range s {
		if r == '-' || r == '_' || r == '.' {
			if !run {
				b.WriteByte('-')
			}
			run = true
			continue
		}
		run = false
		if r >= 'A' && r <= 'Z' {
			r += 32
		}
		b.WriteRune(r)
	}
	return b.String()
}

func genLinks(t *h.T, n int) []wlink {
	var ls []wlink
	for i := 0; i < n; i++ {
		l := wlink{attrs: map[string]string{}}
		l.text = t.Pick(fmt.Sprintf("proj-1.%d-py3-none-any.whl", i), fmt.Sprintf("proj-1.%d.tar.gz", i), "Some Project", "été & <co>", "x", " spaced ", "same")
		base := fmt.Sprintf("proj-1.%d.whl", i)
		l.href = t.Pick(
			"https://files.example.org/packages/aa/"+base,
			"//cdn.example.org/"+base,
			"/packages/"+base,
			base,
			"./"+base,
			"../../packages/"+base,
			"../"+base,
			"sub/dir/"+base,
			base+"?token=a&b=c",
			"/p/%20%2Fx/"+base,
			"http://127.0.0.1:1/"+base,
			"..",
			"?q=1",
		)
		if t.P(0.5) {
			l.href += "#sha256=" + strings.Repeat("ab", 32)
		}
		if t.P(0.3) {
			l.attrs["data-requires-python"] = t.Pick(">=3.6", "<3", ">=3.11", "bogus", ">= 2.7, <3.10", "")
		}
		if t.P(0.2) {
			l.attrs["data-yanked"] = t.Pick("", "broken & bad", "\"quoted\"")
		}
		if t.P(0.2) {
			l.attrs["data-gpg-sig"] = t.Pick("true", "false")
		}
		if t.P(0.1) {
			l.attrs["data-dist-info-metadata"] = "sha256=00"
		}
		ls = append(ls, l)
	}
	return ls
}

func compareLinks(t *h.T, what, location string, want []wlink, got []pep503.Link) {
	var q [][2]string
	for _, l := range want {
		q = append(q, [2]string{location, l.href})
	}
	var abs []string
	if len(q) > 0 {
		t.Py(joinOracle, q, &abs)
	}
	if len(got) != len(want) {
		t.Failf("%s: %d links on the page, %d returned\npage: %+v\ngot: %+v", what, len(want), len(got), want, got)
	}
	for i := range want {
		if got[i].Text != want[i].text {
			t.Failf("%s: link %d: text %q, want %q", what, i, got[i].Text, want[i].text)
		}
		if got[i].HRef != abs[i] {
			t.Failf("%s: link %d: %q on %s is %q, want %q", what, i, want[i].href, location, got[i].HRef, abs[i])
		}
		if !(len(got[i].DataAttrs) == 0 && len(want[i].attrs) == 0) && !reflect.DeepEqual(got[i].DataAttrs, want[i].attrs) {
			t.Failf("%s: link %d: data attributes %q, want %q", what, i, got[i].DataAttrs, want[i].attrs)
		}
		t.Observe("links", 1)
	}
}

// usable drops the links the given Python cannot use.
func usable(t *h.T, python string, ls []wlink) []wlink {
	if python == "" {
		return ls
	}
	var ret []wlink
	for _, l := range ls {
		if r := l.attrs["data-requires-python"]; r != "" {
			var v []struct {
				Ok    bool
				Match []bool
			}
			t.Py(h.SpecOracle, map[string]interface{}{"pep345": true, "specs": []string{r}, "versions": []string{python}}, &v)
			if v[0].Ok && !v[0].Match[0] {
				t.Observe("unusable_links", 1)
				continue
			}
		}
		ret = append(ret, l)
	}
	return ret
}

func genName(t *h.T) string {
	const al = "abcABC019"
	var b strings.Builder
	for i := 1 + t.Intn(8); i > 0; i-- {
		if t.P(0.3) && b.Len() > 0 {
			b.WriteString(t.Pick("-", "_", ".", "--", "-_.", "..", "__"))
		}
		b.WriteByte(al[t.Intn(len(al))])
	}
	return b.String()
}

func listCase(t *h.T) { listLinks(t, genLinks(t, t.Intn(9))) }

func listLinks(t *h.T, links []wlink) {
	srv := newServer(t)
	defer srv.Close()
	name := genName(t)
	norm := normName(name)
	basePath := t.Pick("/simple", "/", "/a/b/simple", "/root/pypi/+simple", "/a%2Fb/simple", "/sp%20ace", "/%C3%A9")
	slash := t.Pick("", "/")
	python := t.Pick("", "", "3.10.0", "3.9.1", "2.7.18")
	body := renderPage(t, links, "")
	dir := strings.TrimSuffix(basePath, "/") + "/" + norm
	final := ""
	how := t.Pick("direct", "slash", "moved", "chain", "status")
	code := []int{301, 302, 307, 308}[t.Intn(4)]
	status := 200
	switch how {
	case "direct":
		srv.page(dir, body)
		srv.page(dir+"/", body)
	case "slash":
		srv.redirect(dir, dir+"/", code)
		srv.page(dir+"/", body)
		final = dir + "/"
	case "moved":
		final = "/mirror/x/" + norm + "/index.html"
		srv.redirect(dir, final, code)
		srv.redirect(dir+"/", final, code)
		srv.page(final, body)
	case "chain":
		final = "/z/final/"
		srv.redirect(dir, "/hop", code)
		srv.redirect(dir+"/", "/hop", code)
		srv.redirect("/hop", final, 302)
		srv.page(final, body)
	case "status":
		status = []int{404, 403, 500, 503, 204, 206, 201, 410}[t.Intn(8)]
		srv.data(dir, status, []byte(body))
		srv.data(dir+"/", status, []byte(body))
	}
	t.Inputf(true, "name=%q base=%q how=%s status=%d python=%q page=%s", name, basePath+slash, how, status, python, body)
	c := pep503.Client{BaseURL: srv.URL + strings.TrimSuffix(basePath, "/") + slash}
	if t.P(0.5) {
		c = simple_repo_api.NewClient(nil, nil).Client
		c.BaseURL = srv.URL + strings.TrimSuffix(basePath, "/") + slash
	}
	if python != "" {
		c.Python, _ = pep440.ParseVersion(python)
	}
	files, err := c.ListPackageFiles(context.Background(), name)
	reqs := srv.requests()
	if len(reqs) == 0 || (reqs[0] != "GET "+dir && reqs[0] != "GET "+dir+"/") {
		t.Failf("listing %q requested %q, want %q", name, reqs, dir)
	}
	if status != 200 {
		if err == nil {
			t.Failf("the server answered %d, but listing succeeded", status)
		}
		if len(files) > 0 {
			t.Failf("links and an error")
		}
		t.Observe("list_refused", 1)
		return
	}
	if err != nil {
		t.Failf("listing failed: %v", err)
	}
	if final == "" {
		final = strings.TrimPrefix(reqs[len(reqs)-1], "GET ")
	}
	var got []pep503.Link
	for _, f := range files {
		got = append(got, f.Link)
	}
	compareLinks(t, "ListPackageFiles", srv.URL+final, usable(t, python, links), got)
	t.Observe("listed", 1)
	t.State("how", fmt.Sprint(how, code, " python=", python != ""))
}

func rootCase(t *h.T) {
	srv := newServer(t)
	defer srv.Close()
	links := genLinks(t, 1+t.Intn(6))
	k := t.Intn(len(links))
	links[k].href = t.Pick("proj/", "/simple/proj/", "./proj/", srv.URL+"/simple/proj/")
	links[k].text = "proj"
	body := renderPage(t, links, "")
	files := genLinks(t, t.Intn(6))
	python := t.Pick("", "3.10.0", "2.7.18")
	srv.page("/simple/", body)
	srv.page("/simple/proj/", renderPage(t, files, ""))
	t.Inputf(true, "root=%s files=%+v", body, files)
	c := pep503.Client{BaseURL: srv.URL + "/simple/"}
	if python != "" {
		c.Python, _ = pep440.ParseVersion(python)
	}
	pkgs, err := c.ListPackages(context.Background())
	if err != nil {
		t.Failf("listing packages: %v", err)
	}
	if r := srv.requests(); len(r) != 1 || r[0] != "GET /simple/" {
		t.Failf("listing packages requested %q", r)
	}
	var got []pep503.Link
	for _, p := range pkgs {
		got = append(got, p.Link)
	}
	compareLinks(t, "ListPackages", srv.URL+"/simple/", links, got)
	fl, err := pkgs[k].ListFiles(context.Background())
	if err != nil {
		t.Failf("listing files: %v", err)
	}
	if r := srv.requests(); len(r) != 1 || r[0] != "GET /simple/proj/" {
		t.Failf("listing files requested %q", r)
	}
	got = nil
	for _, p := range fl {
		got = append(got, p.Link)
	}
	compareLinks(t, "ListFiles", srv.URL+"/simple/proj/", usable(t, python, files), got)
	t.Observe("root_listed", 1)
}

func digest(alg string, bs []byte) string {
	switch alg {
	case "md5":
		s := md5.Sum(bs)
		return hex.EncodeToString(s[:])
	case "sha1":
		s := sha1.Sum(bs)
		return hex.EncodeToString(s[:])
	case "sha224":
		s := sha256.Sum224(bs)
		return hex.EncodeToString(s[:])
	case "sha256":
		s := sha256.Sum256(bs)
		return hex.EncodeToString(s[:])
	case "sha384":
		s := sha512.Sum384(bs)
		return hex.EncodeToString(s[:])
	case "sha512":
		s := sha512.Sum512(bs)
		return hex.EncodeToString(s[:])
	}
	panic(alg)
}

var algs = []string{"md5", "sha1", "sha224", "sha256", "sha384", "sha512"}

// fragment makes a checksum fragment and says whether data must be refused.
func fragment(t *h.T, data []byte) (frag string, refuse bool, kind string) {
	bad := append([]byte("x"), data...)
	switch t.Intn(9) {
	case 0:
		return "", false, "none"
	case 1, 2:
		a := t.Pick(algs...)
		return "#" + a + "=" + digest(a, data), false, a
	case 3, 4:
		a := t.Pick(algs...)
		d := digest(a, bad)
		if t.P(0.3) {
			g := []byte(digest(a, data))
			i := t.Intn(len(g))
			if g[i] == 'a' {
				g[i] = 'b'
			} else {
				g[i] = 'a'
			}
			d = string(g)
		} else if t.P(0.3) {
			d = digest(a, data)[:len(d)-2]
		} else if t.P(0.2) {
			d = ""
		}
		return "#" + a + "=" + d, true, "wrong " + a
	case 5:
		a, b := t.Pick(algs...), t.Pick(algs...)
		if a == b {
			return "#" + a + "=" + digest(a, data), false, a
		}
		if t.P(0.5) {
			return "#" + a + "=" + digest(a, data) + "&" + b + "=" + digest(b, data), false, "two"
		}
		x, y := a+"="+digest(a, data), b+"="+digest(b, bad)
		if t.P(0.5) {
			x, y = y, x
		}
		return "#" + x + "&" + y, true, "second wrong"
	case 6:
		a := t.Pick(algs...)
		x, y := a+"="+digest(a, data), a+"="+digest(a, bad)
		if t.P(0.5) {
			x, y = y, x
		}
		return "#" + x + "&" + y, true, "same algorithm twice"
	case 7:
		a := t.Pick(algs...)
		u := t.Pick("egg=proj", "blake2b=00", "sha3_256=00", "subdirectory=x")
		if t.P(0.5) {
			return "#" + u, false, "unsupported only"
		}
		if t.P(0.5) {
			return "#" + u + "&" + a + "=" + digest(a, data), false, "unsupported and right"
		}
		return "#" + u + "&" + a + "=" + digest(a, bad), true, "unsupported and wrong"
	default:
		a := t.Pick(algs...)
		return "#" + a + "=" + digest(a, bad) + t.Pick("&x;y=1", ";x", "&%25zz=1"), true, "malformed and wrong"
	}
}

func getCase(t *h.T) { getData(t, t.Bytes(t.Intn(4000))) }

func bigGetCase(t *h.T) {
	getData(t, t.Stretch(t.BigSize()))
	t.Observe("large_files", 1)
}

func bigListCase(t *h.T) {
	n := t.BigCount() / 2
	if t.P(0.3) {
		n = t.BigCount() * 2
	}
	listLinks(t, genLinks(t, n))
	t.Observe("large_pages", 1)
}

func getData(t *h.T, data []byte) {
	srv := newServer(t)
	defer srv.Close()
	frag, refuse, kind := fragment(t, data)
	fn := t.Pick("proj-1.0-py3-none-any.whl", "proj%20x.whl", "a/b/c.whl", "a%2Fb.whl", "x%23y.whl", "q%3Fy.whl", "%C3%A9.whl", "p%25.whl")
	href := "/packages/" + fn
	status := 200
	served := t.Pick("plain", "plain", "plain", "redirect", "status", "short", "query", "drop")
	req := href
	switch served {
	case "plain":
		srv.data(href, 200, data)
	case "query":
		srv.data(href, 200, data)
		req += "?a=b&c=d"
	case "redirect":
		srv.redirect(href, "/real/file", 302)
		srv.data("/real/file", 200, data)
	case "status":
		status = []int{404, 403, 500, 206, 201, 203, 204}[t.Intn(7)]
		srv.data(href, status, data)
	case "short":
		status = -1
		srv.resp[href] = func(w http.ResponseWriter) {
			w.Header().Set("Content-Length", fmt.Sprint(len(data)+10))
			w.WriteHeader(200)
			_, _ = w.Write(data)
		}
	case "drop":
		status = -1
		srv.resp[href] = func(w http.ResponseWriter) {
			panic(http.ErrAbortHandler)
		}
	}
	l := wlink{text: "proj", href: req + frag, attrs: map[string]string{}}
	sig := t.Pick("", "true", "false", "other")
	if sig != "" {
		l.attrs["data-gpg-sig"] = sig
	}
	sigData := append([]byte("-----BEGIN PGP SIGNATURE-----"), t.Bytes(20)...)
	sigStatus := []int{200, 200, 404, 403, 500}[t.Intn(5)]
	srv.data(href+".asc", sigStatus, sigData)
	srv.page("/simple/proj", renderPage(t, []wlink{l}, ""))
	srv.page("/simple/proj/", renderPage(t, []wlink{l}, ""))
	t.Inputf(true, "href=%q served=%s status=%d kind=%s sig=%q sigstatus=%d data=%x", l.href, served, status, kind, sig, sigStatus, sha256.Sum256(data))
	c := pep503.Client{BaseURL: srv.URL + "/simple/"}
	files, err := c.ListPackageFiles(context.Background(), "proj")
	if err != nil || len(files) != 1 {
		t.Failf("listing: %v %v", files, err)
	}
	srv.requests()
	got, err := files[0].Get(context.Background())
	reqs := srv.requests()
	if len(reqs) == 0 || reqs[0] != "GET "+req {
		// a link that cannot be parsed need not be requested
		if !(refuse && len(reqs) == 0) {
			t.Failf("getting the file requested %q, want %q", reqs, req)
		}
	}
	if status != 200 || refuse {
		if err == nil {
			t.Failf("%s, %s, status %d: %d bytes returned instead of an error", served, kind, status, len(got))
		}
		if len(got) > 0 {
			t.Failf("data and an error")
		}
		t.Observe("get_refused", 1)
	} else {
		if err != nil {
			t.Failf("getting the file: %v", err)
		}
		if !bytes.Equal(got, data) {
			t.Failf("got other bytes than served")
		}
		t.Observe("got", 1)
	}
	t.State("get", served+" "+kind)
	// signatures
	s, err := files[0].GetSignature(context.Background())
	reqs = srv.requests()
	wantReq := "GET " + href + ".asc"
	if served == "query" {
		wantReq += "?a=b&c=d"
	}
	switch {
	case sig == "false":
		if !errors.Is(err, pep503.ErrNoSignature) || len(reqs) > 0 || len(s) > 0 {
			t.Failf("a file declared unsigned: %q %v, requests %q", s, err, reqs)
		}
		t.Observe("sig_absent", 1)
	case strings.Contains(kind, "malformed") && len(reqs) == 0:
		if err == nil {
			t.Failf("signature from nowhere")
		}
	default:
		if len(reqs) != 1 || reqs[0] != wantReq {
			t.Failf("the signature was requested as %q, want %q", reqs, wantReq)
		}
		if sigStatus == 200 {
			if err != nil || !bytes.Equal(s, sigData) {
				t.Failf("signature: %q %v, want %q", s, err, sigData)
			}
			t.Observe("sig_got", 1)
		} else {
			if err == nil || len(s) > 0 {
				t.Failf("signature: the server answered %d, got %q %v", sigStatus, s, err)
			}
			if sig != "true" && sigStatus == 404 && !errors.Is(err, pep503.ErrNoSignature) {
				t.Failf("a missing signature is reported as %v", err)
			}
			if sigStatus != 404 && errors.Is(err, pep503.ErrNoSignature) {
				t.Failf("status %d is reported as a missing signature", sigStatus)
			}
			if sig == "true" && errors.Is(err, pep503.ErrNoSignature) {
				t.Failf("a file declared signed is reported as unsigned")
			}
			t.Observe("sig_refused", 1)
		}
	}
}

func versionCase(t *h.T) {
	srv := newServer(t)
	defer srv.Close()
	var meta string
	bad := false
	content := t.Pick("1.0", "1.1", "1.999", "1", "2.0", "2", "10.0", "bogus", "none", "otherName", "noContent", "1.0 ", "3.1a1", "2.0.dev1", "1.0rc1", "2147483648.0", "1!2.0", "02.0", "1.2.3.4", "0.9", "1.0+x", "2.0+x", "v2", "")
	switch content {
	case "none":
	case "otherName":
		meta = `<meta name="generator" content="99.0">`
	case "noContent":
		meta = `<meta name="pypi:repository-version">`
	default:
		meta = `<meta ` + t.Pick(`name="pypi:repository-version" content="`+content+`"`, `content='`+content+`' name=pypi:repository-version`) + `>`
		bad = strings.HasPrefix(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(content, "v"), "0"), "1!"), "2") || content == "2.0" || content == "2" || content == "10.0" || content == "bogus" || content == "3.1a1"
	}
	links := genLinks(t, 1+t.Intn(3))
	body := renderPage(t, links, meta+t.Pick("", `<meta charset=utf-8>`))
	srv.page("/simple/", body)
	srv.page("/simple/proj", body)
	srv.page("/simple/proj/", body)
	t.Inputf(true, "version=%q", content)
	c := simple_repo_api.NewClient(nil, nil)
	c.BaseURL = srv.URL + "/simple/"
	fs, err := c.ListPackageFiles(context.Background(), "proj")
	if (err != nil) != bad || (bad && len(fs) > 0) || (!bad && len(fs) != len(links)) {
		t.Failf("index version %q: listing files gives %d links, %v", content, len(fs), err)
	}
	ps, err := c.ListPackages(context.Background())
	if (err != nil) != bad || (bad && len(ps) > 0) || (!bad && len(ps) != len(links)) {
		t.Failf("index version %q: listing packages gives %d links, %v", content, len(ps), err)
	}
	sp, _ := pep440.ParseSpecifier("")
	if bad {
		if l, err := c.SelectWheel(context.Background(), "proj", sp); err == nil {
			t.Failf("index version %q: a wheel was selected: %v", content, l)
		}
		t.Observe("version_refused", 1)
	} else {
		t.Observe("version_accepted", 1)
	}
}

func nameCase(t *h.T) {
	srv := newServer(t)
	defer srv.Close()
	name := genName(t)
	bad := t.Pick("/", "%", "é", " ", "\x00", "\n", "?", "#", "+", "..\\", "/../x", "%2e%2e", "@", "*", "\xff", "~", "!", ":")
	k := t.Intn(len(name) + 1)
	name = name[:k] + bad + name[k:]
	t.Inputf(true, "%q", name)
	c := pep503.Client{BaseURL: srv.URL + "/simple/"}
	fs, err := c.ListPackageFiles(context.Background(), name)
	if err == nil || len(fs) > 0 {
		t.Failf("the name %q was accepted", name)
	}
	if r := srv.requests(); len(r) > 0 {
		t.Failf("the name %q was requested as %q", name, r)
	}
	t.Observe("names_refused", 1)
}

func cliCase(t *h.T) {
	srv := newServer(t)
	defer srv.Close()
	data := t.Bytes(1 + t.Intn(3000))
	dist := t.Pick("proj", "Proj_X", "a.b")
	fn := dist + "-1.0" + t.Pick("", "-1") + "-py3-none-any.whl"
	norm := normName(dist)
	frag, refuse, kind := fragment(t, data)
	mode := t.Pick("ok", "ok", "absent", "404", "page404", "badname", "full", "badversion", "short")
	links := genLinks(t, t.Intn(4))
	for i := range links {
		links[i].text = "other-" + links[i].text
	}
	near := wlink{text: fn + ".asc", href: "/f/near", attrs: map[string]string{}}
	links = append(links, near, wlink{text: strings.ToUpper(fn), href: "/f/near", attrs: map[string]string{}})
	for i, txt := range []string{"x" + fn, "my." + fn, fn + "x", fn[1:], fn[:len(fn)-1], "x-" + fn + "-x", strings.Replace(fn, "1.0", "1.0.0", 1), strings.Replace(fn, "1.0", "1.00", 1), strings.Replace(fn, ".whl", ".zip", 1), strings.Replace(fn, "-any", "-any2", 1), strings.Replace(fn, "1.0", "1x0", 1), strings.Replace(fn, "-py3", "-2-py3", 1)} {
		if txt != fn && t.P(0.3) {
			links = append(links, wlink{text: txt, href: "/f/near", attrs: map[string]string{}})
			t.State("near", fmt.Sprint(i))
		}
	}
	srv.data("/f/near", 200, []byte("WRONG"))
	srv.data("/f/wheel", 200, data)
	if mode != "absent" {
		links = append(links, wlink{text: fn, href: "/f/wheel" + frag, attrs: map[string]string{"data-requires-python": "<2"}})
	}
	t.Shuffle(len(links), func(i, j int) { links[i], links[j] = links[j], links[i] })
	meta := ""
	if mode == "badversion" {
		meta = `<meta name="pypi:repository-version" content="2.0">`
	}
	body := renderPage(t, links, meta)
	srv.page("/simple/"+norm, body)
	srv.page("/simple/"+norm+"/", body)
	arg := fn
	switch mode {
	case "404":
		srv.data("/f/wheel", 404, data)
	case "page404":
		delete(srv.resp, "/simple/"+norm)
		delete(srv.resp, "/simple/"+norm+"/")
	case "badname":
		arg = t.Pick("proj.whl", "proj-1.0.tar.gz", "proj-1.0-py3-none.whl", "", "pr/oj-1.0-py3-none-any.whl")
	case "short":
		srv.resp["/f/wheel"] = func(w http.ResponseWriter) {
			w.Header().Set("Content-Length", fmt.Sprint(len(data)+10))
			_, _ = w.Write(data)
		}
	}
	t.Inputf(true, "mode=%s kind=%s fn=%q data=%x", mode, kind, fn, sha256.Sum256(data))
	cmd := h.Cmd{Args: []string{"python", "getwheel", "--index-server=" + srv.URL + "/simple" + t.Pick("", "/"), arg}}
	if mode == "full" {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			h.Fatalf("%v", err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	r := t.CLI(cmd)
	if mode == "ok" && !refuse {
		if r.Code != 0 || !bytes.Equal(r.Out, data) {
			t.Failf("exit %d, %d bytes, want %d bytes; stderr: %s", r.Code, len(r.Out), len(data), r.Err)
		}
		t.Observe("cli_ok", 1)
		return
	}
	if r.Code == 0 {
		t.Failf("mode %s, checksum %s: exit status 0 with %d bytes written", mode, kind, len(r.Out))
	}
	if len(r.Out) > 0 {
		t.Failf("mode %s, checksum %s: failed, but wrote %d bytes", mode, kind, len(r.Out))
	}
	if len(bytes.TrimSpace(r.Err)) == 0 {
		t.Failf("mode %s: failed without a diagnostic", mode)
	}
	t.Observe("cli_refused", 1)
	t.State("cli", mode+" "+kind)
}

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// defaultCase: without any setting, the index is PyPI's. Nothing is sent anywhere.
func defaultCase(t *h.T) {
	name := genName(t)
	links := genLinks(t, t.Intn(4))
	body := renderPage(t, links, "")
	t.Inputf(true, "name=%q page=%s", name, body)
	var reqs []string
	c := pep503.Client{HTTPClient: &http.Client{Transport: roundTripper(func(r *http.Request) (*http.Response, error) {
		reqs = append(reqs, r.Method+" "+r.URL.String())
		return &http.Response{
			Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r,
			Header: http.Header{"Content-Type": {"text/html"}}, Body: io.NopCloser(strings.NewReader(body)),
		}, nil
	})}}
	files, err := c.ListPackageFiles(context.Background(), name)
	if err != nil {
		t.Failf("listing failed: %v", err)
	}
	dir := "https://pypi.org/simple/" + normName(name)
	if len(reqs) != 1 || (reqs[0] != "GET "+dir && reqs[0] != "GET "+dir+"/") {
		t.Failf("listing %q requested %q, want %q", name, reqs, dir)
	}
	var got []pep503.Link
	for _, f := range files {
		got = append(got, f.Link)
	}
	compareLinks(t, "ListPackageFiles", strings.TrimPrefix(reqs[0], "GET "), links, got)
	t.Observe("default_index", 1)
}

func main() {
	h.Main(h.Config{
		ID:          "C15",
		Rule:        "A recording index on the loopback network serves generated pages (odd spellings of HTML, relative and absolute links, redirects, error statuses, incompatible versions), files with right, wrong, repeated, mixed and malformed checksums, truncated and aborted bodies and signatures; the real client and the real getwheel command run against it. Expected links come from the generator, resolved by CPython's urljoin. Every case is non-trivial.",
		Require:     []string{"http_requests", "links", "listed", "list_refused", "unusable_links", "root_listed", "got", "get_refused", "sig_got", "sig_absent", "sig_refused", "version_accepted", "version_refused", "names_refused", "cli_ok", "cli_refused"},
		Assumptions: []string{"the project page may be requested with or without a trailing slash", "checksums are compared in lower-case hexadecimal", "Requires-Python values that do not parse are ignored"},
	}, func(c *h.C) {
		c.Group("list", c.N(5000, 60000), listCase)
		c.Group("scale-list", c.N(50, 1000), bigListCase)
		c.Group("scale-get", c.N(60, 1500), bigGetCase)
		c.Group("root", c.N(300, 5000), rootCase)
		c.Group("get", c.N(6000, 100000), getCase)
		c.Group("default", c.N(200, 3000), defaultCase)
		c.Group("version", c.N(200, 2000), versionCase)
		c.Group("name", c.N(200, 3000), nameCase)
		c.Group("cli", c.N(500, 6000), cliCase)
	})
}
