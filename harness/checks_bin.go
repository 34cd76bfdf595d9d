package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	register(&Check{ID: "C23", Quick: 250, Thorough: 6000, Workers: 4, External: true,
		Rule: "a case runs the race-detector build of the server with one generated database and 8-16 concurrent clients that request addresses in several spellings, /version and malformed paths, send broken requests over raw connections, and compare every reply with the library's result; distinct by database and request mix",
		Mins: map[string]int64{"ok_replies": 10000, "not_found_replies": 3000, "version_replies": 1500, "raw_requests": 500},
		Case: caseC23})
	register(&Check{ID: "C24", Quick: 2000, Thorough: 60000, External: true,
		Rule: "a case runs the built converter on one generated database with random rule, line and output options and compares every output file with the library's pipeline, then runs the built query command on addresses, version requests and bad input; distinct by source, rule, options and outputs",
		Mins: map[string]int64{"outputs_compared": 600, "answers_printed": 800, "errors_printed": 300, "versions_printed": 150, "bad_inputs": 400},
		Case: caseC24})
}

// wantBody is the JSON object the server must send.
func wantBody(i *inf.IpInfo) map[string]string {
	m := map[string]string{}
	for k, v := range map[string]string{"country": i.Country, "district": i.District, "province": i.Province, "city": i.City, "asn": i.Asn, "isp": i.Isp, "continent": i.Continent, "line": i.Line} {
		if v != "" {
			m[k] = v
		}
	}
	return m
}

// sameVer compares version information, the languages as a set.
func sameVer(a, b inf.VersionInfo) bool {
	norm := func(v *inf.VersionInfo) {
		v.Languages = append([]string{}, v.Languages...)
		sort.Strings(v.Languages)
		v.ExtraInfo = append([]string{}, v.ExtraInfo...)
	}
	norm(&a)
	norm(&b)
	return reflect.DeepEqual(a, b)
}

type request struct {
	path string // as sent
	ver  bool
	info *inf.IpInfo // nil: 404
	mapp map[string]string
}

func caseC23(c *C) {
	d := genAny(c, 80)
	db := openBytes(c, d.ext, d.b)
	f := filepath.Join(c.Dir(), "served"+d.ext)
	if err := os.WriteFile(f, d.b, 0o644); err != nil {
		harness("%v", err)
	}
	bin := filepath.Join(os.Getenv("VERIF_BIN"), "server")
	var cmd *exec.Cmd
	var errs *tail
	var addr string
	var exited chan error
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			harness("listen: %v", err)
		}
		addr = l.Addr().String()
		l.Close()
		cmd = exec.Command(bin, f, addr)
		errs = &tail{}
		cmd.Stderr = errs
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			harness("server: %v", err)
		}
		exited = make(chan error, 1)
		go func(cmd *exec.Cmd, ch chan error) { ch <- cmd.Wait() }(cmd, exited)
		up := false
		for t0 := time.Now(); time.Since(t0) < 60*time.Second && !up; {
			cn, err := net.DialTimeout("tcp", addr, time.Second)
			if err == nil {
				cn.Close()
				up = true
				break
			}
			select {
			case <-exited:
				t0 = time.Time{}
			case <-time.After(10 * time.Millisecond):
			}
		}
		if up {
			break
		}
		cmd.Process.Kill()
		text := errs.String()
		if try < 5 && (strings.Contains(text, "address already in use") || text == "") {
			continue
		}
		c.Failf("the server does not serve a well-formed %s database: %s", d.ext, clip(text, 2000))
	}
	defer cmd.Process.Kill()
	gv := *db.VersionInfo()

	// the request list, answers worked out beforehand on a database of our own
	var reqs []request
	add := func(sent, addr string) {
		r := request{path: sent}
		if info, _, err := db.QueryStr(addr); err == nil {
			r.info = info
			r.mapp = wantBody(info)
		}
		reqs = append(reqs, r)
	}
	shuffle(c, d.probe)
	for _, a := range d.probe[:min(len(d.probe), 60)] {
		t := textForm(c, a)
		sent := t
		switch c.N(6) {
		case 0:
			sent = url.PathEscape(t)
		case 1:
			sent = fmt.Sprintf("%%%02x", t[0]) + t[1:]
		case 2:
			sent = t + "?x=1&ip=8.8.8.8"
		}
		add(sent, t)
	}
	for _, b := range []string{"", "x", "1.2.3", "1.2.3.4.5", "256.1.1.1", "versionx", "version/", "Version", "1.2.3.4/", "8.8.8.8/version", "a/b", "%ff", "%00", "%20", "1.2.3.4%20", "1.2.3.4%0a", "favicon.ico", "1::2::3",
		"%E4%B8%AD", "::1%25eth0", "null", "{}", "localhost", "0x7f.1", strings.Repeat("1", 3000), strings.Repeat("%41", 1000), "01.2.3.4", "-1"} {
		u, err := url.PathUnescape(b)
		if err != nil {
			harness("%v", err)
		}
		add(b, u)
	}
	for k := 0; k < 8; k++ {
		reqs = append(reqs, request{path: pick(c, []string{"version", "version", "version?x", "%76ersion"}), ver: true})
	}
	n := 8 + c.N(9)
	rounds := 60
	type cres struct {
		fail string
		cnt  map[string]int
	}
	res := make([]cres, n)
	seeds := make([]int, n)
	for i := range seeds {
		seeds[i] = c.N(1 << 30)
	}
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			cnt := map[string]int{}
			res[k].cnt = cnt
			tr := &http.Transport{DisableKeepAlives: k%3 == 0, MaxIdleConns: 4}
			defer tr.CloseIdleConnections()
			cl := &http.Client{Transport: tr, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
			x := uint32(seeds[k])
			rnd := func(n int) int { x = x*1664525 + 1013904223; return int(x>>8) % n }
			for j := 0; j < rounds; j++ {
				if rnd(12) == 0 {
					rawRequest(addr, rnd)
					cnt["raw_requests"]++
					continue
				}
				r := reqs[rnd(len(reqs))]
				if msg, key := oneRequest(cl, addr, r, gv); msg != "" {
					res[k].fail = msg
					return
				} else {
					cnt[key]++
				}
			}
		}(k)
	}
	wg.Wait()
	// it is still there and unharmed
	cl := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
	final := ""
	for _, r := range reqs[:min(len(reqs), 10)] {
		if m, _ := oneRequest(cl, addr, r, gv); m != "" && final == "" {
			final = "after the concurrent clients: " + m
		}
	}
	if m, _ := oneRequest(cl, addr, request{path: "version", ver: true}, gv); m != "" && final == "" {
		final = "after the concurrent clients: " + m
	}
	select {
	case err := <-exited:
		c.Failf("the server stopped while serving: %v\n%s", err, clip(errs.String(), 4000))
	default:
	}
	cmd.Process.Kill()
	<-exited
	text := errs.String()
	for _, bad := range []string{"DATA RACE", "panic", "fatal error"} {
		if strings.Contains(text, bad) {
			c.Failf("the server reports %q while serving concurrent clients:\n%s", bad, clip(text, 4000))
		}
	}
	for _, r := range res {
		if r.fail != "" {
			c.Failf("%s", r.fail)
		}
		for k, v := range r.cnt {
			c.Count(k, v)
		}
	}
	if final != "" {
		c.Failf("%s", final)
	}
	c.Shape(d.ext, len(d.b), n, len(reqs))
	if c.Idx < 3 {
		c.Sample(map[string]any{"ext": d.ext, "clients": n, "distinct_requests": len(reqs)})
	}
}

func oneRequest(cl *http.Client, addr string, r request, gv inf.VersionInfo) (fail, kind string) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	rq, err := http.NewRequestWithContext(ctx, "GET", "http://"+addr+"/"+r.path, nil)
	if err != nil {
		// not a URL for Go's client: another spelling of the same path
		rq, err = http.NewRequestWithContext(ctx, "GET", "http://"+addr+"/", nil)
		if err != nil {
			return "", "skipped"
		}
		rq.URL.Opaque = "/" + r.path
	}
	rs, err := cl.Do(rq)
	if err != nil {
		return fmt.Sprintf("GET /%s: no reply: %v", clip(r.path, 200), err), ""
	}
	b, err := io.ReadAll(rs.Body)
	rs.Body.Close()
	if err != nil {
		return fmt.Sprintf("GET /%s: broken reply: %v", clip(r.path, 200), err), ""
	}
	what := fmt.Sprintf("GET /%s: status %d, body %q", clip(r.path, 200), rs.StatusCode, clip(string(b), 400))
	if r.ver {
		var v inf.VersionInfo
		if rs.StatusCode != 200 || json.Unmarshal(b, &v) != nil || !sameVer(v, gv) {
			return fmt.Sprintf("%s; expected the version information %+v", what, gv), ""
		}
		return "", "version_replies"
	}
	if r.info == nil {
		if rs.StatusCode != 404 {
			return what + "; expected 404", ""
		}
		var m map[string]any
		if json.Unmarshal(b, &m) == nil && len(m) > 0 {
			return what + "; a result came with 404", ""
		}
		return "", "not_found_replies"
	}
	var m map[string]string
	if rs.StatusCode != 200 || json.Unmarshal(b, &m) != nil || m == nil || !reflect.DeepEqual(m, r.mapp) {
		return fmt.Sprintf("%s; expected 200 and %q", what, r.mapp), ""
	}
	return "", "ok_replies"
}

// rawRequest sends something that is not quite HTTP.
func rawRequest(addr string, rnd func(int) int) {
	cn, err := net.DialTimeout("tcp", addr, 30*time.Second)
	if err != nil {
		return
	}
	defer cn.Close()
	l := []string{"", "GET", "GET /1.2.3.4", "GET /1.2.3.4 HTTP/1.1\r\n", "GET  HTTP/1.1\r\n\r\n", "GET 1.2.3.4 HTTP/1.1\r\nHost: x\r\n\r\n", "GET * HTTP/1.1\r\nHost: x\r\n\r\n", "OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n",
		"POST /1.2.3.4 HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\n\r\nabc", "HEAD /1.2.3.4 HTTP/1.1\r\nHost: x\r\n\r\n", "GET /%zz HTTP/1.1\r\nHost: x\r\n\r\n", "GET http:// HTTP/1.1\r\nHost: x\r\n\r\n", "GET http://x HTTP/1.1\r\nHost: x\r\n\r\n", "GET http://x?y HTTP/1.1\r\nHost: x\r\n\r\n",
		"CONNECT x:80 HTTP/1.1\r\nHost: x\r\n\r\n", "CONNECT x HTTP/1.1\r\nHost: \r\n\r\n", "GET //.. HTTP/1.0\r\n\r\n", "GET /../../etc/passwd HTTP/1.0\r\n\r\n", "\x16\x03\x01\x00\xff", "\r\n\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n",
		"GET /8.8.8.8 HTTP/1.1\r\nHost: x\r\n\r\nGET /8.8.4.4 HTTP/1.1\r\nHost: x\r\n\r\n", "GET /8.8.8.8 HTTP/1.1\r\n\r\n", "DELETE /version HTTP/1.1\r\nHost: x\r\n\r\n", "GET ? HTTP/1.1\r\nHost: x\r\n\r\n", "GET /" + strings.Repeat("a", 5000) + " HTTP/1.1\r\nHost: x\r\n\r\n", "GET / HTTP/1.1\r\n" + strings.Repeat("X: y\r\n", 500)}
	io.WriteString(cn, l[rnd(len(l))])
	if rnd(2) == 0 {
		cn.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
		io.ReadAll(cn)
	}
}

// runTool runs one of the commands and notices crashes.
func runTool(c *C, name string, args ...string) (stdout, stderr string) {
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BIN"), name), args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Failf("%s %q does not finish", name, args)
	}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			harness("%s: %v", name, err)
		}
		t := e.String()
		if !x.Exited() || strings.Contains(t, "panic: ") || strings.Contains(t, "fatal error: ") || strings.Contains(t, "goroutine 1 [") {
			c.Failf("%s %q crashes: %v\n%s", name, args, err, clip(t, 3000))
		}
	}
	return o.String(), e.String()
}

// sameOutput compares two outputs apart from what the library leaves open: the
// order of the languages and, without a rule, of the columns.
func sameOutput(c *C, ext string, got, want []byte, anyOrder bool) bool {
	text := func(b []byte) string {
		d, err := format.GetDumpFormat(ext)(b, nil)
		if err != nil {
			return "refused: " + err.Error()
		}
		v := *d.Version
		v.Languages = append([]string{}, v.Languages...)
		sort.Strings(v.Languages)
		if ext == ".ipdb" {
			v.Build = 0
		}
		perm := make([]int, len(d.Fields))
		for i := range perm {
			perm[i] = i
		}
		if anyOrder {
			sort.Slice(perm, func(i, j int) bool { return d.Fields[perm[i]] < d.Fields[perm[j]] })
		}
		var o strings.Builder
		o.WriteString(v.String())
		for _, p := range perm {
			fmt.Fprintf(&o, "|%s", d.Fields[p])
		}
		for _, r := range toRows(c, d) {
			fmt.Fprintf(&o, "\n%s/%d", u128IP(r.Addr), r.Depth)
			for _, p := range perm {
				fmt.Fprintf(&o, "|%q", r.Vals[p])
			}
		}
		return o.String()
	}
	g, w := text(got), text(want)
	return g == w && !strings.HasPrefix(g, "refused")
}

func caseC24(c *C) {
	dir := c.Dir()
	write := func(name string, b []byte) string {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			harness("%v", err)
		}
		return p
	}
	withLine := c.P(0.4)
	s := genSource(c, srcOpt{gaps: 1, split: withLine, names: c.P(0.8), maxRecs: 12, vals: valOpt{}})
	in := write("in"+s.Ext, s.Bytes)
	rule := pick(c, append(rulePool, "", "default", "default", "default"))
	realRule := rule
	if rule == "default" {
		realRule = defaultRule
	}
	var lineM Model
	var lineQ *query.Db
	replace := c.P(0.5)
	args := []string{"-i", in}
	if rule != "default" || c.P(0.3) {
		args = append(args, "-r", rule)
	}
	if withLine {
		ext, m, b := genLine(c)
		lineM, lineQ = m, openBytes(c, ext, b)
		args = append(args, "-line", write("line"+ext, b))
	}
	if replace {
		args = append(args, "-line-replace")
	}
	if _, ok := refPipeline(c, s, realRule, lineM, replace, withLine); !ok {
		c.Count("ambiguous_isps", 1)
		return
	}
	pipeline := func() *inf.IpData {
		ops := append([]operate.Operate{}, operate.DefaultOperates...)
		if withLine {
			ops = append(ops, func(d *inf.IpData) {
				if replace {
					operate.ReplaceLineByCidr(d, query.GetIntern(lineQ))
				} else {
					operate.AttachLineByCidr(d, query.GetIntern(lineQ))
				}
			})
		}
		ops = append(ops, operate.AttachDistrict)
		d, err := convert.DumpFile(in, realRule, ops)
		if err != nil {
			c.Failf("the library pipeline refuses a fully answering %s database: %v", s.Ext, err)
		}
		return d
	}
	var outs []string
	for k := 1 + c.few(4); k > 0; k-- {
		ext := pick(c, []string{".ipdb", ".scan", ".memip", ".ipdb", ".scan"})
		p := filepath.Join(dir, fmt.Sprintf("%s%d%s", pick(c, []string{"out", "out", "out put", "输出", "o.scan"}), k, ext))
		if c.P(0.1) && len(outs) > 0 {
			p = pick(c, outs)
		}
		outs = append(outs, p)
	}
	bad := -1
	if c.P(0.15) {
		bad = c.N(len(outs) + 1)
		l := append([]string(nil), outs[:bad]...)
		l = append(l, filepath.Join(dir, pick(c, []string{"out.mmdb", "out.awdb", "out", "nodir/out.ipdb"})))
		outs = append(l, outs[bad:]...)
	}
	for _, p := range outs {
		if c.P(0.2) && !strings.Contains(p, "nodir") {
			os.WriteFile(p, bytes.Repeat([]byte("old content\n"), 1000), 0o644)
		}
	}
	args = append(args, "-o", strings.Join(outs, ","))
	_, stderr := runTool(c, "converter", args...)
	c.Detail(map[string]any{"args": args, "stderr": clip(stderr, 2000)})
	seen := map[string]bool{}
	for i, p := range outs {
		if i == bad {
			break
		}
		if seen[p] {
			continue
		}
		seen[p] = true
		ext := filepath.Ext(p)
		want, err := packAny(c, ext, pipeline())
		if err != nil {
			// this library cannot express the table in that format
			c.Count("unpackable", 1)
			break
		}
		got, err := os.ReadFile(p)
		if err != nil {
			c.Failf("output %d of %q is missing: %v\n%s", i, outs, err, clip(stderr, 1500))
		}
		if maskTime(ext, got) != maskTime(ext, want) && (ext == ".memip" || !sameOutput(c, ext, got, want, realRule == "")) {
			c.Failf("output %d of %q has %d bytes and differs from the %d bytes the library pipeline gives", i, outs, len(got), len(want))
		}
		c.Count("outputs_compared", 1)
	}
	c.Detail(nil)
	c.Shape(s.Ext, rule, withLine, replace, fmt.Sprint(outs), len(s.Bytes))

	// a table without any row has outputs as well
	if c.P(0.15) {
		in := write("none.scan", []byte(fmt.Sprintf("#### scan dump ####\n#### {\"IpType\":%d,\"Count\":0,\"Build\":%d,\"Version\":\"none\"}\n#### %s\n",
			1+c.N(2), c.N(1<<30), pick(c, []string{"country", "country,isp,asn", "isp,province,country,line", "x"}))))
		r := pick(c, []string{"default", "country", "isp,country"})
		real := r
		if r == "default" {
			real = defaultRule
		}
		var outs []string
		for _, ext := range []string{".memip", ".scan", ".ipdb"} {
			outs = append(outs, filepath.Join(dir, "none-out"+ext))
			if c.P(0.5) {
				os.WriteFile(outs[len(outs)-1], []byte("old content\n"), 0o644)
			}
		}
		shuffle(c, outs)
		_, stderr := runTool(c, "converter", "-i", in, "-r", r, "-o", strings.Join(outs, ","))
		for _, p := range outs {
			ext := filepath.Ext(p)
			d, err := convert.DumpFile(in, real, append(append([]operate.Operate{}, operate.DefaultOperates...), operate.AttachDistrict))
			if err != nil {
				c.Failf("the library refuses a scan file without rows: %v", err)
			}
			want, err := packAny(c, ext, d)
			if err != nil {
				break
			}
			got, err := os.ReadFile(p)
			if err != nil || maskTime(ext, got) != maskTime(ext, want) {
				c.Failf("of a table without rows the output %s has %d bytes (%v), the library gives %d\n%s", filepath.Base(p), len(got), err, len(want), clip(stderr, 800))
			}
			c.Count("empty_outputs", 1)
		}
	}

	// the query command
	q := genAny(c, 30)
	db := openBytes(c, q.ext, q.b)
	qf := write("q"+q.ext, q.b)
	for k := 0; k < 5; k++ {
		a := textForm(c, pick(c, append(q.probe, randU128(c), v4Base.or(U128{0, uint64(c.R.Uint32())}))))
		if c.P(0.15) {
			a = pick(c, []string{"", "x", "1.2.3", "::1%eth0", "1.2.3.4.5", "V", "Version", " v"})
		}
		out, errText := runTool(c, "simple", qf, a)
		info, _, err := db.QueryStr(a)
		if err != nil {
			if strings.TrimSpace(out) != "" {
				c.Failf("simple %s prints %q although the library returns the error %v", a, out, err)
			}
			if strings.TrimSpace(errText) == "" {
				c.Failf("simple %s prints nothing, the library returns the error %v", a, err)
			}
			c.Count("errors_printed", 1)
			continue
		}
		if want := fmt.Sprintf("%+v\n", info); out != want {
			c.Failf("simple %s prints %q, the library returns %q", a, out, want)
		}
		c.Count("answers_printed", 1)
	}
	if c.P(0.5) {
		out, _ := runTool(c, "simple", qf, pick(c, []string{"version", "v", "ver"}))
		var v inf.VersionInfo
		if json.Unmarshal([]byte(out), &v) != nil || !sameVer(v, *db.VersionInfo()) {
			c.Failf("simple version prints %q, the library states %+v", out, db.VersionInfo())
		}
		c.Count("versions_printed", 1)
	}
	// bad input
	switch c.N(9) {
	case 0:
		runTool(c, "simple")
		runTool(c, "simple", qf)
	case 1:
		runTool(c, "simple", filepath.Join(dir, "absent.ipdb"), "1.2.3.4")
		runTool(c, "simple", dir, "1.2.3.4")
	case 2:
		runTool(c, "converter")
		runTool(c, "converter", "-o", filepath.Join(dir, "x.ipdb"))
	case 3:
		runTool(c, "converter", "-i", filepath.Join(dir, "absent.ipdb"), "-o", filepath.Join(dir, "x.ipdb"))
		runTool(c, "converter", "-i", dir, "-o", filepath.Join(dir, "x.ipdb"))
	case 4:
		runTool(c, "converter", "-i", in, "-o", filepath.Join(dir, "x.scan"), "-line", filepath.Join(dir, "absent.awdb"))
	case 5:
		runTool(c, "converter", "-i", in, "-o", "")
		runTool(c, "converter", "-i", in, "-r", "", "-o", ",,")
	default:
		// corrupt databases
		b := mutateGeneric(c, s.Bytes, q.b)
		p := write("corrupt"+s.Ext, b)
		runTool(c, "converter", "-i", p, "-r", rule, "-o", filepath.Join(dir, "x.ipdb")+","+filepath.Join(dir, "x.scan"))
		b = mutateGeneric(c, q.b, s.Bytes)
		p = write("corruptq"+q.ext, b)
		runTool(c, "simple", p, "1.2.3.4")
		runTool(c, "simple", p, "2001:4860:4860::8888")
		runTool(c, "converter", "-i", in, "-line", p, "-o", filepath.Join(dir, "y.scan"))
	}
	c.Count("bad_inputs", 1)
	if c.Idx < 3 {
		c.Sample(map[string]any{"args": args, "bytes": len(s.Bytes)})
	}
}
