package main

import (
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

// live is the memory still in use after garbage collection.
func live() int64 {
	best := int64(1) << 62
	for i := 0; i < 3; i++ {
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		best = min(best, int64(m.HeapAlloc))
	}
	return best
}

// openFiles lists what a process has open below a directory.
func openFiles(pid int, dir string) []string {
	var l []string
	d := fmt.Sprintf("/proc/%d/fd", pid)
	es, err := os.ReadDir(d)
	if err != nil {
		harness("%v", err)
	}
	for _, e := range es {
		if t, err := os.Readlink(filepath.Join(d, e.Name())); err == nil && strings.HasPrefix(t, dir) {
			l = append(l, strings.TrimPrefix(t, dir))
		}
	}
	return l
}

func init() {
	register(&Check{ID: "C30", External: true, Quick: 1000, Thorough: 20000, Workers: 6, MemMB: 4000,
		Rule: "a case exercises one part for long (40000 distinct queries and warm-ups on one database; dozens of distinct files opened, dumped, packed and converted; databases and rules with texts not met before; succeeding and failing file calls with garbage collection off; the Rust and Java libraries likewise) and compares live memory between the halves, goroutines, open descriptors and files on disk with what was there before; distinct by kind and inputs",
		Mins: map[string]int64{"queries": 1000000, "rounds": 500, "file_calls": 500, "heap_readings": 100, "java_opens": 100, "rust_opens": 100, "fresh_databases": 500, "fresh_kb": 10000, "fresh_java": 500, "lang_queries": 1000000},
		Case: func(c *C) {
			switch c.Idx % 5 {
			case 0:
				c30Query(c)
			case 1:
				if c.Idx%2 == 0 {
					c30Convert(c)
				} else {
					c30Fresh(c)
				}
			case 2:
				c30Files(c)
			case 3:
				c30Lang(c, "rust")
			default:
				c30Lang(c, "java")
			}
		}})
}

const slack = 700 << 10

// c30Query asks one database many distinct questions.
func c30Query(c *C) {
	d := genAny(c, 60)
	db := openBytes(c, d.ext, d.b)
	in := query.GetIntern(db)
	v4 := db.VersionInfo().HasIpV4()
	v6 := db.VersionInfo().HasIpV6()
	asks := func(n int) {
		ip := make(net.IP, 16)
		for i := 0; i < n; i++ {
			a := randU128(c)
			if len(d.probe) > 0 && i%4 == 0 {
				p := pick(c, d.probe)
				a = p.or(a.and(hostMask(112)))
			}
			if v4 && (!v6 || i%2 == 0) {
				a = v4Base.or(U128{0, a.Lo & 0xffffffff})
			}
			copy(ip, u128IP(a))
			switch i % 16 {
			case 0, 6, 7, 8, 9, 10:
				db.QueryStr(ip.String())
			case 1:
				db.QueryU32(uint32(a.Lo))
			case 2:
				db.QueryStr(fmt.Sprint("bad text ", i, a.Lo))
			case 3:
				db.Query(ip[:i%16])
			case 4:
				if i%64 == 4 {
					db.VersionInfo().String()
				}
			case 5:
				if i%256 == 5 {
					var l []string
					for k := 0; k < 20; k++ {
						l = append(l, v4IP(c.R.Uint32()).String())
					}
					in.BuildCache(l)
				}
			default:
				db.Query(ip)
			}
		}
		c.Count("queries", n)
	}
	// after the first half every record has been met
	const n = 40000
	asks(n)
	before := live()
	asks(n)
	after := live()
	c.Count("heap_readings", 2)
	c.Detail(map[string]any{"ext": d.ext, "bytes": len(d.b), "live_before": before, "live_after": after})
	if grown := after - before; grown > slack+int64(8*len(d.b)) {
		c.Failf("%d further queries of one %s database of %d bytes left %d KB more memory in use", n, d.ext, len(d.b), grown>>10)
	} else if grown>>10 > c.counters["max_query_growth_kb"] {
		c.counters["max_query_growth_kb"] = grown >> 10
	}
	runtime.KeepAlive(db)
	c.Shape("query", d.ext, string(d.b))
	if c.Idx < 6 {
		c.Sample(map[string]any{"ext": d.ext, "bytes": len(d.b), "live_kb_before": before >> 10, "live_kb_after": after >> 10})
	}
}

// c30Convert opens, dumps, operates on and packs many distinct databases.
func c30Convert(c *C) {
	big := 0
	round := func() {
		s := genSource(c, srcOpt{n: 40 + c.N(80), maxRecs: 40})
		b := append([]byte(nil), s.Bytes...)
		big = max(big, len(b))
		if format.GetQueryFormat(s.Ext) != nil {
			db, err := query.NewDbFromBytes(s.Ext, b)
			if err == nil {
				db.QueryU32(c.R.Uint32())
				db.CheckV4()
			}
		}
		t, err := format.GetDumpFormat(s.Ext)(b, export.ParseRule(pick(c, []string{"", defaultRule, fmt.Sprintf("country|x%d,province", c.N(1<<30))})))
		if err == nil {
			for _, f := range operate.DefaultOperates {
				f(t)
			}
			operate.AttachDistrict(t)
			operate.AttachLineByAsn(t, map[string]string{fmt.Sprint(c.N(1 << 30)): "x"}, fmt.Sprint("v", c.N(1<<30)))
			for _, e := range packExts {
				convert.PackBytes(e, t)
				convert.PackWriter(e, t, &faultWriter{failAt: 1 + c.N(3), byteAt: -1, sticky: true})
			}
		}
		// refused inputs must leave nothing behind either
		for k := 0; k < 3; k++ {
			x := mutateGeneric(c, b, nil)
			query.NewDbFromBytes(s.Ext, x)
			if len(x) < 4096 {
				format.GetDumpFormat(s.Ext)(x, export.ParseRule(""))
			}
		}
		c.Count("rounds", 1)
	}
	g0 := runtime.NumGoroutine()
	for i := 0; i < 8; i++ {
		round()
	}
	before := live()
	const n = 24
	for i := 0; i < n; i++ {
		round()
	}
	after := live()
	c.Count("heap_readings", 2)
	if grown := after - before; grown > slack+int64(2*big) {
		c.Failf("after %d further conversions of distinct databases (the largest of %d bytes) %d KB more memory is in use", n, big, grown>>10)
	} else if grown>>10 > c.counters["max_convert_growth_kb"] {
		c.counters["max_convert_growth_kb"] = grown >> 10
	}
	g := runtime.NumGoroutine()
	for i := 0; i < 200 && g > g0; i++ {
		time.Sleep(10 * time.Millisecond)
		g = runtime.NumGoroutine()
	}
	if g > g0 {
		buf := make([]byte, 1<<16)
		c.Failf("%d goroutines are left behind\n%s", g-g0, clip(string(buf[:runtime.Stack(buf, true)]), 4000))
	}
	c.Shape("convert", big, before)
}

func freshText(c *C, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.R.Uint32())
	}
	return hx(b)
}

// freshDb is a database whose texts no other one has.
func freshDb(c *C, ext string) []byte {
	text := func() string { return freshText(c, 200) }
	if ext == ".awdb" {
		d := genAwdb(c, awdbOpt{gaps: 1, n: 150, noBig: true})
		d.Recs = d.Recs[:len(d.Recs):len(d.Recs)]
		for _, r := range d.Recs {
			for _, k := range sortedKeys(r) {
				r[k] = text()
			}
		}
		return d.Encode(c)
	}
	d := genIpdb(c, ipdbOpt{gaps: 1, n: 150, simple: true, fields: []string{"country_name", "region_name", "city_name", "isp_domain", "asn"}})
	for _, r := range d.Recs {
		for i := range r {
			r[i] = text()
		}
	}
	return d.Encode(c)
}

// c30Fresh meets more and more distinct texts, in databases and in rules.
func c30Fresh(c *C) {
	var meet int64
	round := func() {
		ext := pick(c, []string{".ipdb", ".awdb"})
		b := freshDb(c, ext)
		meet += int64(len(b))
		db := openBytes(c, ext, b)
		t, err := format.GetDumpFormat(ext)(b, export.ParseRule(pick(c, []string{"", defaultRule})))
		if err != nil {
			c.Failf("a well-formed %s database of %d bytes cannot be dumped: %v", ext, len(b), err)
		}
		for _, r := range t.Ips {
			db.Query(r.Cidr.IP)
		}
		for i := 0; i < 100; i++ {
			// rules nobody has used before
			r := "country,isp|country=" + freshText(c, 300) + ":isp"
			if i == 0 {
				format.GetDumpFormat(ext)(b, export.ParseRule(r))
			}
			export.ParseRule(r)
		}
		c.Count("fresh_databases", 1)
	}
	for i := 0; i < 6; i++ {
		round()
	}
	meet = 0
	before := live()
	for i := 0; i < 30; i++ {
		round()
	}
	after := live()
	c.Count("heap_readings", 2)
	if grown := after - before; grown > slack/7 {
		c.Failf("after 30 further databases with %d KB of texts and 3000 rules that were not met before %d KB more memory is in use", meet>>10, grown>>10)
	} else if grown>>10 > c.counters["max_fresh_growth_kb"] {
		c.counters["max_fresh_growth_kb"] = grown >> 10
	}
	c.Count("fresh_kb", int(meet>>10))
	c.Shape("fresh", meet, before)
}

// c30Files makes succeeding and failing calls with files.
func c30Files(c *C) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // no finalizer may close what was left open
	dir := c.Dir()
	s := genSource(c, srcOpt{n: 1 + c.N(30)})
	t, _ := packTable(c, 20)
	write := func(name string, b []byte) string {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			harness("%v", err)
		}
		return p
	}
	good := write("good"+s.Ext, s.Bytes)
	bad := write("bad"+s.Ext, mutateGeneric(c, s.Bytes, nil))
	empty := write("empty"+s.Ext, nil)
	other := write("other.txt", s.Bytes)
	sub := filepath.Join(dir, "dir.ipdb")
	os.Mkdir(sub, 0o755)
	missing := filepath.Join(dir, "missing"+s.Ext)
	full := map[string]string{}
	for _, e := range packExts {
		full[e] = filepath.Join(dir, "full"+e)
		if err := os.Symlink("/dev/full", full[e]); err != nil {
			harness("%v", err)
		}
	}
	list := func() string {
		es, err := os.ReadDir(dir)
		if err != nil {
			harness("%v", err)
		}
		var l []string
		for _, e := range es {
			l = append(l, e.Name())
		}
		return strings.Join(l, " ")
	}
	for _, e := range packExts {
		write("out"+e, []byte("older contents"))
	}
	before := list()
	tmp0, err := os.ReadDir(os.TempDir())
	if err != nil {
		harness("%v", err)
	}
	_ = tmp0
	cwd0, err := os.ReadDir(".")
	if err != nil {
		harness("%v", err)
	}
	files := []string{good, bad, empty, other, sub, missing}
	var what []string
	for k := 0; k < 12; k++ {
		f := pick(c, files)
		switch c.N(4) {
		case 0:
			query.NewDb(f)
			what = append(what, "NewDb "+filepath.Base(f))
		case 1:
			if f == bad && c.P(0.7) {
				f = good
			}
			convert.DumpFile(f, pick(c, []string{"", defaultRule}), pick(c, [][]operate.Operate{nil, operate.DefaultOperates}))
			what = append(what, "DumpFile "+filepath.Base(f))
		case 2:
			e := pick(c, packExts)
			if err := convert.PackFile(filepath.Join(dir, "out"+e), t); err != nil {
				c.Failf("PackFile(out%s): %v", e, err)
			}
			what = append(what, "PackFile out"+e)
		default:
			// the disk is full
			e := pick(c, packExts)
			convert.PackFile(full[e], t)
			convert.PackFile(sub, t)
			convert.PackFile(filepath.Join(dir, "no", "dir"+e), t)
			what = append(what, "PackFile full"+e)
		}
		c.Count("file_calls", 1)
	}
	if l := openFiles(os.Getpid(), dir); len(l) > 0 {
		c.Failf("files are still open: %q after %q", l, what)
	}
	if l := openFiles(os.Getpid(), "/dev/full"); len(l) > 0 {
		c.Failf("%d descriptors of failed writes are still open after %q", len(l), what)
	}
	after := list()
	for _, n := range strings.Fields(after) {
		if !strings.Contains(" "+before+" ", " "+n+" ") && !strings.HasPrefix(n, "full") {
			c.Failf("a file %q is left behind after %q", n, what)
		}
	}
	cwd1, _ := os.ReadDir(".")
	if len(cwd1) > len(cwd0)+4 {
		c.Failf("files are left behind in the working directory")
	}
	c.Shape("files", what, s.Ext, len(s.Bytes))
}

var _ inf.Pack
var _ io.Writer

// c30Lang does the same to the other libraries.
func c30Lang(c *C, lang string) {
	d := startDriver(lang)
	pid := d.cmd.Process.Pid
	dir := c.Dir()
	m := genIpdb(c, ipdbOpt{n: 60})
	b := m.Encode(c)
	good := filepath.Join(dir, "good.ipdb")
	bad := filepath.Join(dir, "bad.ipdb")
	if os.WriteFile(good, b, 0o644) != nil || os.WriteFile(bad, b[:len(b)-1], 0o644) != nil {
		harness("cannot write")
	}
	d.ask(c, []string{"F " + hx([]byte(bad)), "F " + hx([]byte(filepath.Join(dir, "missing.ipdb"))), "F " + hx([]byte(good))})
	for i := 0; i < 4; i++ {
		out := d.ask(c, []string{"F " + hx([]byte(bad)), "F " + hx([]byte(good))})
		if a := d.decode(c, "open", out[1]); !a.ok {
			c.Failf("the %s library refuses a well-formed file: %s", lang, a.err)
		}
		c.Count(lang+"_opens", 2)
	}
	if l := openFiles(pid, dir); len(l) > 0 {
		c.Failf("the %s library leaves the files it has read open: %q", lang, l)
	}
	mem := func() int64 {
		if lang == "java" {
			var n int64
			fmt.Sscanf(d.ask(c, []string{"M"})[0], "K %d", &n)
			if n == 0 {
				harness("no memory reading")
			}
			return n
		}
		raw, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
		if err != nil {
			harness("%v", err)
		}
		f := strings.Fields(string(raw))
		var n int64
		fmt.Sscan(f[1], &n)
		return n * int64(os.Getpagesize())
	}
	n := 40000
	ask := func() {
		for _, w := range []int{4, 16} {
			out := d.ask(c, []string{fmt.Sprintf("L %d %d %d", n, c.R.Uint64()>>2|1, w)})
			if a := d.decode(c, "queries", out[0]); !a.ok {
				harness("%s driver: %s", lang, out[0])
			}
			c.Count("lang_queries", n)
		}
	}
	fresh := lang == "java" && c.Idx%10 == 4
	opens := func(k int) {
		for i := 0; i < k; i++ {
			x := b
			if fresh {
				x = freshDb(c, ".ipdb")
			}
			if i%2 == 1 {
				x = b[:len(b)-1-i]
			}
			d.ask(c, []string{"O " + hx(x), "V"})
			if fresh && i%2 == 0 {
				d.ask(c, []string{fmt.Sprintf("L %d %d %d", 3000, c.R.Uint64()>>2|1, 4)})
				c.Count("fresh_java", 1)
			}
		}
		d.ask(c, []string{"O " + hx(b)})
	}
	ask()
	before := mem()
	ask()
	after := mem()
	c.Count("heap_readings", 2)
	limit := int64(1 << 20)
	if grown := after - before; grown > limit+int64(8*len(b)) {
		c.Failf("%d further queries of a database of %d bytes left %d KB more memory in use in the %s library", 2*n, len(b), grown>>10, lang)
	} else if grown>>10 > c.counters["max_"+lang+"_growth_kb"] {
		c.counters["max_"+lang+"_growth_kb"] = grown >> 10
	}
	opens(20)
	before = mem()
	opens(60)
	after = mem()
	c.Count("heap_readings", 2)
	limit += int64(4 * len(b))
	if fresh {
		limit = slack / 3
	}
	if grown := after - before; grown > limit {
		c.Failf("opening a database of %d bytes 60 more times left %d KB more memory in use in the %s library", len(b), grown>>10, lang)
	} else if grown>>10 > c.counters["max_"+lang+"_open_growth_kb"] {
		c.counters["max_"+lang+"_open_growth_kb"] = grown >> 10
	}
	c.Shape(lang, string(b))
}
