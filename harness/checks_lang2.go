package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	register(&Check{ID: "C31", External: true, Quick: 300, Thorough: 10000, Workers: 4,
		Rule: "a case opens one ipdb file in the Java library and lets up to 16 threads ask up to 60 addresses of it in different orders for up to 40 rounds, some editing what they get and some opening another database meanwhile; all distinct answers any thread got for an address are compared with the Go library's single answer; distinct by database and threads",
		Mins: map[string]int64{"answers_compared": 5000, "asked": 1000000, "overlapping_rounds": 5000},
		Case: caseC31})
	register(&Check{ID: "C33", External: true, Quick: 2500, Thorough: 60000, Workers: 6,
		Rule: "a case is one well-formed ipdb or awdb file, cut at every length (Go: all of up to 1500 cuts; Rust and Java: at the section boundaries and at random) or, for ipdb, followed by additional bytes, then opened and dumped from bytes and from disk; also files that are missing, directories or of other kinds; distinct by file",
		Mins: map[string]int64{"go_cuts": 500000, "go_dump_cuts": 500000, "rust_cuts": 5000, "java_cuts": 5000, "appended": 2000, "file_cuts": 1000, "unreadable": 5000},
		Case: caseC33})
	register(&Check{ID: "C35", External: true, Quick: 1500, Thorough: 40000, Workers: 6,
		Rule: "a case is one ipdb file (well-formed or corrupted) asked for up to eight addresses, well-formed and odd, with the built Rust query command, also with files that do not exist and with arguments missing; what it prints is compared with the Go library's answer; distinct by file",
		Mins: map[string]int64{"answers_printed": 3000, "errors_printed": 1500, "odd_addresses": 1000, "files_refused": 300, "arguments_missing": 200},
		Case: caseC35})
}

func goLine(info *inf.IpInfo, err error) string {
	if err != nil {
		return "E"
	}
	f := []string{info.Country, info.Province, info.City, info.District, info.Isp, info.Asn, info.Continent, info.Line}
	for i := range f {
		f[i] = hx([]byte(f[i]))
	}
	return "I " + strings.Join(f, ",")
}

func caseC31(c *C) {
	d := startDriver("java")
	m := genIpdb(c, ipdbOpt{n: pick(c, []int{2, 20, 100})})
	b := m.Encode(c)
	o := genIpdb(c, ipdbOpt{n: 10}).Encode(c)
	db := openBytes(c, ".ipdb", b)
	ps := probes(c, m.Tree, 3, 50)
	for i := 0; i < 10; i++ {
		// warmed-up records
		ps = append(ps, v4Base.or(U128{0, pick(c, warm32).Hi >> 32}))
	}
	shuffle(c, ps)
	ps = ps[:min(len(ps), 60)]
	threads, rounds := pick(c, []int{2, 4, 8, 16}), 10+c.N(30)
	var l []string
	for _, a := range ps {
		ip := []byte(u128IP(a))
		if isMapped(a) && c.P(0.5) {
			ip = v4IP(uint32(a.Lo))
		}
		l = append(l, hx(ip))
	}
	out := d.ask(c, []string{"O " + hx(b), fmt.Sprintf("T %d %d %s %s", threads, rounds, hx(o), strings.Join(l, " "))})
	if a := d.decode(c, "open", out[0]); !a.ok {
		c.Failf("the java library refuses a well-formed ipdb: %s", a.err)
	}
	d.decode(c, fmt.Sprintf("%d threads sharing a database", threads), out[1])
	p := strings.Split(out[1][2:], ";")
	if len(p) != len(ps)+1 {
		harness("java driver: %d answers for %d addresses", len(p)-1, len(ps))
	}
	var overlaps int
	fmt.Sscan(p[0], &overlaps)
	c.Count("overlapping_rounds", overlaps)
	for i, a := range ps {
		info, _, err := db.Query(u128IP(a))
		if want := goLine(info, err); p[i+1] != want {
			c.Failf("%d threads asked for %s: the answers seen are %s, expected %s", threads, u128IP(a), clip(p[i+1], 1500), want)
		}
		c.Count("answers_compared", 1)
		c.Count("asked", threads*rounds)
	}
	c.Shape(string(b), threads, rounds)
	if c.Idx < 3 {
		c.Sample(map[string]any{"threads": threads, "rounds": rounds, "addresses": len(ps), "overlapping_rounds": overlaps})
	}
}

func caseC33(c *C) {
	ext := ".ipdb"
	var b []byte
	var marks []int
	small := c.N(8) > 0
	if c.P(0.6) {
		o := ipdbOpt{}
		if small {
			o.n, o.maxRecs = 1+c.N(8), 4
		}
		d := genIpdb(c, o)
		b = d.Encode(c)
		_, nodes, _ := ipdbParts(b)
		marks = []int{4, nodes, nodes + d.nodes*8}
	} else {
		ext = ".awdb"
		o := awdbOpt{noBig: true}
		if small {
			o.n, o.maxRecs = 1+c.N(8), 4
		}
		d := genAwdb(c, o)
		b = d.Encode(c)
		m := strings.LastIndex(string(b), awdbMarker)
		marks = []int{d.nodes * d.Size / 4, d.nodes*d.Size/4 + 16, m, m + len(awdbMarker)}
	}
	cuts := map[int]bool{}
	for _, m := range append(marks, 0, len(b)) {
		for i := m - 2; i <= m+2; i++ {
			if i >= 0 && i < len(b) {
				cuts[i] = true
			}
		}
	}
	edge := len(cuts)
	if len(b) <= 1500 {
		for i := range b {
			cuts[i] = true
		}
	} else {
		for i := 0; i < 400; i++ {
			cuts[c.N(len(b))] = true
			cuts[len(b)-1-c.N(min(len(b), 400))] = true
		}
	}
	c.Detail(map[string]any{"ext": ext, "file": hx(b[:min(len(b), 20000)])})
	tryGo := func(what string, x []byte) {
		x = x[:len(x):len(x)]
		db, err := query.NewDbFromBytes(ext, x)
		if err == nil || db != nil {
			c.Failf("a %s file of %d bytes %s is opened: db=%v err=%v", ext, len(b), what, db != nil, err)
		}
		c.Count("go_cuts", 1)
		t, err := format.GetDumpFormat(ext)(x, export.ParseRule(""))
		if err == nil || t != nil {
			c.Failf("a %s file of %d bytes %s is dumped: table=%v err=%v", ext, len(b), what, t != nil, err)
		}
		c.Count("go_dump_cuts", 1)
	}
	for i := range cuts {
		tryGo(fmt.Sprintf("cut to %d bytes", i), b[:i])
	}
	var added [][]byte
	if ext == ".ipdb" {
		for k := 0; k < 4; k++ {
			n := pick(c, []int{1, 2, 4, 8, 100, len(b)})
			x := append([]byte(nil), b...)
			if n == len(b) {
				x = append(x, b...)
			} else {
				for ; n > 0; n-- {
					x = append(x, pick(c, []byte{0, '\n', 0xff, byte(c.N(256))}))
				}
			}
			added = append(added, x)
			tryGo(fmt.Sprintf("followed by %d more", len(x)-len(b)), x)
			c.Count("appended", 1)
		}
	}
	// from disk, and with the other libraries
	var sample []int
	for i := range cuts {
		sample = append(sample, i)
	}
	// map order is random: keep the case reproducible
	sortInts(sample)
	shuffle(c, sample)
	sample = sample[:min(len(sample), 12)]
	sample = append(sample, len(b)-1, max(0, len(b)-2), marks[c.N(len(marks))])
	f := filepath.Join(c.Dir(), "cut"+ext)
	for _, i := range sample[:3] {
		if err := os.WriteFile(f, b[:i], 0o644); err != nil {
			harness("%v", err)
		}
		if db, err := query.NewDb(f); err == nil || db != nil {
			c.Failf("NewDb opens a %s file of %d bytes cut to %d", ext, len(b), i)
		}
		if t, err := convert.DumpFile(f, "", nil); err == nil || t != nil {
			c.Failf("DumpFile dumps a %s file of %d bytes cut to %d", ext, len(b), i)
		}
		c.Count("file_cuts", 1)
	}
	if ext == ".ipdb" {
		for _, lang := range []string{"rust", "java"} {
			d := startDriver(lang)
			var reqs, what []string
			for _, i := range sample {
				reqs = append(reqs, "O "+hx(b[:i]))
				what = append(what, fmt.Sprintf("opening %d of %d bytes", i, len(b)))
			}
			for _, x := range added {
				reqs = append(reqs, "O "+hx(x))
				what = append(what, fmt.Sprintf("opening a file of %d bytes followed by %d more", len(b), len(x)-len(b)))
			}
			n := len(reqs)
			files := []string{filepath.Join(c.Dir(), "missing.ipdb"), c.Dir(), filepath.Join(c.Dir(), "no", "such.ipdb")}
			if lang == "java" {
				// the Java library goes by the extension as well
				for _, x := range []string{"noext", "a.mmdb", "a.ipdb.gz", "a.", "a.IPDB"} {
					p := filepath.Join(c.Dir(), x)
					if err := os.WriteFile(p, b, 0o644); err != nil {
						harness("%v", err)
					}
					files = append(files, p)
				}
				// without a dot anywhere in the path
				files = append(files, "/nosuchfile", "nosuchfile", "")
			}
			for _, p := range files {
				reqs = append(reqs, "F "+hx([]byte(p)))
				what = append(what, fmt.Sprintf("opening the file %q", strings.TrimPrefix(p, c.Dir())))
			}
			if err := os.WriteFile(f, b[:sample[0]], 0o644); err != nil {
				harness("%v", err)
			}
			reqs = append(reqs, "F "+hx([]byte(f)))
			what = append(what, "opening a truncated file")
			for i, s := range d.ask(c, reqs) {
				if a := d.decode(c, what[i], s); a.ok {
					c.Failf("%s succeeds in the %s library", what[i], lang)
				}
				if i < n {
					c.Count(lang+"_cuts", 1)
				} else {
					c.Count("unreadable", 1)
				}
			}
		}
	}
	c.Detail(nil)
	c.Shape(ext, string(b))
	if c.Idx < 3 {
		c.Sample(map[string]any{"ext": ext, "bytes": len(b), "cuts": len(cuts), "edges": edge})
	}
}

func caseC35(c *C) {
	m := genIpdb(c, ipdbOpt{n: pick(c, []int{1, 5, 40}), noCN: c.P(0.03)})
	b := m.Encode(c)
	good := true
	if c.P(0.2) {
		b = mutateIpdb(c, b, genIpdb(c, ipdbOpt{n: 3}).Encode(c))
		good = false
	}
	f := filepath.Join(c.Dir(), pick(c, []string{"a.ipdb", "x y.ipdb", "库", "db"}))
	if err := os.WriteFile(f, b, 0o644); err != nil {
		harness("%v", err)
	}
	nn, l, g := m.Tree.count()
	c.Shape(m.Ver, m.Fields, nn, l, g, good)
	tool := "rust/debug/query"
	var db *query.Db
	if good {
		db = openBytes(c, ".ipdb", b)
	}
	ps := probes(c, m.Tree, 3, 20)
	shuffle(c, ps)
	ps = ps[:min(len(ps), 5)]
	for _, a := range append(ps, randU128(c), v4Base.or(U128{0, uint64(c.R.Uint32())})) {
		for k, t := range []string{textForm(c, a), oddText(c, a)} {
			if strings.Contains(t, "\x00") || c.P(0.4) {
				continue
			}
			out, _ := runRust(c, tool, f, t)
			if !good {
				continue
			}
			info, _, err := db.QueryStr(t)
			if err != nil {
				if k == 1 {
					c.Count("odd_addresses", 1)
				}
				c.Count("errors_printed", 1)
				if strings.Contains(out, ", info: ") || !strings.Contains(out, "error") {
					c.Failf("query of %q, which the Go library refuses (%v), printed %q", t, err, clip(out, 500))
				}
				continue
			}
			c.Count("answers_printed", 1)
			want := fmt.Sprintf("query ip: %s, info: Country: %s, District: %s, Province: %s, City: %s, Asn: %s, Isp: %s, Continent: %s, Line: %s", t,
				info.Country, info.District, info.Province, info.City, info.Asn, info.Isp, info.Continent, info.Line)
			if !strings.HasSuffix(strings.TrimSuffix(out, "\n"), want) {
				c.Failf("query of %q printed %q instead of %q", t, clip(out, 600), clip(want, 600))
			}
			if k == 1 {
				c.Count("odd_addresses", 1)
			}
		}
	}
	if c.P(0.3) {
		missing := pick(c, []string{filepath.Join(c.Dir(), "missing"), c.Dir(), "", filepath.Join(f, "below")})
		out, _ := runRust(c, tool, missing, "1.2.3.4")
		c.Count("files_refused", 1)
		if strings.Contains(out, ", info: ") || !strings.Contains(out, "error") {
			c.Failf("query in %q, which is no file, printed %q", missing, clip(out, 500))
		}
	}
	if c.P(0.3) {
		args := [][]string{nil, {f}, {""}}[c.N(3)]
		out, _ := runRust(c, tool, args...)
		c.Count("arguments_missing", 1)
		if strings.Contains(out, ", info: ") || !strings.Contains(out, "Usage") {
			c.Failf("query with the arguments %q printed %q", args, clip(out, 500))
		}
	}
}

// runRust runs the command; a panic is its exit code 101.
func runRust(c *C, tool string, args ...string) (string, string) {
	o, e := runTool(c, tool, args...)
	if strings.Contains(e, "panicked at") {
		c.Failf("query %q panicked: %s", args, clip(e, 1500))
	}
	return o, e
}
