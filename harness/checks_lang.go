package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"github.com/qiniu/uip/db/query"
	"net"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/qiniu/uip/db/inf"
)

func init() {
	register(&Check{ID: "C25", External: true, Quick: 10000, Thorough: 300000,
		Rule: "a case is one well-formed ipdb file (generated, or packed by the library) opened by the Go and the Rust library; up to 100 addresses are asked in byte, text and integer form, together with unanswerable requests, and every answer compared; distinct by family, fields, node, leaf and gap counts",
		Mins: map[string]int64{"answers_compared": 100000, "errors_compared": 20000, "versions_compared": 2000, "editions": 500, "packed_databases": 300, "files_opened": 100, "odd_texts": 10000, "damaged_databases": 500, "damaged_answers": 50000, "damaged_errors": 50000},
		Case: func(c *C) { caseLang(c, "rust") }})
	register(&Check{ID: "C26", External: true, Quick: 2500, Thorough: 80000, Workers: 6,
		Rule: "a case is one well-formed ipdb file (generated, or packed by the library) opened by the Go and the Java library; up to 100 addresses are asked in byte and text form, repeatedly and after the caller edited earlier results, together with unanswerable requests, and every answer compared; distinct by family, fields, node, leaf and gap counts",
		Mins: map[string]int64{"answers_compared": 100000, "errors_compared": 20000, "versions_compared": 2000, "editions": 150, "packed_databases": 250, "files_opened": 100, "edits": 20000, "odd_texts": 10000, "damaged_databases": 200, "damaged_answers": 20000, "damaged_errors": 20000},
		Case: func(c *C) { caseLang(c, "java") }})
	register(&Check{ID: "C27", External: true, Quick: 2500, Thorough: 100000, Workers: 6,
		Rule: "a case is 12 corrupted or hostile ipdb inputs, each opened and queried with 33 addresses by the Rust library (overflow checks on) and the Java library in supervised processes; distinct by input",
		Mins: map[string]int64{"inputs": 20000, "rust_opened": 2000, "java_opened": 2000, "rust_errors": 50000, "java_errors": 50000, "rust_answers": 5000, "java_answers": 5000},
		Case: caseC27})
}

func caseLang(c *C, lang string) {
	d := startDriver(lang)
	if lang == "java" && c.Idx%3 == 1 {
		d = startDriver("java-abroad")
		c.Count("abroad", 1)
	}
	var b []byte
	var ps []U128
	recorded := true // the file records a version string
	huge := false
	if c.P(0.15) {
		fields := genNames(c)
		n := 1 + c.N(12)
		recs := genRecs(c, fields, n, valOpt{})
		fam := 1 + c.N(3)
		_, leaves := genNets(c, fam, c.N(40), n, true)
		var err error
		t := mkTable(c, fields, recs, leaves, fam|famOf(leaves))
		t.Version.Build &= 1<<62 - 1
		b, err = packAny(c, ".ipdb", t)
		if err != nil {
			c.Failf("packing failed: %v", err)
		}
		for _, l := range leaves {
			ps = append(ps, l.Addr, l.Addr.or(hostMask(l.Depth)), l.Addr.or(randU128(c).and(hostMask(l.Depth))))
		}
		shuffle(c, ps)
		ps = append(ps[:min(len(ps), 70)], randU128(c), v4Base.or(U128{0, uint64(c.R.Uint32())}))
		recorded = t.Version.Version != ""
		c.Count("packed_databases", 1)
		c.Shape("packed", fields, len(leaves), fam)
	} else {
		m := genIpdb(c, ipdbOpt{vals: valOpt{long: true, ctl: c.P(0.5)}, noCN: c.P(0.03) && c.Idx%2400 != 77})
		huge = c.Idx%2400 == 77
		if huge {
			m.Bulk(c)
		}
		b = m.Encode(c)
		ps = probes(c, m.Tree, 3, 60)
		recorded = m.HasVer && m.Version != ""
		nn, l, g := m.Tree.count()
		c.Shape(m.Ver, m.Fields, nn, l, g)
	}
	damaged := c.P(0.2)
	var db *query.Db
	if damaged {
		b = damageBody(c, b)
		c.Detail(map[string]any{"damaged_file": hx(b[:min(len(b), 20000)])})
		c.Count("damaged_databases", 1)
		var err error
		if db, err = query.NewDbFromBytes(".ipdb", b); err != nil {
			c.Failf("an ipdb with damage in its tree or records is refused: %v", err)
		}
	} else {
		db = openBytes(c, ".ipdb", b)
	}
	open := "O " + hx(b)
	if huge || c.P(0.1) {
		f := filepath.Join(c.Dir(), "db.v1.ipdb")
		if err := os.WriteFile(f, b, 0o644); err != nil {
			harness("%v", err)
		}
		open = "F " + hx([]byte(f))
		c.Count("files_opened", 1)
	}
	type q struct {
		what string
		ask  func() (*inf.IpInfo, int, error)
	}
	var qs []q
	reqs := []string{open, "V"}
	add := func(req, what string, ask func() (*inf.IpInfo, int, error)) {
		if lang == "java" && c.P(0.3) && (req[0] == 'Q' || req[0] == 'S') {
			req = string(req[0]+32) + req[1:]
			c.Count("edits", 1)
		}
		reqs = append(reqs, req)
		qs = append(qs, q{what, ask})
	}
	for _, a := range ps {
		ip := u128IP(a)
		txt := textForm(c, a)
		for rep := 1 + c.N(2); rep > 0; rep-- {
			add("Q "+hx(ip), fmt.Sprintf("query(%s as 16 bytes)", ip), func() (*inf.IpInfo, int, error) { return db.Query(ip) })
		}
		add("S "+hx([]byte(txt)), fmt.Sprintf("query(%q)", txt), func() (*inf.IpInfo, int, error) { return db.QueryStr(txt) })
		if isMapped(a) {
			v := v4IP(uint32(a.Lo))
			add("Q "+hx(v), fmt.Sprintf("query(%s as 4 bytes)", v), func() (*inf.IpInfo, int, error) { return db.Query(v) })
			if lang == "rust" {
				add(fmt.Sprintf("U %d", uint32(a.Lo)), fmt.Sprintf("query_u32(%#x)", uint32(a.Lo)), func() (*inf.IpInfo, int, error) { return db.QueryU32(uint32(a.Lo)) })
			}
		}
	}
	for k := 0; k < 6; k++ {
		n := pick(c, []int{0, 1, 3, 5, 8, 15, 17, 32})
		x := make([]byte, n)
		for i := range x {
			x[i] = byte(c.N(256))
		}
		add("Q "+hx(x), fmt.Sprintf("query(%d bytes)", n), func() (*inf.IpInfo, int, error) { return db.Query(x) })
		t := pick(c, []string{"", "x", "1.2.3.4.5", "256.1.1.1", "1.2.3.999", "a.b.c.d", ":", ":::", "1::2::3", "12345::", "g::1", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::1.2.3", "::1.2.3.4.5", "1.2.3.4:80", "[::1]", "localhost", "1.2.3.4/8", "中国", "1.2.3.x", "::gggg", "........", "-1.2.3.4"})
		add("S "+hx([]byte(t)), fmt.Sprintf("query(%q)", t), func() (*inf.IpInfo, int, error) { return db.QueryStr(t) })
	}
	for k := 0; k < 12; k++ {
		t := oddText(c, pick(c, ps))
		// Java takes IPv4 shorthands, leading zeros and zones as well: texts
		// that only have such characters need not be refused by it
		if lang == "java" && net.ParseIP(t) == nil && strings.Trim(t, "0123456789abcdefABCDEF:.") == "" || lang == "java" && strings.Contains(t, "%") {
			continue
		}
		add("S "+hx([]byte(t)), fmt.Sprintf("query(%q)", t), func() (*inf.IpInfo, int, error) { return db.QueryStr(t) })
		c.Count("odd_texts", 1)
	}
	reqs = append(reqs, "V")
	out := d.ask(c, reqs)
	if again := out[len(out)-1]; again != out[1] {
		c.Failf("version: first %s, then %s", out[1], again)
	}
	if a := d.decode(c, "open", out[0]); !a.ok {
		c.Failf("the %s library refuses an ipdb of %d bytes that the Go library opens: %s", lang, len(b), a.err)
	}
	gv := db.VersionInfo()
	v := d.decode(c, "version", out[1])
	if recorded {
		if want := versionLine(gv, gv.Version); v.raw != want {
			c.Failf("version: the Go library states %+v (%s), the %s library %s", *gv, want, lang, v.raw)
		}
	} else {
		// the libraries derive different names from the build date
		var ty, cnt int
		var build int64
		fmt.Sscanf(v.raw, "V %d %d %d", &ty, &cnt, &build)
		if ty != int(gv.IpType) || cnt != int(gv.Count) || build != gv.Build {
			c.Failf("version: the Go library states %+v, the %s library %s", *gv, lang, v.raw)
		}
	}
	c.Count("versions_compared", 1)
	for i, q := range qs {
		a := d.decode(c, q.what, out[i+2])
		info, _, err := q.ask()
		if (err == nil) != a.ok {
			c.Failf("%s: the Go library returns %v, %v, the %s library %+v", q.what, info, err, lang, a)
		}
		if err != nil {
			c.Count("errors_compared", 1)
			if damaged {
				c.Count("damaged_errors", 1)
			}
			continue
		}
		if *info != a.info && !(damaged && !utf8.ValidString(fmt.Sprint(*info))) {
			c.Failf("%s: the Go library returns %+v, the %s library %+v", q.what, *info, lang, a.info)
		}
		if damaged {
			c.Count("damaged_answers", 1)
		}
		c.Count("answers_compared", 1)
	}
	if c.P(0.15) {
		langEditions(c, d, lang)
	}
	if c.Idx < 3 {
		c.Sample(map[string]any{"bytes": len(b), "requests": len(reqs), "version": gv.Version})
	}
}

// langEditions opens databases of one size and shape one after another, from
// one path or from memory.
func langEditions(c *C, d *driver, lang string) {
	seed := c.R.Uint64()
	f := filepath.Join(c.Dir(), "edition.ipdb")
	file := c.P(0.5)
	for n := 2 + c.N(2); n > 0; n-- {
		cc := c.fork(seed, n%2 == 1)
		m := genIpdb(cc, ipdbOpt{n: 1 + cc.N(30)})
		b := m.Encode(cc)
		db := openBytes(c, ".ipdb", b)
		reqs := []string{"O " + hx(b)}
		if file {
			if err := os.WriteFile(f, b, 0o644); err != nil {
				harness("%v", err)
			}
			reqs[0] = "F " + hx([]byte(f))
		}
		ps := probes(c, m.Tree, 3, 12)
		for _, a := range ps {
			reqs = append(reqs, "Q "+hx(u128IP(a)))
		}
		for i, o := range d.ask(c, reqs) {
			if i == 0 {
				if a := d.decode(c, "open", o); !a.ok {
					c.Failf("the %s library refuses an ipdb of %d bytes that the Go library opens: %s", lang, len(b), a.err)
				}
				continue
			}
			what := fmt.Sprintf("query(%s) of a newer database of the same size", u128IP(ps[i-1]))
			a := d.decode(c, what, o)
			info, _, err := db.Query(u128IP(ps[i-1]))
			if (err == nil) != a.ok || a.ok && *info != a.info {
				c.Failf("%s: the Go library returns %v, %v, the %s library %+v", what, info, err, lang, a)
			}
		}
	}
	os.Remove(f)
	c.Count("editions", 1)
}

// damageBody changes nodes and records of an ipdb, not its metadata.
func damageBody(c *C, b []byte) []byte {
	b = append([]byte(nil), b...)
	meta, start, end := ipdbParts(b)
	if meta == nil {
		harness("no metadata")
	}
	n := int(meta["node_count"].(float64))
	var recs []int
	for i := 0; i < 2*n; i++ {
		if v := int(binary.BigEndian.Uint32(b[start+4*i:])); v > n {
			recs = append(recs, start+8*n+v-n)
		}
	}
	for k := 1 + c.N(6); k > 0; k-- {
		kind := c.N(6)
		if len(recs) == 0 {
			kind = 5
		}
		if kind == 5 {
			binary.BigEndian.PutUint32(b[start+4*c.N(2*n):], oddInt(c, n))
			continue
		}
		o := pick(c, recs)
		l := int(binary.BigEndian.Uint16(b[o:]))
		if o+2+l > end {
			l = 0 // its length has been changed before
		}
		switch text := b[o+2 : o+2+l]; kind {
		case 0, 1:
			// a value less
			if i := bytes.IndexByte(text, '\t'); i >= 0 && c.P(0.5) {
				text[i] = '_'
			} else if i := bytes.LastIndexByte(text, '\t'); i >= 0 {
				text[i] = '_'
			}
		case 2:
			// a value more
			if len(text) > 0 {
				text[c.N(len(text))] = '\t'
			}
		case 3:
			binary.BigEndian.PutUint16(b[o:], uint16(pick(c, []int{0, 1, l - 1, l + 1, l / 2, l + c.N(50), 65535, end - o - 2, end - o - 1})))
		default:
			byteNoise(c, b, o, o+2+l)
		}
	}
	return b
}

func caseC27(c *C) {
	small := ipdbOpt{n: 1 + c.N(20), maxRecs: 6}
	b1 := genIpdb(c, small).Encode(c)
	b2 := genIpdb(c, small).Encode(c)
	var inputs [][]byte
	for k := 0; k < 12; k++ {
		var b []byte
		switch c.N(12) {
		case 0, 1:
			b = bombIpdb(c)
		case 2:
			b = tinyFile(c)
		default:
			b = mutateIpdb(c, b1, b2)
			if c.P(0.3) {
				b = mutateIpdb(c, b, b2)
			}
		}
		inputs = append(inputs, b)
		c.Shape(string(b))
		c.Count("inputs", 1)
	}
	addrs := hostileAddrs(c)
	for _, lang := range []string{"rust", "java"} {
		d := startDriver(lang)
		for _, b := range inputs {
			c.Detail(map[string]any{"library": lang, "input": hx(b[:min(len(b), 20000)])})
			out := d.ask(c, []string{"O " + hx(b)})
			if a := d.decode(c, fmt.Sprintf("opening %d bytes", len(b)), out[0]); !a.ok {
				c.Count(lang+"_refused", 1)
				continue
			}
			c.Count(lang+"_opened", 1)
			reqs := []string{"V"}
			for _, a := range addrs {
				reqs = append(reqs, "Q "+hx(u128IP(a)))
			}
			for i, s := range d.ask(c, reqs) {
				what := "version"
				if i > 0 {
					what = "query of " + u128IP(addrs[i-1]).String()
				}
				if a := d.decode(c, what, s); !a.ok {
					c.Count(lang+"_errors", 1)
				} else {
					c.Count(lang+"_answers", 1)
				}
			}
		}
		c.Detail(nil)
	}
	if c.Idx < 3 {
		c.Sample(map[string]any{"inputs": len(inputs), "first_bytes": len(inputs[0]), "addresses": len(addrs)})
	}
}
