package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/format/awdb"
	_ "github.com/qiniu/uip/db/format/ipdb"
	_ "github.com/qiniu/uip/db/format/memip"
	_ "github.com/qiniu/uip/db/format/plain"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

// Model is a database the reference can answer.
type Model interface {
	Query(a U128) Answer
	Encode(c *C) []byte
}

func openBytes(c *C, ext string, b []byte) *query.Db {
	db, err := query.NewDbFromBytes(ext, b)
	if err != nil {
		c.Failf("a well-formed %s database of %d bytes is refused: %v", ext, len(b), err)
	}
	return db
}

// sameAnswer compares one real answer with the reference.
func sameAnswer(c *C, where string, want Answer, info *inf.IpInfo, mask int, err error) {
	if want.Err {
		if err == nil {
			c.Failf("%s: expected an error, got %+v /%d", where, info, mask)
		}
		if info != nil {
			c.Failf("%s: a result came with the error %v", where, err)
		}
		c.Count("gap_answers", 1)
		return
	}
	if err != nil {
		c.Failf("%s: expected %+v /%d, got error %v", where, want.Info, want.Mask, err)
	}
	if info == nil {
		c.Failf("%s: neither result nor error", where)
	}
	if *info != want.Info {
		c.Failf("%s: expected %+v, got %+v", where, want.Info, *info)
	}
	if mask != want.Mask {
		c.Failf("%s: expected prefix length %d, got %d", where, want.Mask, mask)
	}
	c.Count("answers_compared", 1)
}

// textForms writes an address in one of the textual forms Go accepts.
func textForm(c *C, a U128) string {
	if isMapped(a) {
		v := v4IP(uint32(a.Lo))
		switch c.N(4) {
		case 0:
			return fmt.Sprintf("::ffff:%x:%x", uint16(a.Lo>>16), uint16(a.Lo))
		case 1:
			return "::FFFF:" + v.String()
		default:
			return v.String()
		}
	}
	ip := u128IP(a)
	switch c.N(4) {
	case 0:
		var p []string
		for i := 0; i < 16; i += 2 {
			p = append(p, fmt.Sprintf("%04X", int(ip[i])<<8|int(ip[i+1])))
		}
		return strings.Join(p, ":")
	case 1:
		var p []string
		for i := 0; i < 12; i += 2 {
			p = append(p, fmt.Sprintf("%x", int(ip[i])<<8|int(ip[i+1])))
		}
		return strings.Join(p, ":") + ":" + net.IP(ip[12:16]).String()
	default:
		return ip.String()
	}
}

// oddText is an address with something wrong (or at least unusual) about it.
func oddText(c *C, a U128) string {
	t := textForm(c, a)
	k := c.N(len(t) + 1)
	switch c.N(8) {
	case 0:
		return pick(c, []string{" ", "\t", "\n", "\r\n", "\x00", "\u00a0", "\u3000", "\v"}) + t
	case 1:
		return t + pick(c, []string{" ", "\t", "\n", "\r\n", "\x00", "\u00a0", "\u3000", ".", ":", "/32", "/0", ":80", "%eth0", ",", ";", "%"})
	case 2:
		return pick(c, []string{"[" + t + "]", "\"" + t + "\"", "(" + t + ")", "http://" + t, t + " " + t, t + "," + t, t + t, "ip" + t})
	case 3: // one character less
		if k < len(t) {
			return t[:k] + t[k+1:]
		}
		return t[:len(t)-1]
	case 4: // one more
		return t[:k] + pick(c, []string{"0", "1", "f", "F", ":", ".", "::", "..", " ", "g", "-", "+", "x", "%", "中", "０"}) + t[k:]
	case 5: // another one
		if k == len(t) {
			k--
		}
		return t[:k] + pick(c, []string{"0", "1", "9", "a", ":", ".", " ", "g", "-", "٣"}) + t[k+1:]
	case 6: // cut
		return t[:k]
	default:
		return strings.NewReplacer(".", pick(c, []string{".0", ". ", ",", ".0x", "。"})).Replace(t)
	}
}

// askAll queries one address through every entry point.
func askAll(c *C, db *query.Db, m Model, a U128) {
	want := m.Query(a)
	info, mask, err := db.Query(u128IP(a))
	sameAnswer(c, fmt.Sprintf("Query(%s)", u128IP(a)), want, info, mask, err)
	txt := textForm(c, a)
	info, mask, err = db.QueryStr(txt)
	sameAnswer(c, fmt.Sprintf("QueryStr(%q)", txt), want, info, mask, err)
	if isMapped(a) {
		info, mask, err = db.Query(v4IP(uint32(a.Lo)))
		sameAnswer(c, fmt.Sprintf("Query(4 bytes %s)", v4IP(uint32(a.Lo))), want, info, mask, err)
		info, mask, err = db.QueryU32(uint32(a.Lo))
		sameAnswer(c, fmt.Sprintf("QueryU32(%#x)", uint32(a.Lo)), want, info, mask, err)
	}
	if !want.Err {
		c.Count(fmt.Sprintf("mask_%s", maskClass(a, want.Mask)), 1)
	}
}

func maskClass(a U128, m int) string {
	if isMapped(a) {
		switch {
		case m == 0:
			return "v4_0"
		case m < 12:
			return "v4_lt12"
		case m <= 14:
			return "v4_12to14"
		case m < 32:
			return "v4_gt14"
		default:
			return "v4_32"
		}
	}
	if m >= 64 {
		return "v6_ge64"
	}
	return "v6_lt64"
}

func openMaybeFile(c *C, ext string, b []byte) *query.Db {
	if c.P(0.1) {
		f := filepath.Join(c.Dir(), "db.v1"+ext)
		if err := os.WriteFile(f, b, 0o644); err != nil {
			harness("%v", err)
		}
		db, err := query.NewDb(f)
		if err != nil {
			c.Failf("NewDb refuses a well-formed %s file: %v", ext, err)
		}
		return db
	}
	return openBytes(c, ext, b)
}

func init() {
	register(&Check{ID: "C01", Quick: 20000, Thorough: 600000,
		Rule: "a case is one generated well-formed ipdb file (family, trie, field list, record contents, encoding) and up to 150 addresses, every one asked through Query (16 and 4 bytes), QueryStr and QueryU32; distinct by family, field list, node count and gap/leaf counts",
		Mins: map[string]int64{"answers_compared": 50000, "gap_answers": 5000, "mask_v4_12to14": 500, "mask_v4_gt14": 500, "mask_v6_ge64": 500, "huge_files": 2},
		Case: func(c *C) {
			d := genIpdb(c, ipdbOpt{vals: valOpt{long: true, ctl: true}})
			if c.Idx%7000 == 3000 {
				d.Bulk(c)
			}
			b := d.Encode(c)
			db := openMaybeFile(c, ".ipdb", b)
			ps := probes(c, d.Tree, 3, 120)
			for _, a := range ps {
				askAll(c, db, d, a)
			}
			n, l, g := d.Tree.count()
			c.Shape(d.Ver, d.Fields, n, l, g)
			c.Count(fmt.Sprintf("ver%d_databases", d.Ver), 1)
			if c.Idx < 3 {
				c.Sample(map[string]any{"ver": d.Ver, "fields": d.Fields, "nodes": n, "leaves": l, "gaps": g, "bytes": len(b), "addresses": len(ps)})
			}
		}})

	register(&Check{ID: "C02", Quick: 15000, Thorough: 500000,
		Rule: "a case is one generated well-formed awdb file (24/28/32 bit nodes, IPv4 or IPv6 tree, string length classes, pointer classes) and up to 150 addresses asked through every entry point; distinct by tree width, node size, node/leaf/gap counts and record keys",
		Mins: map[string]int64{"answers_compared": 50000, "gap_answers": 3000, "size24": 50, "size28": 50, "size32": 50, "v6_trees": 50, "huge_files": 4},
		Case: func(c *C) {
			o := awdbOpt{vals: valOpt{long: true}}
			switch {
			case c.Idx%3000 == 1499:
				o.huge = 17 << 20 // past the reach of 24 bits
			case c.Idx%30000 == 4999:
				o.huge = 150 << 20 // past the reach of 27 bits and of three byte pointers
			}
			d := genAwdb(c, o)
			if o.huge > 128<<20 {
				d.Size = 28 // all bits of both records
			}
			b := d.Encode(c)
			if o.huge > 0 {
				c.Count("huge_files", 1)
			}
			db := openMaybeFile(c, ".awdb", b)
			ps := awProbes(c, d, 120)
			for _, a := range ps {
				askAll(c, db, d, a)
			}
			if d.V == 4 {
				// the other family
				info, mask, err := db.Query(u128IP(U128{0x2001 << 48, 1}))
				sameAnswer(c, "IPv6 query of an IPv4 file", Answer{Err: true}, info, mask, err)
			} else {
				c.Count("v6_trees", 1)
			}
			c.Count(fmt.Sprintf("size%d", d.Size), 1)
			n, l, g := d.Tree.count()
			c.Shape(d.V, d.Size, n, l, g, len(d.Recs), len(b))
			if c.Idx < 3 {
				c.Sample(map[string]any{"tree": d.V, "bits": d.Size, "records": len(d.Recs), "nodes": n, "bytes": len(b)})
			}
		}})

	register(&Check{ID: "C03", Quick: 4000, Thorough: 100000,
		Rule: "a case interleaves up to 400 operations (queries, repeats, warm-up fills with arbitrary lists, version lookups, in-place edits of returned results) over one to three open databases and compares every answer with the reference; distinct by operation sequence",
		Mins: map[string]int64{"answers_compared": 40000, "edits": 10000, "warmups": 2000, "editions": 500, "files_reopened": 1000},
		Case: caseC03})

	register(&Check{ID: "C04", Race: true, Quick: 120, Thorough: 3000, Workers: 4, PerProc: 2, MemMB: 6000,
		Rule: "a case runs 8-16 goroutines under the race detector that query two shared databases, read versions and open, dump and pack others, and compares every result with the one computed alone beforehand; distinct by databases and goroutine mix",
		Mins: map[string]int64{"answers_compared": 20000, "concurrent_dumps": 50, "concurrent_packs": 50, "concurrent_opens": 50, "cold_starts": 30},
		Case: caseC04})

	register(&Check{ID: "C05", Quick: 15000, Thorough: 300000,
		Rule: "a case is one database of any kind and a list of unanswerable requests (bad text, byte lengths 0..40 except 4 and 16, wrong family, missing language, unreadable or unregistered files); distinct by kind of database and request",
		Mins: map[string]int64{"errors_seen": 20000},
		Case: caseC05})

	register(&Check{ID: "C28", Quick: 30000, Thorough: 700000,
		Rule: "a case is one database in which the probe addresses resolve to a chosen country, another one or nothing; distinct by the answers at the four probes and the families",
		Mins: map[string]int64{"v4_ok": 50, "v6_ok": 50, "v4_bad": 100, "v6_bad": 100},
		Case: caseC28})
}

type anyDb struct {
	ext   string
	m     Model
	b     []byte
	probe []U128
	db    *query.Db
}

func genAny(c *C, limit int) *anyDb {
	if c.P(0.6) {
		d := genIpdb(c, ipdbOpt{vals: valOpt{ctl: c.P(0.5)}})
		return &anyDb{ext: ".ipdb", m: d, b: d.Encode(c), probe: probes(c, d.Tree, 3, limit)}
	}
	d := genAwdb(c, awdbOpt{noBig: true})
	return &anyDb{ext: ".awdb", m: d, b: d.Encode(c), probe: awProbes(c, d, limit)}
}

func caseC03(c *C) {
	dbs := make([]*anyDb, 1+c.N(3))
	for i := range dbs {
		dbs[i] = genAny(c, 60)
		if i == 1 && c.P(0.5) {
			// two editions of the same size and shape
			seed := c.R.Uint64()
			dbs[0], dbs[1] = genAny(c.fork(seed, false), 60), genAny(c.fork(seed, true), 60)
			if len(dbs[0].b) == len(dbs[1].b) && !bytes.Equal(dbs[0].b, dbs[1].b) {
				c.Count("editions", 1)
			}
			dbs[0].db = openBytes(c, dbs[0].ext, dbs[0].b)
		}
		dbs[i].db = openBytes(c, dbs[i].ext, dbs[i].b)
		// some warm-up addresses among the probes
		for k := 0; k < 10; k++ {
			dbs[i].probe = append(dbs[i].probe, v4Base.or(U128{0, pick(c, warm32).Hi >> 32}))
		}
	}
	ver := make([]string, len(dbs))
	for i, d := range dbs {
		ver[i] = verEdited(d.db.VersionInfo())
	}
	var ops strings.Builder
	steps := 100 + c.N(300)
	for s := 0; s < steps; s++ {
		k := c.N(len(dbs))
		d := dbs[k]
		a := pick(c, d.probe)
		switch op := c.N(10); {
		case op < 6:
			ops.WriteByte('q')
			ip := u128IP(a)
			if isMapped(a) && c.P(0.5) {
				ip = v4IP(uint32(a.Lo))
			}
			var info *inf.IpInfo
			var mask int
			var err error
			if c.P(0.2) {
				info, mask, err = d.db.QueryStr(ip.String())
			} else if isMapped(a) && c.P(0.3) {
				info, mask, err = d.db.QueryU32(uint32(a.Lo))
			} else {
				info, mask, err = d.db.Query(ip)
			}
			sameAnswer(c, fmt.Sprintf("step %d (%s) Query(%s)", s, d.ext, ip), d.m.Query(a), info, mask, err)
			if info != nil && c.P(0.7) {
				*info = inf.IpInfo{Country: "edited", Province: "edited", City: "edited", Isp: "edited", Asn: "edited", Continent: "edited", Line: "edited", District: "edited"}
				c.Count("edits", 1)
			}
			// the address bytes belong to the caller as well
			if ipU128(ip) != a {
				c.Failf("Query changed the caller's address from %s to %s", u128IP(a), ip)
			}
		case op < 8:
			ops.WriteByte('w')
			var l []string
			for n := c.N(8); n > 0; n-- {
				switch c.N(8) {
				case 0:
					l = append(l, "")
				case 1:
					l = append(l, "bogus")
				case 2:
					l = append(l, pick(c, warmup))
				default:
					l = append(l, textForm(c, pick(c, d.probe)))
				}
			}
			if c.P(0.5) {
				l = append(l, textForm(c, a))
			}
			query.GetIntern(d.db).BuildCache(l)
			c.Count("warmups", 1)
		case op < 9:
			ops.WriteByte('v')
			v := d.db.VersionInfo()
			if s := verEdited(v); s != ver[k] {
				c.Failf("version information changed from %s to %s", ver[k], s)
			}
			c.Count("versions_edited", 1)
		default:
			if c.P(0.3) {
				ops.WriteByte('f')
				caseEditions(c)
				break
			}
			ops.WriteByte('o')
			// opening another database changes nothing here
			o := genAny(c, 10)
			o.db = openBytes(c, o.ext, o.b)
			for _, p := range o.probe {
				info, mask, err := o.db.Query(u128IP(p))
				sameAnswer(c, "other database", o.m.Query(p), info, mask, err)
			}
		}
	}
	c.Shape(ops.String())
	if c.Idx < 3 {
		c.Sample(map[string]any{"databases": len(dbs), "operations": ops.String()})
	}
}

// caseEditions opens a file again and again as its contents change.
func caseEditions(c *C) {
	seed := c.R.Uint64()
	var file string
	var l []*anyDb
	for n := 2 + c.N(2); n > 0; n-- {
		d := genAny(c.fork(seed, n%2 == 1), 12)
		if c.P(0.2) {
			d = genAny(c, 12)
		}
		if file == "" || filepath.Ext(file) != d.ext {
			file = filepath.Join(c.Dir(), "edition"+d.ext)
		}
		if err := os.WriteFile(file, d.b, 0o644); err != nil {
			harness("%v", err)
		}
		var err error
		if d.db, err = query.NewDb(file); err != nil {
			c.Failf("NewDb refuses a well-formed %s file: %v", d.ext, err)
		}
		l = append(l, d)
		for i, d := range l {
			for _, p := range d.probe {
				info, mask, err := d.db.Query(u128IP(p))
				sameAnswer(c, fmt.Sprintf("database %d of %d opened from one path at different times, Query(%s)", i+1, len(l), u128IP(p)), d.m.Query(p), info, mask, err)
			}
		}
	}
	os.Remove(file)
	c.Count("files_reopened", 1)
}

// verEdited gives the version as text and edits it.
func verEdited(v *inf.VersionInfo) string {
	s := fmt.Sprintf("%d|%d|%d|%s|%q|%q", v.IpType, v.Count, v.Build, v.Version, v.Languages, v.ExtraInfo)
	// version information belongs to the caller
	v.Version, v.IpType, v.Count, v.Build = "edited", 7, 9, 9
	for _, l := range [][]string{v.Languages[:cap(v.Languages)], v.ExtraInfo[:cap(v.ExtraInfo)]} {
		for i := range l {
			l[i] = "edited"
		}
	}
	v.ExtraInfo = append(v.ExtraInfo, "added")
	return s
}

func tableText(d *inf.IpData) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q\n", d.Fields)
	for _, r := range d.Ips {
		fmt.Fprintf(&b, "%s %q\n", r.Cidr, r.FieldValues)
	}
	return b.String()
}

var coldStart sync.Once

func caseC04(c *C) {
	type job struct {
		name string
		run  func() string
		want string
	}
	var shared []*anyDb
	for i := 0; i < 2; i++ {
		d := genAny(c, 150)
		shared = append(shared, d)
	}
	// one of each kind
	ip := genIpdb(c, ipdbOpt{ver: 3})
	shared = append(shared, &anyDb{ext: ".ipdb", m: ip, b: ip.Encode(c), probe: probes(c, ip.Tree, 3, 150)})
	aw := genAwdb(c, awdbOpt{noBig: true})
	shared = append(shared, &anyDb{ext: ".awdb", m: aw, b: aw.Encode(c), probe: awProbes(c, aw, 150)})
	// sources of the background work: files that answer everything
	full := genIpdb(c, ipdbOpt{gaps: 1, n: 20, fields: []string{"country_name", "region_name", "city_name", "isp_domain", "asn", "continent_code"}})
	fullB := full.Encode(c)
	fullA := genAwdb(c, awdbOpt{gaps: 1, n: 10, noBig: true})
	fullAB := fullA.Encode(c)
	rule := pick(c, []string{defaultRule, "", "country,isp"})
	dump := func(ext string, b []byte) (string, *inf.IpData) {
		d, err := format.GetDumpFormat(ext)(b, export.ParseRule(rule))
		if err != nil {
			return "error " + err.Error(), nil
		}
		return tableText(d), d
	}
	ops := func(d *inf.IpData) string {
		operate.ReplaceShortage(d)
		operate.TrimAsnIspDup(d)
		operate.MergeNearNetwork(d)
		operate.AttachDistrict(d)
		return tableText(d)
	}
	pack := func(ext string, d *inf.IpData) string {
		b, err := convert.PackBytes(ext, d)
		if err != nil {
			return "error " + err.Error()
		}
		return maskTime(ext, b)
	}
	var table *inf.IpData
	jobs := []*job{
		{name: "dump", run: func() string { s, _ := dump(".ipdb", fullB); return s }},
		{name: "dump", run: func() string { s, _ := dump(".awdb", fullAB); return s }},
		{name: "dump", run: func() string { _, d := dump(".ipdb", fullB); return ops(d) }},
		{name: "pack", run: func() string {
			_, d := dump(".awdb", fullAB)
			if d == nil {
				return "refused"
			}
			return pack(".ipdb", d)
		}},
	}
	for _, s := range shared {
		s := s
		jobs = append(jobs, &job{name: "open", run: func() string {
			db, err := query.NewDbFromBytes(s.ext, s.b)
			if err != nil {
				return err.Error()
			}
			var b strings.Builder
			for i, p := range s.probe {
				if i > 30 {
					break
				}
				info, m, err := db.Query(u128IP(p))
				fmt.Fprintf(&b, "%+v %d %v\n", info, m, err)
			}
			return b.String() + verEdited(db.VersionInfo())
		}})
	}
	// awdb records decoded into Go types of the caller
	td := typedAwdb(c)
	tb := td.Encode(c)
	var typed []typedJob
	for _, a := range awProbes(c, td, 20) {
		if rec := -1; td.V == 6 || isMapped(a) {
			if rec, _, _ = td.lookup(a); rec >= 0 {
				t := destFor(c, td.Typed[rec], 0)
				if td.Typed[rec].kind == avMap && c.P(0.6) {
					t = structFor(c, td.Typed[rec], 0, true)
				}
				typed = append(typed, typedJob{asked(c, a), td.Typed[rec], t})
			}
		}
	}
	decodeAll := func(r *awdb.Reader) string {
		var b strings.Builder
		for _, j := range typed {
			fmt.Fprintln(&b, j.ip, j.run(r))
		}
		n := 0
		for ns := r.Networks(); n < 500 && ns.Next(); n++ {
			var x any
			if w, err := ns.Network(&x); err != nil {
				fmt.Fprintln(&b, n, err)
			} else {
				fmt.Fprintln(&b, n, w)
			}
		}
		return b.String()
	}
	jobs = append(jobs, &job{name: "decode", run: func() string {
		r, err := awdb.FromBytes(tb)
		if err != nil {
			return err.Error()
		}
		return decodeAll(r)
	}})
	coldStart.Do(func() {
		// nothing of the library has run in this process: whatever it sets up
		// on first use is set up by several goroutines at once
		const n = 8
		first := c.N(len(jobs))
		orders := make([][]int, n)
		for g := range orders {
			orders[g] = append([]int{first}, c.N(len(jobs)), c.N(len(jobs)))
		}
		res := make([][]string, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, k := range orders[g] {
					res[g] = append(res[g], jobs[k].run())
				}
			}()
		}
		close(start)
		wg.Wait()
		for g := range res {
			for i, k := range orders[g] {
				if want := jobs[k].run(); res[g][i] != want {
					c.Failf("the process's first, concurrent %s differs from the same call alone:\n%s\n---\n%s", jobs[k].name, clip(res[g][i], 800), clip(want, 800))
				}
			}
		}
		c.Count("cold_starts", 1)
	})
	_, table = dump(".ipdb", fullB)
	if table == nil {
		c.Failf("a fully answering ipdb database is not dumped")
	}
	jobs = append(jobs,
		&job{name: "pack", run: func() string { return pack(".ipdb", table) }},
		&job{name: "pack", run: func() string { return pack(".scan", table) }})
	if r, err := awdb.FromBytes(tb); err != nil {
		c.Failf("a well-formed awdb file is refused: %v", err)
	} else {
		for i := 0; i < 2; i++ {
			jobs = append(jobs, &job{name: "decode", run: func() string { return decodeAll(r) }})
		}
	}
	concurrentFirst := c.P(0.5)
	if !concurrentFirst {
		for _, j := range jobs {
			j.want = j.run()
		}
	}
	for _, s := range shared {
		s.db = openBytes(c, s.ext, s.b)
	}
	nq := 4 + c.N(5)
	nj := 4 + c.N(4)
	rounds := 3
	var wg sync.WaitGroup
	start := make(chan struct{})
	type out struct {
		where string
		want  Answer
		info  *inf.IpInfo
		mask  int
		err   error
	}
	outs := make([][]out, nq)
	got := make([]map[int][]string, nj)
	vers := make([][]string, nq)
	panics := make(chan any, nq+nj)
	for g := 0; g < nq; g++ {
		// every goroutine asks the shared databases in its own order
		type ask struct {
			d *anyDb
			a U128
		}
		var asks []ask
		for _, d := range shared {
			for _, a := range d.probe {
				asks = append(asks, ask{d, a})
			}
		}
		shuffle(c, asks)
		if len(asks) > 300 {
			asks = asks[:300]
		}
		forms := make([]int, len(asks))
		for i := range forms {
			forms[i] = c.N(3)
		}
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i, q := range asks {
				var o out
				ip := u128IP(q.a)
				o.where = fmt.Sprintf("goroutine %d, %s, %s", g, q.d.ext, ip)
				switch {
				case forms[i] == 0:
					o.info, o.mask, o.err = q.d.db.QueryStr(ip.String())
				case forms[i] == 1 && isMapped(q.a):
					o.info, o.mask, o.err = q.d.db.QueryU32(uint32(q.a.Lo))
				default:
					o.info, o.mask, o.err = q.d.db.Query(ip)
				}
				o.want = q.d.m.Query(q.a)
				if o.info != nil {
					cp := *o.info
					o.info.Country = "edited" // results belong to the caller
					o.info = &cp
				}
				outs[g] = append(outs[g], o)
				if i%20 == 0 {
					vers[g] = append(vers[g], verEdited(q.d.db.VersionInfo()))
				}
			}
		}()
	}
	for g := 0; g < nj; g++ {
		g := g
		got[g] = map[int][]string{}
		var order []int
		for i := 0; i < rounds; i++ {
			order = append(order, c.N(len(jobs)))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, k := range order {
				got[g][k] = append(got[g][k], jobs[k].run())
			}
		}()
	}
	close(start)
	wg.Wait()
	close(panics)
	if concurrentFirst {
		for _, j := range jobs {
			j.want = j.run()
		}
	}
	for _, l := range outs {
		for _, o := range l {
			sameAnswer(c, o.where, o.want, o.info, o.mask, o.err)
		}
	}
	for _, m := range got {
		for k, l := range m {
			for _, s := range l {
				if s != jobs[k].want {
					c.Failf("concurrent %s differs from the same call alone:\n%s\n---\n%s", jobs[k].name, clip(s, 800), clip(jobs[k].want, 800))
				}
				c.Count("concurrent_"+jobs[k].name+"s", 1)
			}
		}
	}
	c.Count("goroutines", nq+nj)
	c.Shape(nq, nj, len(fullB), len(fullAB), concurrentFirst, rule)
	if c.Idx < 3 {
		c.Sample(map[string]any{"query_goroutines": nq, "work_goroutines": nj, "shared": len(shared), "rule": rule})
	}
}

var badTexts = []string{"", " ", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.-4", "a.b.c.d", "1.2.3.4 ", " 1.2.3.4", "1.2.3.4/8", ":", ":::", "1::2::3", "12345::",
	"::1%eth0", "fe80::1%0", "[::1]", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::ffff:1.2.3", "g::", "0x1.0.0.0", "中国", "localhost", "\x00", "1.2.3.4\n", "01.2.3.4", "1..2.3", "::1.2.3.4.5", "version",
	strings.Repeat("1", 400), strings.Repeat(":", 100)}

func expectErr(c *C, where string, f func() (*inf.IpInfo, int, error)) {
	info, mask, err := f()
	if err == nil {
		c.Failf("%s: no error, result %+v /%d", where, info, mask)
	}
	if info != nil {
		c.Failf("%s: a result %+v came with the error %v", where, info, err)
	}
	c.Count("errors_seen", 1)
}

func caseC05(c *C) {
	var d *anyDb
	kind := c.N(4)
	noCN := false
	switch kind {
	case 0:
		noCN = true
		i := genIpdb(c, ipdbOpt{noCN: true})
		d = &anyDb{ext: ".ipdb", m: i, b: i.Encode(c), probe: probes(c, i.Tree, 3, 60)}
	default:
		d = genAny(c, 60)
	}
	db := openBytes(c, d.ext, d.b)
	for _, t := range badTexts {
		expectErr(c, fmt.Sprintf("QueryStr(%q) on %s", clip(t, 40), d.ext), func() (*inf.IpInfo, int, error) { return db.QueryStr(t) })
	}
	for k := 0; k < 30; k++ {
		a := randU128(c)
		if len(d.probe) > 0 && c.P(0.7) {
			a = pick(c, d.probe)
		}
		t := oddText(c, a)
		if p := net.ParseIP(t); p == nil {
			expectErr(c, fmt.Sprintf("QueryStr(%q) on %s", clip(t, 80), d.ext), func() (*inf.IpInfo, int, error) { return db.QueryStr(t) })
		} else {
			info, mask, err := db.QueryStr(t)
			sameAnswer(c, fmt.Sprintf("QueryStr(%q)", t), d.m.Query(ipU128(p.To16())), info, mask, err)
		}
	}
	expectErr(c, "Query(nil)", func() (*inf.IpInfo, int, error) { return db.Query(nil) })
	for n := 0; n <= 40; n++ {
		if n == 4 || n == 16 {
			continue
		}
		ip := make(net.IP, n)
		for i := range ip {
			ip[i] = byte(c.N(256))
		}
		if c.P(0.3) {
			for i := range ip {
				ip[i] = 0
			}
			if n > 12 {
				ip[10], ip[11] = 0xff, 0xff
			}
		}
		expectErr(c, fmt.Sprintf("Query of %d bytes %x on %s", n, []byte(ip), d.ext), func() (*inf.IpInfo, int, error) { return db.Query(ip) })
	}
	for _, a := range d.probe {
		w := d.m.Query(a)
		info, mask, err := db.Query(u128IP(a))
		sameAnswer(c, fmt.Sprintf("Query(%s)", u128IP(a)), w, info, mask, err)
		if w.Err {
			c.Count("errors_seen", 1)
		}
	}
	// warm-up lists with such requests change nothing and crash nothing
	query.GetIntern(db).BuildCache(append(append([]string{}, badTexts...), warmup[:20]...))

	dir := c.Dir()
	files := []string{filepath.Join(dir, "missing.ipdb"), filepath.Join(dir, "missing.awdb"), dir, filepath.Join(dir, "no", "such.ipdb"), ""}
	os.Mkdir(filepath.Join(dir, "dir.ipdb"), 0o755)
	files = append(files, filepath.Join(dir, "dir.ipdb"))
	for _, n := range []string{"noext", "a.mmdb", "a.IPDB", "a.ipdb.gz", "a.", "a.txt", ".hidden", "a.scan", "a.memip"} {
		p := filepath.Join(dir, n)
		if err := os.WriteFile(p, d.b, 0o644); err != nil {
			harness("%v", err)
		}
		files = append(files, p)
	}
	os.WriteFile(filepath.Join(dir, "empty.ipdb"), nil, 0o644)
	os.WriteFile(filepath.Join(dir, "empty.awdb"), nil, 0o644)
	files = append(files, filepath.Join(dir, "empty.ipdb"), filepath.Join(dir, "empty.awdb"))
	for _, f := range files {
		x, err := query.NewDb(f)
		if err == nil || x != nil {
			c.Failf("NewDb(%q): db=%v err=%v, expected an error and no database", strings.TrimPrefix(f, dir), x != nil, err)
		}
		c.Count("errors_seen", 1)
	}
	for _, e := range []string{"", "ipdb", ".mmdb", ".IPDB", ".scan", ".memip", "."} {
		x, err := query.NewDbFromBytes(e, d.b)
		if err == nil || x != nil {
			c.Failf("NewDbFromBytes(%q) gave no error", e)
		}
		c.Count("errors_seen", 1)
	}
	for _, n := range []string{"missing.ipdb", "missing.scan", "dir.ipdb", "noext", "a.mmdb", "a.IPDB", "a.txt", "a.", ".hidden", "empty.ipdb", "empty.awdb"} {
		x, err := convert.DumpFile(filepath.Join(dir, n), pick(c, []string{"", "country"}), operate.DefaultOperates)
		if err == nil || x != nil {
			c.Failf("DumpFile(%q) gave no error", n)
		}
		c.Count("errors_seen", 1)
	}
	tab := &inf.IpData{Fields: []string{"country"}, Version: &inf.VersionInfo{IpType: inf.IpV4}}
	for _, e := range []string{"", "ipdb", ".mmdb", ".awdb", ".txt", ".SCAN"} {
		b, err := convert.PackBytes(e, tab)
		if err == nil || b != nil {
			c.Failf("PackBytes(%q) gave no error", e)
		}
		if e == "" || e[0] == '.' {
			if err := convert.PackFile(filepath.Join(dir, "out"+e), tab); err == nil {
				c.Failf("PackFile(out%s) gave no error", e)
			}
		}
		c.Count("errors_seen", 2)
	}
	for _, e := range []string{".ipdb", ".scan", ".memip"} {
		if err := convert.PackFile(filepath.Join(dir, "no", "such", "dir"+e), tab); err == nil {
			c.Failf("PackFile into a missing directory gave no error")
		}
		c.Count("errors_seen", 1)
	}
	c.Shape(kind, d.ext, len(d.b), noCN)
	if c.Idx < 3 {
		c.Sample(map[string]any{"kind": d.ext, "bad_texts": len(badTexts), "files": len(files)})
	}
}

func caseC28(c *C) {
	v4p := []U128{v4Base.or(U128{0, 0x08080808}), v4Base.or(U128{0, 0x771d1d1d})}
	v6p := []U128{{0x2001486048600000, 0x8888}, {0x2606470047000000, 0x1111}}
	countries := []string{"美国", "中国", "美国", "中国", "日本", "", "美国 ", "US", "香港", "CN", "China", "中國", "美國", "USA", "United States", "cn", "us"}
	var m Model
	var ext string
	place := func(t *T, addr U128, base int, width int, rec int) {
		d := pick(c, []int{0, 1, 8, 13, 14, 15, 24, width})
		if c.P(0.7) && d < 16 {
			d = width
		}
		t.put(addr, 0, base+min(d, width), &T{Val: rec})
	}
	want := []string{}
	for _, x := range []string{"美国", "中国", "美国", "美国"} {
		if c.P(0.7) {
			want = append(want, x)
		} else if c.P(0.3) {
			want = append(want, "-") // nothing
		} else {
			want = append(want, pick(c, countries))
		}
	}
	if c.P(0.6) {
		ext = ".ipdb"
		f := []string{"country_name", "region_name"}
		if c.P(0.1) {
			f = []string{"region_name"} // no country at all
		}
		if c.P(0.5) {
			shuffle(c, f)
		}
		d := genIpdb(c, ipdbOpt{fields: f, noCN: c.P(0.03), vals: valOpt{ctl: c.P(0.5)}})
		base := len(d.Recs)
		for _, w := range want {
			r := make([]string, len(f))
			for i, x := range f {
				r[i] = "p"
				if x == "country_name" {
					r[i] = w
				}
			}
			d.Recs = append(d.Recs, r)
		}
		for i, a := range append(append([]U128{}, v4p...), v6p...) {
			if c.P(0.9) {
				rec := base + i
				if want[i] == "-" {
					rec = -1
				}
				if i < 2 {
					place(d.Tree, a, 96, 32, rec)
				} else {
					place(d.Tree, a, 0, 128, rec)
				}
			}
		}
		m = d
	} else {
		ext = ".awdb"
		d := genAwdb(c, awdbOpt{noBig: true})
		base := len(d.Recs)
		for _, w := range want {
			d.Recs = append(d.Recs, map[string]string{"country": w, "city": "x"})
		}
		for i, a := range append(append([]U128{}, v4p...), v6p...) {
			rec := base + i
			if want[i] == "-" {
				rec = -1
			}
			if d.V == 4 {
				if i == 0 && rec < 0 {
					rec = 0
				}
				if i < 2 {
					place(d.Tree, a.shl(96), 0, 32, rec)
				}
				continue
			}
			if i < 2 {
				place(d.Tree, U128{0, a.Lo & 0xffffffff}, 96, 32, rec)
			} else {
				place(d.Tree, a, 0, 128, rec)
			}
		}
		if d.V == 4 {
			// the loader's own probe
			if v, _ := d.Tree.find(v4p[0].shl(96), 0); v < 0 {
				d.Tree.put(v4p[0].shl(96), 0, 32, &T{Val: base})
			}
		}
		m = d
	}
	db := openBytes(c, ext, m.Encode(c))
	ok := func(a U128, country string) bool {
		r := m.Query(a)
		return !r.Err && r.Info.Country == country
	}
	w4 := ok(v4p[0], "美国") && ok(v4p[1], "中国")
	w6 := ok(v6p[0], "美国") && ok(v6p[1], "美国")
	for i := 0; i < 2; i++ {
		if err := db.CheckV4(); (err == nil) != w4 {
			c.Failf("CheckV4 on %s: %v, but 8.8.8.8 is %+v and 119.29.29.29 is %+v", ext, err, m.Query(v4p[0]), m.Query(v4p[1]))
		}
		if err := db.CheckV6(); (err == nil) != w6 {
			c.Failf("CheckV6 on %s: %v, but the probes are %+v and %+v", ext, err, m.Query(v6p[0]), m.Query(v6p[1]))
		}
	}
	name := func(f string, b bool) {
		if b {
			c.Count(f+"_ok", 1)
		} else {
			c.Count(f+"_bad", 1)
		}
	}
	name("v4", w4)
	name("v6", w6)
	c.Shape(ext, fmt.Sprint(m.Query(v4p[0])), fmt.Sprint(m.Query(v4p[1])), fmt.Sprint(m.Query(v6p[0])), fmt.Sprint(m.Query(v6p[1])))
	if c.Idx < 3 {
		c.Sample(map[string]any{"ext": ext, "countries": want, "v4_ok": w4, "v6_ok": w6})
	}
}
