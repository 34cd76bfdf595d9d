package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/qiniu/uip/db"
	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	register(&Check{ID: "C32", Quick: 12000, Thorough: 100000,
		Rule: "a case registers recording formats under new extensions and passes files, bytes, rules, tables and operations through every entry point, and stores a table with each built-in format over existing files; what the recorders saw and what came back is compared with what went in; distinct by extensions, rule, operations and sizes",
		Mins: map[string]int64{"recorded_dumps": 3000, "recorded_queries": 20000, "recorded_packs": 6000, "errors_passed": 50000, "files_replaced": 15000, "operations": 10000, "real_pipelines": 1000, "renamed": 15000},
		Case: caseC32})
}

// recorder is a format that notes what it is given.
type recorder struct {
	data  []byte
	exp   inf.Exporter
	table *inf.IpData
	q     *recQuery
	err   error // to be returned
	seen  int
}

type recQuery struct {
	warm   int
	warmed []string
	ver    *inf.VersionInfo
	answer func(ip net.IP) (*inf.IpInfo, int, error)
}

func (q *recQuery) Query(ip net.IP) (*inf.IpInfo, int, error) {
	return q.answer(ip)
}
func (q *recQuery) BuildCache(l []string)         { q.warm++; q.warmed = l }
func (q *recQuery) VersionInfo() *inf.VersionInfo { return q.ver }

var errRecorder = errors.New("refused by the format")

func caseC32(c *C) {
	switch c.N(8) {
	case 0, 1, 2:
		recordDump(c)
	case 3, 4:
		recordQuery(c)
	case 5, 6:
		recordPack(c)
	default:
		realPipeline(c)
	}
	packOverFiles(c)
}

// extName makes an extension nobody has used and a file name with it.
func extName(c *C) (ext, name string) {
	ext = pick(c, []string{".rec", ".Scan", ".IPDB", ".ip-db", ".", ".数据", ".scan2", ".ipd", ".awdb~", ".bak", ".gz", ".tmp", ".old", ".zip", ".1"})
	if c.P(0.5) {
		ext += fmt.Sprint(c.Idx)
	}
	name = pick(c, []string{"a", "q", "a.ipdb", "b.awdb.scan", "x y", "名", ".hidden", "a.", "ipdb"}) + ext
	return
}

func dirFor(c *C) string {
	dir := filepath.Join(c.Dir(), pick(c, []string{"d", "x.ipdb", "y.scan", "a.b.c"}))
	os.MkdirAll(dir, 0o755)
	return dir
}

func randBytes(c *C) []byte {
	switch c.N(4) {
	case 0:
		return nil
	case 1:
		return genIpdb(c, ipdbOpt{n: 3, maxRecs: 3}).Encode(c)
	}
	b := make([]byte, c.N(300))
	for i := range b {
		b[i] = byte(c.N(256))
	}
	return b
}

func genAnyRule(c *C) string {
	return pick(c, []string{"", defaultRule, export.LineRule, "country", "isp,country", "a,b,c|b=!x:a", "country,province|country=中国/美国:country", "*", "x:y:z", "|", "asn"})
}

// sameExporter compares two rules by what they do.
func sameExporter(c *C, what string, got, want inf.Exporter) {
	if want == nil {
		if got != nil {
			c.Failf("%s: the format was handed a rule although there is none", what)
		}
		return
	}
	if got == nil {
		c.Failf("%s: no rule was handed to the format", what)
	}
	if !eqStrings(append([]string{}, got.Fields()...), append([]string{}, want.Fields()...)) {
		c.Failf("%s: the format was handed a rule for %q instead of %q", what, got.Fields(), want.Fields())
	}
	var pairs []field.Pair
	for _, f := range want.Fields() {
		pairs = append(pairs, field.Pair{Ext: f, Intern: f})
	}
	for i := 0; i < 3; i++ {
		m := map[string]string{}
		for _, f := range want.Fields() {
			m[f] = pick(c, []string{"x", "中国", "美国", ""})
		}
		if g, w := got.Export(pairs, m), want.Export(pairs, m); !eqStrings(append([]string{}, g...), append([]string{}, w...)) {
			c.Failf("%s: the rule handed to the format gives %q instead of %q for %v", what, g, w, m)
		}
	}
}

func recordDump(c *C) {
	ext, name := extName(c)
	if format.GetDumpFormat(ext) != nil && !strings.HasPrefix(name, ext) {
		// an earlier case of this process used it, later registrations win
		c.Count("registered_again", 1)
	}
	r := &recorder{table: &inf.IpData{Fields: []string{"f"}}}
	if c.P(0.3) {
		r.err = errRecorder
		if c.P(0.5) {
			r.table = nil
		}
	}
	fn := func(b []byte, e inf.Exporter) (*inf.IpData, error) {
		r.seen++
		r.data, r.exp = append([]byte{}, b...), e
		return r.table, r.err
	}
	format.RegisterDumpFormat(ext, fn)
	if g := format.GetDumpFormat(ext); g == nil {
		c.Failf("no format is found for %q, for which one was registered", ext)
	}
	b := randBytes(c)
	file := filepath.Join(dirFor(c), name)
	if err := os.WriteFile(file, b, 0o644); err != nil {
		harness("%v", err)
	}
	rule := genAnyRule(c)
	var ops []operate.Operate
	var order []int
	n := c.N(6)
	for i := 0; i < n; i++ {
		ops = append(ops, func(d *inf.IpData) {
			order = append(order, i)
			d.Fields = append(d.Fields, fmt.Sprint(i))
		})
	}
	if n > 0 && c.P(0.3) {
		// the same operation twice
		k := c.N(n)
		ops = append(ops, ops[k])
		n++
	}
	want := make([]int, n)
	for i := range want {
		want[i] = i
	}
	if len(ops) > 0 && n > 0 {
		// the order the operations are listed in counts
		var l []int
		perm := c.R.Perm(n)
		o2 := make([]operate.Operate, n)
		for i, p := range perm {
			o2[i] = ops[p]
		}
		probe := &inf.IpData{}
		for _, o := range o2 {
			o(probe)
		}
		l = nil
		for _, f := range probe.Fields {
			var k int
			fmt.Sscan(f, &k)
			l = append(l, k)
		}
		order, want, ops = nil, l, o2
	}
	d, err := convert.DumpFile(file, rule, ops)
	what := fmt.Sprintf("DumpFile of %q with rule %q and %d operations", name, rule, n)
	c.Shape("dump", name, rule, len(b), n, r.err != nil)
	if r.seen == 0 {
		c.Failf("%s called the format of %q %d times", what, ext, r.seen)
	}
	if !bytes.Equal(r.data, b) {
		c.Failf("%s gave the format %d bytes instead of the file's %d", what, len(r.data), len(b))
	}
	sameExporter(c, what, r.exp, export.ParseRule(rule))
	c.Count("recorded_dumps", 1)
	c.Count("operations", n)
	if r.err != nil {
		c.Count("errors_passed", 1)
		if err == nil || d != nil {
			c.Failf("%s: the format's error became %v with a table %v", what, err, d != nil)
		}
		if len(order) > 0 {
			c.Failf("%s ran operations although the format failed", what)
		}
		return
	}
	if err != nil || d == nil {
		c.Failf("%s failed: %v", what, err)
	}
	if fmt.Sprint(order) != fmt.Sprint(want) && len(order)+len(want) > 0 {
		c.Failf("%s ran the operations %v instead of %v", what, order, want)
	}
	done := []string{"f"}
	for _, k := range want {
		done = append(done, fmt.Sprint(k))
	}
	if !eqStrings(d.Fields, done) {
		c.Failf("%s returned the table %q instead of the format's with the operations applied, %q", what, d.Fields, done)
	}
	// a name with another extension does not reach it
	for _, other := range []string{name + "x", name + ".unknown", strings.TrimSuffix(name, ext) + strings.ToUpper(ext) + "Q"} {
		if format.GetDumpFormat(filepath.Ext(other)) != nil {
			continue
		}
		os.WriteFile(filepath.Join(filepath.Dir(file), other), b, 0o644)
		if d, err := convert.DumpFile(filepath.Join(filepath.Dir(file), other), rule, ops); err == nil || d != nil {
			c.Failf("DumpFile of %q, of an extension nobody registered: %v, %v", other, d, err)
		}
		c.Count("renamed", 1)
	}
}

func recordQuery(c *C) {
	ext, name := extName(c)
	r := &recorder{q: &recQuery{ver: genVersion(c, 3)}}
	if c.P(0.25) {
		r.err = errRecorder
	}
	fn := func(b []byte) (inf.Query, error) {
		r.seen++
		r.data = append([]byte{}, b...)
		if r.err != nil {
			return nil, r.err
		}
		return r.q, nil
	}
	format.RegisterQueryFormat(ext, fn)
	b := randBytes(c)
	c.Shape("query", name, len(b), r.err != nil)
	var q *query.Db
	var err error
	what := "NewDb of " + name
	if c.P(0.5) {
		file := filepath.Join(dirFor(c), name)
		if err := os.WriteFile(file, b, 0o644); err != nil {
			harness("%v", err)
		}
		q, err = query.NewDb(file)
	} else {
		what = "NewDbFromBytes of " + ext
		q, err = query.NewDbFromBytes(ext, b)
	}
	if r.seen == 0 || !bytes.Equal(r.data, b) {
		c.Failf("%s called the format %d times and gave it %d bytes instead of %d", what, r.seen, len(r.data), len(b))
	}
	c.Count("recorded_queries", 1)
	if r.err != nil {
		c.Count("errors_passed", 1)
		if err == nil || q != nil {
			c.Failf("%s: the format's error became %v with a database %v", what, err, q != nil)
		}
		return
	}
	if err != nil || q == nil {
		c.Failf("%s failed: %v", what, err)
	}
	if got := q.VersionInfo(); !reflect.DeepEqual(got, r.q.ver) {
		c.Failf("%s: version %+v instead of the format's %+v", what, got, r.q.ver)
	}
	for i := 0; i < 12; i++ {
		a := randU128(c)
		if c.P(0.5) {
			a = v4Base.or(U128{0, uint64(c.R.Uint32())})
		}
		info := &inf.IpInfo{Country: fmt.Sprint(c.N(100)), City: "城"}
		mask := c.N(129)
		var fail error
		if c.P(0.3) {
			fail = errRecorder
		}
		r.q.answer = func(ip net.IP) (*inf.IpInfo, int, error) {
			if !ip.Equal(u128IP(a)) {
				return nil, 0, fmt.Errorf("asked for %v", ip)
			}
			if fail != nil {
				return nil, 0, fail
			}
			return info, mask, nil
		}
		var got *inf.IpInfo
		var m int
		var err error
		switch k := c.N(3); {
		case k == 0 && isMapped(a):
			got, m, err = q.QueryU32(uint32(a.Lo))
		case k == 1:
			got, m, err = q.QueryStr(u128IP(a).String())
		default:
			got, m, err = q.Query(asked(c, a))
		}
		c.Count("recorded_queries", 1)
		if fail != nil {
			c.Count("errors_passed", 1)
			if err == nil || got != nil {
				c.Failf("%s: the format's error became %v with result %v", what, err, got)
			}
			continue
		}
		if err != nil || got == nil || *got != *info || m != mask {
			c.Failf("%s: asked for %v, got %+v /%d %v instead of %+v /%d", what, u128IP(a), got, m, err, info, mask)
		}
	}
	for _, other := range []string{ext + "x", strings.TrimPrefix(ext, "."), ext + ".unknown", "." + ext, strings.ToUpper(ext) + "Q"} {
		if format.GetQueryFormat(other) != nil {
			continue
		}
		if q, err := query.NewDbFromBytes(other, b); err == nil || q != nil {
			c.Failf("NewDbFromBytes of %q, which nobody registered: %v", other, err)
		}
		c.Count("renamed", 1)
	}
}

func recordPack(c *C) {
	ext, name := extName(c)
	r := &recorder{}
	if c.P(0.3) {
		r.err = errRecorder
	}
	var chunks [][]byte
	var all []byte
	for i := c.few(5); i > 0; i-- {
		b := randBytes(c)
		chunks = append(chunks, b)
		all = append(all, b...)
	}
	fn := func(d *inf.IpData, w io.Writer) error {
		r.seen++
		r.table = d
		for _, b := range chunks {
			if n, err := w.Write(b); err != nil || n != len(b) {
				return err
			}
		}
		return r.err
	}
	format.RegisterPackFormat(ext, fn)
	table := &inf.IpData{Fields: []string{"x", fmt.Sprint(c.Idx)}, Version: genVersion(c, 1)}
	c.Shape("pack", name, len(all), len(chunks), r.err != nil)
	check := func(what string, got []byte, err error) {
		if r.seen == 0 || !reflect.DeepEqual(r.table, table) {
			c.Failf("%s called the format %d times, with the table %+v", what, r.seen, r.table)
		}
		r.seen, r.table = 0, nil
		c.Count("recorded_packs", 1)
		if r.err != nil {
			c.Count("errors_passed", 1)
			if !errors.Is(err, errRecorder) {
				c.Failf("%s: the format's error became %v", what, err)
			}
			return
		}
		if err != nil || !bytes.Equal(got, all) {
			c.Failf("%s: error %v, %d bytes instead of the format's %d", what, err, len(got), len(all))
		}
	}
	b, err := convert.PackBytes(ext, table)
	if r.err != nil && b != nil {
		c.Failf("PackBytes failed and returned %d bytes", len(b))
	}
	check("PackBytes", b, err)
	var buf bytes.Buffer
	buf.WriteString("before")
	err = convert.PackWriter(ext, table, &buf)
	check("PackWriter", bytes.TrimPrefix(buf.Bytes(), []byte("before")), err)
	file := filepath.Join(dirFor(c), name)
	if c.P(0.7) {
		os.WriteFile(file, make([]byte, c.N(2000)), 0o600)
		c.Count("files_replaced", 1)
	}
	err = convert.PackFile(file, table)
	got, _ := os.ReadFile(file)
	check("PackFile", got, err)
	// unknown kinds leave files alone
	for _, other := range []string{name + "x", name + ".unknown"} {
		e := filepath.Ext(other)
		if format.GetPackFormat(e) != nil {
			continue
		}
		f := filepath.Join(filepath.Dir(file), other)
		there := c.P(0.5)
		if there {
			os.WriteFile(f, []byte("kept"), 0o644)
		}
		if err := convert.PackFile(f, table); err == nil {
			c.Failf("PackFile to %q, of an extension nobody registered, succeeded", other)
		}
		now, err := os.ReadFile(f)
		if there && string(now) != "kept" || !there && err == nil {
			c.Failf("PackFile to %q, of an extension nobody registered, left %q", other, now)
		}
		if b, err := convert.PackBytes(e, table); err == nil || b != nil {
			c.Failf("PackBytes of %q, which nobody registered: %v", e, err)
		}
		if err := convert.PackWriter(e, table, &buf); !errors.Is(err, db.ErrUnsupportedFormat) {
			c.Failf("PackWriter of %q, which nobody registered: %v", e, err)
		}
		if r.seen != 0 {
			c.Failf("a name ending in %q reached the format of %q", e, ext)
		}
		c.Count("renamed", 1)
	}
}

// realPipeline runs the library's operations in random order through DumpFile.
func realPipeline(c *C) {
	o := srcOpt{gaps: 1, vals: valOpt{distinct: 6}, maxRecs: 8, n: 1 + c.N(30)}
	seed := c.R.Uint64()
	s, s2 := genSource(c.fork(seed, false), o), genSource(c.fork(seed, true), o)
	if !s.full() || !s2.full() || s.Ext != s2.Ext {
		return
	}
	all := []operate.Operate{operate.ReplaceShortage, operate.TrimAsnIspDup, operate.MergeNearNetwork, operate.AttachDistrict}
	var ops []operate.Operate
	for i := c.few(6); i > 0; i-- {
		ops = append(ops, pick(c, all))
	}
	rule := pick(c, []string{"country,province,city,isp,asn,continent", "", "country,isp,asn", defaultRule})
	file := filepath.Join(dirFor(c), "source"+s.Ext)
	c.Count("operations", len(ops))
	for i, s := range []*Source{s, s2, s} {
		if i > 0 && c.P(0.3) {
			continue
		}
		// the file has new contents
		if err := os.WriteFile(file, s.Bytes, 0o644); err != nil {
			harness("%v", err)
		}
		want, err := format.GetDumpFormat(s.Ext)(append([]byte{}, s.Bytes...), export.ParseRule(rule))
		got, err2 := convert.DumpFile(file, rule, ops)
		if (err == nil) != (err2 == nil) {
			c.Failf("DumpFile gave error %v, the format %v", err2, err)
		}
		if err != nil {
			return
		}
		for _, o := range ops {
			o(want)
		}
		c.Count("real_pipelines", 1)
		c.Shape("real", s.Ext, rule, len(ops), len(want.Ips))
		if tableText(got) != tableText(want) {
			c.Failf("DumpFile number %d of one path with %d operations gave another table than the operations one after another", i+1, len(ops))
		}
	}
}

// packOverFiles stores a table by name over existing files.
func packOverFiles(c *C) {
	d, _ := packTable(c, 20)
	for _, ext := range packExts {
		b, err := convert.PackBytes(ext, d)
		dir := dirFor(c)
		file := filepath.Join(dir, pick(c, []string{"a", "b.ipdb", "", "c.scan", "x.y"})+ext)
		if filepath.Ext(file) != ext {
			harness("extension of %s", file)
		}
		old := pick(c, []int{-1, 0, 10, len(b), len(b) + 1, 3 * (len(b) + 10)})
		if old >= 0 {
			if err := os.WriteFile(file, bytes.Repeat([]byte("x"), old), 0o644); err != nil {
				harness("%v", err)
			}
			c.Count("files_replaced", 1)
		}
		errF := convert.PackFile(file, d)
		if (err == nil) != (errF == nil) {
			c.Failf("PackFile to %s: %v, PackBytes: %v", file, errF, err)
		}
		if err != nil {
			continue
		}
		got, e := os.ReadFile(file)
		if e != nil || maskTime(ext, got) != maskTime(ext, b) {
			c.Failf("PackFile over a file of %d bytes left %d bytes, which are not the %d of PackBytes", old, len(got), len(b))
		}
		var w bytes.Buffer
		if err := convert.PackWriter(ext, d, &w); err != nil || maskTime(ext, w.Bytes()) != maskTime(ext, b) {
			c.Failf("PackWriter (%s): error %v, %d bytes instead of the %d of PackBytes", ext, err, w.Len(), len(b))
		}
		// places where no file can be
		for _, f := range []string{filepath.Join(dir, "missing", "a"+ext), filepath.Join(file, "b"+ext)} {
			if err := convert.PackFile(f, d); err == nil {
				c.Failf("PackFile to %s, where no file can be, succeeded", f)
			}
			c.Count("errors_passed", 1)
		}
		sub := filepath.Join(dir, "directory"+ext)
		os.MkdirAll(sub, 0o755)
		if err := convert.PackFile(sub, d); err == nil {
			c.Failf("PackFile to the directory %s succeeded", sub)
		}
		c.Count("errors_passed", 1)
	}
}
