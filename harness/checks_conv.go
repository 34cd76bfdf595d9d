package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/qiniu/uip/db"
	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/data"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	normTab["city"] = parseNorm(data.CityList)
	normTab["province"] = parseNorm(data.ProvinceList)
	normTab["isp"] = parseNorm(data.ISPList)
	for f, m := range normTab {
		normKeys[f] = sortedKeys(m)
	}

	register(&Check{ID: "C08", Quick: 60000, Thorough: 2000000,
		Rule: "a case is one table of disjoint networks (IPv4, IPv6, both; prefix lengths 0 to full; any order; 4- and 16-byte forms) packed to ipdb and asked at both ends and the inside of every covered and uncovered area; distinct by fields and networks",
		Mins: map[string]int64{"answers_compared": 100000, "gap_answers": 30000, "default_routes": 20, "huge_tables": 2, "shuffled": 500, "file_records_compared": 100000},
		Case: caseC08})
	register(&Check{ID: "C09", Quick: 40000, Thorough: 1200000,
		Rule: "a case is one ipdb or awdb database dumped with or without a rule (one in ten through a lookup function of the harness); rows are checked for order, disjointness, full coverage and values against every reference leaf below them, and now and then against real queries; distinct by format, families and leaves",
		Mins: map[string]int64{"rows": 100000, "leaves_matched": 100000, "dual_stack": 200, "gaps_refused": 500, "rows_queried": 10000, "own_readers": 2000},
		Case: caseC09})
	register(&Check{ID: "C10", Quick: 4000, Thorough: 150000,
		Rule: "a case converts one fully answering ipdb, awdb or scan database through the standard pipeline to ipdb and scan, directly and chained through intermediate formats, and compares what addresses resolve to with a reference pipeline; distinct by source, rule and option",
		Mins: map[string]int64{"answers_compared": 50000, "isp_unified": 1000, "normalised": 5000, "lines_attached": 500, "districts": 5000, "chained": 1000, "blanked": 1000},
		Case: caseC10})
	register(&Check{ID: "C13", Quick: 30000, Thorough: 900000,
		Rule: "a case dumps one database with up to six generated rules (well-formed, malformed, unknown fields, alternatives, negations) and compares columns and values with an independent rule evaluator; distinct by rule and source format",
		Mins: map[string]int64{"rows_compared": 100000, "filters_hit": 10000, "missing_columns": 3000, "inert_groups": 3000},
		Case: caseC13})
	register(&Check{ID: "C22", Quick: 40000, Thorough: 1000000,
		Rule: "a case opens and dumps one database and packs one table, and compares the version information reported with what the file records; distinct by version contents",
		Mins: map[string]int64{"opened": 4000, "dumped": 2000, "packed": 4000, "derived_versions": 500, "large_files": 10, "max_nodes": 70000},
		Case: caseC22})
}

// packAny packs through one of the three entry points.
func packAny(c *C, ext string, d *inf.IpData) ([]byte, error) {
	switch c.N(8) {
	case 0:
		f := filepath.Join(c.Dir(), fmt.Sprintf("out%d.x%s", c.N(1000), ext))
		if c.P(0.5) {
			// an older file in its place
			os.WriteFile(f, []byte(strings.Repeat("old contents\n", c.N(3000))), 0o644)
		}
		if err := convert.PackFile(f, d); err != nil {
			return nil, err
		}
		b, err := os.ReadFile(f)
		if err != nil {
			c.Failf("PackFile reported success but there is no file: %v", err)
		}
		return b, nil
	case 1:
		pr, pw := io.Pipe()
		got := make(chan []byte)
		go func() {
			b, _ := io.ReadAll(pr)
			got <- b
		}()
		err := convert.PackWriter(ext, d, pw)
		pw.Close()
		b := <-got
		if err != nil {
			return nil, err
		}
		return b, nil
	}
	return convert.PackBytes(ext, d)
}

func caseC08(c *C) {
	fields := genNames(c)
	n := 1 + c.N(30)
	recs := genRecs(c, fields, n, valOpt{long: true, ctl: c.P(0.3)})
	fam := 1 + c.N(3)
	t, leaves := genNets(c, fam, pick(c, []int{0, 1, 3, 10, 40}), n, c.P(0.8))
	switch c.N(20) {
	case 0:
		t, leaves = &T{Val: 0}, []Leaf{{U128{}, 0, 0}}
	case 1:
		t, leaves = &T{Val: -1}, nil
	case 2:
		t = &T{Val: -1}
		leaves = []Leaf{{v4Base, 96, 0}}
		t.put(v4Base, 0, 96, &T{Val: 0})
	}
	if c.Idx%20000 == 11 {
		// positions that need all four bytes
		recs = bulky(c, fields, 24<<10)
		n = len(recs)
		t, leaves = genNets(c, fam, 3*n, n, true)
		i := 0
		t.spread(n, &i)
		leaves = slices.DeleteFunc(t.leaves(), func(l Leaf) bool { return l.Val < 0 })
		c.Count("huge_tables", 1)
	}
	if c.Idx%20000 == 13 {
		// nodes whose numbers need more than 20 bits
		t = &T{Val: -1}
		leaves = nil
		for i := 0; i < 14000; i++ {
			a, v := randU128(c), c.N(n)
			if x, _ := t.find(a, 0); x < 0 {
				t.put(a, 0, 128, &T{Val: v})
				leaves = append(leaves, Leaf{a, 128, v})
			}
		}
		c.Count("deep_tables", 1)
	}
	for _, l := range leaves {
		if l.Depth == 0 || l.Depth == 96 && l.Addr == v4Base {
			c.Count("default_routes", 1)
		}
	}
	fam |= famOf(leaves)
	if c.P(0.7) {
		shuffle(c, leaves)
		c.Count("shuffled", 1)
	}
	d := mkTable(c, fields, recs, leaves, fam)
	c.Detail(map[string]any{"fields": fields, "networks": fmt.Sprint(len(leaves)), "fam": fam})
	b, err := packAny(c, ".ipdb", d)
	if err != nil {
		c.Failf("packing %d disjoint networks failed: %v", len(leaves), err)
	}
	db := openBytes(c, ".ipdb", b)
	raw := readPacked(c, b)
	var stored []int // where each column is
	for _, f := range fields {
		stored = append(stored, offsetOf(raw.fields, storedName(f)))
		if stored[len(stored)-1] < 0 || len(raw.fields) != len(fields) {
			c.Failf("column %s is not in the packed file, it has %q", f, raw.fields)
		}
	}
	for _, a := range probes(c, t, fam, 150) {
		checkPacked(c, db, t, fields, recs, a)
		var want, got []string
		if v, _ := t.find(a, 0); v >= 0 {
			want = recs[v]
		}
		if r := raw.find(c, a); r != nil {
			for _, i := range stored {
				got = append(got, r[i])
			}
		}
		if !slices.Equal(got, want) {
			c.Failf("the file states %q for %s, packed was %q", got, u128IP(a), want)
		}
		c.Count("file_records_compared", 1)
	}
	c.Shape(fields, fmt.Sprint(leaves))
	if c.Idx < 3 {
		c.Sample(map[string]any{"fields": fields, "networks": len(leaves), "families": fam, "bytes": len(b)})
	}
}

// packedFile reads an ipdb file by its format alone.
type packedFile struct {
	fields []string
	nodes  int
	body   []byte
}

// storedName is the name the ipdb format has for a column.
func storedName(f string) string {
	if n, ok := ipdbCommon[f]; ok {
		return n
	}
	return f
}

func readPacked(c *C, b []byte) *packedFile {
	var meta struct {
		NodeCount int            `json:"node_count"`
		TotalSize int            `json:"total_size"`
		Languages map[string]int `json:"languages"`
		Fields    []string       `json:"fields"`
	}
	n := int(binary.BigEndian.Uint32(b))
	if err := json.Unmarshal(b[4:4+n], &meta); err != nil {
		c.Failf("the packed file has no readable header: %v", err)
	}
	var keys map[string]json.RawMessage
	json.Unmarshal(b[4:4+n], &keys)
	for _, k := range []string{"build", "ip_version", "languages", "node_count", "total_size", "fields"} {
		// other readers of the format tell cases apart
		if _, ok := keys[k]; !ok {
			c.Failf("the packed file has no %q in its header: %s", k, b[4:4+n])
		}
	}
	if len(b) != 4+n+meta.TotalSize {
		c.Failf("the packed file states %d bytes behind its header of %d, has %d", meta.TotalSize, n, len(b))
	}
	if off, ok := meta.Languages["CN"]; !ok || off != 0 {
		c.Failf("the packed file has languages %v", meta.Languages)
	}
	return &packedFile{meta.Fields, meta.NodeCount, b[4+n:]}
}

func (p *packedFile) find(c *C, a U128) []string {
	node := 0
	for i := 0; i < 128 && node < p.nodes; i++ {
		node = int(binary.BigEndian.Uint32(p.body[node*8+4*a.bit(i):]))
	}
	if node <= p.nodes {
		return nil
	}
	at := node - p.nodes + 8*p.nodes
	size := int(binary.BigEndian.Uint16(p.body[at:]))
	v := strings.Split(string(p.body[at+2:at+2+size]), "\t")
	if len(v) != len(p.fields) {
		c.Failf("the packed file has a record of %d values for %d fields: %q", len(v), len(p.fields), v)
	}
	return v
}

func checkPacked(c *C, q *query.Db, t *T, fields []string, recs [][]string, a U128) {
	v, _ := t.find(a, 0)
	info, _, err := q.Query(u128IP(a))
	if v < 0 {
		if err == nil {
			c.Failf("%s is covered by no network, but resolves to %+v", u128IP(a), *info)
		}
		if !errors.Is(err, db.ErrDataNotExists) {
			c.Failf("%s is covered by no network: error %v instead of %v", u128IP(a), err, db.ErrDataNotExists)
		}
		c.Count("gap_answers", 1)
		return
	}
	if err != nil {
		c.Failf("%s is covered, but the query fails: %v", u128IP(a), err)
	}
	if want := infoOf(fields, recs[v]); *info != want {
		c.Failf("%s resolves to %+v, packed was %+v", u128IP(a), *info, want)
	}
	c.Count("answers_compared", 1)
}

// dumpSource dumps through a file or from bytes.
func dumpSource(c *C, s *Source, rule string, ops []operate.Operate) (*inf.IpData, error) {
	if c.P(0.15) || len(ops) > 0 {
		f := filepath.Join(c.Dir(), "src"+s.Ext)
		if err := os.WriteFile(f, s.Bytes, 0o644); err != nil {
			harness("%v", err)
		}
		return convert.DumpFile(f, rule, ops)
	}
	return format.GetDumpFormat(s.Ext)(s.Bytes, export.ParseRule(rule))
}

// checkCoverage checks rows of one family for order and full coverage, and
// hands every (row, leaf) pair that meets to f.
func checkCoverage(c *C, what string, rows []Row, leaves []Leaf, first U128, last U128, f func(r Row, l Leaf)) {
	next := first
	j := 0
	for i, r := range rows {
		if r.Addr != next {
			// IPv6 may leave out the IPv4-mapped block
			if !(next == v4Base && r.Addr == v4Base.add(U128{0, 1 << 32})) {
				c.Failf("%s: row %d is %s, expected it to start at %s", what, i, r, u128IP(next))
			}
		}
		for j < len(leaves) && leaves[j].Addr.or(hostMask(leaves[j].Depth)).less(r.Addr) {
			j++
		}
		met := false
		for k := j; k < len(leaves) && !r.last().less(leaves[k].Addr); k++ {
			f(r, leaves[k])
			met = true
			c.Count("leaves_matched", 1)
		}
		if !met && !innerMapped(Leaf{r.Addr, r.Depth, 0}) {
			c.Failf("%s: row %s meets nothing of the database", what, r)
		}
		if r.last() == last {
			if i != len(rows)-1 {
				c.Failf("%s: row %s follows the last address", what, rows[i+1])
			}
			return
		}
		next = r.last().add(one)
	}
	c.Failf("%s: the rows end before %s, the last is %v", what, u128IP(next), len(rows))
}

var allV4 = v4Base.or(U128{0, 0xffffffff})

// checkDump checks a whole dump against the source.
func checkDump(c *C, s *Source, d *inf.IpData, want func(rec int) []string) {
	rows := toRows(c, d)
	c.Count("rows", len(rows))
	n4 := 0
	if s.Type&1 != 0 {
		for n4 < len(rows) && rows[n4].v4() {
			n4++
		}
	}
	cmp := func(r Row, l Leaf) {
		if w := want(l.Val); !eqStrings(r.Vals, w) {
			c.Failf("row %s has values %q, but %s/%d of the database has %q", r, r.Vals, u128IP(l.Addr), l.Depth, w)
		}
	}
	if s.Type&1 != 0 {
		checkCoverage(c, "IPv4", rows[:n4], s.V4, v4Base, allV4, cmp)
	}
	if s.Type&2 != 0 {
		checkCoverage(c, "IPv6", rows[n4:], s.V6, U128{}, maxU128, cmp)
	} else if n4 != len(rows) {
		c.Failf("row %s does not belong to a family of the database", rows[n4])
	}
	if s.Type == 3 {
		c.Count("dual_stack", 1)
	}
}

var errOwn = errors.New("no such address")

// ownReader has the library walk a source through a lookup function that is
// not the library's.
func ownReader(c *C, s *Source, rule string) (*inf.IpData, error) {
	m := map[string]string{}
	var keys []string
	for _, n := range s.Names {
		m[n] = "k." + n
		keys = append(keys, "k."+n)
	}
	var ex inf.Exporter
	if rule != "" {
		ex = export.ParseRule(rule)
	}
	find := func(ip net.IP) (*net.IPNet, map[string]string, error) {
		l := s.V6
		if ip.To4() != nil && s.Type&1 != 0 {
			l = s.V4
		}
		w := ip.To16()
		if w == nil {
			return nil, nil, errOwn
		}
		a := U128{binary.BigEndian.Uint64(w), binary.BigEndian.Uint64(w[8:])}
		i := sort.Search(len(l), func(i int) bool { return a.less(l[i].Addr) }) - 1
		if i < 0 || l[i].Val < 0 || l[i].Addr.or(hostMask(l[i].Depth)).less(a) {
			return nil, nil, errOwn
		}
		rec := map[string]string{"other": "x"}
		for _, n := range s.Names {
			if v := s.Get(l[i].Val, n); v != "" || c.P(0.5) {
				rec["k."+n] = v
			}
		}
		return mkNet(l[i].Addr, l[i].Depth, false), rec, nil
	}
	d, err := export.BuildIPData(m, keys, ex, &inf.VersionInfo{IpType: inf.IpType(s.Type), Count: uint32(len(s.leaves()))}, find)
	c.Count("own_readers", 1)
	return d, err
}

func caseC09(c *C) {
	gaps := pick(c, []int{1, 1, 1, 1, 2})
	s := genSource(c, srcOpt{gaps: gaps, noScan: true})
	full := s.full()
	rule := pick(c, []string{"", "", defaultRule, "country,isp,line", "asn"})
	c.Detail(map[string]any{"ext": s.Ext, "rule": rule, "type": s.Type, "leaves": len(s.V4) + len(s.V6), "bytes": len(s.Bytes)})
	var d *inf.IpData
	var err error
	if c.Idx%10 == 4 {
		// the reader of a format of the caller's own
		d, err = ownReader(c, s, rule)
		if !full && err != nil && !errors.Is(err, errOwn) {
			c.Failf("the reader's error is lost: %v", err)
		}
	} else {
		d, err = dumpSource(c, s, rule, nil)
	}
	if !full {
		if err == nil {
			c.Failf("a database that leaves addresses unanswered is dumped as %d rows", len(d.Ips))
		}
		if d != nil {
			c.Failf("rows came with the error %v", err)
		}
		c.Count("gaps_refused", 1)
		return
	}
	if err != nil {
		c.Failf("a database that answers every address is not dumped: %v", err)
	}
	var want func(rec int) []string
	memo := map[int][]string{}
	if rule == "" {
		got := append([]string(nil), d.Fields...)
		exp := append([]string(nil), s.Names...)
		sort.Strings(got)
		sort.Strings(exp)
		if !eqStrings(got, exp) {
			c.Failf("columns %q, expected %q", d.Fields, s.Names)
		}
		want = func(rec int) []string {
			if v, ok := memo[rec]; ok {
				return v
			}
			v := make([]string, len(d.Fields))
			for i, f := range d.Fields {
				v[i] = s.Get(rec, f)
			}
			memo[rec] = v
			return v
		}
	} else {
		want = func(rec int) []string {
			if v, ok := memo[rec]; ok {
				return v
			}
			memo[rec] = evalRule(rule, func(n string) string { return s.Get(rec, n) })
			return memo[rec]
		}
	}
	checkDump(c, s, d, want)
	if rule == "" && c.P(0.3) {
		// and what the library itself answers
		q := openBytes(c, s.Ext, s.Bytes)
		rows := toRows(c, d)
		for k := 0; k < 60; k++ {
			r := pick(c, rows)
			a := r.Addr.or(randU128(c).and(hostMask(r.Depth)))
			if s.Type == 1 && !isMapped(a) || s.Type == 2 && isMapped(a) {
				continue
			}
			info, _, err := q.Query(u128IP(a))
			if err != nil {
				c.Failf("%s lies in row %s, but a query fails: %v", u128IP(a), r, err)
			}
			if w := infoOf(d.Fields, r.Vals); s.Ext == ".ipdb" && *info != w {
				c.Failf("%s: query %+v, row %+v", u128IP(a), *info, w)
			} else if s.Ext == ".awdb" {
				w.Continent = info.Continent
				for i, f := range d.Fields {
					if f == "continent" && r.Vals[i] != info.Continent {
						c.Failf("%s: query says continent %q, row %q", u128IP(a), info.Continent, r.Vals[i])
					}
				}
				if *info != w {
					c.Failf("%s: query %+v, row %+v", u128IP(a), *info, w)
				}
			}
			c.Count("rows_queried", 1)
		}
	}
	c.Shape(s.Ext, s.Type, rule, fmt.Sprint(s.leaves()))
	if c.Idx < 3 {
		c.Sample(map[string]any{"ext": s.Ext, "type": s.Type, "rule": rule, "leaves": len(s.leaves()), "rows": len(d.Ips)})
	}
}

// Table is a table in the reference pipeline.
type Table struct {
	Fields []string
	Rows   []Row
}

func (t *Table) col(name string) int {
	for i, f := range t.Fields {
		if f == name {
			return i
		}
	}
	return -1
}

func (t *Table) mapRows(f func(v []string) []string) {
	for i, r := range t.Rows {
		t.Rows[i].Vals = f(append([]string(nil), r.Vals...))
	}
}

var mainIsps = map[string]bool{"电信": true, "联通": true, "移动": true, "铁通": true}

func refNormalise(c *C, t *Table) {
	t.mapRows(func(v []string) []string {
		for i, f := range t.Fields {
			if m, ok := normTab[f]; ok {
				if n, ok := m[v[i]]; ok {
					if n != v[i] {
						c.Count("normalised", 1)
					}
					v[i] = n
				}
			}
		}
		return v
	})
}

// ispSets lists the main ISPs every ASN occurs with.
func ispSets(t *Table) map[string]map[string]bool {
	i, a := t.col("isp"), t.col("asn")
	m := map[string]map[string]bool{}
	if i < 0 || a < 0 {
		return m
	}
	for _, r := range t.Rows {
		if mainIsps[r.Vals[i]] && r.Vals[a] != "" {
			if m[r.Vals[a]] == nil {
				m[r.Vals[a]] = map[string]bool{}
			}
			m[r.Vals[a]][r.Vals[i]] = true
		}
	}
	return m
}

// refUnify unifies ISPs; false if the outcome is a matter of choice.
func refUnify(c *C, t *Table) bool {
	i, a := t.col("isp"), t.col("asn")
	if i < 0 || a < 0 {
		return true
	}
	sets := ispSets(t)
	ok := true
	t.mapRows(func(v []string) []string {
		if s := sets[v[a]]; !mainIsps[v[i]] && v[a] != "" && len(s) > 0 {
			if len(s) > 1 {
				ok = false
			}
			v[i] = sortedKeys(s)[0]
			c.Count("isp_unified", 1)
		}
		return v
	})
	return ok
}

// lineOf is the documented mapping of a line answer.
func lineOf(line string) string {
	l := strings.Split(line, "/")[0]
	switch l {
	case "", "电信", "联通", "移动":
		return l
	case "铁通":
		return "移动"
	}
	return "电信"
}

var districtOf = map[string]string{}

func init() {
	for d, l := range map[string]string{
		"东北": "黑龙江 辽宁 吉林",
		"西北": "新疆 青海 宁夏 甘肃 陕西",
		"华北": "内蒙古 河北 山西 天津 北京",
		"西南": "西藏 四川 重庆 贵州 云南",
		"华中": "湖南 湖北 河南",
		"华东": "山东 江苏 安徽 浙江 江西 福建 上海 台湾",
		"华南": "广东 广西 海南 香港 澳门"} {
		for _, p := range strings.Fields(l) {
			districtOf[p] = d
		}
	}
}

func refDistrict(c *C, t *Table) {
	p, d := t.col("province"), t.col("district")
	if p < 0 {
		return
	}
	if d < 0 {
		t.Fields = append(append([]string(nil), t.Fields...), "district")
	}
	t.mapRows(func(v []string) []string {
		x := districtOf[v[p]]
		if x != "" {
			c.Count("districts", 1)
		}
		if d < 0 {
			return append(v, x)
		}
		v[d] = x
		return v
	})
}

// refLine attaches or replaces by the line database's answer for the first
// address of each network.
func refLine(c *C, t *Table, line Model, replace bool) {
	co, li, isp := t.col("country"), t.col("line"), t.col("isp")
	if co < 0 || replace && isp < 0 {
		return
	}
	if !replace && li < 0 {
		t.Fields = append(append([]string(nil), t.Fields...), "line")
	}
	for k, r := range t.Rows {
		v := append([]string(nil), r.Vals...)
		l := ""
		if v[co] == "中国" {
			if a := line.Query(r.Addr); !a.Err {
				l = lineOf(a.Info.Line)
			}
		}
		if l != "" {
			c.Count("lines_attached", 1)
		}
		switch {
		case replace && l != "":
			v[isp] = l
		case replace:
		case li < 0:
			v = append(v, l)
		default:
			v[li] = l
		}
		t.Rows[k].Vals = v
	}
}

// genLine is a database whose line column matters.
func genLine(c *C) (string, Model, []byte) {
	vals := []string{"电信", "联通", "移动", "铁通", "阿里云", "电信/联通", "移动/阿里云", "铁通/x", "", "/电信", "教育网/移动"}
	if c.P(0.5) {
		d := genAwdb(c, awdbOpt{noBig: true, gaps: 1 + c.N(2)})
		for _, r := range d.Recs {
			if _, ok := r["line"]; ok {
				r["line"] = pick(c, vals)
			}
		}
		return ".awdb", d, d.Encode(c)
	}
	d := genIpdb(c, ipdbOpt{fields: []string{"country_name", "line", "isp_domain"}})
	for _, r := range d.Recs {
		r[1] = pick(c, vals)
	}
	return ".ipdb", d, d.Encode(c)
}

var rulePool = []string{
	"country,province,city,isp,asn,continent,district|country=!中国:country,continent|province=台湾/中国台湾:country,province,continent,district",
	"country,province,city,isp,asn,continent,line", "isp,asn", "country,isp,asn,province", "line", "asn,isp,country|country=中国:asn,isp,country",
	"country,province,isp,asn|isp=电信/联通:isp,country,asn", "city,province",
}

// refPipeline runs a source through the reference of the standard steps.
func refPipeline(c *C, s *Source, rule string, line Model, replace, withLine bool) (*Table, bool) {
	t := &Table{}
	names := s.Names
	if rule != "" {
		names = ruleColumns(rule)
	}
	t.Fields = append([]string(nil), names...)
	memo := map[int][]string{}
	for _, l := range s.leaves() {
		v, ok := memo[l.Val]
		if !ok {
			get := func(n string) string { return s.Get(l.Val, n) }
			v = make([]string, len(names))
			for i, n := range names {
				v[i] = get(n)
			}
			if rule != "" {
				e := evalRule(rule, get)
				if !eqStrings(e, v) {
					c.Count("blanked", 1)
				}
				v = e
			}
			memo[l.Val] = v
		}
		t.Rows = append(t.Rows, Row{l.Addr, l.Depth, v})
	}
	refNormalise(c, t)
	if !refUnify(c, t) {
		return nil, false
	}
	t.Rows = mergeRef(t.Rows)
	if withLine {
		refLine(c, t, line, replace)
	}
	refDistrict(c, t)
	return t, true
}

// byAddr are the rows for looking addresses up, per family.
func (t *Table) lookup(a U128) ([]string, bool) {
	var rows []Row
	for _, r := range t.Rows {
		if r.v4() == isMapped(a) {
			rows = append(rows, r)
		}
	}
	if k := findRow(rows, a); k >= 0 {
		return rows[k].Vals, true
	}
	if isMapped(a) {
		// an IPv6 network may contain the IPv4 block
		for _, r := range t.Rows {
			if !r.v4() && !a.less(r.Addr) && !r.last().less(a) {
				return r.Vals, true
			}
		}
	}
	return nil, false
}

func underscore(v []string) []string {
	o := make([]string, len(v))
	for i, x := range v {
		o[i] = strings.ReplaceAll(x, ",", "_")
	}
	return o
}

// tableProbes are addresses of all rows and their borders.
func tableProbes(c *C, t *Table, typ, limit int) []U128 {
	var out []U128
	idx := c.R.Perm(len(t.Rows))
	for _, i := range idx {
		r := t.Rows[i]
		for _, a := range []U128{r.Addr, r.last(), r.Addr.or(randU128(c).and(hostMask(r.Depth)))} {
			if isMapped(a) && typ&1 == 0 || !isMapped(a) && typ&2 == 0 {
				continue
			}
			out = append(out, a)
		}
		if len(out) >= limit {
			break
		}
	}
	return out
}

func compareQueries(c *C, what string, b []byte, t *Table, ps []U128, commas bool) {
	q := openBytes(c, ".ipdb", b)
	for _, a := range ps {
		want, ok := t.lookup(a)
		if !ok {
			continue
		}
		if commas {
			want = underscore(want)
		}
		info, _, err := q.Query(u128IP(a))
		if err != nil {
			c.Failf("%s: %s resolved to %q in the source but fails now: %v", what, u128IP(a), want, err)
		}
		if w := infoOf(t.Fields, want); *info != w {
			c.Failf("%s: %s resolves to %+v, expected %+v", what, u128IP(a), *info, w)
		}
		c.Count("answers_compared", 1)
	}
}

func caseC10(c *C) {
	withLine := c.P(0.4)
	s := genSource(c, srcOpt{gaps: 1, split: withLine, names: c.P(0.8), maxRecs: 15, vals: valOpt{}})
	rule := pick(c, append(rulePool, "", "", defaultRule, defaultRule))
	if s.Ext == ".scan" && rule == "" && c.P(0.5) {
		rule = defaultRule
	}
	var lineM Model
	var lineQ *query.Db
	replace := c.P(0.4)
	if withLine {
		ext, m, b := genLine(c)
		lineM = m
		lineQ = openBytes(c, ext, b)
	}
	want, ok := refPipeline(c, s, rule, lineM, replace, withLine)
	if !ok {
		c.Count("ambiguous_isps", 1)
		return
	}
	ops := append([]operate.Operate{}, operate.DefaultOperates...)
	if withLine {
		ops = append(ops, func(d *inf.IpData) {
			if replace {
				operate.ReplaceLineByCidr(d, query.GetIntern(lineQ))
			} else {
				operate.AttachLineByCidr(d, query.GetIntern(lineQ))
			}
		})
	}
	ops = append(ops, operate.AttachDistrict)
	c.Detail(map[string]any{"ext": s.Ext, "type": s.Type, "rule": rule, "line": withLine, "replace": replace, "leaves": len(s.leaves())})
	d, err := dumpSource(c, s, rule, ops)
	if err != nil {
		c.Failf("converting a fully answering %s database failed: %v", s.Ext, err)
	}
	if rule == "" {
		// the order of the columns is not specified
		g, w := append([]string(nil), d.Fields...), append([]string(nil), want.Fields...)
		sort.Strings(g)
		sort.Strings(w)
		if !eqStrings(g, w) {
			c.Failf("columns %q, expected %q", d.Fields, want.Fields)
		}
		perm := make([]int, len(d.Fields))
		for i, f := range d.Fields {
			perm[i] = want.col(f)
		}
		want.mapRows(func(v []string) []string {
			o := make([]string, len(v))
			for i, p := range perm {
				o[i] = v[p]
			}
			return o
		})
		want.Fields = append([]string(nil), d.Fields...)
	} else if !eqStrings(d.Fields, want.Fields) {
		c.Failf("columns %q, expected %q", d.Fields, want.Fields)
	}
	// the table itself: every row against the reference
	for i, r := range toRows(c, d) {
		for _, a := range []U128{r.Addr, r.last(), r.Addr.or(randU128(c).and(hostMask(r.Depth)))} {
			if innerMapped(Leaf{Addr: a, Depth: 128}) && !r.v4() {
				continue
			}
			w, ok := want.lookup(a)
			if !ok {
				c.Failf("row %d (%s) covers %s, which the source does not", i, r, u128IP(a))
			}
			if !eqStrings(w, r.Vals) {
				c.Failf("row %s has %q, expected %q", r, r.Vals, w)
			}
		}
		if i > 400 {
			break
		}
	}
	ps := tableProbes(c, want, s.Type, 60)
	ipdbB, err := packAny(c, ".ipdb", d)
	if err != nil {
		c.Failf("packing the converted table to ipdb failed: %v", err)
	}
	compareQueries(c, s.Ext+" to ipdb", ipdbB, want, ps, false)
	scanB, err := packAny(c, ".scan", d)
	if err != nil {
		c.Failf("packing the converted table to scan failed: %v", err)
	}
	sd, err := format.GetDumpFormat(".scan")(scanB, nil)
	if err != nil {
		c.Failf("the scan output is refused: %v", err)
	}
	if !eqStrings(sd.Fields, want.Fields) {
		c.Failf("the scan output has columns %q, expected %q", sd.Fields, want.Fields)
	}
	st := &Table{Fields: sd.Fields, Rows: toRows(c, sd)}
	for _, a := range ps {
		w, ok := want.lookup(a)
		if !ok {
			continue
		}
		g, ok := st.lookup(a)
		if !ok {
			c.Failf("%s is missing from the scan output", u128IP(a))
		}
		if !eqStrings(g, underscore(w)) {
			c.Failf("%s has %q in the scan output, expected %q", u128IP(a), g, underscore(w))
		}
		c.Count("answers_compared", 1)
	}
	// chained: source -> scan -> ipdb, source -> ipdb -> scan -> ipdb
	if c.P(0.5) {
		b, err := convert.PackBytes(".ipdb", sd)
		if err != nil {
			c.Failf("scan to ipdb failed: %v", err)
		}
		compareQueries(c, "chained scan to ipdb", b, want, ps, true)
		c.Count("chained", 1)
		if hasCommon(want.Fields) {
			id, err := format.GetDumpFormat(".ipdb")(ipdbB, nil)
			if err != nil {
				c.Failf("the converted ipdb is not dumped: %v", err)
			}
			sb, err := convert.PackBytes(".scan", id)
			if err != nil {
				c.Failf("ipdb to scan failed: %v", err)
			}
			id2, err := format.GetDumpFormat(".scan")(sb, nil)
			if err != nil {
				c.Failf("the chained scan file is refused: %v", err)
			}
			operate.MergeNearNetwork(id2)
			b, err := convert.PackBytes(".ipdb", id2)
			if err != nil {
				c.Failf("the chained scan to ipdb failed: %v", err)
			}
			compareQueries(c, "chained ipdb to scan to ipdb", b, want, ps, true)
			c.Count("chained", 1)
		}
	}
	c.Shape(s.Ext, s.Type, rule, withLine, replace, fmt.Sprint(s.leaves()))
	if c.Idx < 3 {
		c.Sample(map[string]any{"ext": s.Ext, "type": s.Type, "rule": rule, "leaves": len(s.leaves()), "rows": len(d.Ips), "columns": want.Fields})
	}
}

func hasCommon(fields []string) bool {
	for _, f := range fields {
		if _, ok := ipdbCommon[f]; ok {
			return true
		}
	}
	return false
}

var ruleWords = []string{"country", "province", "city", "isp", "asn", "continent", "line", "district", "utcOffset", "owner", "x", "备注"}

func genRule(c *C, s *Source) string {
	if c.P(0.1) {
		return pick(c, rulePool)
	}
	var cols []string
	words := append([]string(nil), ruleWords...)
	shuffle(c, words)
	for _, w := range words[:1+min(c.few(7), len(words)-1)] {
		cols = append(cols, w)
	}
	if c.P(0.6) && len(s.Names) > 0 {
		w := pick(c, s.Names)
		if offsetOf(cols, w) < 0 {
			cols = append(cols, w)
		}
	}
	groups := []string{strings.Join(cols, ",")}
	leaves := s.leaves()
	for n := c.few(5); n > 0; n-- {
		var keep []string
		for _, x := range cols {
			if c.P(0.5) {
				keep = append(keep, x)
			}
		}
		if len(keep) == 0 || c.P(0.1) {
			keep = append(keep, pick(c, cols))
		}
		if c.P(0.08) {
			keep = append(keep, pick(c, []string{"nothing", "", "country ", "Country"}))
		}
		if c.P(0.3) {
			shuffle(c, keep)
		}
		key := pick(c, cols)
		if c.P(0.08) {
			key = pick(c, []string{"", "nothing", "country"})
		}
		var vals []string
		for m := 1 + c.few(3); m > 0; m-- {
			v := pick(c, []string{"中国", "电信", "", "v1", "台湾", "AS", "!x"})
			if len(leaves) > 0 && c.P(0.7) {
				v = s.Get(pick(c, leaves).Val, key)
			}
			if strings.ContainsAny(v, "|,:=/") {
				v = "v2"
			}
			vals = append(vals, v)
		}
		not := ""
		if c.P(0.4) {
			not = "!"
		}
		g := key + "=" + not + strings.Join(vals, "/") + ":" + strings.Join(keep, ",")
		switch c.N(25) {
		case 0:
			g = strings.Replace(g, ":", "", 1)
		case 1:
			g = strings.Replace(g, "=", "", 1)
		case 2:
			g = strings.Replace(g, "=", "==", 1)
		case 3:
			g = strings.Replace(g, ":", "::", 1)
		case 4:
			g = ""
		case 5:
			g = strings.Join(keep, ",")
		case 6:
			g = key + ":" + key
		case 7:
			g = strings.Replace(g, "!", "!!", 1)
		}
		groups = append(groups, g)
	}
	return strings.Join(groups, "|")
}

func offsetOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

func caseC13(c *C) {
	s := genSource(c, srcOpt{gaps: 1, maxRecs: 12, n: c.N(12) + 1, names: c.P(0.3)})
	for k := 1 + c.N(6); k > 0; k-- {
		rule := genRule(c, s)
		c.Detail(map[string]any{"ext": s.Ext, "rule": rule, "names": s.Names})
		d, err := dumpSource(c, s, rule, nil)
		if err != nil {
			c.Failf("dumping with rule %q failed: %v", rule, err)
		}
		cols := ruleColumns(rule)
		if !eqStrings(d.Fields, cols) {
			c.Failf("rule %q gives columns %q, expected %q", rule, d.Fields, cols)
		}
		for _, n := range cols {
			if offsetOf(s.Names, n) < 0 {
				c.Count("missing_columns", 1)
			}
		}
		memo := map[int][]string{}
		want := func(rec int) []string {
			if v, ok := memo[rec]; ok {
				return v
			}
			get := func(n string) string { return s.Get(rec, n) }
			memo[rec] = evalRule(rule, get)
			for i, n := range cols {
				if get(n) != memo[rec][i] {
					c.Count("filters_hit", 1)
				}
			}
			return memo[rec]
		}
		if s.Ext == ".scan" {
			var w []Row
			for _, l := range s.leaves() {
				w = append(w, Row{l.Addr, l.Depth, want(l.Val)})
			}
			rowsEqual(c, "dump with rule "+rule, toRows(c, d), w)
		} else {
			checkDump(c, s, d, want)
			c.Count("rows_compared", len(d.Ips))
		}
		for _, g := range strings.Split(rule, "|")[1:] {
			if !strings.Contains(g, "=") || strings.Contains(g, "nothing") || strings.Contains(g, "==") {
				c.Count("inert_groups", 1)
			}
		}
		c.Shape(s.Ext, rule)
		if c.Idx < 3 {
			c.Sample(map[string]any{"ext": s.Ext, "rule": rule, "rows": len(d.Ips)})
		}
	}
}

func sameSet(a, b []string) bool {
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	return eqStrings(x, y)
}

func sameVersion(c *C, what string, got *inf.VersionInfo, want inf.VersionInfo) {
	if got == nil {
		c.Failf("%s: no version information", what)
	}
	if got.IpType != want.IpType || got.Count != want.Count || got.Build != want.Build || got.Version != want.Version ||
		!sameSet(got.Languages, want.Languages) || !eqStrings(got.ExtraInfo, want.ExtraInfo) {
		c.Failf("%s: version %+v, expected %+v", what, *got, want)
	}
	t := want.IpType
	if got.HasIpV4() != (t&1 != 0) || got.HasIpV6() != (t&2 != 0) || got.IsIpV4() != (t == 1) || got.IsIpV6() != (t == 2) || got.IsIpAll() != (t == 3) {
		c.Failf("%s: of IP type %d it is said: IPv4 %v, only %v; IPv6 %v, only %v; both %v", what, t, got.HasIpV4(), got.IsIpV4(), got.HasIpV6(), got.IsIpV6(), got.IsIpAll())
	}
	// its text is what the commands print
	var back inf.VersionInfo
	if err := json.Unmarshal([]byte(got.String()), &back); err != nil || !sameVer(back, *got) {
		c.Failf("%s: version %+v as text reads %s", what, *got, got)
	}
}

// spreadHosts puts single addresses into an IPv6 tree until it has more nodes
// than 16 bits can count.
func spreadHosts(c *C, t *T, recs int) {
	for i := 0; i < 1500; i++ {
		t.put(U128{c.R.Uint64() | 1<<63, c.R.Uint64()}, 0, 128, &T{Val: c.N(recs)})
	}
}

func caseC22(c *C) {
	// opened and dumped
	var want inf.VersionInfo
	var b []byte
	var ext string
	full := false
	if c.P(0.6) && c.Idx%3000 != 8 || c.Idx%3000 == 7 {
		ext = ".ipdb"
		n, ver := 1+c.N(8), 0
		if c.Idx%3000 == 7 {
			n, ver = 300, 2
			c.Count("large_files", 1)
		}
		d := genIpdb(c, ipdbOpt{ver: ver, n: n, maxRecs: 5, gaps: 1 + c.N(2)})
		if c.P(0.3) {
			d.Build = pick(c, []int64{0, 1, 86399, 86400, 1700000000, 4102444800, -1})
		}
		if n > 100 {
			spreadHosts(c, d.Tree, len(d.Recs))
		}
		s := ipdbSource(c, d)
		c.Count("max_nodes", d.nodes)
		b, full = s.Bytes, s.full()
		want = inf.VersionInfo{IpType: inf.IpType(d.Ver), Count: uint32(d.nodes), Build: d.Build, Version: d.Version, Languages: sortedKeys(d.Langs), ExtraInfo: d.Extra}
		if want.Version == "" {
			want.Version = "ipip.net-" + time.Unix(d.Build, 0).UTC().Format("2006-01-02")
			c.Count("derived_versions", 1)
		}
	} else {
		ext = ".awdb"
		n, v := 1+c.N(8), 0
		if c.Idx%3000 == 8 {
			n, v = 300, 6
			c.Count("large_files", 1)
		}
		d := genAwdb(c, awdbOpt{v: v, noBig: true, n: n, maxRecs: 5, gaps: 1 + c.N(2)})
		if n > 100 {
			spreadHosts(c, d.Tree, len(d.Recs))
		}
		s := awdbSource(c, d)
		c.Count("max_nodes", d.nodes)
		b, full = s.Bytes, s.full()
		want = inf.VersionInfo{IpType: inf.IpType(s.Type), Count: uint32(d.nodes), Build: int64(d.Epoch), Version: "ipplus360" + d.Type, Languages: d.Langs}
	}
	db := openMaybeFile(c, ext, b)
	sameVersion(c, "opened "+ext, db.VersionInfo(), want)
	sameVersion(c, "opened "+ext+", second time", db.VersionInfo(), want)
	c.Count("opened", 1)
	if full {
		d, err := format.GetDumpFormat(ext)(b, export.ParseRule(pick(c, []string{"", "country"})))
		if err != nil {
			c.Failf("dump failed: %v", err)
		}
		sameVersion(c, "dumped "+ext, d.Version, want)
		c.Count("dumped", 1)
	}
	// packed
	fields := genNames(c)
	recs := genRecs(c, fields, 3, valOpt{})
	fam := 1 + c.N(3)
	_, leaves := genNets(c, fam, c.N(6), 3, true)
	d := mkTable(c, fields, recs, leaves, fam)
	pb, err := packAny(c, ".ipdb", d)
	if err != nil {
		c.Failf("packing failed: %v", err)
	}
	var meta struct {
		Build     int64  `json:"build"`
		NodeCount uint32 `json:"node_count"`
		Languages map[string]int
	}
	if json.Unmarshal(pb[4:4+binary.BigEndian.Uint32(pb)], &meta) != nil {
		c.Failf("the packed file has no readable header")
	}
	w := inf.VersionInfo{IpType: inf.IpType(fam), Version: d.Version.Version, ExtraInfo: d.Version.ExtraInfo, Build: meta.Build, Count: meta.NodeCount, Languages: sortedKeys(meta.Languages)}
	if w.Version == "" {
		w.Version = "ipip.net-" + time.Unix(meta.Build, 0).UTC().Format("2006-01-02")
	}
	if now := time.Now().Unix(); meta.Build > now+3600 || meta.Build < now-3600 {
		c.Failf("the packed file says it was built at %d, now is %d", meta.Build, now)
	}
	sameVersion(c, "packed ipdb", openBytes(c, ".ipdb", pb).VersionInfo(), w)
	sb, err := convert.PackBytes(".scan", d)
	if err != nil {
		c.Failf("packing to scan failed: %v", err)
	}
	sd, err := format.GetDumpFormat(".scan")(sb, nil)
	if err != nil {
		c.Failf("the packed scan file is refused: %v", err)
	}
	sameVersion(c, "packed scan", sd.Version, *d.Version)
	c.Count("packed", 1)
	c.Shape(ext, fmt.Sprint(want), fmt.Sprint(*d.Version))
	if c.Idx < 3 {
		c.Sample(map[string]any{"opened": want, "packed": *d.Version})
	}
}
