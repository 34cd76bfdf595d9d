package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
)

// textLines splits as a text file is: the last line break ends a line.
func textLines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	s := string(b)
	s = strings.TrimSuffix(s, "\n")
	return strings.Split(s, "\n")
}

type scanRef struct {
	fields []string
	ver    inf.VersionInfo
	rows   []Row
}

// parseScan is the reference reader of the scan format.
func parseScan(b []byte) (*scanRef, string) {
	ls := textLines(b)
	if len(ls) < 3 {
		return nil, "fewer than three header lines"
	}
	for i := 0; i < 3; i++ {
		if !strings.HasPrefix(ls[i], "#### ") {
			return nil, "a header line lacks its mark"
		}
	}
	var r scanRef
	var v *inf.VersionInfo
	if json.Unmarshal([]byte(ls[1][5:]), &v) != nil || v == nil {
		return nil, "no version header"
	}
	r.ver = *v
	r.fields = strings.Split(ls[2][5:], ",")
	for _, l := range ls[3:] {
		p := strings.Split(l, "\t")
		if len(p) != 2 {
			return nil, "a line without exactly one tab"
		}
		_, n, err := net.ParseCIDR(p[0])
		if err != nil {
			return nil, "a bad network"
		}
		vals := strings.Split(p[1], ",")
		if len(vals) != len(r.fields) {
			return nil, "a line with another number of columns"
		}
		ones, bits := n.Mask.Size()
		a := ipU128(n.IP)
		d := ones
		if bits == 32 {
			d += 96
		}
		r.rows = append(r.rows, Row{a, d, vals})
	}
	return &r, ""
}

type memRow struct {
	lo, hi U128
	view   []string
}

// parseMemip is the reference reader of the memip format.
func parseMemip(b []byte) ([]memRow, string) {
	ls := textLines(b)
	if len(ls) == 0 {
		return nil, "empty"
	}
	var out []memRow
	for _, l := range ls {
		p := strings.Split(l, " ")
		if len(p) != 3 {
			return nil, "a line without exactly three columns"
		}
		var r memRow
		if strings.Contains(p[0], ":") {
			a, b := net.ParseIP(p[0]), net.ParseIP(p[1])
			if a == nil || b == nil {
				return nil, "a bad address"
			}
			r.lo, r.hi = ipU128(a), ipU128(b)
		} else {
			a, e1 := strconv.ParseUint(p[0], 10, 32)
			b, e2 := strconv.ParseUint(p[1], 10, 32)
			if e1 != nil || e2 != nil {
				return nil, "a bad number"
			}
			r.lo, r.hi = v4Base.or(U128{0, a}), v4Base.or(U128{0, b})
		}
		if r.hi.less(r.lo) {
			return nil, "a reversed range"
		}
		r.view = strings.Split(p[2], "-")
		if len(r.view) != 6 {
			return nil, "a view without six parts"
		}
		out = append(out, r)
	}
	return out, ""
}

var memipFields = []string{"city", "province", "district", "isp", "country", "continent"}

func rowsEqual(c *C, what string, got, want []Row) {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i].Addr != want[i].Addr || got[i].Depth != want[i].Depth {
			c.Failf("%s: row %d is %s, expected %s", what, i, got[i], want[i])
		}
		if !eqStrings(got[i].Vals, want[i].Vals) {
			c.Failf("%s: row %d (%s) has values %s, expected %s", what, i, got[i], clip(fmt.Sprintf("%q", got[i].Vals), 600), clip(fmt.Sprintf("%q", want[i].Vals), 600))
		}
	}
	if len(got) != len(want) {
		c.Failf("%s: %d rows, expected %d", what, len(got), len(want))
	}
	c.Count("rows_compared", len(got))
}

// dumpText dumps a text database, now and then through a file.
func dumpText(c *C, ext string, b []byte, e inf.Exporter, rule string) (*inf.IpData, error) {
	if c.P(0.1) {
		f := filepath.Join(c.Dir(), "in"+ext)
		if err := os.WriteFile(f, b, 0o644); err != nil {
			harness("%v", err)
		}
		return convert.DumpFile(f, rule, nil)
	}
	return format.GetDumpFormat(ext)(b, e)
}

func hasDup(l []string) bool {
	m := map[string]bool{}
	for _, s := range l {
		if m[s] {
			return true
		}
		m[s] = true
	}
	return false
}

// checkTextInput compares one dump of arbitrary bytes with the references.
func checkTextInput(c *C, ext string, b []byte) {
	c.Detail(map[string]any{"ext": ext, "bytes": len(b), "input": hex.EncodeToString(b[:min(len(b), 4000)])})
	d, err := dumpText(c, ext, b, nil, "")
	c.Count("inputs", 1)
	if (d == nil) == (err == nil) {
		c.Failf("%s dump: table=%v err=%v", ext, d != nil, err)
	}
	if ext == ".scan" {
		// a rule must not turn a refused file into an accepted one
		d2, err2 := dumpText(c, ext, b, export.ParseRule("country,isp"), "country,isp")
		if (err == nil) != (err2 == nil) {
			c.Failf("scan dump without rule: %v, with a rule: %v", err, err2)
		}
		if err == nil && len(d.Ips) != len(d2.Ips) {
			c.Failf("scan dump without rule has %d rows, with a rule %d", len(d.Ips), len(d2.Ips))
		}
	}
	if bytes.IndexByte(b, '\r') >= 0 {
		// what a lone carriage return means is not specified
		return
	}
	var want []Row
	var fields []string
	var bad string
	if ext == ".scan" {
		var r *scanRef
		r, bad = parseScan(b)
		if r != nil {
			want, fields = r.rows, r.fields
		}
	} else {
		var l []memRow
		l, bad = parseMemip(b)
		fields = memipFields
		for _, r := range l {
			for _, x := range cover(r.lo, r.hi) {
				want = append(want, Row{x.Addr, x.Depth, r.view})
			}
		}
	}
	if err != nil {
		c.Count("refused", 1)
		if bad != "" {
			c.Count("malformed_refused", 1)
		}
		return
	}
	if bad != "" {
		c.Failf("a malformed %s file (%s) is dumped as %d rows", ext, bad, len(d.Ips))
	}
	if hasDup(fields) {
		return
	}
	c.Count("accepted", 1)
	if !eqStrings(d.Fields, fields) {
		c.Failf("%s dump has fields %q, expected %q", ext, d.Fields, fields)
	}
	rowsEqual(c, ext+" dump", toRows(c, d), want)
	c.Detail(nil)
}

func mutateText(c *C, b, other []byte) []byte {
	ls := strings.Split(string(b), "\n")
	join := func() []byte { return []byte(strings.Join(ls, "\n")) }
	i := c.N(len(ls))
	if c.P(0.3) {
		i = c.N(min(3, len(ls)))
	}
	swap := func(sep string) {
		p := strings.Split(ls[i], sep)
		switch c.N(4) {
		case 0:
			p = append(p, pick(c, []string{"", "x"}))
		case 1:
			p = p[:len(p)-1]
		case 2:
			p[c.N(len(p))] = pick(c, []string{"", "x", "1.2.3.4", "::", "1.2.3.0/24", "-1", "4294967296", "4294967295", "0", "::/129", "1.2.3.4/33", "99999999999999999999", "::1", "1.0.0.0/08", "+5", "0x10", "0xffffffff", "4_294_967_295", "037777777777", "0o37777777777", "0b11111111111111111111111111111111", "0X01020304", "1_6"})
		default:
			if len(p) > 1 {
				p[0], p[1] = p[1], p[0]
			}
		}
		ls[i] = strings.Join(p, sep)
	}
	switch c.N(14) {
	case 0:
		return b[:c.N(len(b)+1)]
	case 1:
		ls[i] = ""
		return join()
	case 2:
		ls = append(ls[:i], ls[i+1:]...)
		return join()
	case 3:
		swap("\t")
		return join()
	case 4:
		swap(",")
		return join()
	case 5:
		swap(" ")
		return join()
	case 6:
		swap("-")
		return join()
	case 7:
		// a very long line
		sizes := []int{10, 65530, 70000, 200000}
		if i < 3 {
			// matching many columns with many columns takes a while
			sizes = []int{10, 300, 3000}
		}
		ls[i] += strings.Repeat(pick(c, []string{"x", ",", "-", "y,", "\t"}), pick(c, sizes))
		return join()
	case 8:
		ls[i] = pick(c, []string{"####", "#### ", "####null", "#### null", "#### {}", "#### []", "###", "", "\t", " ", "  ", ",", "#### {\"IpType\":\"x\"}", "####  ", "#### {\"IpType\":1} x", "# comment", "1.0.0.0/8", "1 2 ", "0 0 a-b-c-d-e", "5 4 a-b-c-d-e-f", ":: 1.2.3.4 a-b-c-d-e-f", "::2 ::1 a-b-c-d-e-f"})
		return join()
	case 9:
		if len(ls) > 3 {
			return []byte(strings.Join(ls[c.N(3)+1:], "\n"))
		}
	case 10:
		return []byte(strings.Join(ls[:c.N(min(4, len(ls)+1))], "\n"))
	case 11:
		return pick(c, [][]byte{{}, []byte("\n"), []byte("\n\n\n"), []byte("\n\n\n\n"), []byte("####"), []byte("#### a\n#### {}"), []byte("#### a\n#### {}\n"), []byte("#### a\n#### {}\n####"), []byte("#### a\n#### {}\n#### "), []byte("#### a\n#### {}\n#### c\n"),
			[]byte("#### a\n#### null\n#### c\n1.0.0.0/8\tx\n"), []byte("0"), []byte("0 0"), []byte("0 0 "), []byte(" "), []byte("0 4294967295 a-b-c-d-e-f"), []byte(":: ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff a-b-c-d-e-f\n"), []byte("\xff\xfe"), []byte("#### a\n#### {}\n#### c\n\n")})
	case 12:
		return append(append([]byte(nil), b[:c.N(len(b)+1)]...), other[c.N(len(other)+1):]...)
	}
	o := append([]byte(nil), b...)
	byteNoise(c, o, 0, len(o))
	return o
}

func genScan(c *C) []byte {
	fields := genNames(c)
	recs := genRecs(c, fields, 1+c.N(6), valOpt{banned: ","})
	longLine(c, recs)
	fam := 1 + c.N(3)
	_, leaves := genNets(c, fam, c.N(12), len(recs), true)
	v := genVersion(c, fam)
	j, _ := json.Marshal(v)
	var b strings.Builder
	fmt.Fprintf(&b, "#### scan dump\n#### %s\n#### %s\n", j, strings.Join(fields, ","))
	for i, l := range leaves {
		if i > 40 {
			break
		}
		n := mkNet(l.Addr, l.Depth, false)
		fmt.Fprintf(&b, "%s\t%s", n, strings.Join(recs[l.Val], ","))
		if i < len(leaves)-1 || c.P(0.8) {
			b.WriteByte('\n')
		}
	}
	return []byte(b.String())
}

// hugeLines allows values of more than 1 MB.  Checks that hand every input to
// several builds do without.
var hugeLines = true

// longLine makes one value longer than a line usually is, now and then.
func longLine(c *C, recs [][]string) {
	if !c.P(0.004) {
		return
	}
	sizes := []int{4090, 22000, 65500, 65536, 90000, 200000}
	if hugeLines {
		sizes = append(sizes, 400000, 400000)
	}
	r := pick(c, recs)
	r[c.N(len(r))] = strings.Repeat(pick(c, []string{"长", "x"}), pick(c, sizes))
	c.Count("long_lines", 1)
}

func genMemip(c *C) []byte {
	v6 := c.P(0.4)
	recs := genRecs(c, memipFields, 1+c.N(6), valOpt{banned: " -"})
	longLine(c, recs)
	for _, r := range recs {
		for i := range r {
			if r[i] == "" && c.P(0.7) {
				r[i] = "默认"
			}
		}
	}
	var b strings.Builder
	for n := 1 + c.N(20); n > 0; n-- {
		r := pick(c, recs)
		if v6 {
			lo := randU128(c)
			if c.P(0.2) {
				lo = pick(c, hot128)
			}
			hi := lo.or(randU128(c).and(hostMask(c.N(129))))
			if c.P(0.1) {
				hi = maxU128
			}
			fmt.Fprintf(&b, "%s %s %s\n", colon(lo), colon(hi), strings.Join(r, "-"))
		} else {
			lo := c.R.Uint32()
			hi := lo | c.R.Uint32()>>c.N(33)
			if c.P(0.1) {
				hi = 0xffffffff
			}
			fmt.Fprintf(&b, "%d %d %s\n", lo, hi, strings.Join(r, "-"))
		}
	}
	return []byte(b.String())
}

// colon writes an address so that it contains a colon.
func colon(a U128) string {
	s := u128IP(a).String()
	if !strings.Contains(s, ":") {
		s = "::ffff:" + s
	}
	return s
}

func init() {
	register(&Check{ID: "C07", Quick: 15000, Thorough: 600000, CPUSec: 60, MemMB: 1500,
		Rule: "a case is up to 10 scan or memip inputs, well-formed and damaged (truncated, headers missing or short, wrong columns, bad or reversed ranges, lines beyond 64 KB, byte noise, splices), dumped and compared row by row with a reference reader; distinct by input",
		Mins: map[string]int64{"inputs": 10000, "accepted": 2000, "malformed_refused": 4000, "rows_compared": 20000, "long_lines": 100},
		Case: func(c *C) {
			for k := 0; k < 10; k++ {
				ext := ".scan"
				gen := genScan
				if c.P(0.5) {
					ext, gen = ".memip", genMemip
				}
				b := gen(c)
				if c.P(0.8) {
					b = mutateText(c, b, gen(c))
					if c.P(0.2) {
						b = mutateText(c, b, gen(c))
					}
				} else {
					// a file without defects must be accepted
					if _, err := format.GetDumpFormat(ext)(b, nil); err != nil {
						c.Detail(string(b[:min(len(b), 3000)]))
						c.Failf("a well-formed %s file is refused: %v", ext, err)
					}
				}
				checkTextInput(c, ext, b)
				c.Shape(ext, string(b))
			}
			if c.Idx < 2 {
				c.Sample(map[string]any{"scan": clip(string(genScan(c)), 400), "memip": clip(string(genMemip(c)), 300)})
			}
		}})

	register(&Check{ID: "C11", Quick: 30000, Thorough: 900000,
		Rule: "a case is one table (IPv4, IPv6 or mixed, any order, arbitrary fields and values with commas, long and empty values) packed to scan and dumped back; distinct by fields, row count and contents",
		Mins: map[string]int64{"rows_compared": 50000, "commas": 1000, "long_lines": 50},
		Case: caseC11})

	register(&Check{ID: "C12", Quick: 60000, Thorough: 1500000,
		Rule: "a case is one ascending disjoint IPv4 or IPv6 table packed to memip, compared with the reference view line by line and address by address, and dumped back; distinct by fields, rows and views",
		Mins: map[string]int64{"lines": 30000, "joined_rows": 5000, "v6_tables": 500, "rows_compared": 30000, "long_lines": 50},
		Case: caseC12})
}

func caseC11(c *C) {
	fields := genNames(c)
	for i := range fields {
		if c.P(0.05) {
			fields[i] += pick(c, []string{" x", "\"", "#", "====", "##"})
		}
	}
	if hasDup(fields) {
		return
	}
	fam := 1 + c.N(3)
	n := 1 + c.N(12)
	recs := genRecs(c, fields, n, valOpt{long: true})
	long := c.P(0.02)
	if long {
		k := c.N(n)
		recs[k] = append([]string(nil), recs[k]...)
		recs[k][c.N(len(fields))] = strings.Repeat("长 ", pick(c, []int{8000, 20000, 60000}))
		c.Count("long_lines", 1)
	}
	_, leaves := genNets(c, fam, c.N(40), n, true)
	if len(leaves) > 10 && long {
		leaves = leaves[:10]
	}
	if c.P(0.3) {
		shuffle(c, leaves)
	}
	if c.P(0.1) && len(leaves) > 0 {
		leaves = append(leaves, leaves[0]) // the format does not mind
	}
	d := mkTable(c, fields, recs, leaves, fam)
	before := deepCopy(d)
	b, err := convert.PackBytes(".scan", d)
	if err != nil {
		c.Failf("packing to scan failed: %v", err)
	}
	var want []Row
	for _, l := range leaves {
		v := make([]string, len(fields))
		for i, s := range recs[l.Val] {
			v[i] = strings.ReplaceAll(s, ",", "_")
			if v[i] != s {
				c.Count("commas", 1)
			}
		}
		want = append(want, Row{l.Addr, l.Depth, v})
	}
	got, err := dumpText(c, ".scan", b, nil, "")
	if err != nil {
		c.Failf("the packed scan file is refused: %v", err)
	}
	if !eqStrings(got.Fields, fields) {
		c.Failf("fields %q came back as %q", fields, got.Fields)
	}
	rowsEqual(c, "scan round trip", toRows(c, got), want)
	gv, wv := *got.Version, *before.Version
	if len(gv.Languages) == 0 && len(wv.Languages) == 0 {
		gv.Languages, wv.Languages = nil, nil
	}
	if len(gv.ExtraInfo) == 0 && len(wv.ExtraInfo) == 0 {
		gv.ExtraInfo, wv.ExtraInfo = nil, nil
	}
	if !reflect.DeepEqual(gv, wv) {
		c.Failf("version %+v came back as %+v", wv, gv)
	}
	// a second round changes nothing more
	b2, err := convert.PackBytes(".scan", got)
	if err != nil || maskTime(".scan", b2) != maskTime(".scan", b) {
		c.Failf("packing the dump again gives another file (err %v)", err)
	}
	c.Shape(fields, len(leaves), string(b[len(b)/2:]))
	if c.Idx < 3 {
		c.Sample(map[string]any{"fields": fields, "rows": len(leaves), "text": clip(string(b), 500)})
	}
}

// memView is the documented memip view of one row.
func memView(fields, vals []string) []string {
	get := func(name string) string {
		for i, f := range fields {
			if f == name {
				v := vals[i]
				if v == "" || strings.HasPrefix(v, "保留") {
					return "默认"
				}
				return v
			}
		}
		return "默认"
	}
	v := make([]string, 6)
	for i, f := range memipFields {
		v[i] = get(f)
	}
	if n, ok := contName[v[5]]; ok {
		v[5] = n
	}
	switch v[3] {
	case "电信", "联通", "移动", "默认":
	default:
		v[3] = "其他"
	}
	switch v[1] {
	case "香港", "澳门", "台湾":
		v[2] = "默认"
	}
	return v
}

func caseC12(c *C) {
	fam := 1 + c.N(2)
	fields := genNames(c)
	n := 1 + c.N(10)
	recs := genRecs(c, fields, n, valOpt{banned: " -"})
	for _, r := range recs {
		for i, f := range fields {
			if c.P(0.3) {
				switch f {
				case "isp":
					r[i] = pick(c, []string{"电信", "联通", "移动", "铁通", "阿里云", "", "默认", "保留", "其他"})
				case "province":
					r[i] = pick(c, []string{"香港", "澳门", "台湾", "北京", "", "保留地", "香港特别行政区"})
				case "district":
					r[i] = pick(c, []string{"华南", "华东", "", "默认"})
				}
			}
		}
	}
	lookalikes(c, recs, valOpt{banned: " -"})
	longLine(c, recs)
	_, leaves := genNets(c, fam, 1+c.N(40), n, c.P(0.6))
	if fam == 2 {
		// one family only: what lies in the IPv4 block is not IPv6
		var l []Leaf
		for _, x := range leaves {
			if !isMapped(x.Addr) && !(x.Addr.cmp(v4Base) <= 0 && v4Base.cmp(x.Addr.or(hostMask(x.Depth))) <= 0) {
				l = append(l, x)
			}
		}
		leaves = l
		c.Count("v6_tables", 1)
	}
	if len(leaves) == 0 {
		return
	}
	d := mkTable(c, fields, recs, leaves, fam)
	b, err := convert.PackBytes(".memip", d)
	if err != nil {
		c.Failf("packing to memip failed: %v", err)
	}
	c.Detail(map[string]any{"fields": fields, "memip": clip(string(b), 3000)})
	lines, bad := parseMemip(b)
	if bad != "" {
		c.Failf("the packed memip file is malformed: %s", bad)
	}
	c.Count("lines", len(lines))
	// expected: maximal runs of adjacent networks with one view, city aside
	type run struct {
		lo, hi U128
		view   []string
		n      int
	}
	var runs []run
	for _, l := range leaves {
		v := memView(fields, recs[l.Val])
		last := l.Addr.or(hostMask(l.Depth))
		if k := len(runs) - 1; k >= 0 && runs[k].hi.add(one) == l.Addr && eqStrings(runs[k].view[1:], v[1:]) {
			runs[k].hi = last
			runs[k].n++
			continue
		}
		runs = append(runs, run{l.Addr, last, v, 1})
	}
	for i, r := range runs {
		if i >= len(lines) {
			c.Failf("range %s-%s is missing from the file", u128IP(r.lo), u128IP(r.hi))
		}
		g := lines[i]
		if g.lo != r.lo || g.hi != r.hi {
			c.Failf("line %d covers %s-%s, expected %s-%s", i, u128IP(g.lo), u128IP(g.hi), u128IP(r.lo), u128IP(r.hi))
		}
		if !eqStrings(g.view[1:], r.view[1:]) {
			c.Failf("line %d has view %q, expected %q", i, g.view, r.view)
		}
		if r.n > 1 {
			c.Count("joined_rows", r.n)
		}
	}
	if len(lines) != len(runs) {
		c.Failf("%d lines, expected %d", len(lines), len(runs))
	}
	back, err := dumpText(c, ".memip", b, nil, "")
	if err != nil {
		c.Failf("the packed memip file is refused: %v", err)
	}
	if !eqStrings(back.Fields, memipFields) {
		c.Failf("fields %q", back.Fields)
	}
	rows := toRows(c, back)
	for i := 1; i < len(rows); i++ {
		if !rows[i-1].last().less(rows[i].Addr) {
			c.Failf("the dumped rows %s and %s are not ascending", rows[i-1], rows[i])
		}
	}
	// every source network is covered with its view, and nothing else is
	for _, l := range leaves {
		v := memView(fields, recs[l.Val])
		last := l.Addr.or(hostMask(l.Depth))
		for _, a := range []U128{l.Addr, last, l.Addr.or(randU128(c).and(hostMask(l.Depth)))} {
			k := findRow(rows, a)
			if k < 0 {
				c.Failf("%s is not covered after the round trip", u128IP(a))
			}
			if !eqStrings(rows[k].Vals[1:], v[1:]) {
				c.Failf("%s has view %q after the round trip, expected %q", u128IP(a), rows[k].Vals, v)
			}
			c.Count("rows_compared", 1)
		}
	}
	var covered, source U128
	for _, r := range rows {
		covered = covered.add(r.last().sub(r.Addr).add(one))
	}
	for _, l := range leaves {
		source = source.add(hostMask(l.Depth).add(one))
	}
	if covered != source {
		c.Failf("the dump covers another number of addresses than the table")
	}
	if int(back.Version.Count) != len(rows) || int(back.Version.IpType) != fam {
		c.Failf("version of the dump is %+v for %d rows of family %d", back.Version, len(rows), fam)
	}
	c.Shape(fields, len(leaves), string(b))
	if c.Idx < 3 {
		c.Sample(map[string]any{"fields": fields, "rows": len(leaves), "memip": clip(string(b), 500)})
	}
}
