package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/qiniu/uip/db/field/data"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	register(&Check{ID: "C14", Quick: 30000, Thorough: 900000,
		Rule: "a case is one table with plausible names, shared and unshared rows and any column order, normalised and ISP-unified (repeatedly) and compared value by value with independently parsed tables and the documented unification rule; distinct by contents",
		Mins: map[string]int64{"values_compared": 200000, "replaced": 20000, "unified": 3000, "left_alone": 20000, "shared_rows": 10000, "loaded_tables": 3000},
		Case: caseC14})
	register(&Check{ID: "C15", Quick: 60000, Thorough: 2000000,
		Rule: "a case is one ascending disjoint table (gaps, equal neighbours, both families, extremes, empty) merged and compared network by network with the minimal cover computed from scratch; distinct by networks and values",
		Mins: map[string]int64{"networks_compared": 100000, "joined": 50000, "empty_tables": 50, "large_tables": 1},
		Case: caseC15})
	register(&Check{ID: "C16", Quick: 25000, Thorough: 700000,
		Rule: "a case is one table (any columns, shared rows) given to one to four attachment steps in random order and compared row by row with the reference; distinct by columns, steps and contents",
		Mins: map[string]int64{"values_compared": 200000, "districts": 5000, "lines_attached": 5000, "asn_lines": 3000, "columns_absent": 500, "versions_compared": 20000},
		Case: caseC16})
}

// opsTable makes a table with plausible names and, often, shared rows.
func opsTable(c *C, fields []string, maxNets int, fam int, gaps bool) *inf.IpData {
	n := 1 + c.N(20)
	recs := genRecs(c, fields, n, valOpt{})
	for _, r := range recs {
		plausible(c, fields, r, valOpt{})
	}
	lookalikes(c, recs, valOpt{})
	_, leaves := genNets(c, fam, c.N(maxNets), n, gaps)
	d := mkTable(c, fields, recs, leaves, fam)
	return d
}

func copyRows(c *C, d *inf.IpData) []Row {
	rows := toRows(c, d)
	seen := map[*string]bool{}
	for i, r := range rows {
		if len(r.Vals) > 0 {
			if seen[&r.Vals[0]] {
				c.Count("shared_rows", 1)
			}
			seen[&r.Vals[0]] = true
		}
		rows[i].Vals = append([]string(nil), r.Vals...)
	}
	return rows
}

func sameRows(c *C, what string, d *inf.IpData, fields []string, want []Row) {
	if !eqStrings(d.Fields, fields) {
		c.Failf("%s: columns %q, expected %q", what, d.Fields, fields)
	}
	got := toRows(c, d)
	rowsEqual(c, what, got, want)
	c.Count("values_compared", len(got)*len(fields))
}

// loadTables replaces the normalisation tables for one case.
func loadTables(c *C, fields []string) (map[string]map[string]string, func()) {
	norm := map[string]map[string]string{}
	for k, v := range normTab {
		norm[k] = v
	}
	if !c.P(0.3) {
		return norm, func() {}
	}
	c.Count("loaded_tables", 1)
	words := []string{"北京", "北京市", "广东", "广东省", "电信", "中国电信", "", "x", "v1", "v2", "4134", "中国", "深圳", "a b", " 北京", "北京 ", " "}
	for i := 1 + c.N(4); i > 0; i-- {
		f := pick(c, append([]string{"city", "province", "isp", "nosuch"}, fields...))
		var b strings.Builder
		for n := c.N(12); n > 0; n-- {
			switch c.N(12) {
			case 0:
				b.WriteString(pick(c, []string{"", "no separator", "#x", "北京"}))
			case 1:
				b.WriteString(pick(c, words) + "\t" + pick(c, words) + "\t" + pick(c, words))
			case 2:
				if c.P(0.2) {
					// a long line
					b.WriteString(strings.Repeat("长", 20000+c.N(20000)))
					if c.P(0.5) {
						b.WriteString("\tx")
					}
					c.Count("long_table_lines", 1)
				}
			default:
				// chains and cycles are likely
				b.WriteString(pick(c, words) + "\t" + pick(c, words))
			}
			if n > 1 || c.P(0.7) {
				b.WriteString(pick(c, []string{"\n", "\n", "\r\n"}))
			}
		}
		data.Load(f, b.String())
		norm[f] = parseNorm(b.String())
	}
	return norm, func() {
		for k := range data.NormalizedMap {
			delete(data.NormalizedMap, k)
		}
		data.LoadDefault()
	}
}

func caseC14(c *C) {
	fields := genNames(c)
	if c.P(0.5) {
		for _, f := range []string{"isp", "asn"} {
			if offsetOf(fields, f) < 0 {
				fields = append(fields, f)
			}
		}
		if c.P(0.5) {
			shuffle(c, fields)
		}
	}
	tabs, restore := loadTables(c, fields)
	defer restore()
	d := opsTable(c, fields, 30, 1+c.N(3), c.P(0.5))
	if c.P(0.2) {
		shuffle(c, d.Ips)
	}
	want := copyRows(c, d)
	c.Detail(map[string]any{"fields": fields, "rows": clip(fmt.Sprintf("%q", want), 3000)})
	norm := c.P(0.7)
	if norm {
		operate.ReplaceShortage(d)
		for i, r := range want {
			for k, f := range fields {
				if n, ok := tabs[f][r.Vals[k]]; ok {
					if n != r.Vals[k] {
						c.Count("replaced", 1)
					}
					want[i].Vals[k] = n
				}
			}
		}
		sameRows(c, "normalisation", d, fields, want)
	}
	isp, asn := offsetOf(fields, "isp"), offsetOf(fields, "asn")
	sets := ispSets(&Table{Fields: fields, Rows: want})
	// the same data again, to be unified by another call
	again := deepCopy(d)
	times := 1 + c.N(2)
	for i := 0; i < times; i++ {
		operate.TrimAsnIspDup(d)
	}
	got := toRows(c, d)
	if !eqStrings(d.Fields, fields) || len(got) != len(want) {
		c.Failf("ISP unification changed columns or the number of rows")
	}
	for i, r := range got {
		w := want[i]
		if r.Addr != w.Addr || r.Depth != w.Depth || len(r.Vals) != len(fields) {
			c.Failf("ISP unification changed network %s or its number of values", w)
		}
		for k := range fields {
			if k != isp && r.Vals[k] != w.Vals[k] {
				c.Failf("ISP unification changed %s of %s from %q to %q", fields[k], w, w.Vals[k], r.Vals[k])
			}
		}
		if isp < 0 {
			continue
		}
		before, after := w.Vals[isp], r.Vals[isp]
		may := asn >= 0 && !mainIsps[before] && w.Vals[asn] != "" && len(sets[w.Vals[asn]]) > 0
		switch {
		case may && !sets[w.Vals[asn]][after]:
			c.Failf("%s: ISP %q with ASN %q became %q, the ASN occurs on %v", w, before, w.Vals[asn], after, sortedKeys(sets[w.Vals[asn]]))
		case !may && after != before:
			a := ""
			if asn >= 0 {
				a = w.Vals[asn]
			}
			c.Failf("%s: ISP %q with ASN %q became %q", w, before, a, after)
		case may:
			c.Count("unified", 1)
		default:
			c.Count("left_alone", 1)
		}
	}
	c.Count("values_compared", len(got)*len(fields))
	operate.TrimAsnIspDup(again)
	if a, b := tableText(again), tableText(d); a != b {
		c.Failf("unifying the same data again gives another result:\n%s\n---\n%s", clip(a, 1000), clip(b, 1000))
	}
	c.Shape(fields, norm, tableText(d))
	if c.Idx < 3 {
		c.Sample(map[string]any{"fields": fields, "rows": len(got), "main_asns": len(sets)})
	}
}

func caseC15(c *C) {
	fields := genNames(c)
	fam := 1 + c.N(3)
	n := 1 + c.N(4)
	large := c.Idx%20000 == 777
	if large {
		n = 2
	}
	recs := genRecs(c, fields, n, valOpt{})
	_, leaves := genNets(c, fam, pick(c, []int{0, 1, 3, 8, 20, 50}), n, c.P(0.7))
	kind := c.N(25)
	if large {
		kind = -1
	}
	switch kind {
	case -1:
		// more networks are left than 16 bits count
		recs[1][0] = recs[0][0] + "2"
		leaves = nil
		for i := 0; i < 66000+c.N(9000); i++ {
			leaves = append(leaves, Leaf{v4Base.or(U128{0, uint64(i) << 8}), 120, i % 2})
		}
		c.Count("large_tables", 1)
	case 0:
		leaves = nil
	case 1:
		leaves = []Leaf{{U128{}, 0, 0}}
	case 2:
		leaves = []Leaf{{v4Base, 96, 0}}
	case 3:
		// all single addresses of a range that is not aligned
		lo := v4Base.or(U128{0, uint64(c.R.Uint32())})
		leaves = nil
		for i := c.N(40); i >= 0 && isMapped(lo); i-- {
			leaves = append(leaves, Leaf{lo, 128, c.N(n) * c.N(2)})
			lo = lo.add(one)
		}
	case 4:
		// a random range as its own cover, cut further
		lo := randU128(c)
		hi := lo.or(randU128(c).and(hostMask(c.N(129))))
		leaves = nil
		for _, x := range cover(lo, hi) {
			x.Val = 0
			if x.Depth < 128 && c.P(0.5) {
				leaves = append(leaves, Leaf{x.Addr, x.Depth + 1, 0}, Leaf{x.Addr.setBit(x.Depth), x.Depth + 1, 0})
				continue
			}
			leaves = append(leaves, x)
		}
	}
	if c.P(0.5) {
		// cut a few leaves so that neighbours are equal
		var l []Leaf
		for _, x := range leaves {
			if x.Depth < 127 && c.P(0.4) && !overMapped(x) {
				a, b := Leaf{x.Addr, x.Depth + 1, x.Val}, Leaf{x.Addr.setBit(x.Depth), x.Depth + 1, x.Val}
				l = append(l, a, b)
				continue
			}
			l = append(l, x)
		}
		leaves = l
	}
	d := mkTable(c, fields, recs, leaves, fam)
	src := copyRows(c, d)
	if len(src) == 0 {
		c.Count("empty_tables", 1)
	}
	want := mergeRef(src)
	c.Detail(map[string]any{"networks": clip(fmt.Sprint(src[:min(len(src), 5000)]), 4000)})
	version := *d.Version
	operate.MergeNearNetwork(d)
	if !eqStrings(d.Fields, fields) {
		c.Failf("merging changed the columns")
	}
	got := toRows(c, d)
	rowsEqual(c, "merged table", got, want)
	if int(d.Version.Count) != len(got) {
		c.Failf("the recorded count is %d, there are %d networks", d.Version.Count, len(got))
	}
	version.Count = d.Version.Count
	if version.String() != d.Version.String() {
		c.Failf("merging changed the version to %s", d.Version)
	}
	c.Count("networks_compared", len(got))
	if len(src) > len(got) {
		c.Count("joined", len(src)-len(got))
	}
	if c.P(0.2) {
		operate.MergeNearNetwork(d)
		rowsEqual(c, "table merged twice", toRows(c, d), want)
	}
	c.Shape(fmt.Sprint(leaves))
	if c.Idx < 3 {
		c.Sample(map[string]any{"before": len(src), "after": len(got)})
	}
}

func caseC16(c *C) {
	fields := genNames(c)
	if c.P(0.5) {
		for _, f := range []string{"country", "province"} {
			if offsetOf(fields, f) < 0 {
				fields = append([]string{f}, fields...)
			}
		}
	}
	fam := 1 + c.N(3)
	d := opsTable(c, fields, 30, fam, c.P(0.5))
	t := &Table{Fields: append([]string(nil), fields...), Rows: copyRows(c, d)}
	extra := append([]string(nil), d.Version.ExtraInfo...)
	version := *d.Version
	var names []string
	for k := 1 + c.N(4); k > 0; k-- {
		c.Detail(map[string]any{"fields": t.Fields, "steps": names, "rows": clip(fmt.Sprintf("%q", t.Rows), 3000)})
		step := c.N(4)
		absent := false
		switch step {
		case 0:
			names = append(names, "district")
			operate.AttachDistrict(d)
			if t.col("province") < 0 {
				c.Count("columns_absent", 1)
			}
			refDistrict(c, t)
		case 1, 2:
			ext, m, b := genLine(c)
			q := openBytes(c, ext, b)
			v := q.VersionInfo()
			extra = append(extra, fmt.Sprintf("%s-%d", v.Version, v.Build))
			if step == 1 {
				names = append(names, "line")
				operate.AttachLineByCidr(d, query.GetIntern(q))
			} else {
				names = append(names, "replace")
				operate.ReplaceLineByCidr(d, query.GetIntern(q))
			}
			if t.col("country") < 0 || step == 2 && t.col("isp") < 0 {
				absent = true
				c.Count("columns_absent", 1)
			}
			refLine(c, t, m, step == 2)
		case 3:
			names = append(names, "asn")
			list := map[string]string{}
			for _, a := range []string{"4134", "4837", "9808", "45090", "37963", "", "77"} {
				if c.P(0.5) {
					list[a] = pick(c, []string{"电信", "联通", "移动", "", "x"})
				}
			}
			ver := fmt.Sprintf("asn-%d", c.N(10))
			operate.AttachLineByAsn(d, list, ver)
			extra = append(extra, ver)
			a, l := t.col("asn"), t.col("line")
			if a < 0 {
				absent = true
				c.Count("columns_absent", 1)
				break
			}
			if l < 0 {
				t.Fields = append(append([]string(nil), t.Fields...), "line")
			}
			t.mapRows(func(v []string) []string {
				x, ok := list[v[a]]
				if ok {
					c.Count("asn_lines", 1)
				}
				if l < 0 {
					return append(v, x)
				}
				if ok {
					v[l] = x
				}
				return v
			})
		}
		sameRows(c, "after "+strings.Join(names, ", "), d, t.Fields, t.Rows)
		for _, r := range d.Ips {
			if len(r.FieldValues) != len(d.Fields) {
				c.Failf("after %q a row has %d values for %d fields", names, len(r.FieldValues), len(d.Fields))
			}
		}
		// the version says which line data is in the table, a step without the
		// columns it needs may or may not say so
		if absent && len(d.Version.ExtraInfo) == len(extra)-1 {
			extra = extra[:len(extra)-1]
		}
		if fmt.Sprintf("%q", d.Version.ExtraInfo) != fmt.Sprintf("%q", extra) {
			c.Failf("after %q the version's extra information is %q instead of %q", names, d.Version.ExtraInfo, extra)
		}
		extra = append([]string(nil), d.Version.ExtraInfo...)
		now := *d.Version
		now.ExtraInfo = version.ExtraInfo
		if !reflect.DeepEqual(now, version) {
			c.Failf("after %q the version is %+v instead of %+v", names, now, version)
		}
		c.Count("versions_compared", 1)
	}
	c.Shape(fields, names, tableText(d))
	if c.Idx < 3 {
		c.Sample(map[string]any{"fields": fields, "steps": names, "rows": len(d.Ips)})
	}
}
