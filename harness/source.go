package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Source is a database that can be dumped, in the reference's terms.
type Source struct {
	Ext     string
	Bytes   []byte
	V4      []Leaf // leaves of the IPv4 space, mapped to 128 bits; nil without IPv4
	V6      []Leaf // leaves of the IPv6 space without those inside the mapped block
	Names   []string
	Get     func(rec int, name string) string // value under a common name, "" when absent
	Type    int
	Ordered bool // Names are in the order of the columns
}

func (s *Source) full() bool {
	for _, l := range append(append([]Leaf(nil), s.V4...), s.V6...) {
		if l.Val < 0 {
			return false
		}
	}
	return true
}

// rows are the rows of the ideal dump: one per leaf, IPv4 first.
func (s *Source) leaves() []Leaf { return append(append([]Leaf(nil), s.V4...), s.V6...) }

// innerMapped says whether a leaf lies inside the IPv4-mapped block.
func innerMapped(l Leaf) bool { return l.Depth >= 96 && isMapped(l.Addr) }

// overMapped says whether a leaf contains the whole IPv4-mapped block.
func overMapped(l Leaf) bool { return l.Depth < 96 && v4Base.prefix(l.Depth) == l.Addr }

func v6Leaves(t *T) []Leaf {
	var l []Leaf
	for _, x := range t.leaves() {
		if !innerMapped(x) {
			l = append(l, x)
		}
	}
	return l
}

var ipdbCommon = map[string]string{"country": "country_name", "province": "region_name", "city": "city_name", "isp": "isp_domain", "asn": "asn",
	"continent": "continent_code", "utcOffset": "utc_offset", "latitude": "latitude", "longitude": "longitude", "chinaAdminCode": "china_admin_code",
	"district": "district", "line": "line"}

var awdbCommon = map[string]string{"country": "country", "province": "province", "city": "city", "isp": "isp", "asn": "asnumber", "continent": "continent", "line": "line"}

func ipdbSource(c *C, d *Ipdb) *Source {
	s := &Source{Ext: ".ipdb", Bytes: d.Encode(c), Type: d.Ver}
	root := d.Tree
	if root.leaf() {
		root = &T{L: &T{Val: root.Val}, R: &T{Val: root.Val}}
	}
	if d.Ver&1 != 0 {
		sub, dep := root.at(v4Base, 96)
		if dep < 96 {
			s.V4 = []Leaf{{v4Base, 96, sub.Val}}
		} else {
			sub.walk(v4Base, 96, func(a U128, dd, v int) { s.V4 = append(s.V4, Leaf{a, dd, v}) })
		}
	}
	if d.Ver&2 != 0 {
		s.V6 = v6Leaves(root)
	}
	col := map[string]int{}
	for i, f := range d.Fields {
		for n, in := range ipdbCommon {
			if in == f {
				col[n] = i
				s.Names = append(s.Names, n)
			}
		}
	}
	s.Get = func(rec int, name string) string {
		i, ok := col[name]
		if !ok {
			return ""
		}
		v := d.Recs[rec][i]
		if name == "continent" {
			if n, ok := contName[v]; ok {
				v = n
			}
		}
		return v
	}
	return s
}

func awdbSource(c *C, d *Awdb) *Source {
	s := &Source{Ext: ".awdb", Bytes: d.Encode(c), Names: []string{"country", "province", "city", "isp", "asn", "continent", "line"}}
	root := d.Tree
	if root.leaf() {
		root = &T{L: &T{Val: root.Val}, R: &T{Val: root.Val}}
	}
	if d.V == 4 {
		s.Type = 1
		for _, l := range root.leaves() {
			s.V4 = append(s.V4, Leaf{v4Base.or(l.Addr.shr(96)), l.Depth + 96, l.Val})
		}
	} else {
		s.Type = 2
		s.V6 = v6Leaves(root)
	}
	s.Get = func(rec int, name string) string { return d.Recs[rec][awdbCommon[name]] }
	return s
}

// scanSource writes a scan file with the given leaves and records.
func scanSource(c *C, fields []string, recs [][]string, leaves []Leaf, typ int) *Source {
	s := &Source{Ext: ".scan", Names: fields, Type: typ, Ordered: true}
	v := genVersion(c, typ)
	j, err := json.Marshal(v)
	if err != nil {
		harness("%v", err)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "#### scan dump\n#### %s\n#### %s\n", j, strings.Join(fields, ","))
	for _, l := range leaves {
		fmt.Fprintf(&b, "%s\t%s\n", mkNet(l.Addr, l.Depth, false), strings.Join(recs[l.Val], ","))
		if innerMapped(l) {
			s.V4 = append(s.V4, l)
		} else {
			s.V6 = append(s.V6, l)
		}
	}
	s.Bytes = []byte(b.String())
	s.Get = func(rec int, name string) string {
		for i, f := range fields {
			if f == name {
				return recs[rec][i]
			}
		}
		return ""
	}
	return s
}

type srcOpt struct {
	gaps    int // as in ipdbOpt
	vals    valOpt
	split   bool // the mapped block of dual-stack databases is split off
	noScan  bool
	maxRecs int
	n       int
	names   bool // records with plausible names
}

// genSource makes a database of any dumpable binary or scan format.
func genSource(c *C, o srcOpt) *Source {
	k := c.N(5)
	if o.noScan && k == 4 {
		k = c.N(4)
	}
	switch k {
	case 0, 1:
		d := genIpdb(c, ipdbOpt{gaps: o.gaps, vals: o.vals, maxRecs: o.maxRecs, n: o.n})
		if o.names {
			for _, r := range d.Recs {
				plausible(c, d.Fields, r, o.vals)
			}
			lookalikes(c, d.Recs, o.vals)
		}
		if o.split && d.Ver == 3 {
			if _, dep := d.Tree.at(v4Base, 96); dep < 96 {
				d.Tree.put(v4Base, 0, 96, &T{Val: c.N(len(d.Recs))})
			}
		}
		return ipdbSource(c, d)
	case 2, 3:
		d := genAwdb(c, awdbOpt{gaps: o.gaps, vals: o.vals, noBig: true, maxRecs: o.maxRecs, n: o.n})
		if o.names {
			for i, r := range d.Recs {
				v := make([]string, len(awdbKeys))
				for j, k := range awdbKeys {
					v[j] = r[k]
				}
				plausible(c, awdbKeys, v, o.vals)
				for j, k := range awdbKeys {
					if _, ok := r[k]; ok {
						d.Recs[i][k] = v[j]
					}
				}
			}
		}
		return awdbSource(c, d)
	default:
		fields := genNames(c)
		vo := o.vals
		vo.banned += ","
		mr := 40
		if o.maxRecs > 0 {
			mr = o.maxRecs
		}
		recs := genRecs(c, fields, 1+c.N(mr), vo)
		if o.names {
			for _, r := range recs {
				plausible(c, fields, r, vo)
			}
			lookalikes(c, recs, vo)
		}
		fam := 1 + c.N(3)
		n := o.n
		if n == 0 {
			n = c.N(60)
		}
		_, leaves := genNets(c, fam, n, len(recs), o.gaps != 1)
		var l []Leaf
		for _, x := range leaves {
			if fam == 2 && innerMapped(x) {
				continue
			}
			l = append(l, x)
		}
		// the library writes IPv4 first
		sort.SliceStable(l, func(i, j int) bool { return innerMapped(l[i]) && !innerMapped(l[j]) })
		return scanSource(c, fields, recs, l, fam)
	}
}

// names as real databases have them, so that the documented steps apply.
func plausible(c *C, fields []string, r []string, o valOpt) {
	for i, f := range fields {
		if !c.P(0.8) {
			continue
		}
		switch f {
		case "country", "country_name":
			r[i] = pick(c, []string{"中国", "中国", "美国", "日本", "保留地址", ""})
		case "province", "region_name":
			r[i] = pick(c, []string{"北京", "北京市", "广东", "广东省", "台湾", "中国台湾", "台湾省", "香港", "新疆维吾尔自治区", "内蒙古", "西藏", "", "加利福尼亚"})
			if c.P(0.3) {
				r[i] = pick(c, normKeys["province"])
			}
		case "city", "city_name":
			r[i] = pick(c, []string{"北京", "深圳市", "深圳", "", "x"})
			if c.P(0.5) {
				r[i] = pick(c, normKeys["city"])
			}
		case "isp", "isp_domain":
			r[i] = pick(c, []string{"电信", "联通", "移动", "铁通", "中国电信", "中国联通", "阿里云", "鹏博士", "教育网", ""})
			if c.P(0.2) {
				r[i] = pick(c, normKeys["isp"])
			}
		case "asn", "asnumber":
			r[i] = pick(c, []string{"", "4134", "4837", "9808", "45090", "37963", "4847", "1"})
		case "line":
			r[i] = pick(c, []string{"电信", "联通", "移动", "铁通", "阿里云", "电信/联通", "移动/x", "", "/电信"})
		}
		if !o.ok(r[i]) {
			r[i] = "v"
		}
	}
}

// normTab are the documented replacement tables, parsed here.
var normTab = map[string]map[string]string{}
var normKeys = map[string][]string{}

func parseNorm(text string) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if k, v, ok := strings.Cut(l, "\t"); ok {
			m[k] = v
		}
	}
	return m
}

// evalRule is the reference of an export rule: the columns and one row.
func ruleColumns(rule string) []string {
	return strings.Split(strings.Split(rule, "|")[0], ",")
}

func evalRule(rule string, get func(string) string) []string {
	groups := strings.Split(rule, "|")
	cols := strings.Split(groups[0], ",")
	vals := make([]string, len(cols))
	for i, n := range cols {
		vals[i] = get(n)
	}
	index := func(n string) int {
		for i, x := range cols {
			if x == n {
				return i
			}
		}
		return -1
	}
next:
	for _, g := range groups[1:] {
		parts := strings.Split(g, ",")
		head := strings.Split(parts[0], ":")
		if len(head) != 2 {
			continue
		}
		keep := append([]string{head[1]}, parts[1:]...)
		for _, n := range keep {
			if index(n) < 0 {
				continue next
			}
		}
		kv := strings.Split(head[0], "=")
		if len(kv) != 2 || index(kv[0]) < 0 {
			continue
		}
		not := strings.HasPrefix(kv[1], "!")
		alts := strings.Split(strings.TrimPrefix(kv[1], "!"), "/")
		in := false
		for _, a := range alts {
			if a == vals[index(kv[0])] {
				in = true
			}
		}
		if in == not {
			continue
		}
		out := make([]string, len(vals))
		for _, n := range keep {
			out[index(n)] = vals[index(n)]
		}
		vals = out
	}
	return vals
}
