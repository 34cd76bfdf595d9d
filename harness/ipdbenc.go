package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/inf"
)

// Ipdb is a well-formed ipdb database in the reference model. Tree is rooted
// at the 128 bit space, IPv4 lives at ::ffff:0:0/96.
type Ipdb struct {
	Tree    *T
	Ver     int // 1, 2 or 3
	Fields  []string
	Recs    [][]string
	Langs   map[string]int // language -> group number
	Groups  int
	Order   int // node numbering: 0 breadth first, 1 depth first, 2 shuffled
	Pad     int
	Dedup   bool
	Build   int64
	Version string
	Extra   []string
	HasVer  bool
	Share   bool // equal subtrees are linked several times
	MetaJ   bool // unknown keys and another key order in the metadata

	nodes int
}

var ipdbFieldPool = []string{"country_name", "region_name", "city_name", "isp_domain", "continent_code", "asn", "line", "district"}
var ipdbOtherFields = []string{"owner_domain", "timezone", "utc_offset", "latitude", "longitude", "china_admin_code", "idd_code", "country_code", "idc", "anycast", "x", "ISP_DOMAIN", "Country_Name", "city_name ", "Continent_Code", "Line", "ASN", "regionname"}

func genIpdbFields(c *C) []string {
	var f []string
	switch c.N(4) {
	case 0:
		f = append(f, ipdbFieldPool...)
	case 1:
		f = append(f, pick(c, ipdbFieldPool))
	default:
		for _, x := range ipdbFieldPool {
			if c.P(0.7) {
				f = append(f, x)
			}
		}
	}
	for _, x := range ipdbOtherFields {
		if c.P(0.12) {
			f = append(f, x)
		}
	}
	if len(f) == 0 {
		f = []string{"country_name"}
	}
	if c.P(0.01) {
		for i := 30 + c.N(300); i > 0; i-- {
			f = append(f, fmt.Sprintf("c%d", i))
		}
	}
	if c.P(0.7) {
		shuffle(c, f)
	}
	return f
}

type ipdbOpt struct {
	ver     int // 0: any
	gaps    int // 0 any, 1 none, 2 some
	n       int // prefixes
	vals    valOpt
	fields  []string
	simple  bool // CN only, no freedom in the encoding
	noCN    bool
	hot     []U128
	maxRecs int
}

func warmupHot32() []U128 {
	var l []U128
	for _, w := range warmup {
		var a, b, cc, d uint32
		if n, _ := fmt.Sscanf(w, "%d.%d.%d.%d", &a, &b, &cc, &d); n == 4 {
			l = append(l, U128{uint64(a<<24|b<<16|cc<<8|d) << 32, 0})
		}
	}
	return l
}

var warm32 = warmupHot32()

// Addresses that are special to people but not to a lookup: private, shared,
// loopback, link-local, documentation, multicast and well-known ones.
var special32 = []uint32{0x7f000001, 0x7f000000, 0x0a000000, 0x0a0a0a0a, 0xc0a80000, 0xc0a80101, 0xac100000, 0xac1fffff, 0xa9fe0000, 0xa9fea9fe,
	0x64400000, 0xe0000000, 0xe0000001, 0xf0000000, 0xffffffff, 0xfffffffe, 0x00000000, 0x00000001, 0xc0000200, 0xc6336400, 0xcb007100, 0xc6120000,
	0xc0586301, 0x01010101, 0x08080808, 0x771d1d1d, 0x72727272, 0xdf050505}

var hot32 = func() []U128 {
	l := append([]U128(nil), warm32...)
	for range 6 { // the warm-up list is long
		for _, a := range special32 {
			l = append(l, U128{uint64(a) << 32, 0})
		}
	}
	return l
}()

var hot128 = []U128{{0x20010000 << 32, 0x3fff_fdd2}, {0x2001000053aa064c, 0x1851_7f57_35ec_f4a3}, {0xfe80 << 48, 0}, {0xfe80 << 48, 0x5efe_7f00_0001}, {0xfe80 << 48, 0x0200_5efe_c0a8_0101},
	{0x2002_7f00_0001 << 16, 1}, {0x2002_c0a8_0101 << 16, 0}, {0x0064ff9b << 32, 0x0a00_0001}, {0x0064ff9b_0001 << 16, 0}, {0xfc00 << 48, 0}, {0xfd00 << 48, 1}, {0xfec0 << 48, 0},
	{0xff00 << 48, 0}, {0xff02 << 48, 1}, {0x20010db8 << 32, 0}, {0x20010db8 << 32, 1}, {0x0100 << 48, 0}, {0x3ffe << 48, 0}, {0x20010010 << 32, 0},
	{0, 0x7f00_0001}, {0, 0x0808_0808}, {0, 0xffff_0000_0808_0808}, {0x20014860_4860_0000, 0x8844}, {0x24003200_2000_00b2 &^ 0xff, 1},
	{}, {0, 1}, v4Base, v4Base.sub(one), {0, 1 << 48}, {0, 0xfffe << 32}, {0x2001486048600000, 0x8888}, {0x2606470047000000, 0x1111},
	{0x2002 << 48, 0}, {0x0064ff9b << 32, 0}, maxU128, {1 << 63, 0}, {0x2000 << 48, 0}, {0x240e << 48, 0}}

// Bulk gives the database so many long records that their positions need all
// four bytes.
func (d *Ipdb) Bulk(c *C) {
	d.Recs = bulky(c, d.Fields, 24<<10)
	n := len(d.Recs)
	o := treeOpt{width: 128, vals: n, gaps: c.P(0.5), n: 2 * n, hot: hot128}
	d.Tree = genTree(c, o)
	o.width, o.hot = 32, hot32
	d.Tree.put(v4Base, 0, 96, genTree(c, o))
	i := 0
	d.Tree.spread(n, &i)
	d.Groups = 1
	if _, ok := d.Langs["CN"]; ok {
		d.Langs = map[string]int{"CN": 0}
	} else {
		d.Langs = map[string]int{"EN": 0}
	}
	c.Count("huge_files", 1)
}

func genIpdb(c *C, o ipdbOpt) *Ipdb {
	d := &Ipdb{Ver: o.ver, Fields: o.fields}
	if d.Ver == 0 {
		d.Ver = pick(c, []int{1, 1, 2, 3, 3})
	}
	if d.Fields == nil {
		d.Fields = genIpdbFields(c)
	}
	nrec := 1 + c.N(40)
	if o.maxRecs > 0 {
		nrec = 1 + c.N(o.maxRecs)
	}
	d.Recs = genRecs(c, d.Fields, nrec, o.vals)
	gaps := o.gaps == 2 || o.gaps == 0 && c.P(0.5)
	n := o.n
	if n == 0 {
		n = pick(c, []int{0, 1, 2, 5, 10, 30, 60, 120})
	}
	hot := append(append([]U128(nil), hot32...), o.hot...)
	v4 := func() *T { return genTree(c, treeOpt{width: 32, vals: nrec, gaps: gaps, n: n, hot: hot}) }
	v6 := func() *T {
		return genTree(c, treeOpt{width: 128, vals: nrec, gaps: gaps, n: n, hot: hot128})
	}
	switch d.Ver {
	case 1:
		d.Tree = &T{Val: -1}
		if c.P(0.2) {
			// IPv4 answers do not depend on what lies beside the IPv4 block
			d.Tree = v6()
		}
		d.Tree.put(v4Base, 0, 96, v4())
	case 2:
		d.Tree = v6()
	case 3:
		d.Tree = v6()
		if !c.P(0.15) {
			// otherwise IPv4 is whatever the IPv6 leaves say
			d.Tree.put(v4Base, 0, 96, v4())
		}
	}
	d.Pad, d.Groups, d.Dedup = 8, 1, true
	d.Langs = map[string]int{"CN": 0}
	d.Build = 1500000000 + int64(c.N(400000000))
	if o.simple {
		return d
	}
	if c.P(0.1) {
		d.Build = pick(c, []int64{0, 1, 86399, 1<<31 - 1, 1 << 31, 1<<32 + 5, 4102444800, 253402300799})
	}
	if c.P(0.15) {
		d.Pad = pick(c, []int{1, 2, 12, 16, 64})
	}
	d.Order = c.N(3)
	d.Dedup = c.P(0.8)
	d.Share = c.P(0.12)
	if c.P(0.4) {
		d.Groups = 1 + c.few(3)
		if longest := longestRec(d.Recs); d.Groups > 3 && longest+d.Groups*len(d.Fields)*14 > 60000 {
			d.Groups = 3
		}
		g := c.R.Perm(d.Groups)
		d.Langs["CN"] = g[0]
		for i := 1; i < d.Groups; i++ {
			d.Langs[[]string{"EN", "JA", fmt.Sprintf("L%d", i)}[min(i-1, 2)]] = g[i]
		}
	}
	if len(d.Fields)*d.Groups > 256 {
		c.Count("wide_records", 1)
	}
	if o.noCN {
		delete(d.Langs, "CN")
		d.Langs["EN"] = 0
	}
	d.MetaJ = c.P(0.5)
	if c.P(0.5) {
		d.HasVer = true
		d.Version = pick(c, []string{"20230101", "v1", "版本", "a\"b", "ipip.net-2020-01-01", " v 1 ", "\u3000", " ", "2023-01-01\n", "\t", "0", "null", "-"})
		for i := c.few(3); i > 0; i-- {
			d.Extra = append(d.Extra, fmt.Sprintf("extra-%d", c.N(100)))
		}
	}
	return d
}

func longestRec(recs [][]string) int {
	n := 0
	for _, r := range recs {
		n = max(n, len(strings.Join(r, "\t")))
	}
	return n
}

// shareTree returns the same tree with equal subtrees linked several times. It
// keeps the tree as it is if that saves more than a reader can be asked to
// expect.
func shareTree(root *T) *T {
	type key struct {
		l, r *T
		v    int
	}
	known := map[key]*T{}
	nodes, leaves := 1, 0
	var rec func(t *T) *T
	rec = func(t *T) *T {
		k := key{v: t.Val}
		if t.leaf() {
			leaves++
		} else {
			k = key{l: rec(t.L), r: rec(t.R)}
		}
		if o := known[k]; o != nil {
			return o
		}
		o := &T{L: k.l, R: k.r, Val: k.v}
		if k.l != nil {
			nodes++
		}
		known[k] = o
		return o
	}
	o := rec(root)
	if leaves > 40*nodes {
		return root
	}
	return o
}

// Encode writes the file.
func (d *Ipdb) Encode(c *C) []byte {
	var order []*T
	num := map[*T]int{}
	root := d.Tree
	if root.leaf() {
		// the root is always a node
		root = &T{L: &T{Val: root.Val}, R: &T{Val: root.Val}}
	}
	if d.Share {
		root = shareTree(root)
		c.Count("shared_subtrees", 1)
	}
	seen := map[*T]bool{}
	switch d.Order {
	case 0, 2:
		q := []*T{root}
		for len(q) > 0 {
			t := q[0]
			q = q[1:]
			if t.leaf() || seen[t] {
				continue
			}
			seen[t] = true
			order = append(order, t)
			q = append(q, t.L, t.R)
		}
		if d.Order == 2 {
			rest := order[1:]
			shuffle(c, rest)
		}
	default:
		var rec func(t *T)
		rec = func(t *T) {
			if t.leaf() || seen[t] {
				return
			}
			seen[t] = true
			order = append(order, t)
			rec(t.L)
			rec(t.R)
		}
		rec(root)
	}
	for i, t := range order {
		num[t] = i
	}
	n := len(order)
	d.nodes = n
	var data []byte
	data = append(data, make([]byte, d.Pad)...)
	for i := 0; i+4 <= d.Pad; i += 4 {
		binary.BigEndian.PutUint32(data[i:], uint32(n))
	}
	type key struct {
		val int
		txt string
	}
	offs := map[string]int{}
	record := func(v int) int {
		k := fmt.Sprint(v)
		var cols []string
		cn, ok := d.Langs["CN"]
		if !ok {
			cn = -1
		}
		for g := 0; g < d.Groups; g++ {
			for i := range d.Fields {
				if g == cn {
					cols = append(cols, d.Recs[v][i])
				} else {
					cols = append(cols, fmt.Sprintf("other%d-%d-%d", g, v%7, i))
				}
			}
		}
		txt := strings.Join(cols, "\t")
		if d.Dedup {
			k = txt
		}
		if o, ok := offs[k]; ok && (d.Dedup || c.P(0.5)) {
			return o
		}
		o := len(data)
		data = binary.BigEndian.AppendUint16(data, uint16(len(txt)))
		data = append(data, txt...)
		offs[k] = o
		return o
	}
	nodes := make([]byte, 0, n*8)
	slot := func(t *T) uint32 {
		if !t.leaf() {
			return uint32(num[t])
		}
		if t.Val < 0 {
			return uint32(n)
		}
		return uint32(n + record(t.Val))
	}
	for _, t := range order {
		nodes = binary.BigEndian.AppendUint32(nodes, slot(t.L))
		nodes = binary.BigEndian.AppendUint32(nodes, slot(t.R))
	}
	langs := map[string]int{}
	for l, g := range d.Langs {
		langs[l] = g * len(d.Fields)
	}
	meta := map[string]any{"build": d.Build, "ip_version": d.Ver, "languages": langs, "node_count": n, "total_size": len(nodes) + len(data), "fields": d.Fields}
	if d.HasVer {
		meta["version"] = d.Version
		meta["extra"] = d.Extra
	}
	keys := sortedKeys(meta)
	if d.MetaJ {
		shuffle(c, keys)
		if c.P(0.5) {
			meta["comment"] = "unknown key"
			keys = append(keys, "comment")
		}
	} else {
		sort.Strings(keys)
	}
	var mj strings.Builder
	mj.WriteByte('{')
	for i, k := range keys {
		if i > 0 {
			mj.WriteByte(',')
		}
		b, err := json.Marshal(meta[k])
		if err != nil {
			harness("meta: %v", err)
		}
		fmt.Fprintf(&mj, "%q:%s", k, b)
	}
	mj.WriteByte('}')
	out := binary.BigEndian.AppendUint32(nil, uint32(mj.Len()))
	out = append(out, mj.String()...)
	out = append(out, nodes...)
	return append(out, data...)
}

// Answer is what the reference says about one address.
type Answer struct {
	Err  bool
	Info inf.IpInfo
	Mask int
	Rec  int
}

// Info maps a record to the result the library documents.
func (d *Ipdb) Info(rec int) inf.IpInfo {
	var r inf.IpInfo
	for i, f := range d.Fields {
		v := d.Recs[rec][i]
		switch f {
		case "country_name":
			r.Country = v
		case "region_name":
			r.Province = v
		case "city_name":
			r.City = v
		case "isp_domain":
			r.Isp = v
		case "asn":
			r.Asn = v
		case "continent_code":
			if n, ok := contName[v]; ok {
				v = n
			}
			r.Continent = v
		case "line":
			r.Line = v
		case "district":
			r.District = v
		}
	}
	return r
}

// Query is the reference lookup.
func (d *Ipdb) Query(a U128) Answer {
	v4 := isMapped(a)
	if v4 && d.Ver&1 == 0 || !v4 && d.Ver&2 == 0 {
		return Answer{Err: true}
	}
	if _, ok := d.Langs["CN"]; !ok {
		return Answer{Err: true}
	}
	root := d.Tree
	if root.leaf() {
		root = &T{L: &T{Val: root.Val}, R: &T{Val: root.Val}}
	}
	val, depth := root.find(a, 0)
	if val < 0 {
		return Answer{Err: true}
	}
	if v4 {
		depth = max(0, depth-96)
	}
	return Answer{Info: d.Info(val), Mask: depth, Rec: val}
}

// probes lists addresses worth asking: both ends and the inside of leaves.
func probes(c *C, t *T, ver int, limit int) []U128 {
	var out []U128
	ls := t.leaves()
	shuffle(c, ls)
	add := func(a U128) {
		if isMapped(a) && ver&1 != 0 || !isMapped(a) && ver&2 != 0 {
			out = append(out, a)
		}
	}
	for _, l := range ls {
		h := hostMask(l.Depth)
		last := l.Addr.or(h)
		add(l.Addr)
		add(last)
		add(l.Addr.or(randU128(c).and(h)))
		if len(out) >= limit {
			break
		}
	}
	// the IPv4 side needs its own share in dual-stack trees
	if ver&1 != 0 {
		sub, _ := t.at(v4Base, 96)
		var l4 []Leaf
		sub.walk(v4Base, 96, func(a U128, d, v int) { l4 = append(l4, Leaf{a, d, v}) })
		shuffle(c, l4)
		for i, l := range l4 {
			if i*3 >= limit {
				break
			}
			if l.Depth > 128 {
				continue
			}
			h := hostMask(l.Depth)
			if l.Depth < 96 {
				h = hostMask(96)
			}
			add(l.Addr.or(h))
			add(l.Addr)
			add(l.Addr.or(randU128(c).and(h)))
		}
		for i := 0; i < limit/8; i++ {
			add(v4Base.or(U128{0, uint64(c.R.Uint32())}))
			add(v4Base.or(U128{0, pick(c, hot32).Hi >> 32}))
		}
	}
	if ver&2 != 0 {
		for i := 0; i < limit/8; i++ {
			a := randU128(c)
			add(a)
			add(pick(c, hot128))
			a.Hi = a.Hi>>3 | 1<<61
			add(a)
		}
	}
	return out
}
