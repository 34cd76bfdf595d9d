package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"strings"

	"github.com/qiniu/uip/db/inf"
)

// Awdb is a well-formed awdb database in the reference model. In an IPv4 file
// Tree is 32 bits wide (aligned left), in an IPv6 file IPv4 lives at ::/96.
type Awdb struct {
	V       int // 4 or 6
	Size    int // 24, 28 or 32
	Tree    *T
	Recs    []map[string]string
	Type    string
	Epoch   uint64
	Full    bool // metadata as large as it may be
	Langs   []string
	Big     int // filler in front of the records
	Pointer float64
	Extra   bool
	Typed   []*aval // in place of Recs

	nodes int
}

var awdbKeys = []string{"country", "province", "city", "isp", "asnumber", "continent", "line"}
var awdbOther = []string{"timezone", "latwgs", "lngwgs", "adcode", "accuracy", "areacode", "owner", "radius", "source", "zipcode", "a"}

type awdbOpt struct {
	v       int
	gaps    int
	n       int
	vals    valOpt
	allKeys bool
	noBig   bool
	maxRecs int
	huge    int
}

func genAwdb(c *C, o awdbOpt) *Awdb {
	d := &Awdb{V: o.v}
	if d.V == 0 {
		d.V = pick(c, []int{4, 4, 6})
	}
	d.Size = pick(c, []int{24, 28, 32})
	n := 1 + c.N(30)
	if o.maxRecs > 0 {
		n = 1 + c.N(o.maxRecs)
	}
	if o.vals.distinct == 0 {
		o.vals.distinct = 2 + c.N(30)
	}
	for i := 0; i < n; i++ {
		r := map[string]string{}
		for _, k := range awdbKeys {
			if o.allKeys || c.P(0.85) {
				r[k] = genField(c, k, o.vals)
				if !o.noBig && c.P(0.02) {
					l := pick(c, []int{28, 29, 30, 284, 285, 286, 540, 65820, 65821, 65822, 70000, 29 + c.N(256), 29 + c.N(256), 285 + c.N(2000)})
					r[k] = strings.Repeat("x", l-len(r[k])%7) + strings.Repeat("y", len(r[k])%7)
				}
			}
		}
		if c.P(0.4) {
			for _, k := range awdbOther {
				if c.P(0.3) {
					r[k] = genField(c, k, o.vals)
				}
			}
		}
		if c.P(0.01) {
			// what introduces the metadata may turn up elsewhere too
			r[pick(c, awdbOther)] = pick(c, []string{awdbMarker, "x" + awdbMarker, awdbMarker + "\xe0"})
		}
		if c.P(0.03) {
			for j := 0; j < 40; j++ {
				r["k"+string(rune('A'+j))] = "v"
			}
		}
		if c.rot {
			for k := range r {
				r[k] = rotated(r[k])
			}
		}
		d.Recs = append(d.Recs, r)
	}
	gaps := o.gaps == 2 || o.gaps == 0 && c.P(0.5)
	pn := o.n
	if pn == 0 {
		pn = pick(c, []int{0, 1, 2, 5, 10, 30, 60, 120})
	}
	if d.V == 4 {
		d.Tree = genTree(c, treeOpt{width: 32, vals: n, gaps: gaps, n: pn, hot: hot32})
		// an IPv4 file always knows 8.8.8.8
		g := U128{0x08080808 << 32, 0}
		if v, _ := d.Tree.find(g, 0); v < 0 {
			d.Tree.put(g, 0, pick(c, []int{1, 8, 24, 32}), &T{Val: c.N(n)})
		}
	} else {
		d.Tree = genTree(c, treeOpt{width: 128, vals: n, gaps: gaps, n: pn, hot: hot128})
		if c.P(0.85) {
			v4 := genTree(c, treeOpt{width: 32, vals: n, gaps: gaps, n: pn, hot: hot32})
			d.Tree.put(U128{}, 0, 96, v4)
			if c.P(0.3) {
				// aliases of the IPv4 part, as such files usually have them
				d.Tree.put(v4Base, 0, 96, v4)
				d.Tree.put(U128{0x2002 << 48, 0}, 0, 16, v4)
			}
		}
	}
	d.Type = pick(c, []string{"IP_city_single_WGS84_zh_net_awdb.awdb", "", "型", strings.Repeat("t", 300)})
	d.Epoch = pick(c, []uint64{1631571147, 1631571147, 0, 1, 1 << 31, uint64(c.N(1 << 30)), uint64(c.N(1 << 30)), 1<<32 + 5, 1 << 40})
	d.Full = c.P(0.03)
	d.Langs = pick(c, [][]string{{"cn"}, {}, {"cn", "en"}, {"zh"}})
	d.Pointer = pick(c, []float64{0, 0.3, 0.9})
	if !o.noBig && c.P(0.04) {
		d.Big = pick(c, []int{3000, 530000})
	}
	if o.huge > 0 {
		// records behind the reach of the low 24 bits of a node
		d.Big = o.huge
		d.Size = pick(c, []int{28, 32})
	}
	d.Extra = c.P(0.5)
	return d
}

type awEnc struct {
	c    *C
	b    []byte
	strs map[string]int
	ptr  float64
}

func (e *awEnc) ctrl(typ, size int) {
	var ext []byte
	first := byte(typ << 5)
	if typ > 7 {
		first = 0
		ext = []byte{byte(typ - 7)}
	}
	switch {
	case size < 29:
		e.b = append(append(e.b, first|byte(size)), ext...)
	case size < 285:
		e.b = append(append(e.b, first|29), ext...)
		e.b = append(e.b, byte(size-29))
	case size < 65821:
		e.b = append(append(e.b, first|30), ext...)
		e.b = append(e.b, byte((size-285)>>8), byte(size-285))
	default:
		e.b = append(append(e.b, first|31), ext...)
		s := size - 65821
		e.b = append(e.b, byte(s>>16), byte(s>>8), byte(s))
	}
}

func (e *awEnc) pointer(off int) {
	cls := 4
	switch {
	case off < 2048:
		cls = 1
	case off < 526336:
		cls = 2
	case off < 134744064:
		cls = 3
	}
	if e.c.P(0.15) {
		cls = 4
	}
	switch cls {
	case 1:
		e.b = append(e.b, 1<<5|0<<3|byte(off>>8), byte(off))
	case 2:
		o := off - 2048
		e.b = append(e.b, 1<<5|1<<3|byte(o>>16), byte(o>>8), byte(o))
	case 3:
		o := off - 526336
		e.b = append(e.b, 1<<5|2<<3|byte(o>>24), byte(o>>16), byte(o>>8), byte(o))
	case 4:
		// the low bits of the control byte are unused in this class
		low := byte(0)
		if e.c.P(0.3) {
			low = byte(e.c.N(8))
		}
		e.b = append(e.b, 1<<5|3<<3|low, byte(off>>24), byte(off>>16), byte(off>>8), byte(off))
	}
}

func (e *awEnc) str(s string) {
	if o, ok := e.strs[s]; ok && e.c.P(e.ptr) {
		e.pointer(o)
		return
	}
	if e.strs != nil {
		e.strs[s] = len(e.b)
	}
	e.ctrl(2, len(s))
	e.b = append(e.b, s...)
}

func (e *awEnc) uint(typ int, v uint64) {
	n := 0
	for x := v; x > 0; x >>= 8 {
		n++
	}
	if e.c.P(0.2) && n < 2 {
		n = 2
	}
	e.ctrl(typ, n)
	for i := n - 1; i >= 0; i-- {
		e.b = append(e.b, byte(v>>(8*i)))
	}
}

// junk is a value of any type for a key the reader has to skip.
func (e *awEnc) junk(depth int) {
	switch e.c.N(9) {
	case 0:
		e.str("junk")
	case 1:
		e.ctrl(3, 8)
		e.b = binary.BigEndian.AppendUint64(e.b, math.Float64bits(1.5))
	case 2:
		e.ctrl(14, e.c.N(2))
	case 3:
		e.ctrl(8, 4)
		e.b = append(e.b, 0xff, 0xff, 0xff, 0xfe)
	case 4:
		e.ctrl(4, 5)
		e.b = append(e.b, "bytes"...)
	case 5:
		e.ctrl(15, 4)
		e.b = binary.BigEndian.AppendUint32(e.b, math.Float32bits(2.5))
	case 6:
		e.uint(9, 1<<40)
	case 7:
		if depth > 2 {
			e.uint(5, 7)
			return
		}
		n := e.c.N(3)
		e.ctrl(7, n)
		for i := 0; i < n; i++ {
			e.str("jk")
			e.junk(depth + 1)
		}
	default:
		if depth > 2 {
			e.uint(6, 7)
			return
		}
		n := e.c.N(3)
		e.ctrl(11, n)
		for i := 0; i < n; i++ {
			e.junk(depth + 1)
		}
	}
}

const awdbMarker = "\xAB\xCD\xEFipplus360.com"

func (d *Awdb) Encode(c *C) []byte {
	root := d.Tree
	if root.leaf() {
		root = &T{L: &T{Val: root.Val}, R: &T{Val: root.Val}}
	}
	num := map[*T]int{}
	order := []*T{}
	seen := map[*T]bool{root: true}
	q := []*T{root}
	dfs := c.P(0.5)
	for len(q) > 0 {
		var t *T
		if dfs {
			t = q[len(q)-1]
			q = q[:len(q)-1]
		} else {
			t = q[0]
			q = q[1:]
		}
		if t.leaf() {
			continue
		}
		num[t] = len(order)
		order = append(order, t)
		for _, k := range []*T{t.L, t.R} {
			if !seen[k] {
				seen[k] = true
				q = append(q, k)
			}
		}
	}
	n := len(order)
	d.nodes = n
	e := &awEnc{c: c, strs: map[string]int{}, ptr: d.Pointer}
	if c.P(0.5) {
		// a pool of strings in front of the records
		for _, k := range awdbKeys {
			e.str(k)
		}
	}
	if d.Big > 0 {
		for left := d.Big; left > 0; {
			n := min(left, 1<<24)
			e.ctrl(2, n)
			e.b = append(e.b, make([]byte, n)...)
			left -= n
		}
	}
	offs := make([]int, len(d.Recs))
	at := map[*aval]int{}
	for _, i := range c.R.Perm(len(d.Recs)) {
		if d.Typed != nil {
			if o, ok := at[d.Typed[i]]; ok && c.P(0.7) {
				offs[i] = o
				continue
			}
			offs[i] = len(e.b)
			e.val(d.Typed[i], at)
			continue
		}
		offs[i] = len(e.b)
		keys := sortedKeys(d.Recs[i])
		shuffle(c, keys)
		e.ctrl(7, len(keys))
		for _, k := range keys {
			e.str(k)
			e.str(d.Recs[i][k])
		}
	}
	slot := func(t *T) uint32 {
		if !t.leaf() {
			return uint32(num[t])
		}
		if t.Val < 0 {
			return uint32(n)
		}
		return uint32(n + 16 + offs[t.Val])
	}
	var out []byte
	for _, t := range order {
		l, r := slot(t.L), slot(t.R)
		switch d.Size {
		case 24:
			out = append(out, byte(l>>16), byte(l>>8), byte(l), byte(r>>16), byte(r>>8), byte(r))
		case 28:
			out = append(out, byte(l>>16), byte(l>>8), byte(l), byte(l>>24)<<4|byte(r>>24)&0x0f, byte(r>>16), byte(r>>8), byte(r))
		case 32:
			out = binary.BigEndian.AppendUint32(out, l)
			out = binary.BigEndian.AppendUint32(out, r)
		}
	}
	out = append(out, make([]byte, 16)...)
	out = append(out, e.b...)
	out = append(out, awdbMarker...)
	return append(out, d.meta(c, n)...)
}

func (d *Awdb) meta(c *C, n int) []byte {
	m := &awEnc{c: c}
	if d.Full {
		d.Type = strings.Repeat("f", 1000)
	} else if c.P(0.3) {
		m.strs, m.ptr = map[string]int{}, 0.8
	}
	entries := []func(){
		func() { m.str("binary_format_major_version"); m.uint(5, 2) },
		func() { m.str("binary_format_minor_version"); m.uint(5, 0) },
		func() { m.str("build_epoch"); m.uint(9, d.Epoch) },
		func() { m.str("database_type"); m.str(d.Type) },
		func() {
			m.str("description")
			m.ctrl(7, 2)
			m.str("cn")
			m.str("埃文科技")
			m.str("data_version")
			m.str("20210914")
		},
		func() { m.str("ip_version"); m.uint(5, uint64(d.V)) },
		func() {
			m.str("languages")
			m.ctrl(11, len(d.Langs))
			for _, l := range d.Langs {
				m.str(l)
			}
		},
		func() { m.str("node_count"); m.uint(6, uint64(n)) },
		func() { m.str("record_size"); m.uint(5, uint64(d.Size)) },
	}
	if d.Extra {
		for i := 1 + c.N(3); i > 0; i-- {
			entries = append(entries, func() { m.str("unknown"); m.junk(0) })
		}
	}
	if c.P(0.7) {
		shuffle(c, entries)
	}
	m.ctrl(7, len(entries))
	for _, f := range entries {
		f()
	}
	if i := bytes.Index(m.b, []byte(d.Type)); d.Full && i > 2 {
		// readers look at the last 2000 bytes
		d.Type = strings.Repeat("f", 1000+2000-len(awdbMarker)-len(m.b)-c.N(3))
		n := len(d.Type) - 285
		m.b = append(append(append(append([]byte{}, m.b[:i-2]...), byte(n>>8), byte(n)), d.Type...), m.b[i+1000:]...)
		c.Count("full_metadata", 1)
	}
	return m.b
}

func (d *Awdb) Info(rec int) inf.IpInfo {
	r := d.Recs[rec]
	return inf.IpInfo{Country: r["country"], Province: r["province"], City: r["city"], Isp: r["isp"], Asn: r["asnumber"], Continent: r["continent"], Line: r["line"]}
}

// Query is the reference lookup; a is a 128 bit address, IPv4 as mapped.
func (d *Awdb) Query(a U128) Answer {
	v4 := isMapped(a)
	if d.V == 4 {
		if !v4 {
			return Answer{Err: true}
		}
		root := d.Tree
		if root.leaf() {
			root = &T{L: &T{Val: root.Val}, R: &T{Val: root.Val}}
		}
		val, depth := root.find(a.shl(96), 0)
		if val < 0 {
			return Answer{Err: true}
		}
		return Answer{Info: d.Info(val), Mask: depth, Rec: val}
	}
	if v4 {
		a = U128{0, a.Lo & 0xffffffff}
	}
	root := d.Tree
	if root.leaf() {
		root = &T{L: &T{Val: root.Val}, R: &T{Val: root.Val}}
	}
	val, depth := root.find(a, 0)
	if val < 0 {
		return Answer{Err: true}
	}
	if v4 && depth >= 96 {
		depth -= 96
	}
	return Answer{Info: d.Info(val), Mask: depth, Rec: val}
}

// awProbes lists addresses worth asking.
func awProbes(c *C, d *Awdb, limit int) []U128 {
	var out []U128
	if d.V == 4 {
		ls := d.Tree.leaves()
		shuffle(c, ls)
		for _, l := range ls {
			if len(out) >= limit {
				break
			}
			h := hostMask(l.Depth)
			for _, a := range []U128{l.Addr, l.Addr.or(h), l.Addr.or(randU128(c).and(h))} {
				out = append(out, v4Base.or(a.shr(96)))
			}
		}
		for i := 0; i < limit/8; i++ {
			out = append(out, v4Base.or(U128{0, uint64(c.R.Uint32())}), v4Base.or(U128{0, pick(c, hot32).Hi >> 32}))
		}
		return out
	}
	out = probes(c, d.Tree, 2, limit)
	// IPv4 addresses are looked up below ::/96
	sub, _ := d.Tree.at(U128{}, 96)
	var l4 []Leaf
	sub.walk(U128{}, 96, func(a U128, dep, v int) { l4 = append(l4, Leaf{a, dep, v}) })
	shuffle(c, l4)
	for i, l := range l4 {
		if i*3 > limit {
			break
		}
		h := hostMask(l.Depth)
		for _, a := range []U128{l.Addr, l.Addr.or(h), l.Addr.or(randU128(c).and(h))} {
			out = append(out, v4Base.or(a))
		}
	}
	return out
}
