package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/inf"
)

// Row is one row of a table in the reference's terms: a prefix of the 128 bit
// space (IPv4 at ::ffff:0:0/96).
type Row struct {
	Addr  U128
	Depth int
	Vals  []string
}

func (r Row) last() U128 { return r.Addr.or(hostMask(r.Depth)) }
func (r Row) v4() bool   { return r.Depth >= 96 && isMapped(r.Addr) }
func (r Row) String() string {
	if r.v4() {
		return fmt.Sprintf("%s/%d", v4IP(uint32(r.Addr.Lo)), r.Depth-96)
	}
	return fmt.Sprintf("%s/%d", u128IP(r.Addr), r.Depth)
}

// toPrefix reads a network the library returned; it must be canonical.
func toPrefix(c *C, n *net.IPNet) (U128, int) {
	if n == nil {
		c.Failf("a row has no network")
	}
	ones, bits := n.Mask.Size()
	if bits == 0 || len(n.IP) != 4 && len(n.IP) != 16 {
		c.Failf("broken network %v (ip %d bytes, mask %v)", n, len(n.IP), n.Mask)
	}
	a := ipU128(n.IP)
	d := ones
	if bits == 32 {
		if !isMapped(a) {
			c.Failf("broken network %v: IPv4 mask on an IPv6 address", n)
		}
		d += 96
	} else if len(n.IP) == 4 {
		c.Failf("broken network %v: IPv6 mask on an IPv4 address", n)
	}
	if a.and(hostMask(d)) != (U128{}) {
		c.Failf("network %v has host bits set", n)
	}
	return a, d
}

func toRows(c *C, d *inf.IpData) []Row {
	rows := make([]Row, 0, len(d.Ips))
	for _, r := range d.Ips {
		a, dep := toPrefix(c, r.Cidr)
		rows = append(rows, Row{a, dep, r.FieldValues})
	}
	return rows
}

// cidr makes a network in one of the forms the library itself uses: 4-byte
// address and mask, or 16-byte address and mask.
func mkNet(a U128, depth int, form16 bool) *net.IPNet {
	if !form16 && depth >= 96 && isMapped(a) {
		return &net.IPNet{IP: v4IP(uint32(a.Lo)), Mask: net.CIDRMask(depth-96, 32)}
	}
	return &net.IPNet{IP: u128IP(a), Mask: net.CIDRMask(depth, 128)}
}

// cover is the minimal CIDR cover of [lo, hi], computed from scratch.
func cover(lo, hi U128) []Leaf {
	var out []Leaf
	for {
		// the largest aligned block that starts at lo and ends by hi
		size := lo.trailingZeros() // block of 2^size addresses
		for size > 0 {
			last := lo.or(hostMask(128 - size))
			if !hi.less(last) {
				break
			}
			size--
		}
		out = append(out, Leaf{Addr: lo, Depth: 128 - size})
		last := lo.or(hostMask(128 - size))
		if !last.less(hi) {
			return out
		}
		lo = last.add(one)
	}
}

// mergeRef is the reference of merging neighbouring networks.
func mergeRef(rows []Row) []Row {
	var out []Row
	for i := 0; i < len(rows); {
		lo, hi := rows[i].Addr, rows[i].last()
		j := i + 1
		for j < len(rows) && hi != maxU128 && rows[j].Addr == hi.add(one) && eqStrings(rows[j].Vals, rows[i].Vals) {
			hi = rows[j].last()
			j++
		}
		for _, l := range cover(lo, hi) {
			out = append(out, Row{l.Addr, l.Depth, rows[i].Vals})
		}
		i = j
	}
	return out
}

// findRow locates the row that covers an address in sorted disjoint rows.
func findRow(rows []Row, a U128) int {
	i := sort.Search(len(rows), func(i int) bool { return a.less(rows[i].Addr) }) - 1
	if i >= 0 && !rows[i].last().less(a) {
		return i
	}
	return -1
}

func sortRows(rows []Row) []Row {
	out := append([]Row(nil), rows...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Addr.less(out[j].Addr) })
	return out
}

// genNets makes disjoint networks with record numbers; fam 1, 2 or 3.
func genNets(c *C, fam int, n int, vals int, gaps bool) (*T, []Leaf) {
	t := &T{Val: -1}
	if fam&2 != 0 {
		t = genTree(c, treeOpt{width: 128, vals: vals, gaps: gaps, n: n, hot: hot128})
	}
	if fam == 2 && c.P(0.7) {
		t.put(v4Base, 0, 96, &T{Val: -1})
	}
	if fam&1 != 0 {
		t.put(v4Base, 0, 96, genTree(c, treeOpt{width: 32, vals: vals, gaps: gaps, n: n, hot: hot32}))
	}
	var l []Leaf
	for _, x := range t.leaves() {
		if x.Val >= 0 {
			l = append(l, x)
		}
	}
	return t, l
}

var commonNames = []string{"country", "province", "city", "isp", "asn", "continent", "line", "district"}
var otherNames = []string{"utcOffset", "latitude", "longitude", "chinaAdminCode", "owner", "x", "备注"}

func genNames(c *C) []string {
	var f []string
	if c.P(0.3) {
		f = append(f, commonNames...)
	} else {
		for _, x := range commonNames {
			if c.P(0.6) {
				f = append(f, x)
			}
		}
	}
	for _, x := range otherNames {
		if c.P(0.12) {
			f = append(f, x)
		}
	}
	if len(f) == 0 {
		f = []string{pick(c, commonNames)}
	}
	if c.P(0.005) {
		for i := 30 + c.N(300); i > 0; i-- {
			f = append(f, fmt.Sprintf("c%d", i))
		}
	}
	if c.P(0.7) {
		shuffle(c, f)
	}
	return f
}

// mkTable builds an IpData; rows with equal records may share their values.
func mkTable(c *C, fields []string, recs [][]string, leaves []Leaf, fam int) *inf.IpData {
	d := &inf.IpData{Fields: append([]string(nil), fields...), Version: genVersion(c, fam)}
	share := c.N(3)
	shared := map[int][]string{}
	for _, l := range leaves {
		var v []string
		if s, ok := shared[l.Val]; ok && (share == 1 || share == 2 && c.P(0.5)) {
			v = s
		} else {
			v = append([]string(nil), recs[l.Val]...)
			if c.P(0.3) {
				// spare capacity makes careless appends visible
				v = append(make([]string, 0, len(v)+4), v...)
			}
			shared[l.Val] = v
		}
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: mkNet(l.Addr, l.Depth, c.P(0.3)), FieldValues: v})
	}
	return d
}

func genVersion(c *C, fam int) *inf.VersionInfo {
	v := &inf.VersionInfo{IpType: inf.IpType(fam), Count: uint32(c.N(1000)), Build: int64(c.N(2000000000)),
		Version: pick(c, []string{"20230101", "v1", "", "版本<&>", "a\"b", " v 1 ", "\u3000", " ", "2023-01-01\n", "\t", "ipip.net-2001-01-01", "0", "null", "-"})}
	if c.P(0.5) {
		v.Languages = pick(c, [][]string{{"CN"}, {"CN", "EN"}, {}})
	}
	switch c.N(16) {
	case 0:
		v.Build = 0
	case 1:
		v.Build = int64(c.R.Uint64() >> 12)
	}
	for i := c.few(3); i > 0; i-- {
		v.ExtraInfo = append(v.ExtraInfo, fmt.Sprintf("x%d", c.N(99)))
	}
	return v
}

// snapshot writes down everything reachable from a table.
func snapshot(d *inf.IpData) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q\n%+v %q %q\n%d\n", d.Fields, *d.Version, d.Version.Languages, d.Version.ExtraInfo, len(d.Ips))
	for _, r := range d.Ips {
		fmt.Fprintf(&b, "%x/%x %q\n", []byte(r.Cidr.IP), []byte(r.Cidr.Mask), r.FieldValues)
	}
	return b.String()
}

func clone[T any](l []T) []T {
	if l == nil {
		return nil
	}
	return append([]T{}, l...)
}

// deepCopy makes an independent table.
func deepCopy(d *inf.IpData) *inf.IpData {
	v := *d.Version
	v.Languages = clone(v.Languages)
	v.ExtraInfo = clone(v.ExtraInfo)
	o := &inf.IpData{Fields: clone(d.Fields), Version: &v}
	if d.Ips != nil {
		o.Ips = make([]inf.IpRaw, 0, len(d.Ips))
	}
	for _, r := range d.Ips {
		o.Ips = append(o.Ips, inf.IpRaw{
			Cidr:        &net.IPNet{IP: clone(r.Cidr.IP), Mask: clone(r.Cidr.Mask)},
			FieldValues: clone(r.FieldValues)})
	}
	return o
}

// infoOf maps named values to the documented result.
func infoOf(fields, vals []string) inf.IpInfo {
	var r inf.IpInfo
	for i, f := range fields {
		v := vals[i]
		switch f {
		case "country":
			r.Country = v
		case "province":
			r.Province = v
		case "city":
			r.City = v
		case "isp":
			r.Isp = v
		case "asn":
			r.Asn = v
		case "continent":
			if n, ok := contName[v]; ok {
				v = n
			}
			r.Continent = v
		case "line":
			r.Line = v
		case "district":
			r.District = v
		}
	}
	return r
}

// maskTime removes the creation time a packed file embeds.
func maskTime(ext string, b []byte) string {
	switch ext {
	case ".scan":
		if i := strings.IndexByte(string(b), '\n'); i >= 0 {
			return string(b[i:])
		}
	case ".ipdb":
		if len(b) < 4 {
			break
		}
		n := int(binary.BigEndian.Uint32(b))
		if n > len(b)-4 {
			break
		}
		var m map[string]any
		if json.Unmarshal(b[4:4+n], &m) != nil {
			break
		}
		m["build"] = 0
		j, _ := json.Marshal(m)
		return string(j) + string(b[4+n:])
	}
	return string(b)
}

func famOf(rows []Leaf) (f int) {
	for _, l := range rows {
		if l.Depth >= 96 && isMapped(l.Addr) {
			f |= 1
		} else {
			f |= 2
		}
	}
	return
}
