package main

import (
	_ "embed"
	"fmt"
	"math/bits"
	"net"
	"strings"
)

// U128 is an address in the reference models (128 bit, or 32 bit aligned left
// in a 32 bit tree).
type U128 struct{ Hi, Lo uint64 }

func (a U128) cmp(b U128) int {
	switch {
	case a.Hi < b.Hi || a.Hi == b.Hi && a.Lo < b.Lo:
		return -1
	case a == b:
		return 0
	}
	return 1
}
func (a U128) less(b U128) bool { return a.cmp(b) < 0 }
func (a U128) add(b U128) U128 {
	lo, c := bits.Add64(a.Lo, b.Lo, 0)
	hi, _ := bits.Add64(a.Hi, b.Hi, c)
	return U128{hi, lo}
}
func (a U128) sub(b U128) U128 {
	lo, c := bits.Sub64(a.Lo, b.Lo, 0)
	hi, _ := bits.Sub64(a.Hi, b.Hi, c)
	return U128{hi, lo}
}
func (a U128) and(b U128) U128 { return U128{a.Hi & b.Hi, a.Lo & b.Lo} }
func (a U128) or(b U128) U128  { return U128{a.Hi | b.Hi, a.Lo | b.Lo} }
func (a U128) not() U128       { return U128{^a.Hi, ^a.Lo} }
func (a U128) shl(n int) U128 {
	if n >= 128 {
		return U128{}
	}
	if n >= 64 {
		return U128{a.Lo << (n - 64), 0}
	}
	if n == 0 {
		return a
	}
	return U128{a.Hi<<n | a.Lo>>(64-n), a.Lo << n}
}
func (a U128) shr(n int) U128 {
	if n >= 128 {
		return U128{}
	}
	if n >= 64 {
		return U128{0, a.Hi >> (n - 64)}
	}
	if n == 0 {
		return a
	}
	return U128{a.Hi >> n, a.Lo>>n | a.Hi<<(64-n)}
}

// bit i counted from the most significant one.
func (a U128) bit(i int) int {
	if i < 64 {
		return int(a.Hi>>(63-i)) & 1
	}
	return int(a.Lo>>(127-i)) & 1
}
func (a U128) setBit(i int) U128 {
	if i < 64 {
		a.Hi |= 1 << (63 - i)
	} else {
		a.Lo |= 1 << (127 - i)
	}
	return a
}
func (a U128) trailingZeros() int {
	if a.Lo != 0 {
		return bits.TrailingZeros64(a.Lo)
	}
	if a.Hi != 0 {
		return 64 + bits.TrailingZeros64(a.Hi)
	}
	return 128
}

// prefix keeps the first n bits.
func (a U128) prefix(n int) U128 { return a.and(hostMask(n).not()) }

// hostMask has the bits behind the first n set.
func hostMask(n int) U128 {
	if n <= 0 {
		return maxU128
	}
	return maxU128.shr(n)
}

var one = U128{0, 1}
var maxU128 = U128{^uint64(0), ^uint64(0)}
var v4Base = U128{0, 0xffff << 32}

func u128IP(a U128) net.IP {
	ip := make(net.IP, 16)
	for i := 0; i < 8; i++ {
		ip[i] = byte(a.Hi >> (56 - 8*i))
		ip[8+i] = byte(a.Lo >> (56 - 8*i))
	}
	return ip
}
func ipU128(ip []byte) U128 {
	var a U128
	if len(ip) == 4 {
		return v4Base.or(U128{0, uint64(ip[0])<<24 | uint64(ip[1])<<16 | uint64(ip[2])<<8 | uint64(ip[3])})
	}
	for i := 0; i < 8; i++ {
		a.Hi = a.Hi<<8 | uint64(ip[i])
		a.Lo = a.Lo<<8 | uint64(ip[8+i])
	}
	return a
}
func v4IP(u uint32) net.IP { return net.IP{byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)} }

func isMapped(a U128) bool { return a.Hi == 0 && a.Lo>>32 == 0xffff }

func randU128(c *C) U128 { return U128{c.R.Uint64(), c.R.Uint64()} }

// T is the reference trie: a leaf (L == nil) holds a record number or -1 for
// an address without data.
type T struct {
	L, R *T
	Val  int
}

func (t *T) leaf() bool { return t.L == nil }

// put replaces what lies below the prefix by sub, splitting leaves on the way.
func (t *T) put(addr U128, from, depth int, sub *T) {
	for i := from; i < from+depth; i++ {
		if t.leaf() {
			t.L, t.R = &T{Val: t.Val}, &T{Val: t.Val}
		}
		if addr.bit(i) == 0 {
			t = t.L
		} else {
			t = t.R
		}
	}
	*t = *sub
}

// find walks the address' bits from..128.
func (t *T) find(addr U128, from int) (val, depth int) {
	for !t.leaf() {
		if addr.bit(from+depth) == 0 {
			t = t.L
		} else {
			t = t.R
		}
		depth++
	}
	return t.Val, depth
}

// at returns the subtree at a prefix, or the leaf above it.
func (t *T) at(addr U128, depth int) (*T, int) {
	for i := 0; i < depth; i++ {
		if t.leaf() {
			return t, i
		}
		if addr.bit(i) == 0 {
			t = t.L
		} else {
			t = t.R
		}
	}
	return t, depth
}

func (t *T) walk(addr U128, depth int, f func(addr U128, depth int, val int)) {
	if t.leaf() {
		f(addr, depth, t.Val)
		return
	}
	t.L.walk(addr, depth+1, f)
	t.R.walk(addr.setBit(depth), depth+1, f)
}

func (t *T) clone() *T {
	if t.leaf() {
		return &T{Val: t.Val}
	}
	return &T{L: t.L.clone(), R: t.R.clone()}
}

func (t *T) count() (nodes, leaves, gaps int) {
	if t.leaf() {
		if t.Val < 0 {
			return 0, 0, 1
		}
		return 0, 1, 0
	}
	a, b, d := t.L.count()
	e, f, g := t.R.count()
	return 1 + a + e, b + f, d + g
}

// Leaf is one leaf of a walked trie.
type Leaf struct {
	Addr  U128
	Depth int
	Val   int
}

func (t *T) leaves() []Leaf {
	var l []Leaf
	t.walk(U128{}, 0, func(a U128, d, v int) { l = append(l, Leaf{a, d, v}) })
	return l
}

//go:embed data/warmup.txt
var warmupText string
var warmup = strings.Fields(warmupText)

// treeOpt steers genTree: a trie of `width` bits whose addresses are aligned
// left in a U128.
type treeOpt struct {
	width int
	vals  int
	gaps  bool // leave gaps
	n     int  // prefixes
	hot   []U128
	plain bool
}

var depthPool32 = []int{0, 1, 2, 3, 5, 8, 10, 11, 12, 12, 13, 13, 14, 14, 15, 15, 16, 17, 18, 20, 22, 24, 24, 26, 28, 30, 31, 32, 32}
var depthPool128 = []int{0, 1, 2, 3, 8, 12, 13, 14, 16, 20, 24, 28, 29, 32, 32, 33, 40, 44, 48, 48, 56, 63, 64, 64, 65, 80, 95, 96, 97, 112, 120, 126, 127, 128, 128}

func genTree(c *C, o treeOpt) *T {
	val := func() int {
		if o.gaps && c.P(0.25) {
			return -1
		}
		return c.N(o.vals)
	}
	t := &T{Val: -1}
	if !o.gaps {
		t.Val = c.N(o.vals)
	} else if c.P(0.4) {
		t.Val = c.N(o.vals)
	}
	pool := depthPool32
	if o.width == 128 {
		pool = depthPool128
	}
	var bases []U128
	for i := 0; i < o.n; i++ {
		d := pick(c, pool)
		if d == 0 && i > 0 {
			d = 1
		}
		var a U128
		switch x := c.R.Float64(); {
		case x < 0.15 && len(o.hot) > 0:
			a = pick(c, o.hot)
		case x < 0.55 && len(bases) > 0:
			a = pick(c, bases)
			// a neighbour of an earlier prefix
			if k := c.N(4); k < 2 {
				step := one.shl(128 - max(d, 1))
				if k == 0 {
					a = a.add(step)
				} else {
					a = a.sub(step)
				}
			} else if k == 2 {
				a = a.prefix(c.N(o.width)).or(randU128(c).and(hostMask(c.N(o.width))))
			}
		case x < 0.6:
			a = U128{}
		case x < 0.65:
			a = maxU128
		default:
			a = randU128(c)
			if o.width == 128 && c.P(0.7) {
				a.Hi = a.Hi>>3 | 1<<61
			}
		}
		a = a.prefix(o.width)
		bases = append(bases, a)
		t.put(a, 0, d, &T{Val: val()})
	}
	return t
}

// value pools

var continents = []string{"AS", "EU", "NA", "SA", "AF", "OC", "AN", "亚洲", "欧洲", "北美洲", "南极洲", "AP", "", "as", "未知"}
var contName = map[string]string{"AS": "亚洲", "EU": "欧洲", "NA": "北美洲", "SA": "南美洲", "AF": "非洲", "OC": "大洋洲", "AN": "南极洲"}

var wordPool = []string{"", "", "中国", "美国", "日本", "台湾", "香港", "北京", "广东", "电信", "联通", "移动", "铁通", "阿里云", "4134", "4837", "AS9808",
	"上海", "保留", "保留地址", "默认", "AS", "EU", "a", "0", "x y", "x-y", "a=b", "a/b", "!", "|", ":", "#", "\"q\"", "\\", "é", "𠀀", "<&>", "null", "\u2028"}

func genValue(c *C, o valOpt) string {
	switch c.N(10) {
	case 0, 1, 2, 3:
		for {
			w := pick(c, wordPool)
			if o.ok(w) {
				return w
			}
		}
	case 4:
		n := c.N(40)
		if o.long && c.P(0.1) {
			n = c.N(3000)
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			var r rune
			switch c.N(3) {
			case 0:
				r = rune(0x20 + c.N(0x5f))
			case 1:
				r = rune(0x4e00 + c.N(0x2000))
			default:
				r = rune('a' + c.N(26))
			}
			if !o.ok(string(r)) {
				r = '_'
			}
			b.WriteRune(r)
		}
		if o.ctl && c.P(0.3) {
			if w := pick(c, ctlPool); o.ok(w) {
				return w
			}
		}
		return b.String()
	default:
		return fmt.Sprintf("v%d", c.N(o.distinct+1))
	}
}

type valOpt struct {
	distinct int
	long     bool
	banned   string
	ctl      bool // line ends and the like too, only the tab is excluded
}

func (o valOpt) ok(s string) bool {
	if o.ctl {
		return !strings.ContainsAny(s, "\t"+o.banned)
	}
	return !strings.ContainsAny(s, "\t\n\r"+o.banned)
}

var ctlPool = []string{"\r", "a\r", "\n", "电信\n", "\r\n", "x\x00", "\x00", "\ufeff中国", "\u0085", "\u2028", "\x1f", "a\vb", "\x7f", "\u00a0"}

func genRecs(c *C, fields []string, n int, o valOpt) [][]string {
	if o.distinct == 0 {
		o.distinct = 2 + c.N(30)
	}
	recs := make([][]string, n)
	for i := range recs {
		if i > 0 && c.P(0.3) {
			// differs from an earlier one in few columns only
			recs[i] = append([]string(nil), recs[c.N(i)]...)
			k := c.N(len(fields))
			recs[i][k] = genField(c, fields[k], o)
			continue
		}
		r := make([]string, len(fields))
		for k, f := range fields {
			r[k] = genField(c, f, o)
		}
		recs[i] = r
	}
	lookalikes(c, recs, o)
	if c.rot {
		for _, r := range recs {
			for i := range r {
				r[i] = rotated(r[i])
			}
		}
	}
	return recs
}

// rotated replaces letters, digits and characters by others of the same size.
func rotated(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z':
			return 'a' + (r-'a'+1)%26
		case r >= 'A' && r <= 'Z':
			return 'A' + (r-'A'+1)%26
		case r >= '0' && r <= '9':
			return '0' + (r-'0'+1)%10
		case r >= 0x4e00 && r < 0x9f00:
			return r ^ 1
		}
		return r
	}, s)
}

// lookalikes replaces some records by ones that differ from their neighbours
// but not under careless comparisons: the same text with the column borders
// elsewhere, the columns in another order, with a joining character moved from
// one value to the next, in other case, with spaces around.
func lookalikes(c *C, recs [][]string, o valOpt) {
	if len(recs) < 2 || len(recs[0]) < 1 || !c.P(0.5) {
		return
	}
	for i := 1; i < len(recs); i++ {
		if !c.P(0.3) {
			continue
		}
		from := i - 1
		if c.P(0.5) {
			from = c.N(i)
		}
		r := append([]string(nil), recs[from]...)
		k := c.N(len(r))
		j := (k + 1) % len(r)
		sep := pick(c, []string{"", ",", ",", "|", "-", "_", " ", "/", "\x00", "\x1f"})
		if !o.ok(sep) {
			sep = ""
		}
		switch kind := c.N(9); {
		case kind >= 7:
			old := append([]string(nil), recs[from]...)
			if kind == 8 {
				k = 0
			}
			if c.P(0.6) {
				// the same checksum
				p := pick(c, collisions)
				old[k], r[k] = p[0], p[1]
			} else {
				// only the beginning, the end or the middle differs
				x := strings.Repeat(pick(c, []string{"x", "中", "ab"}), pick(c, []int{7, 15, 31, 63, 127, 255}))
				p := pick(c, [][2]string{{x + "1", x + "2"}, {"1" + x, "2" + x}, {x + "1" + x, x + "2" + x}, {x, x + string([]rune(x)[:1])}})
				old[k], r[k] = p[0], p[1]
			}
			recs[from] = old
		case kind <= 2 && k+1 < len(r):
			// "a"+sep+"bc" and "a"+sep+"b"+sep... cut elsewhere
			t := []rune(r[k] + sep + r[j])
			if sep != "" {
				// recs[from] gets the separator into its values, too
				t = []rune(r[k] + sep + "m" + sep + r[j])
				old := append([]string(nil), recs[from]...)
				old[k], old[j] = r[k]+sep+"m", r[j]
				r[j] = "m" + sep + r[j]
				recs[from] = old
				break
			}
			n := c.N(len(t) + 1)
			r[k], r[j] = string(t[:n]), string(t[n:])
		case kind == 3:
			r[k], r[j] = r[j], r[k]
		case kind == 4:
			r[k] = strings.ToUpper(r[k])
			if r[k] == recs[from][k] {
				r[k] = strings.ToLower(r[k])
			}
		case kind == 5 && o.ok(" "):
			r[k] = pick(c, []string{" " + r[k], r[k] + " ", r[k] + "\u3000"})
		default:
			// one empty column more or less
			r[k], r[j] = "", r[k]+r[j]
		}
		recs[i] = r
	}
}

// collisions are texts that common 32 bit sums cannot tell apart: CRC-32 (IEEE,
// Castagnoli), FNV-1, FNV-1a, Adler-32, and the sums with factors 31 and 33.
var collisions = [][2]string{
	{"hrCkgCCy", "aFvqmzzx"}, {"Adswnpbn", "xzqdcjqC"}, {"EDsdqFzw", "bnCdooko"}, {"sekzwmmy", "DkxmEBzx"}, {"ezhstqBn", "Ewtcwxkh"}, {"DsDjuzfr", "CrBeboan"}, {"ebnxbyuB", "xBFwafad"},
	{"fBqjECzp", "Duosedkf"}, {"zrrdvEdy", "xvjicham"}, {"tsqguAft", "rwilbdch"}, {"rjCjEyes", "qtvfsADD"}, {"blDgAzdt", "avwcoBCE"}, {"vovCElpc", "vbkcwElt"}, {"vrvFEmza", "vekfwFvr"},
}

func genField(c *C, f string, o valOpt) string {
	if (f == "continent_code" || f == "continent") && c.P(0.8) {
		for {
			if v := pick(c, continents); o.ok(v) {
				return v
			}
		}
	}
	if (f == "country" || f == "country_name") && c.P(0.5) {
		return pick(c, []string{"中国", "美国", "日本", ""})
	}
	return genValue(c, o)
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// defaultRule is the rule of the README's example, which is also what the
// converter applies when no other is given.
const defaultRule = "country,province,city,isp,asn,continent,district|country=!中国:country,continent|province=台湾/中国台湾:country,province,continent,district"

// bulky returns records of n kilobytes in total that all differ, each close to
// the largest an ipdb can store.
func bulky(c *C, fields []string, n int) [][]string {
	var recs [][]string
	for size := 0; size < n<<10; {
		r := make([]string, len(fields))
		for i := range r {
			r[i] = pick(c, []string{"", "x", "中国", "US"})
		}
		b := make([]byte, 59000+c.N(5000))
		x, k := c.R.Uint64(), 40+c.N(40)
		for i := range b {
			b[i] = byte(33 + (x>>(i%57)+uint64(i/k))%90)
		}
		r[c.N(len(r))] = fmt.Sprintf("%d-", len(recs)) + string(b)
		recs = append(recs, r)
		size += len(b)
	}
	return recs
}

// spread gives the covered leaves the values 0 to n-1, the last ones first.
func (t *T) spread(n int, i *int) {
	if !t.leaf() {
		t.L.spread(n, i)
		t.R.spread(n, i)
		return
	}
	if t.Val >= 0 {
		t.Val = n - 1 - *i%n
		*i++
	}
}
