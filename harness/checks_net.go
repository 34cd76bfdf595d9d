package main

import (
	"fmt"
	"net"
	"sort"

	"github.com/qiniu/uip/ipnet"
)

func init() {
	register(&Check{ID: "C20", Quick: 150000, Thorough: 4000000,
		Rule: "a case expands one address range of one family (ends at the extremes, at powers of two, near each other, random) and compares the networks with the minimal cover computed from scratch; distinct by range",
		Mins: map[string]int64{"networks": 100000, "v4_ranges": 5000, "v6_ranges": 5000, "touch_lowest": 500, "touch_highest": 500, "max_networks": 250},
		Case: caseC20})
	register(&Check{ID: "C21", Quick: 300000, Thorough: 6000000,
		Rule: "a case draws related addresses and ranges of one family and compares containment, joining, intersection, ordering, successor, last address and the conversions with 128 bit integer arithmetic; distinct by inputs",
		Mins: map[string]int64{"contains": 50000, "joined": 5000, "not_joined": 5000, "intersected": 5000, "not_intersected": 5000, "less": 50000, "next": 20000},
		Case: caseC21})
}

// form gives an address as 4 or 16 bytes.
func form(c *C, a U128) net.IP {
	if isMapped(a) && c.P(0.5) {
		return v4IP(uint32(a.Lo))
	}
	return u128IP(a)
}

// famAddr draws an address of a family, often an extreme or a neighbour.
func famAddr(c *C, v4 bool, near []U128) U128 {
	var a U128
	width := 128
	if v4 {
		width = 32
	}
	switch c.N(8) {
	case 0:
		a = U128{}
	case 1:
		a = maxU128
	case 2:
		a = one.shl(c.N(width))
		if c.P(0.5) {
			a = a.sub(one)
		}
	case 3, 4:
		if len(near) > 0 {
			a = pick(c, near)
			switch c.N(4) {
			case 0:
				a = a.add(U128{0, uint64(c.N(3))})
			case 1:
				a = a.sub(U128{0, uint64(c.N(3))})
			case 2:
				a = a.or(randU128(c).and(hostMask(128 - width + c.N(width))))
			}
			break
		}
		fallthrough
	default:
		a = randU128(c)
		if c.P(0.5) {
			a = a.prefix(128 - c.N(width+1))
		}
	}
	if v4 {
		return v4Base.or(U128{0, a.Lo & 0xffffffff})
	}
	for isMapped(a) {
		a = randU128(c)
	}
	return a
}

// famRange draws a range of a family; an IPv6 range has no IPv4 ends.
func famRange(c *C, v4 bool, near []U128) (lo, hi U128) {
	lo = famAddr(c, v4, near)
	hi = famAddr(c, v4, append(near, lo, lo, lo))
	if hi.less(lo) {
		lo, hi = hi, lo
	}
	return
}

func caseC20(c *C) {
	for k := 0; k < 10; k++ {
		v4 := c.P(0.5)
		lo, hi := famRange(c, v4, nil)
		if c.P(0.01) {
			// the longest expansions there are
			lo, hi = U128{}, maxU128
			if v4 {
				lo, hi = v4Base, allV4
			}
			lo = lo.add(U128{0, uint64(1 + c.N(3))})
			hi = hi.sub(U128{0, uint64(1 + c.N(3))})
		}
		r := &ipnet.Range{Start: form(c, lo), End: form(c, hi)}
		if v4 {
			c.Count("v4_ranges", 1)
		} else {
			c.Count("v6_ranges", 1)
		}
		if lo == v4Base || lo == (U128{}) {
			c.Count("touch_lowest", 1)
		}
		if hi == allV4 || hi == maxU128 {
			c.Count("touch_highest", 1)
		}
		c.Detail(map[string]any{"start": r.Start.String(), "end": r.End.String(), "bytes": fmt.Sprint(len(r.Start), len(r.End))})
		nets := r.IPNets()
		want := cover(lo, hi)
		c.Count("max_networks", len(want))
		next := lo
		for i, n := range nets {
			a, d := toPrefix(c, n)
			if a != next {
				c.Failf("%s-%s: network %d is %s, expected it to start at %s", u128IP(lo), u128IP(hi), i, n, u128IP(next))
			}
			last := a.or(hostMask(d))
			if hi.less(last) {
				c.Failf("%s-%s: network %s reaches behind the range", u128IP(lo), u128IP(hi), n)
			}
			next = last.add(one)
			if i == len(nets)-1 && last != hi {
				c.Failf("%s-%s: the networks end at %s", u128IP(lo), u128IP(hi), u128IP(last))
			}
			// and back
			r2 := ipnet.NewRange(n)
			if ipU128(r2.Start) != a || ipU128(r2.End) != last {
				c.Failf("network %s as a range is %s-%s", n, r2.Start, r2.End)
			}
			back := r2.IPNets()
			if len(back) != 1 {
				c.Failf("network %s as a range expands to %d networks", n, len(back))
			}
			if a2, d2 := toPrefix(c, back[0]); a2 != a || d2 != d {
				c.Failf("network %s as a range expands to %s", n, back[0])
			}
		}
		if len(nets) != len(want) {
			c.Failf("%s-%s: %d networks, %d suffice", u128IP(lo), u128IP(hi), len(nets), len(want))
		}
		c.Count("networks", len(nets))
		if ipU128(r.Start) != lo || ipU128(r.End) != hi {
			c.Failf("expanding changed the range")
		}
		// any network, in the library's own forms
		a := famAddr(c, v4, nil)
		d := c.N(129)
		if v4 {
			d = 96 + c.N(33)
		}
		n := mkNet(a.prefix(d), d, c.P(0.5))
		back := ipnet.NewRange(n).IPNets()
		if len(back) != 1 {
			c.Failf("network %s as a range expands to %d networks", n, len(back))
		}
		if a2, d2 := toPrefix(c, back[0]); a2 != a.prefix(d) || d2 != d {
			c.Failf("network %s as a range expands to %s", n, back[0])
		}
		c.Shape(lo, hi)
	}
	if c.Idx < 3 {
		c.Sample("ten ranges per case")
	}
}

func caseC21(c *C) {
	v4 := c.P(0.5)
	lo, hi := famRange(c, v4, nil)
	near := []U128{lo, hi, lo, hi, lo.add(one), hi.add(one)}
	var fixed []U128
	for _, a := range near {
		if isMapped(a) == v4 {
			fixed = append(fixed, a)
		}
	}
	near = fixed
	if len(near) == 0 {
		near = []U128{lo}
	}
	mk := func(lo, hi U128) *ipnet.Range { return &ipnet.Range{Start: form(c, lo), End: form(c, hi)} }
	in := func(a U128) bool { return !a.less(lo) && !hi.less(a) }
	for k := 0; k < 6; k++ {
		a := famAddr(c, v4, near)
		c.Detail(fmt.Sprintf("range %s-%s, address %s", u128IP(lo), u128IP(hi), u128IP(a)))
		r := mk(lo, hi)
		ip := form(c, a)
		if g := r.Contains(ip); g != in(a) {
			c.Failf("range %s-%s contains %s: %v", u128IP(lo), u128IP(hi), u128IP(a), g)
		}
		if g := ipnet.Contains(form(c, lo), form(c, hi), ip); g != in(a) {
			c.Failf("Contains(%s, %s, %s): %v", u128IP(lo), u128IP(hi), u128IP(a), g)
		}
		c.Count("contains", 2)
		// joining
		lo2, hi2 := famRange(c, v4, near)
		if c.P(0.3) {
			if n := hi.add(one); isMapped(n) == v4 && !hi2.less(n) {
				lo2 = n
			}
		}
		r, r2 := mk(lo, hi), mk(lo2, hi2)
		can := in(lo2) || hi != maxU128 && lo2 == hi.add(one) && lo != (lo2)
		ok := r.Join(r2)
		checkJoin := func(what string, ok bool, r *ipnet.Range, can bool, lo2, hi2 U128) {
			wl, wh := lo, hi
			if can {
				c.Count("joined", 1)
				if hi.less(hi2) {
					wh = hi2
				}
			} else {
				c.Count("not_joined", 1)
			}
			if ok != can {
				c.Failf("%s %s-%s to %s-%s: %v", what, u128IP(lo2), u128IP(hi2), u128IP(lo), u128IP(hi), ok)
			}
			if ipU128(r.Start) != wl || ipU128(r.End) != wh {
				c.Failf("%s %s-%s to %s-%s (%v) leaves %s-%s", what, u128IP(lo2), u128IP(hi2), u128IP(lo), u128IP(hi), ok, r.Start, r.End)
			}
		}
		checkJoin("joining", ok, r, can, lo2, hi2)
		if ipU128(r2.Start) != lo2 || ipU128(r2.End) != hi2 {
			c.Failf("joining changed the joined range")
		}
		// joining a network
		d := c.N(129)
		if v4 {
			d = 96 + c.N(33)
		}
		na := famAddr(c, v4, near).prefix(d)
		if isMapped(na) == v4 {
			n := mkNet(na, d, c.P(0.5))
			r := &ipnet.Range{Start: u128IP(lo), End: u128IP(hi)}
			if !v4 || c.P(0.5) {
				r = mk(lo, hi)
			}
			can := in(na) || hi != maxU128 && na == hi.add(one)
			checkJoin("joining network", r.JoinIPNet(n), r, can, na, na.or(hostMask(d)))
		}
		// intersecting around an address
		r, r2 = mk(lo, hi), mk(lo2, hi2)
		both := in(a) && !a.less(lo2) && !hi2.less(a)
		ok = r.CommonRange(form(c, a), r2)
		wl, wh := lo, hi
		if both {
			c.Count("intersected", 1)
			if wl.less(lo2) {
				wl = lo2
			}
			if hi2.less(wh) {
				wh = hi2
			}
		} else {
			c.Count("not_intersected", 1)
		}
		if ok != both || ipU128(r.Start) != wl || ipU128(r.End) != wh {
			c.Failf("intersecting %s-%s and %s-%s around %s: %v, leaves %s-%s", u128IP(lo), u128IP(hi), u128IP(lo2), u128IP(hi2), u128IP(a), ok, r.Start, r.End)
		}
		// ordering
		b := famAddr(c, v4, near)
		if g := ipnet.IPLess(form(c, a), form(c, b)); g != a.less(b) {
			c.Failf("IPLess(%s, %s) = %v", u128IP(a), u128IP(b), g)
		}
		rs := ipnet.Ranges{*mk(a, maxOf(a, b)), *mk(b, maxOf(a, b)), *mk(lo, hi), *mk(lo2, hi2)}
		if g := rs.Less(0, 1); g != a.less(b) {
			c.Failf("Ranges.Less of %s and %s = %v", u128IP(a), u128IP(b), g)
		}
		sort.Sort(rs)
		for i := 1; i < len(rs); i++ {
			if ipU128(rs[i].Start).less(ipU128(rs[i-1].Start)) {
				c.Failf("sorted ranges are out of order")
			}
		}
		c.Count("less", 2)
		// successor, all ones, first address
		for _, ip := range []net.IP{form(c, a), u128IP(a)} {
			width := len(ip) * 8
			x := a
			top := maxU128
			if width == 32 {
				top = allV4
			}
			nx := ipnet.NextIP(ip)
			if len(nx) != len(ip) {
				c.Failf("NextIP(%s) has %d bytes", ip, len(nx))
			}
			wantN := x.add(one)
			if width == 32 && x == allV4 {
				wantN = v4Base // wraps
			}
			if ipU128(nx) != wantN {
				c.Failf("NextIP(%s) = %s", ip, nx)
			}
			if ipU128(ip) != a {
				c.Failf("NextIP changed its argument")
			}
			if g := ipnet.IsAllMask(ip); g != (x == top) {
				c.Failf("IsAllMask(%s) = %v", ip, g)
			}
			if v4 {
				if g := ipnet.IsFirstIP(ip, false); g != (a == v4Base) {
					c.Failf("IsFirstIP(%s, false) = %v", ip, g)
				}
			} else if g := ipnet.IsFirstIP(ip, true); g != (a == (U128{})) {
				c.Failf("IsFirstIP(%s, true) = %v", ip, g)
			}
			c.Count("next", 1)
		}
		// networks
		ones := c.N(129)
		if v4 {
			ones = 96 + c.N(33)
		}
		pn := mkNet(a.prefix(ones), ones, c.P(0.5))
		last := a.or(hostMask(ones))
		if g := ipnet.LastIP(pn); ipU128(g) != last || len(g) != len(pn.IP) {
			c.Failf("LastIP(%s) = %s", pn, g)
		}
		if c.P(0.5) {
			// the address of a network need not be its first
			pn.IP = append(net.IP{}, u128IP(a)[16-len(pn.IP):]...)
			if g := ipnet.LastIP(pn); ipU128(g) != last || len(g) != len(pn.IP) {
				c.Failf("LastIP(%x with mask %s) = %s", []byte(pn.IP), pn.Mask, g)
			}
		}
		if last != maxU128 && !(len(pn.IP) == 4 && last == allV4) {
			if g := ipnet.NextStart(pn); ipU128(g) != last.add(one) {
				c.Failf("NextStart(%s) = %s", pn, g)
			}
		}
		m := ones
		if v4 {
			m -= 96
		}
		cn := ipnet.IpNet(form(c, a), m)
		if ca, cd := toPrefix(c, cn); ca != a.prefix(ones) || cd != ones {
			c.Failf("IpNet(%s, %d) = %s", u128IP(a), m, cn)
		}
		o2 := c.N(129)
		if v4 {
			o2 = 96 + c.N(33)
		}
		f16 := c.P(0.5)
		n1, n2 := mkNet(a.prefix(ones), ones, f16), mkNet(b.prefix(o2), o2, f16)
		if len(n1.IP) == len(n2.IP) {
			if g := ipnet.MaskLess(n1, n2); g != (ones > o2) {
				c.Failf("MaskLess(%s, %s) = %v", n1, n2, g)
			}
		}
		// prefix length and trailing zeros
		same := 128
		if x := a.and(b.not()).or(b.and(a.not())); x != (U128{}) {
			same = 0
			for x.bit(same) == 0 {
				same++
			}
		}
		if g := ipnet.PrefixSameLength(u128IP(a), u128IP(b)); g != same {
			c.Failf("PrefixSameLength(%s, %s) = %d", u128IP(a), u128IP(b), g)
		}
		if v4 {
			if g := ipnet.PrefixSameLength(v4IP(uint32(a.Lo)), v4IP(uint32(b.Lo))); g != same-96 {
				c.Failf("PrefixSameLength(%s, %s) = %d", v4IP(uint32(a.Lo)), v4IP(uint32(b.Lo)), g)
			}
			z := min(32, U128{0, a.Lo & 0xffffffff}.trailingZeros())
			if g := ipnet.SuffixZeroLength(v4IP(uint32(a.Lo))); g != z {
				c.Failf("SuffixZeroLength(%s) = %d", v4IP(uint32(a.Lo)), g)
			}
		}
		if g := ipnet.SuffixZeroLength(u128IP(a)); g != a.trailingZeros() {
			c.Failf("SuffixZeroLength(%s) = %d", u128IP(a), g)
		}
		// conversions
		u := uint32(a.Lo)
		if g := ipnet.Uint32ToIPv4(u); ipU128(g) != v4Base.or(U128{0, uint64(u)}) {
			c.Failf("Uint32ToIPv4(%#x) = %s", u, g)
		}
		if v4 {
			if g := ipnet.IPv4ToUint32(form(c, a)); g != u {
				c.Failf("IPv4ToUint32(%s) = %#x", u128IP(a), g)
			}
			if g := ipnet.IPv4StrToUint32(v4IP(u).String()); g != u {
				c.Failf("IPv4StrToUint32(%s) = %#x", v4IP(u), g)
			}
		}
		x := randU128(c)
		if g := ipnet.Uint64ToIP2(x.Hi, x.Lo); ipU128(g) != x {
			c.Failf("Uint64ToIP2(%#x, %#x) = %s", x.Hi, x.Lo, g)
		}
		if g := ipnet.Uint64ToIP(x.Hi); ipU128(g) != (U128{x.Hi, 0}) {
			c.Failf("Uint64ToIP(%#x) = %s", x.Hi, g)
		}
		c.Shape(lo, hi, a, lo2, hi2)
	}
	if c.Idx < 3 {
		c.Sample(fmt.Sprintf("range %s-%s and six related addresses and ranges", u128IP(lo), u128IP(hi)))
	}
}

func maxOf(a, b U128) U128 {
	if a.less(b) {
		return b
	}
	return a
}
