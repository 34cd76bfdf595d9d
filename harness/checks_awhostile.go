package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"reflect"

	"github.com/qiniu/uip/db/format/awdb"
)

func init() {
	register(&Check{ID: "C38", Quick: 12000, Thorough: 400000, CPUSec: 120, MemMB: 1500,
		Rule: "a case is up to six damaged or hostile awdb files (typed records with bytes changed, removed or spliced; lists and maps that contain themselves or each other through pointers, pointer chains, deep nesting, huge sizes, rewritten trees and metadata), each read by Lookup, LookupNetwork, LookupOffset with Decode, Networks and NetworksWithin into values of many Go types under panic, stack, CPU and allocation monitors, and the answers of the different ways compared; distinct by input",
		Mins: map[string]int64{"inputs": 20000, "opened": 5000, "values": 20000, "refused_records": 20000, "type_errors": 10000, "listed": 10000, "self_containing": 1000, "shared_trees": 500},
		Case: caseC38})
}

// knot is a value that contains itself, or is otherwise hostile, whatever it
// is read into.
func knot(c *C) []byte {
	e := &awEnc{c: c}
	n := 1 + c.N(4)
	var at []int
	open := func() {
		at = append(at, len(e.b))
		size := 1 + c.N(3)
		if c.P(0.5) {
			e.ctrl(11, size)
		} else {
			e.ctrl(7, size)
			e.ctrl(2, 1)
			e.b = append(e.b, "abcxyz"[c.N(6)])
		}
	}
	for i := 0; i < n; i++ {
		open()
		if c.P(0.3) {
			// through a pointer to the next byte
			o := len(e.b) + 2
			e.b = append(e.b, 0x20|byte(o>>8), byte(o))
		}
	}
	e.pointer(pick(c, at))
	for i := 0; i < 6; i++ {
		e.junk(1)
	}
	return e.b
}

// lists and maps of one kind, so that typed results get to the bottom of them
func knotOf(c *C) ([]byte, reflect.Type) {
	e := &awEnc{c: c}
	if c.P(0.5) {
		e.ctrl(11, 1+c.N(2))
		if c.P(0.3) {
			e.b = append(e.b, 0x20, byte(len(e.b)+2))
			e.ctrl(11, 1)
		}
		e.b = append(e.b, 0x20, 0, 0x20, 0)
		type list []list
		return e.b, pick(c, []reflect.Type{reflect.TypeOf(list{}), reflect.TypeOf([][][][][][]any{}), reflect.TypeOf([]*[]any{})})
	}
	e.ctrl(7, 1)
	e.ctrl(2, 1)
	e.b = append(e.b, "AN"[c.N(2)], 0x20, 0)
	type node struct {
		A *node
		N map[string]node
	}
	type dict map[string]dict
	return e.b, pick(c, []reflect.Type{reflect.TypeOf(node{}), reflect.TypeOf(dict{}), reflect.TypeOf(map[string]map[string]*map[string]any{}), reflect.TypeOf(map[string]node{})})
}

// deep nests containers, with or without a value at the bottom
func deep(c *C) []byte {
	e := &awEnc{c: c}
	k := pick(c, []int{50, 250, 254, 255, 256, 257, 505, 510, 511, 512, 513, 514, 520, 1000, 20000})
	kind := c.N(4)
	for i := 0; i < k; i++ {
		switch {
		case kind == 0 || kind == 3 && c.P(0.5):
			e.ctrl(11, 1)
		case kind == 1 || kind == 3:
			e.ctrl(7, 1)
			e.b = append(e.b, 0x41, 'k')
		default:
			o := len(e.b) + 5
			e.b = append(e.b, 0x38, byte(o>>24), byte(o>>16), byte(o>>8), byte(o))
		}
	}
	if c.P(0.8) {
		e.junk(3)
	}
	return e.b
}

var hostileTypes = []reflect.Type{anyType, anyType, anyType, reflect.TypeOf(map[string]any{}), reflect.TypeOf([]any{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf([]string{}),
	reflect.TypeOf(map[string][]any{}), reflect.TypeOf([]map[string]any{}), reflect.TypeOf([][]any{}), reflect.TypeOf(""), reflect.TypeOf([]byte{}), reflect.TypeOf(int64(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(true), bigType, reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(struct {
		Country string   `awdb:"country"`
		A       *any     `awdb:"a"`
		X       []any    `awdb:"x"`
		K       any      `awdb:"k"`
		Y       *uintptr `awdb:"y"`
	}{}), reflect.TypeOf(new(any)), reflect.TypeOf(struct{ Absent int }{}),
	// what nothing can be stored in, or not everywhere
	reflect.TypeOf(hidden{}), reflect.TypeOf(&hidden{}), reflect.TypeOf(map[int]any{}), reflect.TypeOf(map[any]any{}), reflect.TypeOf(map[string]hidden{}), reflect.TypeOf([]hidden{}),
	reflect.TypeOf([4]byte{}), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex(1, 1)), reflect.TypeOf(struct{ a, k, x any }{})}

// hostileFile is a file around data, with the records all over it.
func hostileFile(c *C, data []byte) []byte {
	d := &Awdb{V: pick(c, []int{4, 6}), Size: pick(c, []int{24, 28, 32}), Type: "t", Langs: []string{"cn"}}
	d.Recs = make([]map[string]string, 1)
	d.Typed = []*aval{{kind: avMap}}
	d.Tree = &T{L: &T{Val: 0}, R: &T{Val: -1}}
	n := 1 + c.N(20)
	// a subtree that every node shares, often without any network in it
	shared := c.P(0.1)
	if shared {
		n = 16 + c.N(112)
		c.Count("shared_trees", 1)
	}
	val := func(i int) int {
		switch {
		case shared && i+1 < n:
			return i + 1
		case shared && c.P(0.8):
			return n
		case i+1 < n && c.P(0.3):
			return i + 1
		case c.P(0.1):
			return n
		case c.P(0.3):
			return n + 16 + c.N(len(data)+20)
		}
		return n + 16
	}
	var nodes []byte
	for i := 0; i < n; i++ {
		l, r := val(i), val(i)
		switch d.Size {
		case 24:
			nodes = append(nodes, byte(l>>16), byte(l>>8), byte(l), byte(r>>16), byte(r>>8), byte(r))
		case 28:
			nodes = append(nodes, byte(l>>16), byte(l>>8), byte(l), byte(l>>24)<<4|byte(r>>24), byte(r>>16), byte(r>>8), byte(r))
		default:
			nodes = append(nodes, byte(l>>24), byte(l>>16), byte(l>>8), byte(l), byte(r>>24), byte(r>>16), byte(r>>8), byte(r))
		}
	}
	b := append(nodes, make([]byte, 16)...)
	b = append(b, data...)
	b = append(b, awdbMarker...)
	m := d.meta(c, n)
	if c.P(0.1) {
		byteNoise(c, m, 0, len(m))
	}
	return append(b, m...)
}

func caseC38(c *C) {
	d := typedAwdb(c)
	b0 := d.Encode(c)
	other := typedAwdb(c).Encode(c)
	addrs := hostileAddrs(c)
	addrs = append(addrs, awProbes(c, d, 6)...)
	for k := 0; k < 6; k++ {
		var b []byte
		var t reflect.Type
		switch c.N(10) {
		case 0:
			b = hostileFile(c, knot(c))
			c.Count("self_containing", 1)
		case 1:
			var data []byte
			data, t = knotOf(c)
			b = hostileFile(c, data)
			c.Count("self_containing", 1)
		case 2:
			b = hostileFile(c, deep(c))
		case 3:
			b = hostileFile(c, pick(c, [][]byte{{0xff, 0xff, 0xff, 0xff}, {0x1f, 4, 0xff, 0xff, 0xff}, {0x5f, 0xff, 0xff, 0xff}, {0x9f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff}, {0x1f, 4}, {0x20, 0}, {0x20}, {0x38, 0xff, 0xff, 0xff, 0xff}, {0, 200}, {0x1d, 0}, {}, {0x01}, {0x7d}, {0x61}, {0xa3, 1, 2, 3}, {0xd1}, {0x09, 2}, {0x11, 3}, {0x02, 7}, {0x03, 8, 1, 2}}))
		case 4:
			b = tinyFile(c)
		default:
			b = mutateAwdb(c, d, b0, other)
			if c.P(0.3) && bytes.Contains(b, []byte(awdbMarker)) && len(b) >= d.nodes*d.Size/4 {
				b = mutateAwdb(c, d, b, other)
			}
		}
		outlive(c, b, t, addrs)
		c.Shape(string(b))
	}
}

// asText shows a value, without addresses that change.
func asText(x any) string { return fmt.Sprintf("%v", x) }

func outlive(c *C, b []byte, t reflect.Type, addrs []U128) {
	c.Detail(map[string]any{"bytes": len(b), "input": hx(b[:min(len(b), 20000)])})
	b = append(make([]byte, 0, len(b)), b...)
	b = b[:len(b):len(b)]
	a0 := allocated()
	c.Count("inputs", 1)
	r, err := awdb.FromBytes(b)
	if (r == nil) == (err == nil) {
		c.Failf("input of %d bytes: reader=%v and err=%v", len(b), r != nil, err)
	}
	if err != nil {
		return
	}
	c.Count("opened", 1)
	judge := func(err error, what string) {
		var db awdb.InvalidDatabaseError
		switch {
		case err == nil:
			c.Count("values", 1)
		case isTypeError(err):
			c.Count("type_errors", 1)
		case errors.As(err, &db):
			c.Count("refused_records", 1)
		default:
			c.Count("other_errors", 1)
		}
	}
	for i, a := range addrs {
		ip := asked(c, a)
		if t != nil && i < 12 {
			judge(r.Lookup(ip, reflect.New(t).Interface()), "")
		}
		if i > 10 && c.P(0.5) {
			continue
		}
		var x, y, z any
		err := r.Lookup(ip, &x)
		judge(err, "Lookup")
		n, ok, err2 := r.LookupNetwork(ip, &y)
		o, err3 := r.LookupOffset(ip)
		if err3 == nil && o != awdb.NotFound {
			err3 = r.Decode(o, &z)
		}
		if fmt.Sprint(err) != fmt.Sprint(err2) || fmt.Sprint(err) != fmt.Sprint(err3) {
			c.Failf("the ways to read %v end in %v, %v and %v", ip, err, err2, err3)
			return
		}
		if err == nil {
			if ok != (o != awdb.NotFound) {
				c.Failf("%v: LookupNetwork says %v, LookupOffset %d", ip, ok, o)
			}
			if s := asText(x); s != asText(y) || s != asText(z) {
				c.Failf("the ways to read %v differ: %s, %s, %s", ip, clip(s, 300), clip(asText(y), 300), clip(asText(z), 300))
			}
			if n == nil || !n.Contains(ip) && !(r.Metadata.IPVersion == 6 && isMapped(a)) {
				c.Failf("LookupNetwork of %v gave the network %v", ip, n)
			}
		}
		dst := pick(c, hostileTypes)
		judge(r.Lookup(ip, reflect.New(dst).Interface()), "Lookup")
		if c.P(0.2) {
			_, _, err := r.LookupNetwork(ip, reflect.New(pick(c, hostileTypes)).Interface())
			judge(err, "LookupNetwork")
		}
		if c.P(0.1) {
			judge(r.Decode(uintptr(c.N(len(b)+1)), reflect.New(pick(c, hostileTypes)).Interface()), "Decode")
		}
	}
	ns := r.Networks()
	if c.P(0.5) {
		a := pick(c, addrs)
		ip := append(net.IP{}, u128IP(a)...)
		bits := 128
		if r.Metadata.IPVersion != 6 {
			ip, bits = ip[12:], 32
		}
		n := &net.IPNet{IP: ip, Mask: net.CIDRMask(c.N(bits+1), bits)}
		if c.P(0.4) {
			// the other family, and what is no network at all
			n.IP = append(net.IP{}, u128IP(a)...)[pick(c, []int{0, 12, 12, 11, 16}):]
			n.Mask = pick(c, []net.IPMask{net.CIDRMask(c.N(129), 128), net.CIDRMask(c.N(33), 32), net.CIDRMask(96+c.N(33), 128), {255, 0, 255, 0}, nil})
			c.Count("odd_networks", 1)
		}
		ns = r.NetworksWithin(n)
	}
	for i := 0; i < 300 && ns.Next(); i++ {
		var x any
		n, err := ns.Network(&x)
		judge(err, "Network")
		if (n == nil) == (err == nil) {
			c.Failf("network %d of the list: %v with error %v", i, n, err)
		}
		c.Count("listed", 1)
	}
	ns.Err()
	if used := allocated() - a0; used > 512<<20+64*uint64(len(b))*uint64(len(b)) {
		c.Failf("reading a file of %d bytes allocated %d MB", len(b), used>>20)
	} else if int64(used>>10) > c.counters["max_alloc_kb"] {
		c.counters["max_alloc_kb"] = int64(used >> 10)
	}
	c.Detail(nil)
}
