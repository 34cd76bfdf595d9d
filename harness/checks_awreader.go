package main

import (
	"fmt"
	"net"
	"reflect"
	"sort"
	"sync"

	"github.com/qiniu/uip/db/format/awdb"
)

func init() {
	register(&Check{ID: "C36", Quick: 12000, Thorough: 300000, MemMB: 4000,
		Rule: "a case is one generated awdb file whose records are values of all twelve types (nested, shared through pointers) in a 24/28/32 bit IPv4 or IPv6 tree; every record is decoded into up to six generated Go types and compared with the value written or, where the type cannot hold it, must be refused; networks are enumerated as a whole and within up to 30 networks and compared with the tree; distinct by file and types",
		Mins: map[string]int64{"decoded": 100000, "refused": 10000, "offsets": 20000, "networks": 100000, "within": 50000, "within4": 20000, "within4_found": 10000, "within_refused": 2000, "containing": 3000, "absent": 20000, "edited": 1000, "threads": 500, "bad_results": 10000, "bad_addresses": 10000, "big_skips": 3, "scribbled": 20000, "held_pointers": 10000},
		Case: caseC36})
}

// typedAwdb is an awdb file with records of all types.
func typedAwdb(c *C) *Awdb {
	d := genAwdb(c, awdbOpt{noBig: true, maxRecs: 8, n: pick(c, []int{0, 1, 3, 10, 40})})
	var pool []*aval
	kinds := []int{avMap}
	if c.P(0.3) {
		kinds = append(append([]int{}, avKinds...), avMap, avSlice)
	}
	for range d.Recs {
		depth := 1 + c.N(4)
		v := genAval(c, depth, kinds, &pool)
		if c.P(0.03) {
			// deep nesting
			i := 10 + c.N(100)
			if c.P(0.2) {
				i = 110 + c.N(300)
				c.Count("very_deep", 1)
			}
			for ; i > 0; i-- {
				if c.P(0.5) {
					v = &aval{kind: avSlice, vals: []*aval{v}}
				} else {
					v = &aval{kind: avMap, keys: []string{pick(c, avKeys)}, vals: []*aval{v}}
				}
			}
		}
		d.Typed = append(d.Typed, v)
	}
	return d
}

// treeOf is the tree as the file has it: its root is a node.
func (d *Awdb) treeOf() *T {
	if d.Tree.leaf() {
		return &T{L: &T{Val: d.Tree.Val}, R: &T{Val: d.Tree.Val}}
	}
	return d.Tree
}

func (d *Awdb) width() int {
	if d.V == 4 {
		return 32
	}
	return 128
}

func (d *Awdb) netOf(a U128, depth int) string {
	ip := u128IP(a)
	if d.V == 4 {
		ip = ip[:4]
	}
	return fmt.Sprintf("%x/%d of %d", []byte(ip), depth, len(ip)*8)
}

func netText(n *net.IPNet) string {
	ones, bits := n.Mask.Size()
	if len(n.IP)*8 != bits {
		return fmt.Sprintf("%v with mask %v", []byte(n.IP), []byte(n.Mask))
	}
	return fmt.Sprintf("%x/%d of %d", []byte(n.IP), ones, bits)
}

func caseC36(c *C) {
	d := typedAwdb(c)
	if c.P(0.001) || c.Idx == 7 {
		// a long list among the values, to be skipped by those who do not want it
		n := 1<<24 + 65820
		l := &aval{kind: avSlice}
		x := &aval{kind: avU16}
		l.vals = make([]*aval, n)
		for i := range l.vals {
			l.vals[i] = x
		}
		v := &aval{kind: avMap, keys: []string{"country", "skipped", "x"}, vals: []*aval{{kind: avString, s: "中国"}, l, {kind: avU16, u: 5}}}
		bigSkip(c, d, v)
		return
	}
	b := d.Encode(c)
	r, err := awdb.FromBytes(b)
	if err != nil {
		c.Failf("a well-formed file is refused: %v", err)
		return
	}
	c.Detail(map[string]any{"file": hx(b)})
	n, l, g := d.Tree.count()
	c.Shape(d.V, d.Size, n, l, g, len(b))
	md := r.Metadata
	if md.NodeCount != uint(d.nodes) || md.RecordSize != uint(d.Size) || md.IPVersion != uint(d.V) || uint64(md.BuildEpoch) != d.Epoch || md.DatabaseType != d.Type ||
		!eqStrings(append([]string{}, md.Languages...), append([]string{}, d.Langs...)) || md.Description["cn"] != "埃文科技" || md.Description["data_version"] != "20210914" || len(md.Description) != 2 || md.BinaryFormatMajorVersion != 2 || md.BinaryFormatMinorVersion != 0 {
		c.Failf("metadata %+v instead of %d nodes of %d bits, IPv%d, epoch %d, type %q, languages %q", md, d.nodes, d.Size, d.V, d.Epoch, d.Type, d.Langs)
	}
	lookups(c, d, r)
	badRequests(c, d, r)
	enumerate(c, d, r)
	if c.P(0.1) {
		threads(c, d, r)
	}
}

// into decodes with f into a fresh t and compares with v.
func into(c *C, r *awdb.Reader, v *aval, t reflect.Type, what string, f func(any) error) {
	dst := reflect.New(t)
	if t == anyType && c.P(0.3) {
		// what was there before does not count
		dst.Elem().Set(reflect.ValueOf(pick(c, []any{"old", 7, []any{1}, map[string]string{"old": "x"}, true})))
	}
	var err error
	if c.P(0.1) {
		// an interface that holds the pointer
		x := dst.Interface()
		err = f(&x)
		if x != dst.Interface() {
			c.Failf("%s: the interface that held a *%v holds %T %v afterwards", what, t, x, x)
		}
		c.Count("held_pointers", 1)
	} else {
		err = f(dst.Interface())
	}
	if !fits(t, v) {
		c.Count("refused", 1)
		if err == nil {
			c.Failf("%s: %s was decoded into %v, which cannot hold it, giving %v", what, avText(v), clip(t.String(), 300), clip(fmt.Sprintf("%v", dst.Elem().Interface()), 200))
		} else if !isTypeError(err) {
			c.Failf("%s: decoding %s into %v gave %T (%v) instead of a type error", what, avText(v), clip(t.String(), 300), err, err)
		}
		return
	}
	c.Count("decoded", 1)
	if err != nil {
		c.Failf("%s: decoding %s into %v failed: %v", what, avText(v), clip(t.String(), 300), err)
		return
	}
	if s := differs(r, v, dst.Elem(), "value"); s != "" {
		c.Failf("%s: decoding %s into %v: %s", what, avText(v), clip(t.String(), 300), s)
	}
	if c.P(0.4) {
		// what is handed out belongs to the caller
		scribble(dst.Elem())
		c.Count("scribbled", 1)
	}
}

// asked gives an address in one of its forms.
func asked(c *C, a U128) net.IP {
	if isMapped(a) && c.P(0.5) {
		return net.IP(v4IP(uint32(a.Lo)))
	}
	return append(net.IP{}, u128IP(a)...)
}

// reference finds the record and network for an address.
func (d *Awdb) lookup(a U128) (rec int, network string, known bool) {
	root := d.treeOf()
	if d.V == 4 {
		key := a.shl(96)
		v, depth := root.find(key, 0)
		return v, d.netOf(key.prefix(depth), depth), true
	}
	if !isMapped(a) {
		v, depth := root.find(a, 0)
		return v, d.netOf(a.prefix(depth), depth), true
	}
	key := U128{0, a.Lo & 0xffffffff}
	v, depth := root.find(key, 0)
	if depth < 96 {
		return v, d.netOf(U128{}, depth), true
	}
	ip := v4IP(uint32(key.prefix(depth).Lo))
	return v, fmt.Sprintf("%x/%d of 32", []byte(ip), depth-96), true
}

func lookups(c *C, d *Awdb, r *awdb.Reader) {
	types := map[int][]reflect.Type{}
	for i, v := range d.Typed {
		for k := 0; k < 5; k++ {
			types[i] = append(types[i], destFor(c, v, 0))
		}
		if v.kind == avMap {
			types[i] = append(types[i], structFor(c, v, 0, true))
		}
	}
	n := 0
	for _, a := range awProbes(c, d, 30) {
		if n++; n > 40 {
			break
		}
		if d.V == 4 && !isMapped(a) {
			continue
		}
		ip := asked(c, a)
		rec, network, _ := d.lookup(a)
		what := "Lookup of " + ip.String()
		if rec < 0 {
			c.Count("absent", 1)
			x := map[string]string{"kept": "as it was"}
			if err := r.Lookup(ip, &x); err != nil || len(x) != 1 || x["kept"] != "as it was" {
				c.Failf("%s, which the file does not have: error %v, result %v", what, err, x)
			}
			var y any
			if _, ok, err := r.LookupNetwork(ip, &y); ok || err != nil || y != nil {
				c.Failf("LookupNetwork of %v, which the file does not have: ok %v, error %v, result %v", ip, ok, err, y)
			}
			if o, err := r.LookupOffset(ip); o != awdb.NotFound || err != nil {
				c.Failf("LookupOffset of %v, which the file does not have: %d, %v", ip, o, err)
			}
			continue
		}
		v := d.Typed[rec]
		t := pick(c, types[rec])
		into(c, r, v, t, what, func(x any) error { return r.Lookup(ip, x) })
		var got *net.IPNet
		into(c, r, v, pick(c, types[rec]), "LookupNetwork of "+ip.String(), func(x any) error {
			var ok bool
			var err error
			got, ok, err = r.LookupNetwork(ip, x)
			if !ok {
				c.Failf("LookupNetwork of %v says that there is no record", ip)
			}
			return err
		})
		if got == nil || netText(got) != network {
			c.Failf("LookupNetwork of %v gave the network %v instead of %s", ip, got, network)
		}
		o, err := r.LookupOffset(ip)
		if err != nil || o == awdb.NotFound {
			c.Failf("LookupOffset of %v failed: %d, %v", ip, o, err)
			continue
		}
		c.Count("offsets", 1)
		into(c, r, v, pick(c, types[rec]), "Decode for "+ip.String(), func(x any) error { return r.Decode(o, x) })
	}
	if len(d.Typed) > 0 {
		c.Sample(map[string]any{"value": avText(d.Typed[0]), "type": clip(types[0][0].String(), 200)})
	}
}

func badRequests(c *C, d *Awdb, r *awdb.Reader) {
	var there U128
	found := false
	for _, l := range d.treeOf().leaves() {
		if l.Val >= 0 && (!found || c.P(0.2)) {
			found = true
			there = l.Addr
			if d.V == 4 {
				there = v4Base.or(there.shr(96))
			}
		}
	}
	// an address of a v6 file that is IPv4-mapped is looked up elsewhere
	if found && !(d.V == 6 && isMapped(there)) {
		ip := asked(c, there)
		var np *string
		for _, x := range []any{nil, struct{ A int }{}, "", 5, np, map[string]string{}, []string{"a"}} {
			c.Count("bad_results", 1)
			if err := r.Lookup(ip, x); err == nil {
				c.Failf("Lookup of %v stored its result in %#v", ip, x)
			}
			if _, _, err := r.LookupNetwork(ip, x); err == nil {
				c.Failf("LookupNetwork of %v stored its result in %#v", ip, x)
			}
			if o, err := r.LookupOffset(ip); err == nil {
				if err := r.Decode(o, x); err == nil {
					c.Failf("Decode for %v stored its result in %#v", ip, x)
				}
			}
		}
	}
	ips := []net.IP{nil, {}, {1, 2, 3}, {1, 2, 3, 4, 5}, make(net.IP, 15), make(net.IP, 17), make(net.IP, 32)}
	if d.V == 4 {
		ips = append(ips, net.ParseIP("::1"), net.ParseIP("2001:4860:4860::8888"), make(net.IP, 16))
	}
	for _, ip := range ips {
		c.Count("bad_addresses", 1)
		var x any
		err := r.Lookup(ip, &x)
		_, ok, err2 := r.LookupNetwork(ip, &x)
		o, err3 := r.LookupOffset(ip)
		if err == nil || err2 == nil || err3 == nil || ok || x != nil || o != awdb.NotFound {
			c.Failf("the address %v of %d bytes in an IPv%d file: errors %v, %v, %v, ok %v, offset %d, result %v", []byte(ip), len(ip), d.V, err, err2, err3, ok, o, x)
		}
	}
}

type netRec struct {
	net string
	rec int
}

func (d *Awdb) within(a U128, depth int) []netRec {
	t, at := d.treeOf().at(a, depth)
	var l []netRec
	t.walk(a.prefix(at), at, func(a U128, dep, v int) {
		if v >= 0 {
			l = append(l, netRec{d.netOf(a, dep), v})
		}
	})
	return l
}

// drain runs an enumeration and compares it with what it should list.
func drain(c *C, d *Awdb, r *awdb.Reader, ns *awdb.Networks, want []netRec, what string) {
	var got []netRec
	edit := c.P(0.5)
	kept := []*net.IPNet{}
	for ns.Next() {
		if len(got) > len(want)+5 {
			break
		}
		var x any
		n, err := ns.Network(&x)
		if err != nil {
			c.Failf("%s: reading network %d failed: %v", what, len(got), err)
			return
		}
		t := netText(n)
		got = append(got, netRec{t, -1})
		if i := len(got) - 1; i < len(want) && want[i].net == t {
			// the usual order
			got[i].rec = want[i].rec
			if s := differs(r, d.Typed[want[i].rec], reflect.ValueOf(&x).Elem(), "value"); s != "" {
				c.Failf("%s: %s carries another record: %s", what, t, s)
				return
			}
		} else {
			for _, w := range want {
				if w.net == t {
					got[i].rec = w.rec
					if s := differs(r, d.Typed[w.rec], reflect.ValueOf(&x).Elem(), "value"); s != "" {
						c.Failf("%s: %s carries another record: %s", what, t, s)
						return
					}
				}
			}
		}
		if edit {
			// what is handed out belongs to the caller
			for i := range n.IP {
				n.IP[i] ^= 0xff
			}
			for i := range n.Mask {
				n.Mask[i] = 0
			}
			scribble(reflect.ValueOf(&x))
			kept = append(kept, n)
			c.Count("edited", 1)
		}
	}
	if err := ns.Err(); err != nil {
		c.Failf("%s ended with %v", what, err)
		return
	}
	if ns.Next() {
		c.Failf("%s went on after its end", what)
	}
	by := func(l []netRec) []netRec {
		l = append([]netRec{}, l...)
		sort.Slice(l, func(i, j int) bool { return l[i].net < l[j].net })
		return l
	}
	g, w := by(got), by(want)
	if !reflect.DeepEqual(g, w) {
		i := 0
		for i < len(g) && i < len(w) && g[i] == w[i] {
			i++
		}
		c.Failf("%s listed %d networks instead of %d; entry %d is %v instead of %v", what, len(g), len(w), i, at(g, i), at(w, i))
	}
}

func at(l []netRec, i int) string {
	if i < len(l) {
		return l[i].net
	}
	return "none"
}

func enumerate(c *C, d *Awdb, r *awdb.Reader) {
	all := d.within(U128{}, 0)
	if len(all) > 3000 {
		all = nil
	} else {
		drain(c, d, r, r.Networks(), all, "Networks")
		c.Count("networks", len(all))
	}
	leaves := d.treeOf().leaves()
	w := d.width()
	for i := 0; i < 15; i++ {
		l := pick(c, leaves)
		depth := pick(c, []int{l.Depth, l.Depth - 1, l.Depth - 2, l.Depth - c.N(10), l.Depth + 1, l.Depth + c.N(20), 0, w})
		depth = max(0, min(depth, w))
		a := l.Addr.or(randU128(c).and(hostMask(l.Depth)))
		if c.P(0.5) {
			a = a.prefix(depth)
		}
		ip := append(net.IP{}, u128IP(a)...)
		if d.V == 4 {
			ip = ip[:4]
		}
		n := &net.IPNet{IP: ip, Mask: net.CIDRMask(depth, w)}
		was := append(net.IP{}, ip...)
		want := d.within(a, depth)
		if len(want) > 3000 {
			continue
		}
		if l.Depth < depth {
			c.Count("containing", 1)
		}
		c.Count("within", 1)
		drain(c, d, r, r.NetworksWithin(n), want, "NetworksWithin "+n.String())
		if !was.Equal(ip) {
			c.Failf("NetworksWithin changed the network it was given from %v to %v", was, ip)
		}
	}
	otherFamily(c, d, r)
	if all != nil && c.P(0.3) {
		drain(c, d, r, r.Networks(), all, "Networks, once more,")
		c.Count("networks", len(all))
	}
}

// within4 lists the IPv4 networks of an IPv6 file inside the given one.
func (d *Awdb) within4(a uint32, depth int) []netRec {
	t, at := d.treeOf().at(U128{0, uint64(a)}, 96+depth)
	var l []netRec
	t.walk(U128{0, uint64(a)}.prefix(at), at, func(a U128, dep, v int) {
		if v >= 0 {
			if dep < 96 {
				l = append(l, netRec{d.netOf(U128{}, dep), v})
				return
			}
			l = append(l, netRec{fmt.Sprintf("%x/%d of 32", []byte(v4IP(uint32(a.Lo)).To4()), dep-96), v})
		}
	})
	return l
}

// otherFamily enumerates within IPv4 networks in their different forms, and
// asks for IPv6 networks where there are none.
func otherFamily(c *C, d *Awdb, r *awdb.Reader) {
	var v4 []uint32
	for _, l := range d.treeOf().leaves() {
		a := l.Addr.or(randU128(c).and(hostMask(l.Depth)))
		if d.V == 4 {
			v4 = append(v4, uint32(a.Hi>>32))
		} else if a.Hi == 0 && a.Lo>>32 == 0 {
			v4 = append(v4, uint32(a.Lo))
		}
	}
	for i := 0; i < 6; i++ {
		a := c.R.Uint32()
		if len(v4) > 0 && c.P(0.8) {
			a = pick(c, v4)
		}
		depth := c.N(33)
		ip := net.IP{byte(a >> 24), byte(a >> 16), byte(a >> 8), byte(a)}
		form := net.IP(ip)
		if c.P(0.5) {
			form = ip.To16()
		}
		if c.P(0.5) {
			form = form.Mask(net.CIDRMask(depth, 32))
			if c.P(0.5) {
				form = form.To16()
			}
		}
		n := &net.IPNet{IP: form, Mask: net.CIDRMask(depth, 32)}
		want := d.within4(a, depth)
		if d.V == 4 {
			want = d.within(U128{uint64(a) << 32, 0}, depth)
		}
		if len(want) > 3000 {
			continue
		}
		c.Count("within4", 1)
		if len(want) > 0 {
			c.Count("within4_found", 1)
		}
		drain(c, d, r, r.NetworksWithin(n), want, fmt.Sprintf("NetworksWithin %v (%d bytes) in an IPv%d file", n, len(form), d.V))
	}
	if d.V == 4 {
		ip := u128IP(randU128(c))
		n := &net.IPNet{IP: ip, Mask: net.CIDRMask(c.N(129), 128)}
		ns := r.NetworksWithin(n)
		if ns.Next() || ns.Err() == nil {
			var x any
			got, err := ns.Network(&x)
			c.Failf("NetworksWithin %v in an IPv4 file gives %v, %v instead of an error", n, got, err)
		}
		c.Count("within_refused", 1)
	}
}

type typedJob struct {
	ip net.IP
	v  *aval
	t  reflect.Type
}

// run decodes the record and tells what is wrong with it.
func (j typedJob) run(r *awdb.Reader) string {
	dst := reflect.New(j.t)
	err := r.Lookup(j.ip, dst.Interface())
	if (err == nil) != fits(j.t, j.v) {
		return fmt.Sprintf("Lookup of %v into %v: %v", j.ip, j.t, err)
	}
	if err != nil {
		return ""
	}
	if s := differs(r, j.v, dst.Elem(), "value"); s != "" {
		return fmt.Sprintf("Lookup of %v into %v: %s", j.ip, j.t, s)
	}
	scribble(dst.Elem())
	return ""
}

func threads(c *C, d *Awdb, r *awdb.Reader) {
	var jobs []typedJob
	for _, a := range awProbes(c, d, 20) {
		if d.V == 4 && !isMapped(a) {
			continue
		}
		rec, _, _ := d.lookup(a)
		if rec < 0 {
			continue
		}
		t := destFor(c, d.Typed[rec], 0)
		if d.Typed[rec].kind == avMap && c.P(0.6) {
			t = structFor(c, d.Typed[rec], 0, true)
		}
		jobs = append(jobs, typedJob{asked(c, a), d.Typed[rec], t})
	}
	var wg sync.WaitGroup
	bad := make([]string, 8)
	for g := range bad {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range jobs {
				if s := jobs[(k*(g+1)+g)%len(jobs)].run(r); s != "" {
					bad[g] = s
				}
			}
		}()
	}
	wg.Wait()
	c.Count("threads", len(bad))
	for _, s := range bad {
		if s != "" {
			c.Failf("with eight goroutines at once, %s", clip(s, 500))
		}
	}
}

// bigSkip looks a record with a list of 16 million entries up without asking
// for the list.
func bigSkip(c *C, d *Awdb, v *aval) {
	for i := range d.Typed {
		d.Typed[i] = v
	}
	d.Typed = d.Typed[:1]
	d.Recs = d.Recs[:1]
	d.Size = 32
	d.Tree = &T{L: &T{Val: 0}, R: &T{Val: 0}}
	b := d.Encode(c)
	r, err := awdb.FromBytes(b)
	if err != nil {
		c.Failf("a well-formed file with a long list is refused: %v", err)
		return
	}
	c.Count("big_skips", 1)
	c.Shape("big", d.V, c.Idx)
	var s struct {
		Country string `awdb:"country"`
		X       int    `awdb:"x"`
	}
	if err := r.Lookup(net.IP{1, 2, 3, 4}, &s); err != nil || s.Country != "中国" || s.X != 5 {
		c.Failf("a record with a long list that is not asked for: %v, %+v", err, s)
	}
}
