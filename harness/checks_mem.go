package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"runtime/debug"
	"slices"
	"strings"
	"syscall"
	"unsafe"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/ipnet"
)

// Guarded memory: bytes between two pages that cannot be touched, and read
// only themselves once frozen. A write into it, or a read outside of it,
// faults in the very instruction that does it. The pages are never released,
// so that results may alias them for the life of the worker process.
type arena struct {
	mem  []byte // the writable part while it is filled
	off  int
	head bool // objects are placed from the front, else up to the rear guard
}

const page = 4096

func newArena(n int) *arena {
	pages := (n + page - 1) / page
	if pages == 0 {
		pages = 1
	}
	m, err := syscall.Mmap(-1, 0, (pages+2)*page, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		harness("mmap: %v", err)
	}
	in := m[page : page+pages*page]
	if err := syscall.Mprotect(in, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		harness("mprotect: %v", err)
	}
	return &arena{mem: in}
}

func (a *arena) alloc(n, align int) unsafe.Pointer {
	a.off = (a.off + align - 1) &^ (align - 1)
	if a.off+n > len(a.mem) {
		harness("arena of %d bytes is too small", len(a.mem))
	}
	p := unsafe.Pointer(unsafe.Add(unsafe.Pointer(&a.mem[0]), a.off))
	a.off += n
	return p
}

func (a *arena) freeze() {
	if err := syscall.Mprotect(a.mem, syscall.PROT_READ); err != nil {
		harness("mprotect: %v", err)
	}
}

// frozen copies bytes to guarded read-only memory: the copy ends right in
// front of a forbidden page (or starts right behind one).
func frozen(b []byte, front bool) []byte {
	a := newArena(len(b))
	off := len(a.mem) - len(b)
	if front {
		off = 0
	}
	copy(a.mem[off:], b)
	a.freeze()
	if len(b) == 0 {
		return unsafe.Slice((*byte)(unsafe.Add(unsafe.Pointer(&a.mem[0]), len(a.mem)-1)), 0)
	}
	return unsafe.Slice(&a.mem[off], len(b))
}

// ro is read-only memory shared by the small values of one case.
type ro struct{ a *arena }

func newRO(n int) *ro { return &ro{newArena(n)} }

func (r *ro) bytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	// a canary byte behind each value keeps them apart
	p := (*byte)(r.a.alloc(len(b)+1, 1))
	s := unsafe.Slice(p, len(b)+1)
	copy(s, b)
	s[len(b)] = 0xa5
	return s[:len(b):len(b)]
}

func (r *ro) str(s string) string {
	if s == "" {
		return ""
	}
	b := r.bytes([]byte(s))
	return unsafe.String(&b[0], len(b))
}

func (r *ro) strs(l []string) []string {
	if l == nil {
		return nil
	}
	if len(l) == 0 {
		return []string{}
	}
	p := (*string)(r.a.alloc(len(l)*int(unsafe.Sizeof("")), 8))
	s := unsafe.Slice(p, len(l))
	for i, x := range l {
		s[i] = r.str(x)
	}
	return s
}

func (r *ro) net(n *net.IPNet) *net.IPNet {
	p := (*net.IPNet)(r.a.alloc(int(unsafe.Sizeof(net.IPNet{})), 8))
	p.IP = r.bytes(n.IP)
	p.Mask = r.bytes(n.Mask)
	return p
}

// table copies a whole table into the read-only memory.
func (r *ro) table(d *inf.IpData) *inf.IpData {
	v := (*inf.VersionInfo)(r.a.alloc(int(unsafe.Sizeof(inf.VersionInfo{})), 8))
	*v = inf.VersionInfo{IpType: d.Version.IpType, Count: d.Version.Count, Build: d.Version.Build}
	v.Version = r.str(d.Version.Version)
	v.Languages = r.strs(d.Version.Languages)
	v.ExtraInfo = r.strs(d.Version.ExtraInfo)
	o := (*inf.IpData)(r.a.alloc(int(unsafe.Sizeof(inf.IpData{})), 8))
	*o = inf.IpData{Version: v}
	o.Fields = r.strs(d.Fields)
	if n := len(d.Ips); n > 0 {
		p := (*inf.IpRaw)(r.a.alloc(n*int(unsafe.Sizeof(inf.IpRaw{})), 8))
		s := unsafe.Slice(p, n)
		shared := map[*string][]string{}
		for i, x := range d.Ips {
			var vals []string
			if len(x.FieldValues) > 0 {
				k := &x.FieldValues[0]
				if shared[k] == nil {
					shared[k] = r.strs(x.FieldValues)
				}
				vals = shared[k]
			}
			s[i] = inf.IpRaw{Cidr: r.net(x.Cidr), FieldValues: vals}
		}
		o.Ips = s
	}
	return o
}

func tableSize(d *inf.IpData) int {
	n := 4096
	for _, l := range [][]string{d.Fields, d.Version.Languages, d.Version.ExtraInfo, {d.Version.Version}} {
		for _, s := range l {
			n += 32 + len(s)
		}
	}
	for _, r := range d.Ips {
		n += 256
		for _, s := range r.FieldValues {
			n += 32 + len(s)
		}
	}
	return n
}

// guardSelfTest proves that the monitor would see both kinds of violation.
func guardSelfTest(c *C) {
	faults := func(f func()) (hit bool) {
		defer func() { hit = recover() != nil }()
		f()
		return
	}
	b := frozen([]byte("abc"), false)
	if !faults(func() { b[1] = 'x' }) {
		harness("a write to frozen memory went unnoticed")
	}
	var sink byte
	if !faults(func() { sink = *(*byte)(unsafe.Add(unsafe.Pointer(&b[0]), 3)) }) {
		harness("a read behind frozen memory went unnoticed")
	}
	f := frozen([]byte("abc"), true)
	if !faults(func() { sink = *(*byte)(unsafe.Add(unsafe.Pointer(&f[0]), -1)) }) {
		harness("a read in front of frozen memory went unnoticed")
	}
	_ = sink
	if string(b) != "abc" || string(f) != "abc" {
		harness("frozen memory lost its contents")
	}
	c.Count("self_tests", 3)
}

func init() {
	register(&Check{ID: "C29", Quick: 16000, Thorough: 150000, PerProc: 60,
		Rule: "a case puts one kind of input (database bytes well-formed or damaged, queried addresses, warm-up lists, rules, whole tables to pack, networks and addresses for the range arithmetic) into read-only memory between inaccessible pages and runs open, query, warm-up, dump, pack or arithmetic over it: a write, even a temporary one, or a read outside faults on the spot; every worker first proves that its guard pages fault; distinct by kind and input",
		Mins: map[string]int64{"self_tests": 100, "opened": 1500, "queries": 50000, "dumps": 1000, "packs": 3000, "operations": 500, "arithmetic": 20000, "frozen_bytes": 10000000},
		Case: caseC29})
}

func caseC29(c *C) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	guardSelfTest(c)
	defer func() {
		if v := recover(); v != nil {
			if e, ok := v.(interface{ Addr() uintptr }); ok {
				st := string(debug.Stack())
				if strings.Contains(fmt.Sprint(v), "nil pointer") {
					panic(v)
				}
				if !panicInUip(st) {
					harness("a fault in the harness: %v\n%s", v, st)
				}
				c.Failf("the library touches memory of its caller it must not touch (address %#x): %v\n%s", e.Addr(), v, clip(st, 3000))
			}
			panic(v)
		}
	}()
	switch c.Idx % 5 {
	case 0, 1:
		c29Db(c)
	case 2:
		c29Pack(c)
	case 3:
		c29Ops(c)
	default:
		c29Net(c)
	}
}

func c29Db(c *C) {
	var ext string
	var b []byte
	var ps []U128
	switch c.N(6) {
	case 0, 1, 2:
		d := genAny(c, 60)
		ext, b, ps = d.ext, d.b, d.probe
	case 3:
		d := genIpdb(c, ipdbOpt{n: 1 + c.N(20), maxRecs: 6})
		ext, b, ps = ".ipdb", mutateIpdb(c, d.Encode(c), nil), hostileAddrs(c)
	case 4:
		d := genAwdb(c, awdbOpt{n: 1 + c.N(15), maxRecs: 5, noBig: true})
		ext, b, ps = ".awdb", mutateAwdb(c, d, d.Encode(c), nil), hostileAddrs(c)
	default:
		if c.P(0.5) {
			ext, b = ".scan", genScan(c)
		} else {
			ext, b = ".memip", genMemip(c)
		}
		if c.P(0.4) {
			b = mutateText(c, b, nil)
		}
	}
	before := append([]byte(nil), b...)
	fb := frozen(b, c.P(0.3))
	c.Count("frozen_bytes", len(fb))
	c.Detail(map[string]any{"ext": ext, "bytes": len(b)})
	if create := format.GetQueryFormat(ext); create != nil {
		db, err := query.NewDbFromBytes(ext, fb)
		if err == nil {
			c.Count("opened", 1)
			r := newRO(1 << 16)
			var list []string
			for i := 0; i < 12 && len(ps) > 0; i++ {
				list = append(list, pick(c, []string{textForm(c, pick(c, ps)), oddText(c, pick(c, ps)), "", "1.2.3.4"}))
			}
			list = r.strs(list)
			type q struct {
				ip  net.IP
				txt string
			}
			var qs []q
			for _, a := range ps[:min(len(ps), 80)] {
				qs = append(qs, q{ip: r.bytes(u128IP(a)), txt: r.str(textForm(c, a))})
				if isMapped(a) {
					qs = append(qs, q{ip: r.bytes(v4IP(uint32(a.Lo)))})
				}
			}
			r.a.freeze()
			query.GetIntern(db).BuildCache(list)
			for _, x := range qs {
				db.Query(x.ip)
				c.Count("queries", 1)
				if x.txt != "" {
					db.QueryStr(x.txt)
					c.Count("queries", 1)
				}
			}
			db.CheckV4()
			db.CheckV6()
			_ = db.VersionInfo().String()
		}
	}
	if dump := format.GetDumpFormat(ext); dump != nil {
		r := newRO(1 << 14)
		rule := r.str(pick(c, []string{"", defaultRule, "country,province", "line|isp,asn,city"}))
		r.a.freeze()
		t, err := dump(fb, export.ParseRule(rule))
		c.Count("dumps", 1)
		if err == nil {
			// what a dump returns belongs to the caller: its strings may lie in
			// the file's bytes, everything else is writable
			for i := range t.Ips {
				x := &t.Ips[i]
				for k := range x.FieldValues {
					x.FieldValues[k] = ""
				}
				for k := range x.Cidr.IP {
					x.Cidr.IP[k] ^= 0
				}
			}
		}
	}
	if !bytes.Equal(fb, before) {
		harness("frozen memory changed")
	}
	c.Shape(ext, string(before))
	if c.Idx < 3 {
		c.Sample(map[string]any{"ext": ext, "frozen_bytes": len(fb), "addresses": len(ps)})
	}
}

func c29Pack(c *C) {
	d, leaves := packTable(c, 40)
	r := newRO(tableSize(d))
	f := r.table(d)
	want := snapshot(d)
	if got := snapshot(f); got != want {
		harness("the frozen table differs")
	}
	r.a.freeze()
	c.Count("frozen_bytes", r.a.off)
	c.Detail(map[string]any{"rows": len(d.Ips), "fields": d.Fields})
	for _, ext := range []string{".ipdb", ".scan", ".memip", ".plain"} {
		if format.GetPackFormat(ext) == nil {
			continue
		}
		// the same table may be packed by several at once
		n := 1 + c.N(2)
		type res struct {
			b     []byte
			fault any
			stack string
		}
		out := make(chan res, n)
		for i := 0; i < n; i++ {
			w := c.P(0.3)
			go func() {
				debug.SetPanicOnFault(true)
				var o res
				defer func() {
					if v := recover(); v != nil {
						o.fault, o.stack = v, string(debug.Stack())
					}
					out <- o
				}()
				if w {
					var buf bytes.Buffer
					convert.PackWriter(ext, f, struct{ io.Writer }{&buf})
					o.b = buf.Bytes()
				} else {
					o.b, _ = convert.PackBytes(ext, f)
				}
			}()
		}
		for i := 0; i < n; i++ {
			o := <-out
			if o.fault != nil {
				if !panicInUip(o.stack) {
					harness("a fault in the harness: %v\n%s", o.fault, o.stack)
				}
				c.Failf("packing as %s writes to the table it was given, or reads outside it: %v\n%s", ext, o.fault, clip(o.stack, 3000))
			}
			c.Count("packs", 1)
			c.Count("packed_bytes", len(o.b))
		}
	}
	c.Shape("pack", d.Fields, len(leaves), famOf(leaves), len(want))
}

func c29Ops(c *C) {
	fields := append([]string(nil), commonNames...)
	shuffle(c, fields)
	if c.P(0.5) {
		// some without the columns the operations add
		fields = slices.DeleteFunc(fields, func(f string) bool { return f == pick(c, []string{"line", "district"}) })
	}
	d := opsTable(c, fields, 30, 1+c.N(3), true)
	// all strings the rows hold are read-only, and so is the line database
	r := newRO(4*tableSize(d) + 1<<16)
	for i := range d.Ips {
		for k, s := range d.Ips[i].FieldValues {
			d.Ips[i].FieldValues[k] = r.str(s)
		}
	}
	asn := map[string]string{}
	col := offsetOf(fields, "asn")
	for _, x := range d.Ips {
		if col >= 0 && c.P(0.5) {
			asn[r.str(x.FieldValues[col])] = r.str(pick(c, []string{"line-a", "line-b", ""}))
		}
	}
	ver := r.str("lines-1")
	ext, _, lb := genLine(c)
	fl := frozen(lb, c.P(0.3))
	r.a.freeze()
	c.Count("frozen_bytes", r.a.off+len(fl))
	asnBefore := fmt.Sprint(asn)
	line, err := query.NewDbFromBytes(ext, fl)
	if err != nil {
		c.Failf("NewDbFromBytes refuses a well-formed %s: %v", ext, err)
	}
	ops := []func(){
		func() { operate.MergeNearNetwork(d) },
		func() { operate.ReplaceShortage(d) },
		func() { operate.TrimAsnIspDup(d) },
		func() { operate.AttachDistrict(d) },
		func() { operate.AttachLineByAsn(d, asn, ver) },
		func() { operate.AttachLineByCidr(d, query.GetIntern(line)) },
		func() { operate.ReplaceLineByCidr(d, query.GetIntern(line)) },
	}
	shuffle(c, ops)
	for _, f := range ops[:1+c.N(len(ops))] {
		f()
		c.Count("operations", 1)
	}
	if fmt.Sprint(asn) != asnBefore {
		c.Failf("AttachLineByAsn changed its mapping from %s to %v", asnBefore, asn)
	}
	c.Shape("ops", fields, len(d.Ips), len(lb))
}

func c29Net(c *C) {
	r := newRO(1 << 17)
	v4 := c.P(0.5)
	type rg struct {
		lo, hi net.IP
		n      *net.IPNet
	}
	var l []rg
	var near []U128
	for i := 0; i < 8; i++ {
		lo, hi := famRange(c, v4, near)
		near = append(near, lo, hi)
		dep := 128 - c.N(33)
		l = append(l, rg{r.bytes(form(c, lo)), r.bytes(form(c, hi)), r.net(mkNet(lo.prefix(dep), dep, c.P(0.5)))})
	}
	r.a.freeze()
	c.Count("frozen_bytes", r.a.off)
	var text []string
	for i := range l {
		for j := range l {
			x, y := l[i], l[j]
			ipnet.Contains(x.lo, x.hi, y.lo)
			ipnet.IPLess(x.lo, y.hi)
			ipnet.MaskLess(x.n, y.n)
			ra, rb := ipnet.NewRange(x.n), ipnet.NewRange(y.n)
			ra.Contains(y.hi)
			ra.CommonRange(y.lo, rb)
			ra.Join(rb)
			ra = ipnet.NewRange(x.n)
			ra.JoinIPNet(y.n)
			ra = ipnet.NewRange(x.n)
			ra.Join(ipnet.NewRange(y.n))
			ra.Join(ipnet.NewRange(l[c.N(len(l))].n))
			ra.IPNets()
			c.Count("arithmetic", 7)
		}
		x := l[i]
		ipnet.LastIP(x.n)[0]++
		if n := ipnet.NextIP(x.lo); len(n) > 0 {
			n[0]++
		}
		if n := ipnet.NextStart(x.n); len(n) > 0 {
			n[0]++
		}
		ipnet.IsAllMask(x.hi)
		ipnet.IsFirstIP(x.lo, !v4)
		ipnet.PrefixSameLength(x.lo, x.hi)
		ipnet.SuffixZeroLength(x.lo)
		if v4 {
			ipnet.IPv4ToUint32(x.lo)
		}
		ro := &ipnet.Range{Start: x.lo, End: x.hi}
		for _, n := range ro.IPNets() {
			text = append(text, n.String())
		}
		c.Count("arithmetic", 9)
	}
	c.Shape("net", strings.Join(text, " "))
}
