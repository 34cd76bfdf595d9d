package main

import (
	"fmt"
	"io"
	"net"
	"runtime"
	"sort"
	"syscall"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/ipnet"
)

func init() {
	register(&Check{ID: "C34", Quick: 240, Thorough: 6000, Workers: 5, MemMB: 8000, CPUSec: 300,
		Rule: "a case is one kind of work (open, dump, pack, query, each operation, expanding ranges) on one shape of table, measured at two sizes a factor of 4 apart (queries: 64 apart) by the CPU time of its thread and the bytes it allocates, best of three; distinct by work, shape and family",
		Mins: map[string]int64{"measured": 200, "rows": 5000000, "ranges": 200},
		Case: caseC34})
}

// threadCPU is the CPU time the calling thread has used, in seconds.
func threadCPU() float64 {
	var u syscall.Rusage
	const thread = 1
	if err := syscall.Getrusage(thread, &u); err != nil {
		harness("getrusage: %v", err)
	}
	return float64(u.Utime.Nano()+u.Stime.Nano()) / 1e9
}

// cost runs f and tells its CPU time and allocated bytes; prepare is not
// counted.
func cost(times int, prepare func(), f func()) (cpu float64, bytes uint64) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	for i := 0; i < times; i++ {
		if prepare != nil {
			prepare()
		}
		var a, b runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&a)
		t := threadCPU()
		f()
		t = threadCPU() - t
		runtime.ReadMemStats(&b)
		if n := b.TotalAlloc - a.TotalAlloc; i == 0 || n < bytes {
			bytes = n
		}
		if i == 0 || t < cpu {
			cpu = t
		}
		if t > 4 {
			// no work here takes a second
			break
		}
	}
	return cpu, bytes
}

// splitSpace cuts the whole space of a family into n networks.
func splitSpace(c *C, fam, n int, even bool) []Leaf {
	top := Leaf{Addr: v4Base, Depth: 96}
	if fam == 6 {
		top = Leaf{Depth: 0}
	}
	l := []Leaf{top}
	if even {
		for len(l) < n {
			var m []Leaf
			for _, x := range l {
				m = append(m, Leaf{Addr: x.Addr, Depth: x.Depth + 1}, Leaf{Addr: x.Addr.setBit(x.Depth), Depth: x.Depth + 1})
			}
			l = m
		}
		return l
	}
	for len(l) < n {
		i := c.N(len(l))
		x := l[i]
		if x.Depth >= 124 {
			continue
		}
		l[i] = Leaf{Addr: x.Addr, Depth: x.Depth + 1}
		l = append(l, Leaf{Addr: x.Addr.setBit(x.Depth), Depth: x.Depth + 1})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Addr.less(l[j].Addr) })
	return l
}

func caseC34(c *C) {
	works := []string{"open", "query", "dump", "dump with rule", "pack .ipdb", "pack .scan", "pack .memip", "normalise", "unify", "merge", "district", "line by asn", "line by network", "replace line", "ranges", "read .scan", "read .memip"}
	work := works[c.Idx%len(works)]
	shape := c.N(6)
	fam := pick(c, []int{4, 6})
	even := c.P(0.5)
	fields := []string{"country", "province", "city", "isp", "asn", "continent", "line"}
	if work == "line by asn" || work == "line by network" {
		fields = fields[:6]
	}
	if work == "district" {
		fields = append(fields, "district")
	}
	if work == "ranges" {
		expandCost(c, fam)
		return
	}
	small, large, limit, times := 16000, 64000, 9.0, 3
	if work == "query" {
		small, limit = 500, 20
	}
	table := func(n int) *inf.IpData {
		d := &inf.IpData{Fields: fields, Version: &inf.VersionInfo{Build: 1600000000, Version: "v"}}
		if fam == 6 {
			d.Version.IpType = inf.IpV6
		} else {
			d.Version.IpType = inf.IpV4
		}
		for i, l := range splitSpace(c, fam, n, even) {
			k := i
			switch shape {
			case 1:
				k = 0
			case 2:
				k = i % 2
			case 3:
				k = i / 3
			case 4:
				k = i * 7919 % 1000
			}
			v := []string{"中国", []string{"北京", "上海", "浙江省", "X"}[k%4], fmt.Sprint("城", k%977), fmt.Sprint("运营商", k), fmt.Sprint(k), "亚洲", ""}[:len(fields)-b2i(len(fields) > 7)]
			if len(fields) > 7 {
				v = append(v, "")
			}
			if shape == 5 {
				v[4] = "4134"
			}
			if k%5 == 0 {
				v[3] = "电信"
			}
			d.Ips = append(d.Ips, inf.IpRaw{Cidr: mkNet(l.Addr, l.Depth, false), FieldValues: append([]string{}, v...)})
		}
		c.Count("rows", n)
		return d
	}
	packed := func(ext string, d *inf.IpData) []byte {
		b, err := convert.PackBytes(ext, d)
		if err != nil {
			c.Failf("packing a table of %d networks failed: %v", len(d.Ips), err)
		}
		return b
	}
	dump := func(ext string, b []byte, rule string) {
		if _, err := format.GetDumpFormat(ext)(b, export.ParseRule(rule)); err != nil {
			c.Failf("dumping a %s of %d bytes failed: %v", ext, len(b), err)
		}
	}
	var sizes [2]struct {
		prepare, run func()
	}
	for i, n := range []int{small, large} {
		d := table(n)
		s := &sizes[i]
		var cp *inf.IpData
		again := func() { cp = deepCopy(d) }
		switch work {
		case "open", "query", "dump", "dump with rule":
			ext := ".ipdb"
			var b []byte
			if c.Idx/len(works)%2 == 1 {
				// the same tree as an awdb file
				ext = ".awdb"
				b = awdbOf(c, fam, d)
			} else {
				b = packed(ext, d)
			}
			switch work {
			case "open":
				s.run = func() {
					if _, err := query.NewDbFromBytes(ext, b); err != nil {
						c.Failf("opening a %s of %d networks failed: %v", ext, n, err)
					}
				}
			case "query":
				q := openBytes(c, ext, b)
				var ips []net.IP
				for k := 0; k < 30000; k++ {
					a := randU128(c)
					if fam == 4 {
						a = v4Base.or(U128{0, uint64(c.R.Uint32())})
					} else if isMapped(a) {
						continue
					}
					ips = append(ips, u128IP(a))
				}
				s.run = func() {
					for _, ip := range ips {
						q.Query(ip)
					}
				}
			case "dump":
				s.run = func() { dump(ext, b, "") }
			default:
				s.run = func() { dump(ext, b, defaultRule) }
			}
		case "read .scan", "read .memip":
			ext := work[5:]
			b := packed(ext, d)
			s.run = func() { dump(ext, b, "") }
		case "pack .ipdb", "pack .scan", "pack .memip":
			s.run = func() {
				if err := convert.PackWriter(work[5:], d, io.Discard); err != nil {
					c.Failf("packing a table of %d networks to %s failed: %v", n, work[5:], err)
				}
			}
		default:
			s.prepare = again
			lineDb := openBytes(c, ".ipdb", packed(".ipdb", d))
			asns := map[string]string{}
			for k := 0; k < n; k += 2 {
				asns[fmt.Sprint(k)] = fmt.Sprint("线", k%9)
			}
			s.run = map[string]func(){
				"normalise":       func() { operate.ReplaceShortage(cp) },
				"unify":           func() { operate.TrimAsnIspDup(cp) },
				"merge":           func() { operate.MergeNearNetwork(cp) },
				"district":        func() { operate.AttachDistrict(cp) },
				"line by asn":     func() { operate.AttachLineByAsn(cp, asns, "v") },
				"line by network": func() { operate.AttachLineByCidr(cp, query.GetIntern(lineDb)) },
				"replace line":    func() { operate.ReplaceLineByCidr(cp, query.GetIntern(lineDb)) },
			}[work]
		}
	}
	judge(c, fmt.Sprintf("%s (IPv%d, shape %d, even %v)", work, fam, shape, even), small, large, limit, times, func(i, times int) (float64, uint64) {
		return cost(times, sizes[i].prepare, sizes[i].run)
	})
	c.Shape(work, fam, shape, even, c.Idx/len(works)%2)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// judge compares the costs of two sizes and measures again before it complains.
func judge(c *C, what string, small, large int, limit float64, times int, measure func(i, times int) (float64, uint64)) {
	worst := ""
	for try := 0; try < 3; try++ {
		t0, b0 := measure(0, times)
		t1, b1 := measure(1, times)
		c.Count("measured", 1)
		if t1 > 0.02 {
			c.Count("max_cpu_ratio_x10", int(10*t1/max(t0, 0.02)))
		}
		c.Count("max_alloc_ratio_x10", int(10*float64(b1)/float64(max(b0, 1<<20))))
		if c.Idx < 17 && try == 0 {
			c.Sample(map[string]any{"work": what, "sizes": []int{small, large}, "cpu_ms": []int{int(t0 * 1000), int(t1 * 1000)}, "allocated_kb": []uint64{b0 >> 10, b1 >> 10}})
		}
		slow := t1 > 0.2 && t1 > limit*max(t0, 0.02)
		fat := b1 > 50<<20 && float64(b1) > limit*float64(max(b0, 1<<20))
		if !slow && !fat {
			return
		}
		worst = fmt.Sprintf("%s: %d networks take %.3f s of CPU and allocate %d KB, %d take %.3f s and %d KB", what, small, t0, b0>>10, large, t1, b1>>10)
		times += 2
	}
	c.Failf("%s; more than in proportion, in three measurements", worst)
}

// expandCost asks for the networks of ranges, whose number is bounded by twice
// the address length; the cost must be, too.
func expandCost(c *C, fam int) {
	var rs []ipnet.Range
	for i := 0; i < 20; i++ {
		a, b := famRange(c, fam == 4, nil)
		rs = append(rs, ipnet.Range{Start: form(c, a), End: form(c, b)})
	}
	c.Shape("ranges", fam, c.Idx)
	t, bytes := cost(3, nil, func() {
		for _, r := range rs {
			r.IPNets()
		}
	})
	c.Count("ranges", len(rs))
	if t > 0.5 || bytes > 20<<20 {
		c.Failf("expanding 20 IPv%d ranges took %.3f s of CPU and %d KB", fam, t, bytes>>10)
	}
}

// awdbOf writes the networks of a table to an awdb file.
func awdbOf(c *C, fam int, d *inf.IpData) []byte {
	a := &Awdb{V: fam, Size: 28, Epoch: 1600000000, Langs: []string{"cn"}, Type: "t", Pointer: 0.9}
	a.Tree = &T{Val: -1}
	byText := map[string]int{}
	for _, r := range d.Ips {
		k := fmt.Sprintf("%q", r.FieldValues)
		v, ok := byText[k]
		if !ok {
			v = len(a.Recs)
			byText[k] = v
			m := map[string]string{}
			for i, f := range []string{"country", "province", "city", "isp", "asnumber", "continent"} {
				m[f] = r.FieldValues[i]
			}
			a.Recs = append(a.Recs, m)
		}
		addr, depth := toPrefix(c, r.Cidr)
		if fam == 4 {
			addr, depth = addr.shl(96), depth-96
		}
		a.Tree.put(addr, 0, depth, &T{Val: v})
	}
	return a.Encode(c)
}
