package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"
)

var packExts = []string{".ipdb", ".scan", ".memip"}

func init() {
	register(&Check{ID: "C17", Quick: 12000, Thorough: 400000,
		Rule: "a case packs one table up to twelve times to all formats in random order, compares a deep snapshot of the table after every call and every output with the output of an untouched copy; distinct by table and order of formats",
		Mins: map[string]int64{"packs": 50000, "snapshots": 50000, "outputs_compared": 40000, "refused": 500},
		Case: caseC17})
	register(&Check{ID: "C18", Level: "fault_enumeration", Quick: 20000, Thorough: 700000,
		Rule: "a case packs one table to one format through writers that fail at the k-th call or byte (once or for good, with or without a partial write), to a full device, a closed pipe and unsupported extensions; distinct by format, output size and fault",
		Mins: map[string]int64{"faults": 50000, "full_device": 200, "closed_pipe": 200, "unsupported": 2000, "fault_free": 3000},
		Case: caseC18})
	register(&Check{ID: "C19", Quick: 60000, Thorough: 2000000,
		Rule: "a case packs one table that an ipdb cannot hold (overlaps with other values in any order, ragged rows, tabs, records beyond 65535 bytes) or just can, and requires an error or a database that answers every probed address as the table does; distinct by defect and networks",
		Mins: map[string]int64{"refused_overlap": 1000, "refused_ragged": 500, "refused_tab": 500, "refused_long": 200, "accepted": 1000, "answers_compared": 20000},
		Case: caseC19})
}

// packTable is a table any format can take.
func packTable(c *C, maxNets int) (*inf.IpData, []Leaf) {
	fields := genNames(c)
	n := 1 + c.N(12)
	recs := genRecs(c, fields, n, valOpt{long: c.P(0.1)})
	fam := 1 + c.N(3)
	_, leaves := genNets(c, fam, c.N(maxNets), n, true)
	fam |= famOf(leaves)
	if c.P(0.2) {
		shuffle(c, leaves)
	}
	return mkTable(c, fields, recs, leaves, fam), leaves
}

func caseC17(c *C) {
	d, leaves := packTable(c, 25)
	defect := ""
	if c.P(0.1) && len(d.Ips) > 0 {
		// a table ipdb refuses must stay as it is, too
		defect = "overlap"
		r := pick(c, d.Ips)
		v := append([]string(nil), r.FieldValues...)
		v[0] += "'"
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: r.Cidr, FieldValues: v})
	}
	before := snapshot(d)
	c.Detail(map[string]any{"defect": defect, "table": clip(before, 3000)})
	ref := map[string]string{}
	for _, e := range packExts {
		b, err := convert.PackBytes(e, deepCopy(d))
		if err != nil {
			ref[e] = "error"
			if defect == "" {
				c.Failf("packing to %s failed: %v", e, err)
			}
			c.Count("refused", 1)
			continue
		}
		ref[e] = maskTime(e, b)
	}
	var order []string
	for k := 3 + c.N(10); k > 0; k-- {
		e := pick(c, packExts)
		order = append(order, e)
		b, err := packAny(c, e, d)
		c.Count("packs", 1)
		c.Count("snapshots", 1)
		if after := snapshot(d); after != before {
			c.Failf("packing to %s (after %v) changed the table:\n%s\n--- before:\n%s", e, order, clip(after, 1500), clip(before, 1500))
		}
		got := "error"
		if err == nil {
			got = maskTime(e, b)
		}
		if got != ref[e] {
			c.Failf("packing to %s after %v differs from packing a fresh copy:\n%q\n--- fresh:\n%q", e, order, clip(got, 1200), clip(ref[e], 1200))
		}
		c.Count("outputs_compared", 1)
	}
	c.Shape(fmt.Sprint(leaves), d.Fields, order)
	if c.Idx < 3 {
		c.Sample(map[string]any{"rows": len(d.Ips), "order": order})
	}
}

var errFault = errors.New("injected write failure")

// faultWriter fails at a call or a byte.
type faultWriter struct {
	buf     bytes.Buffer
	calls   int
	failAt  int // call number, from 1; 0: never
	byteAt  int // byte offset; -1: never
	partial bool
	sticky  bool
	fired   bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	fire := w.failAt > 0 && w.calls == w.failAt || w.byteAt >= 0 && !w.fired && w.buf.Len()+len(p) > w.byteAt
	if w.fired && w.sticky {
		return 0, errFault
	}
	if fire {
		w.fired = true
		n := 0
		if w.byteAt >= 0 {
			n = w.byteAt - w.buf.Len()
		} else if w.partial {
			n = len(p) / 2
		}
		w.buf.Write(p[:n])
		return n, errFault
	}
	return w.buf.Write(p)
}

// seenWriter notes whether a write failed.
type seenWriter struct {
	w      io.Writer
	failed bool
}

func (s *seenWriter) Write(p []byte) (int, error) {
	n, err := s.w.Write(p)
	if err != nil {
		s.failed = true
	}
	return n, err
}

func caseC18(c *C) {
	d, leaves := packTable(c, 20)
	ext := pick(c, packExts)
	full := &faultWriter{byteAt: -1}
	if err := convert.PackWriter(ext, d, full); err != nil {
		c.Failf("packing to %s without a fault failed: %v", ext, err)
	}
	size := full.buf.Len()
	if size == 0 && ext != ".memip" {
		c.Failf("packing to %s reported success without any output", ext)
	}
	c.Count("fault_free", 1)
	for k := 0; k < 25 && size > 0; k++ {
		w := &faultWriter{byteAt: -1, sticky: c.P(0.5), partial: c.P(0.5)}
		if c.P(0.5) {
			w.failAt = 1 + c.N(full.calls)
			if k < 2 {
				w.failAt = []int{1, full.calls}[k]
			}
		} else {
			w.byteAt = c.N(size)
			if k < 2 {
				w.byteAt = []int{0, size - 1}[k]
			}
		}
		err := convert.PackWriter(ext, d, w)
		if !w.fired {
			// another number of calls or bytes than before (the header has a time stamp)
			if err != nil {
				c.Failf("packing to %s failed without a fault: %v", ext, err)
			}
			continue
		}
		if err == nil {
			c.Failf("packing to %s reports success although write %d of %d (byte %d of %d, sticky %v) failed", ext, w.failAt, full.calls, w.byteAt, size, w.sticky)
		}
		c.Count("faults", 1)
		c.Shape(ext, size, w.failAt, w.byteAt, w.sticky)
	}
	dir := c.Dir()
	if size > 0 && c.P(0.3) {
		p := filepath.Join(dir, "full"+ext)
		if err := os.Symlink("/dev/full", p); err != nil {
			harness("%v", err)
		}
		if err := convert.PackFile(p, d); err == nil {
			c.Failf("packing %d bytes to a full device reports success (%s)", size, ext)
		}
		c.Count("full_device", 1)
	}
	if size > 0 && c.P(0.2) {
		pr, pw := io.Pipe()
		lim := c.N(size)
		done := make(chan bool)
		go func() {
			io.CopyN(io.Discard, pr, int64(lim))
			pr.CloseWithError(errFault)
			close(done)
		}()
		w := &seenWriter{w: pw}
		err := convert.PackWriter(ext, d, w)
		if w.failed && err == nil {
			c.Failf("packing to %s reports success although the pipe closed after %d of %d bytes", ext, lim, size)
		}
		pw.Close()
		<-done
		if w.failed {
			// otherwise this output was shorter than the first one (time stamp)
			c.Count("closed_pipe", 1)
		}
	}
	bad := pick(c, []string{".mmdb", ".awdb", ".txt", "", ".", ".IPDB", ".ipdb ", ".scan.gz"})
	p := filepath.Join(dir, "other"+bad)
	if err := convert.PackFile(p, d); err == nil {
		c.Failf("packing to extension %q reports success", bad)
	}
	if _, err := os.Lstat(p); err == nil {
		c.Failf("packing to extension %q created the file", bad)
	}
	os.WriteFile(p, []byte("precious"), 0o644)
	if err := convert.PackFile(p, d); err == nil {
		c.Failf("packing over a file with extension %q reports success", bad)
	}
	if b, _ := os.ReadFile(p); string(b) != "precious" {
		c.Failf("packing to extension %q altered the existing file", bad)
	}
	c.Count("unsupported", 2)
	// no fault: every byte is there
	b, err := packAny(c, ext, d)
	if err != nil {
		c.Failf("packing failed without a fault: %v", err)
	}
	if maskTime(ext, b) != maskTime(ext, full.buf.Bytes()) {
		c.Failf("two ways of packing to %s give different output (%d and %d bytes)", ext, len(b), size)
	}
	if c.Idx < 3 {
		c.Sample(map[string]any{"ext": ext, "bytes": size, "write_calls": full.calls, "rows": len(leaves)})
	}
}

func caseC19(c *C) {
	fields := genNames(c)
	n := 2 + c.N(8)
	recs := genRecs(c, fields, n, valOpt{distinct: 3})
	fam := 1 + c.N(3)
	kind := pick(c, []string{"overlap", "overlap", "ragged", "tab", "long", "same"})
	var leaves []Leaf
	if kind != "overlap" && kind != "same" {
		_, leaves = genNets(c, fam, 1+c.N(15), n, true)
		if len(leaves) == 0 {
			leaves = []Leaf{{v4Base, 104, 0}}
		}
	} else {
		// prefixes as they come
		var nets []Leaf
		for k := 1 + c.N(12); k > 0; k-- {
			v4 := fam == 1 || fam == 3 && c.P(0.5)
			var near []U128
			for _, l := range nets {
				if isMapped(l.Addr) == v4 {
					near = append(near, l.Addr, l.Addr.or(hostMask(l.Depth)))
				}
			}
			a := famAddr(c, v4, near)
			d := c.N(129)
			if v4 {
				d = 96 + c.N(33)
			}
			val := c.N(n)
			if kind == "same" {
				val = 0
			}
			if len(nets) > 0 && c.P(0.2) {
				// once more, often right behind
				again := nets[len(nets)-1]
				if c.P(0.3) {
					again = pick(c, nets)
				}
				a, d = again.Addr, again.Depth
				if c.P(0.2) && d < 128 {
					d++
				}
			}
			nets = append(nets, Leaf{a.prefix(d), d, val})
		}
		leaves = nets
	}
	if c.P(0.5) {
		shuffle(c, leaves)
	}
	fam |= famOf(leaves)
	d := mkTable(c, fields, recs, leaves, fam)
	must := ""
	i := 0
	if len(d.Ips) > 0 {
		i = c.N(len(d.Ips))
		v := append([]string(nil), d.Ips[i].FieldValues...)
		k := c.N(len(fields))
		switch kind {
		case "ragged":
			must = kind
			if c.P(0.5) {
				v = append(v, pick(c, []string{"", "x"}))
			} else {
				v = v[:c.N(len(v))]
			}
		case "tab":
			must = kind
			at := c.N(len(v[k]) + 1)
			v[k] = v[k][:at] + "\t" + v[k][at:]
		case "long":
			rest := len(v) - 1
			for j, s := range v {
				if j != k {
					rest += len(s)
				}
			}
			size := 65535 + pick(c, []int{-1, 0, 0, 1, 1, 2, 500, 65536, 65537, 70000, 131072})
			v[k] = strings.Repeat("x", size-rest)
			if strings.EqualFold(fields[k], "continent") {
				v[k] = strings.Repeat("y", size-rest)
			}
			if size > 65535 {
				must = kind
			}
		}
		d.Ips[i].FieldValues = v
	}
	// two networks that share an address must have equal values
	clash := ""
	for x := range d.Ips {
		for y := x + 1; y < len(d.Ips) && clash == ""; y++ {
			a, b := leaves[x], leaves[y]
			m := min(a.Depth, b.Depth)
			if a.Addr.prefix(m) == b.Addr.prefix(m) && !eqStrings(readBack(fields, d.Ips[x].FieldValues), readBack(fields, d.Ips[y].FieldValues)) {
				clash = fmt.Sprintf("%s and %s", d.Ips[x].Cidr, d.Ips[y].Cidr)
			}
		}
	}
	before := snapshot(d)
	c.Detail(map[string]any{"kind": kind, "row": i, "table": clip(before, 3000)})
	b, err := packAny(c, ".ipdb", d)
	c.Shape(kind, fmt.Sprint(leaves), i)
	if err != nil {
		if kind == "same" && len(d.Ips) > 0 {
			c.Failf("a table whose networks overlap with equal values only is refused: %v", err)
		}
		if must == "" && clash == "" && kind != "overlap" && kind != "same" {
			c.Failf("a table of disjoint networks and records within the limits is refused: %v", err)
		}
		switch {
		case must != "":
			c.Count("refused_"+must, 1)
		case clash != "":
			c.Count("refused_overlap", 1)
		default:
			c.Count("refused_equal_overlap", 1)
		}
		return
	}
	if must != "" {
		c.Failf("a table with a %s row (%d) is packed without an error", must, i)
	}
	if clash != "" {
		c.Failf("networks %s overlap with different values, packing reports success", clash)
	}
	// whatever is accepted answers as the table does
	q := openBytes(c, ".ipdb", b)
	ask := func(a U128) {
		if isMapped(a) && fam&1 == 0 || !isMapped(a) && fam&2 == 0 {
			return
		}
		var want *inf.IpInfo
		for x, l := range leaves {
			if a.prefix(l.Depth) == l.Addr {
				v := infoOf(fields, d.Ips[x].FieldValues)
				want = &v
			}
		}
		info, _, err := q.Query(u128IP(a))
		switch {
		case want == nil && err == nil:
			c.Failf("%s is in no network of the table but resolves to %+v", u128IP(a), *info)
		case want != nil && err != nil:
			c.Failf("%s is in the table, but the query fails: %v", u128IP(a), err)
		case want != nil && *info != *want:
			c.Failf("%s resolves to %s, the table says %s", u128IP(a), clip(fmt.Sprintf("%+v", *info), 300), clip(fmt.Sprintf("%+v", *want), 300))
		}
		c.Count("answers_compared", 1)
	}
	for _, l := range leaves {
		last := l.Addr.or(hostMask(l.Depth))
		for _, a := range []U128{l.Addr, last, l.Addr.sub(one), last.add(one), l.Addr.or(randU128(c).and(hostMask(l.Depth)))} {
			ask(a)
		}
	}
	c.Count("accepted", 1)
	if c.Idx < 3 {
		c.Sample(map[string]any{"kind": kind, "networks": len(leaves)})
	}
}

// readBack is what an ipdb returns for stored values.
func readBack(fields, vals []string) []string {
	o := append([]string(nil), vals...)
	for i, f := range fields {
		if f == "continent" && i < len(o) {
			if n, ok := contName[o[i]]; ok {
				o[i] = n
			}
		}
	}
	return o
}
