package main

import (
	"encoding/json"
	"net"
	"regexp"
	"strings"

	"uipcheck/work"

	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/inf"
)

func init() {
	register(&Check{ID: "C37", External: true, Quick: 3000, Thorough: 100000, Workers: 6,
		Rule: "a case is up to 10 requests (open and query, dump, convert with operations, pack a table, typed decoding, range arithmetic; well-formed and damaged inputs) answered by four builds of the same code: the plain one, a 32 bit one in / with a Turkish locale, one without optimisation and with checkptr on one processor with the collector always on, and one under the address sanitizer; every answer has to be the same text and no process may die; distinct by request",
		Mins: map[string]int64{"requests": 12000, "answers_386": 12000, "answers_raw": 3000, "answers_asan": 3000, "damaged": 1500, "opened": 2000, "converted": 1500, "typed": 500, "arithmetic": 500, "far_records": 4},
		Case: caseC37})
}

func ips16(l []U128, c *C) [][]byte {
	var o [][]byte
	for _, a := range l {
		o = append(o, asked(c, a))
	}
	return o
}

func textsOf(c *C, l []U128) []string {
	var o []string
	for _, a := range l {
		if c.P(0.7) {
			o = append(o, textForm(c, a))
		} else {
			o = append(o, oddText(c, a))
		}
	}
	return o
}

func first[T any](l []T, n int) []T { return l[:min(n, len(l))] }

func u32s(c *C, l []U128) []uint32 {
	var o []uint32
	for _, a := range l {
		o = append(o, uint32(a.Lo))
	}
	return o
}

func workOf(d *inf.IpData) *work.Table {
	t := &work.Table{Fields: d.Fields, Version: *d.Version}
	for _, r := range d.Ips {
		t.Nets = append(t.Nets, [2][]byte{r.Cidr.IP, r.Cidr.Mask})
		t.Vals = append(t.Vals, r.FieldValues)
	}
	return t
}

var opNames = []string{"merge", "replace", "trim", "district", "asn", "line", "line="}

// envOps are operations in any order and what they need.
func envOps(c *C, r *work.Req) {
	l := append([]string{}, opNames...)
	shuffle(c, l)
	r.Ops = first(l, c.N(len(l)+1))
	r.Line = genIpdb(c, ipdbOpt{ver: 3, fields: []string{"country_name", "line", "isp_domain"}, n: 20}).Encode(c)
	r.Asn = map[string]string{}
	for _, w := range []string{"4134", "v1", "v2", "AS1", "", "9808"} {
		if c.P(0.6) {
			r.Asn[w] = pick(c, []string{"电信", "x", ""})
		}
	}
	r.To = first(append([]string{}, packExts...), 1+c.N(3))
}

func envReq(c *C) *work.Req {
	anyRule := func() string {
		return pick(c, []string{"", defaultRule, export.LineRule, "country,province|country=中国/美国:country", "isp,country"})
	}
	switch c.N(8) {
	case 0, 1:
		d := genAny(c, 40)
		r := &work.Req{Op: "query", Kind: d.ext, Data: d.b, IPs: ips16(first(d.probe, 40), c), Texts: textsOf(c, first(d.probe, 15)), U32s: u32s(c, first(d.probe, 8))}
		if c.P(0.2) {
			r.File = "x" + d.ext
		}
		return r
	case 2:
		// damaged
		var b []byte
		ext := ".ipdb"
		switch c.N(10) {
		case 0, 1:
			b = bombIpdb(c)
		case 2, 3:
			ext, b = ".awdb", bombAwdb(c)
		case 4:
			b = tinyFile(c)
			ext = pick(c, []string{".ipdb", ".awdb"})
		case 5, 6, 7:
			b = mutateIpdb(c, genIpdb(c, ipdbOpt{n: 1 + c.N(20), maxRecs: 6}).Encode(c), nil)
		default:
			ext = ".awdb"
			d := genAwdb(c, awdbOpt{n: 1 + c.N(15), maxRecs: 5, noBig: true})
			b = mutateAwdb(c, d, d.Encode(c), nil)
		}
		c.Count("damaged", 1)
		h := hostileAddrs(c)
		r := &work.Req{Op: pick(c, []string{"query", "query", "dump"}), Kind: ext, Data: b, IPs: ips16(h, c), Texts: textsOf(c, first(h, 5)), U32s: u32s(c, h)}
		if ext == ".awdb" && c.P(0.3) {
			r.Op = "typed"
		}
		r.Damaged = true
		return r
	case 3:
		s := genSource(c, srcOpt{n: 1 + c.N(40), maxRecs: 12})
		return &work.Req{Op: "dump", Kind: s.Ext, Data: s.Bytes, Rule: anyRule()}
	case 4:
		s := genSource(c, srcOpt{n: 1 + c.N(30), maxRecs: 12, names: true})
		r := &work.Req{Op: "convert", Kind: s.Ext, Data: s.Bytes, Rule: pick(c, []string{defaultRule, defaultRule, ""})}
		envOps(c, r)
		return r
	case 5:
		d, _ := packTable(c, 40)
		r := &work.Req{Op: "convert", Table: workOf(d), To: packExts}
		if c.P(0.5) {
			fields := append([]string(nil), commonNames...)
			shuffle(c, fields)
			r.Table = workOf(opsTable(c, fields, 30, 1+c.N(3), true))
			envOps(c, r)
		}
		return r
	case 6:
		if c.P(0.5) {
			text, ext := genScan(c), ".scan"
			if c.P(0.5) {
				text, ext = genMemip(c), ".memip"
			}
			if c.P(0.5) {
				text = mutateText(c, text, nil)
				c.Count("damaged", 1)
			}
			return &work.Req{Op: "dump", Kind: ext, Data: text, Rule: anyRule()}
		}
		d := typedAwdb(c)
		c.Count("typed", 1)
		return &work.Req{Op: "typed", Data: d.Encode(c), IPs: ips16(first(awProbes(c, d, 20), 30), c)}
	default:
		v4 := c.P(0.5)
		r := &work.Req{Op: "nets"}
		var near []U128
		for i := 0; i < 8; i++ {
			a := famAddr(c, v4, near)
			near = append(near, a)
			n := mkNet(a, 128, false)
			w := len(n.IP) * 8
			d := w - c.N(w)
			n = &net.IPNet{IP: n.IP, Mask: net.CIDRMask(d, w)}
			if c.P(0.7) {
				n.IP = n.IP.Mask(n.Mask)
			}
			if v4 != (len(n.IP) == 4) {
				continue
			}
			r.IPs = append(r.IPs, n.IP, n.Mask)
		}
		r.U32s = u32s(c, near)
		c.Count("arithmetic", 1)
		return r
	}
}

// Years past a million: the time package counts them in an int.
var farYear = regexp.MustCompile(`-?\d{7,}-\d\d-\d\d`)

func caseC37(c *C) {
	hugeLines = false
	var reqs []*work.Req
	var lines []string
	for i := 3 + c.N(5); i > 0; i-- {
		r := envReq(c)
		if c.Idx%500 == 11 && i == 1 {
			// records far behind the nodes
			d := genIpdb(c, ipdbOpt{n: 30, ver: pick(c, []int{1, 3})})
			ps := probes(c, d.Tree, d.Ver, 40)
			r = &work.Req{Op: "query", Kind: ".ipdb", Data: d.Encode(c), IPs: ips16(ps, c), U32s: u32s(c, ps), Grow: pick(c, []int{1 << 24, 1<<27 - 300, 1 << 27, 1<<28 + 99})}
			c.Count("far_records", 1)
		}
		b, err := json.Marshal(r)
		if err != nil {
			harness("%v", err)
		}
		var rr work.Req
		if err := json.Unmarshal(b, &rr); err != nil {
			harness("%v", err)
		}
		reqs = append(reqs, &rr)
		lines = append(lines, string(b))
		c.Shape(r.Op, r.Kind, string(b))
	}
	c.Count("requests", len(reqs))
	c.Detail(map[string]any{"requests": len(reqs)})
	var want []string
	for i, r := range reqs {
		s, err := json.Marshal(work.Do(r))
		if err != nil {
			harness("%v", err)
		}
		if strings.HasPrefix(string(s), `"PANIC`) {
			c.Detail(clip(lines[i], 20000))
			c.Failf("%s of a %s panics: %s", r.Op, r.Kind, clip(string(s), 500))
		}
		want = append(want, string(s))
		switch {
		case r.Op == "query" && !strings.HasPrefix(string(s), `"refused`):
			c.Count("opened", 1)
		case r.Op == "convert" && !strings.HasPrefix(string(s), `"error`):
			c.Count("converted", 1)
		}
	}
	if c.Idx < 3 {
		c.Sample(map[string]any{"request": clip(lines[0], 300), "answer": clip(want[0], 300)})
	}
	names := []string{"386", pick(c, []string{"raw", "asan"})}
	for _, name := range names {
		d := startDriver(name)
		// a process that dies names its request
		got := d.ask(c, lines)
		for i := range got {
			if strings.HasPrefix(got[i], `"PANIC`) {
				c.Detail(clip(lines[i], 20000))
				c.Failf("%s of a %s in the %s build panics: %s", reqs[i].Op, reqs[i].Kind, name, clip(got[i], 500))
			}
			if reqs[i].Damaged && (got[i] == `"refused"` || want[i] == `"refused"` || got[i] == `"error"` || want[i] == `"error"`) {
				// numbers that do not fit a word are refused there
				if got[i] != want[i] {
					c.Count("refused_by_one", 1)
				}
			} else if farYear.ReplaceAllString(got[i], "Y") != farYear.ReplaceAllString(want[i], "Y") {
				c.Detail(clip(lines[i], 20000))
				k := 0
				for k < len(got[i]) && k < len(want[i]) && got[i][k] == want[i][k] {
					k++
				}
				k = max(0, k-80)
				c.Failf("%s of a %s: the %s build answers …%s…, the plain one …%s…", reqs[i].Op, reqs[i].Kind, name, clip(got[i][min(k, len(got[i])):], 400), clip(want[i][min(k, len(want[i])):], 400))
			}
			c.Count("answers_"+name, 1)
			c.Count("compared_bytes", len(got[i]))
		}
	}
}
