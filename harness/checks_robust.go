package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"runtime/metrics"

	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/query"
)

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// interesting 32 bit values around n.
func oddInt(c *C, n int) uint32 {
	switch c.N(14) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return uint32(n)
	case 3:
		return uint32(n - 1)
	case 4:
		return uint32(n + 1)
	case 5:
		return 0xffffffff
	case 6:
		return 0x7fffffff
	case 7:
		return 0x80000000
	case 8:
		return uint32(n * 8)
	case 9:
		return uint32(n*8 + c.N(64))
	case 10:
		return uint32(c.N(2*n + 20))
	case 11:
		return uint32(n + c.N(4*n+400))
	case 12:
		return 1 << c.N(32)
	default:
		return c.R.Uint32()
	}
}

func byteNoise(c *C, b []byte, lo, hi int) {
	if hi <= lo {
		return
	}
	for k := 1 + c.N(4); k > 0; k-- {
		i := lo + c.N(hi-lo)
		switch c.N(3) {
		case 0:
			b[i] ^= 1 << c.N(8)
		case 1:
			b[i] = byte(c.N(256))
		default:
			b[i] = pick(c, []byte{0, 1, 0xff, 0x7f, 0x80, 0x1d, 0x1e, 0x1f, 0xe0, 0x20})
		}
	}
}

// mutateGeneric damages a file anywhere.
func mutateGeneric(c *C, b []byte, other []byte) []byte {
	b = append([]byte(nil), b...)
	switch c.N(7) {
	case 0:
		return b[:c.N(len(b)+1)]
	case 1:
		if len(b) > 8 {
			return b[:len(b)-1-c.N(8)]
		}
	case 2:
		for n := 1 + c.N(40); n > 0; n-- {
			b = append(b, byte(c.N(256)))
		}
	case 3:
		if len(other) > 0 && len(b) > 0 {
			return append(b[:c.N(len(b))], other[c.N(len(other)):]...)
		}
	case 4:
		if len(b) > 2 {
			i := c.N(len(b) - 1)
			j := i + 1 + c.N(min(len(b)-i-1, 64))
			return append(b[:i:i], b[j:]...)
		}
	case 5:
		if len(b) > 2 {
			i := c.N(len(b) - 1)
			j := i + 1 + c.N(min(len(b)-i-1, 64))
			return append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
		}
	}
	byteNoise(c, b, 0, len(b))
	return b
}

func ipdbParts(b []byte) (meta map[string]any, nodes, end int) {
	if len(b) < 4 {
		return nil, 0, 0
	}
	n := int(binary.BigEndian.Uint32(b))
	if n > len(b)-4 || json.Unmarshal(b[4:4+n], &meta) != nil {
		return nil, 0, 0
	}
	return meta, 4 + n, len(b)
}

func ipdbJoin(meta any, body []byte) []byte {
	j, _ := json.Marshal(meta)
	return ipdbJoinRaw(j, body)
}
func ipdbJoinRaw(j, body []byte) []byte {
	out := binary.BigEndian.AppendUint32(nil, uint32(len(j)))
	return append(append(out, j...), body...)
}

// mutateIpdb damages a well-formed ipdb file where it hurts.
func mutateIpdb(c *C, b, other []byte) []byte {
	meta, nodes, _ := ipdbParts(b)
	if meta == nil {
		return mutateGeneric(c, b, other)
	}
	body := append([]byte(nil), b[nodes:]...)
	nc := 0
	if f, ok := meta["node_count"].(float64); ok {
		nc = int(f)
	}
	switch c.N(12) {
	case 0, 1:
		return mutateGeneric(c, b, other)
	case 2, 3:
		// node slots
		for k := 1 + c.N(4); k > 0 && nc > 0 && len(body) >= nc*8; k-- {
			i := c.N(nc * 2)
			if c.P(0.3) {
				i = c.N(min(nc*2, 4))
			}
			binary.BigEndian.PutUint32(body[i*4:], oddInt(c, nc))
		}
		if c.P(0.4) && nc > 0 && len(body) >= nc*8 {
			// every empty slot becomes a pointer
			v := oddInt(c, nc)
			if c.P(0.5) {
				// to the last bytes of the file
				v = uint32(nc + len(body) - nc*8 + 1 - c.N(5))
			}
			for i := 0; i < nc*2; i++ {
				if binary.BigEndian.Uint32(body[i*4:]) == uint32(nc) {
					binary.BigEndian.PutUint32(body[i*4:], v)
				}
			}
		}
	case 4:
		k := pick(c, []string{"node_count", "total_size", "build", "ip_version"})
		meta[k] = pick(c, []any{-1, 0, 1, nc - 1, nc + 1, nc * 2, 1 << 31, int64(1) << 40, -int64(1) << 62, "x", nil, 1.5, len(body) / 8, len(body)/8 + 1, 3, 255, 65535})
		if c.P(0.2) {
			delete(meta, k)
		}
	case 5:
		meta["languages"] = pick(c, []any{map[string]any{"CN": -1}, map[string]any{"CN": 1}, map[string]any{"CN": 1 << 30}, map[string]any{"CN": -1 << 40}, map[string]any{"EN": 0}, map[string]any{}, nil,
			map[string]any{"CN": int64(1)<<62 + 5}, []int{1}, map[string]any{"CN": 2}, map[string]any{"CN": 5}})
	case 6:
		var f []string
		for i := c.N(8); i > 0; i-- {
			f = append(f, pick(c, append(append([]string{}, ipdbFieldPool...), "", "x")))
		}
		meta["fields"] = f
		if c.P(0.1) {
			meta["fields"] = make([]string, 70000)
		}
	case 7:
		// record lengths and contents
		if len(body) > nc*8 {
			byteNoise(c, body, nc*8, len(body))
		}
	case 8:
		// cut the data, keep the sizes consistent
		if c.P(0.5) {
			body = body[:c.N(len(body)+1)]
		} else {
			// the last record just does not fit
			body = body[:max(0, len(body)-1-c.N(4))]
		}
		meta["total_size"] = len(body)
		if c.P(0.3) {
			meta["node_count"] = len(body) / 8
		}
	case 9:
		// more nodes than there are, into the data
		meta["node_count"] = nc + c.N(max(1, len(body)/8-nc)+2)
	case 10:
		j, _ := json.Marshal(meta)
		byteNoise(c, j, 0, len(j))
		return ipdbJoinRaw(j, body)
	case 11:
		out := append([]byte(nil), b...)
		binary.BigEndian.PutUint32(out, pick(c, []uint32{0, 1, 0xffffffff, 0x7fffffff, 0x80000000, uint32(len(b)), uint32(len(b) - 4), uint32(len(b) - 3), uint32(nodes - 5), uint32(nodes - 3)}))
		return out
	}
	return ipdbJoin(meta, body)
}

// bombIpdb makes small files that explode when walked naively.
func bombIpdb(c *C) []byte {
	ver := pick(c, []int{1, 2, 3})
	n := pick(c, []int{1, 2, 33, 97, 129, 140, 200})
	var body []byte
	slot := func(i int) uint32 {
		switch c.N(12) {
		case 0:
			return uint32(n)
		case 1:
			return uint32(n + 8)
		case 2:
			return uint32(i)
		default:
			return uint32((i + 1) % n)
		}
	}
	dag := c.P(0.6)
	for i := 0; i < n; i++ {
		a, b := slot(i), slot(i)
		if dag {
			a, b = uint32(i+1), uint32(i+1)
			if i+1 >= n {
				a, b = uint32(n+8), uint32(n+8)
			}
		}
		body = binary.BigEndian.AppendUint32(body, a)
		body = binary.BigEndian.AppendUint32(body, b)
	}
	body = append(body, make([]byte, 8)...)
	rec := pick(c, []string{"a\tb", "a", "", "a\tb\tc", string(bytes.Repeat([]byte("\t"), 300))})
	l := len(rec)
	if c.P(0.2) {
		l = 65535
	}
	body = binary.BigEndian.AppendUint16(body, uint16(l))
	body = append(body, rec...)
	return ipdbJoin(map[string]any{"build": 1, "ip_version": ver, "languages": map[string]int{"CN": 0}, "node_count": n, "total_size": len(body), "fields": []string{"country_name", "city_name"}}, body)
}

func tinyFile(c *C) []byte {
	pool := [][]byte{{}, {0}, {0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 2, '{', '}'}, {0xff, 0xff, 0xff, 0xff}, []byte(awdbMarker), []byte(awdbMarker + "\xe0"), []byte(awdbMarker + "\xff\xff\xff\xff"),
		append(make([]byte, 16), awdbMarker+"\xe0"...), ipdbJoinRaw([]byte("null"), nil), ipdbJoinRaw([]byte("[]"), nil), ipdbJoinRaw([]byte(`{"languages":{"CN":0},"fields":["a"],"node_count":0,"total_size":0,"ip_version":3}`), nil),
		ipdbJoinRaw([]byte(`{"languages":{"CN":0},"fields":["a"],"node_count":0,"total_size":8,"ip_version":3}`), make([]byte, 8)),
		ipdbJoinRaw([]byte(`{"languages":{"CN":0},"fields":["a"],"node_count":1,"total_size":8,"ip_version":3}`), make([]byte, 8)), bytes.Repeat([]byte{0xff}, 3000), bytes.Repeat([]byte(awdbMarker), 200), make([]byte, 5000)}
	if c.P(0.3) {
		b := make([]byte, c.N(300))
		for i := range b {
			b[i] = byte(c.N(256))
		}
		if c.P(0.5) {
			b = append(append(make([]byte, c.N(100)), awdbMarker...), b...)
		}
		return b
	}
	return pick(c, pool)
}

// mutateAwdb damages a well-formed awdb file where it hurts.
func mutateAwdb(c *C, d *Awdb, b, other []byte) []byte {
	b = append([]byte(nil), b...)
	mark := bytes.LastIndex(b, []byte(awdbMarker))
	if mark < 0 {
		return mutateGeneric(c, b, other)
	}
	tree := d.nodes * d.Size / 4
	switch c.N(11) {
	case 0, 1:
		return mutateGeneric(c, b, other)
	case 10:
		// the last values of the data section just do not fit
		if n := 1 + c.N(9); mark-n > tree+16 {
			return append(b[:mark-n:mark-n], b[mark:]...)
		}
	case 2, 3:
		byteNoise(c, b, mark+len(awdbMarker), len(b))
	case 4, 5:
		byteNoise(c, b, tree+16, mark)
	case 6:
		byteNoise(c, b, 0, tree)
	case 7:
		// a node record with an interesting value
		if d.Size == 32 {
			for k := 1 + c.N(4); k > 0; k-- {
				binary.BigEndian.PutUint32(b[c.N(d.nodes*2)*4:], oddInt(c, d.nodes))
			}
		} else {
			byteNoise(c, b, 0, tree)
		}
	case 8, 9:
		// rewrite a metadata value
		key := pick(c, []string{"node_count", "record_size", "ip_version", "languages", "description", "build_epoch", "database_type"})
		i := bytes.LastIndex(b, []byte(key))
		if i > mark {
			i += len(key)
			j := min(len(b), i+1+c.N(4))
			var v []byte
			e := &awEnc{c: c}
			switch c.N(8) {
			case 0:
				e.uint(6, uint64(oddInt(c, d.nodes)))
				v = e.b
			case 1:
				e.uint(9, c.R.Uint64())
				v = e.b
			case 2:
				v = []byte{0x1f, 4, 0xff, 0xff, 0xff} // a huge slice
			case 3:
				v = []byte{0xff, 0xff, 0xff, 0xff} // a huge map
			case 4:
				v = []byte{0x20, byte(c.N(256))} // a pointer
			case 5:
				v = []byte{0x5f, 0xff, 0xff, 0xff} // a huge string
			case 6:
				v = []byte{0xc4, 0xff, 0xff, 0xff, byte(c.N(256))}
			default:
				v = []byte{0xa1, byte(c.N(256))}
			}
			return append(append(append([]byte(nil), b[:i]...), v...), b[j:]...)
		}
	}
	return b
}

// bombAwdb makes small awdb files with hostile data or trees.
func bombAwdb(c *C) []byte {
	d := &Awdb{V: pick(c, []int{4, 6}), Size: 32, Type: "t", Langs: []string{"cn"}, Extra: c.P(0.3)}
	var data []byte
	switch c.N(9) {
	case 0: // a pointer to itself
		data = []byte{0x20, 0x00}
	case 1: // a key pointing to itself
		data = []byte{0xe1, 0x20, 0x01, 0x41, 'x'}
	case 2: // a pointer chain
		for i := 0; i < 600; i++ {
			o := (i + 1) * 2
			data = append(data, 0x20|byte(o>>8), byte(o))
		}
		data = append(data, 0xe0)
	case 3: // huge sizes
		data = pick(c, [][]byte{{0xff, 0xff, 0xff, 0xff}, {0x1f, 4, 0xff, 0xff, 0xff}, {0x5f, 0xff, 0xff, 0xff}, {0x9f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff}, {0x1f, 4}})
	case 4: // nested maps and slices
		k := pick(c, []int{100, 600, 5000})
		for i := 0; i < k; i++ {
			if c.P(0.5) {
				data = append(data, 0xe1, 0x41, 'k')
			} else {
				data = append(data, 0x01, 4)
			}
		}
	case 5: // a map whose values are pointers to itself
		data = []byte{0xe8}
		for i := 0; i < 8; i++ {
			data = append(data, 0x41, byte('a'+i), 0x20, 0x00)
		}
	case 6: // values of other types
		e := &awEnc{c: c}
		e.ctrl(7, 7)
		for _, k := range awdbKeys {
			e.str(k)
			e.junk(0)
		}
		data = e.b
	case 7: // not a map
		e := &awEnc{c: c}
		e.junk(0)
		data = e.b
	default:
		for i := 0; i < 60; i++ {
			data = append(data, byte(c.N(256)))
		}
	}
	n := pick(c, []int{1, 2, 32, 33, 96, 128, 130, 200})
	var nodes []byte
	dag := c.P(0.5)
	for i := 0; i < n; i++ {
		for k := 0; k < 2; k++ {
			v := uint32(i + 1)
			if i+1 >= n || !dag && c.P(0.3) {
				v = uint32(n + 16 + c.N(max(1, min(4, len(data)))))
				if c.P(0.6) {
					v = uint32(n + 16)
				}
			} else if !dag {
				v = oddInt(c, n)
			}
			nodes = binary.BigEndian.AppendUint32(nodes, v)
		}
	}
	out := append(nodes, make([]byte, 16)...)
	out = append(out, data...)
	out = append(out, awdbMarker...)
	m := d.meta(c, n)
	if c.P(0.3) {
		// hostile metadata as well
		byteNoise(c, m, 0, len(m))
	}
	if c.P(0.05) {
		m = bytes.Repeat([]byte{0x01, 4}, 900)
	}
	return append(out, m...)
}

// survive opens, queries and dumps one input and watches its resources.
func survive(c *C, ext string, b []byte, addrs []U128) {
	c.Detail(map[string]any{"ext": ext, "bytes": len(b), "input": hex.EncodeToString(b[:min(len(b), 20000)])})
	// reading past the end must not find spare capacity
	b = append(make([]byte, 0, len(b)), b...)
	b = b[:len(b):len(b)]
	a0 := allocated()
	db, err := query.NewDbFromBytes(ext, b)
	c.Count("inputs", 1)
	if (db == nil) == (err == nil) {
		c.Failf("%s input of %d bytes: db=%v and err=%v", ext, len(b), db != nil, err)
	}
	if err == nil {
		c.Count("opened", 1)
		if db.VersionInfo() == nil {
			c.Failf("no version information")
		}
		for _, a := range addrs {
			info, _, err := db.Query(u128IP(a))
			if (info == nil) == (err == nil) {
				c.Failf("%s query of %s: info=%v err=%v", ext, u128IP(a), info, err)
			}
			if err == nil {
				c.Count("answers", 1)
			} else {
				c.Count("query_errors", 1)
			}
		}
		db.CheckV4()
		db.CheckV6()
	}
	if used := allocated() - a0; used > 512<<20 {
		c.Failf("%s: opening and querying a file of %d bytes allocated %d MB", ext, len(b), used>>20)
	} else if int64(used>>10) > c.counters["max_query_alloc_kb"] {
		c.counters["max_query_alloc_kb"] = int64(used >> 10)
	}
	a0 = allocated()
	rule := ""
	if c.P(0.4) {
		rule = defaultRule
	}
	t, err := format.GetDumpFormat(ext)(b, export.ParseRule(rule))
	if (t == nil) == (err == nil) {
		c.Failf("%s dump: table=%v err=%v", ext, t != nil, err)
	}
	if err == nil {
		c.Count("dumped", 1)
		if len(t.Ips) > 64*(len(b)+1) {
			c.Failf("%s: a file of %d bytes dumps to %d rows", ext, len(b), len(t.Ips))
		}
	}
	limit := uint64(1<<30) + 64*uint64(len(b))*uint64(len(b))
	if used := allocated() - a0; used > limit {
		c.Failf("%s: dumping a file of %d bytes allocated %d MB", ext, len(b), used>>20)
	} else if int64(used>>10) > c.counters["max_dump_alloc_kb"] {
		c.counters["max_dump_alloc_kb"] = int64(used >> 10)
	}
	c.Detail(nil)
}

func hostileAddrs(c *C) []U128 {
	l := []U128{{}, {0, 1}, maxU128, v4Base, v4Base.or(U128{0, 0xffffffff}), v4Base.or(U128{0, 0x08080808}), {0, 0x08080808}, {0x2001 << 48, 0}, {1 << 63, 0}}
	for i := 0; i < 12; i++ {
		l = append(l, randU128(c), v4Base.or(U128{0, uint64(c.R.Uint32())}))
	}
	return l
}

func init() {
	register(&Check{ID: "C06", Quick: 10000, Thorough: 400000, CPUSec: 120, MemMB: 1500,
		Rule: "a case is up to 12 corrupted or hostile ipdb/awdb inputs (truncated, spliced, bit-flipped, rewritten counts, offsets, lengths and node records, pointer loops and chains, shared-subtree bombs, huge sizes), each opened, queried and dumped under panic, CPU, allocation and memory monitors; distinct by input hash",
		Mins: map[string]int64{"inputs": 10000, "opened": 1500, "dumped": 100, "query_errors": 5000, "answers": 5000},
		Case: func(c *C) {
			small := ipdbOpt{n: 1 + c.N(20), maxRecs: 6}
			i1, i2 := genIpdb(c, small), genIpdb(c, small)
			b1, b2 := i1.Encode(c), i2.Encode(c)
			a1 := genAwdb(c, awdbOpt{n: 1 + c.N(15), maxRecs: 5, noBig: true})
			a2 := genAwdb(c, awdbOpt{n: 1 + c.N(15), maxRecs: 5, noBig: true})
			d1, d2 := a1.Encode(c), a2.Encode(c)
			addrs := hostileAddrs(c)
			for k := 0; k < 12; k++ {
				ext := ".ipdb"
				var b []byte
				switch c.N(20) {
				case 0, 1:
					b = bombIpdb(c)
				case 2, 3, 4:
					ext = ".awdb"
					b = bombAwdb(c)
				case 5:
					ext = pick(c, []string{".ipdb", ".awdb"})
					b = tinyFile(c)
				case 6, 7, 8, 9, 10, 11, 12:
					b = mutateIpdb(c, b1, b2)
					if c.P(0.3) {
						b = mutateIpdb(c, b, b2)
					}
				default:
					ext = ".awdb"
					b = mutateAwdb(c, a1, d1, d2)
					if c.P(0.3) && bytes.Contains(b, []byte(awdbMarker)) && len(b) >= a1.nodes*a1.Size/4 {
						b = mutateAwdb(c, a1, b, d2)
					}
				}
				survive(c, ext, b, addrs)
				c.Shape(ext, string(b))
			}
			if c.Idx < 3 {
				c.Sample(map[string]any{"ipdb_bytes": len(b1), "awdb_bytes": len(d1), "addresses": len(addrs), "first_addr": fmt.Sprint(u128IP(addrs[9]))})
			}
		}})
}
