// Package work runs qiniu/uip over inputs given as data and renders everything
// observable as text; it is compiled for several platforms.
package work

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/format/awdb"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/ipnet"

	_ "github.com/qiniu/uip/db/format/ipdb"
	_ "github.com/qiniu/uip/db/format/memip"
	_ "github.com/qiniu/uip/db/format/plain"
)

type Req struct {
	Op    string   `json:"op"` // query, dump, convert, pack, typed, nets
	Kind  string   `json:"kind,omitempty"`
	Data  []byte   `json:"data,omitempty"`
	File  string   `json:"file,omitempty"` // read the database from a file of this name
	Rule  string   `json:"rule,omitempty"`
	IPs   [][]byte `json:"ips,omitempty"`
	Texts []string `json:"texts,omitempty"`
	U32s  []uint32 `json:"u32s,omitempty"`
	Ops   []string `json:"ops,omitempty"`
	To    []string `json:"to,omitempty"`
	Line  []byte   `json:"line,omitempty"` // an ipdb of lines
	Asn   map[string]string
	Table *Table `json:"table,omitempty"`
	// Grow inserts as many bytes between the nodes and the records of an ipdb
	Grow int `json:"grow,omitempty"`
	// Damaged inputs may be refused by one build and not by another
	Damaged bool `json:"damaged,omitempty"`
}

// grow moves the records of an ipdb.
func grow(b []byte, by int) []byte {
	n := int(binary.BigEndian.Uint32(b))
	d := json.NewDecoder(bytes.NewReader(b[4 : 4+n]))
	d.UseNumber()
	var m map[string]any
	if err := d.Decode(&m); err != nil {
		panic(err)
	}
	num := func(k string) int {
		v, err := m[k].(json.Number).Int64()
		if err != nil {
			panic(err)
		}
		return int(v)
	}
	nodes, size := num("node_count"), num("total_size")
	m["total_size"] = size + by
	j, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	body := b[4+n:]
	o := make([]byte, 0, 4+len(j)+len(body)+by)
	o = binary.BigEndian.AppendUint32(o, uint32(len(j)))
	o = append(o, j...)
	for i := 0; i < 2*nodes; i++ {
		v := binary.BigEndian.Uint32(body[4*i:])
		if v > uint32(nodes) {
			v += uint32(by)
		}
		o = binary.BigEndian.AppendUint32(o, v)
	}
	o = o[:len(o)+by]
	return append(o, body[8*nodes:]...)
}

type Table struct {
	Fields   []string
	Nets     [][2][]byte
	Vals     [][]string
	Version  inf.VersionInfo
	Explicit bool
}

func info(i *inf.IpInfo, m int, err error) string {
	if err != nil {
		if i != nil {
			return "error and answer"
		}
		return "error"
	}
	if i == nil {
		return "neither"
	}
	return fmt.Sprintf("%d %q", m, *i)
}

func version(v *inf.VersionInfo) string {
	if v == nil {
		return "none"
	}
	return fmt.Sprintf("%+v %q %q", *v, v.Languages, v.ExtraInfo)
}

func table(d *inf.IpData) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %s %d\n", d.Fields, version(d.Version), len(d.Ips))
	for _, r := range d.Ips {
		fmt.Fprintf(&b, "%x/%x %q\n", []byte(r.Cidr.IP), []byte(r.Cidr.Mask), r.FieldValues)
	}
	return b.String()
}

func ipNet(n *net.IPNet) string {
	if n == nil {
		return "none"
	}
	return fmt.Sprintf("%x/%x", []byte(n.IP), []byte(n.Mask))
}

// Do runs one request; a panic is an outcome.
func Do(r *Req) (out string) {
	var b strings.Builder
	defer func() {
		if v := recover(); v != nil {
			out = fmt.Sprintf("PANIC %v", v)
		}
	}()
	if r.Grow > 0 {
		r.Data = grow(r.Data, r.Grow)
	}
	switch r.Op {
	case "query":
		do(r, &b)
	case "dump":
		dump := format.GetDumpFormat(r.Kind)
		if dump == nil {
			return "no such format"
		}
		d, err := dump(r.Data, export.ParseRule(r.Rule))
		if err != nil {
			return "error"
		}
		noTime(r.Kind, d)
		b.WriteString(table(d))
	case "convert":
		conv(r, &b)
	case "typed":
		typed(r, &b)
	case "nets":
		nets(r, &b)
	}
	return b.String()
}

func do(r *Req, b *strings.Builder) {
	var db *query.Db
	var err error
	if r.File != "" {
		dir, e := os.MkdirTemp("", "uipdrv")
		if e != nil {
			panic(e)
		}
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, r.File)
		if e := os.WriteFile(p, r.Data, 0o600); e != nil {
			panic(e)
		}
		db, err = query.NewDb(p)
	} else {
		db, err = query.NewDbFromBytes(r.Kind, r.Data)
	}
	if err != nil {
		b.WriteString("refused")
		return
	}
	fmt.Fprintf(b, "%s\n", version(db.VersionInfo()))
	fmt.Fprintf(b, "%q\n", db.VersionInfo().String())
	fmt.Fprintf(b, "%v %v\n", db.CheckV4() == nil, db.CheckV6() == nil)
	for _, ip := range r.IPs {
		b.WriteString(info(db.Query(net.IP(ip))) + "\n")
	}
	for _, s := range r.Texts {
		b.WriteString(info(db.QueryStr(s)) + "\n")
	}
	for _, u := range r.U32s {
		b.WriteString(info(db.QueryU32(u)) + "\n")
	}
}

func (t *Table) data() *inf.IpData {
	v := t.Version
	d := &inf.IpData{Fields: t.Fields, Version: &v}
	for i, n := range t.Nets {
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: &net.IPNet{IP: n[0], Mask: n[1]}, FieldValues: t.Vals[i]})
	}
	return d
}

// noTime removes the time of the dump where the format has none of its own.
func noTime(kind string, d *inf.IpData) {
	if kind == ".memip" && d.Version != nil {
		d.Version.Build, d.Version.Version = 0, ""
	}
}

// mask removes the creation time a packed file embeds.
func mask(kind string, b []byte) string {
	switch kind {
	case ".scan", ".plain":
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			return string(b[i:])
		}
	case ".ipdb":
		if len(b) < 4 {
			break
		}
		n := int64(binary.BigEndian.Uint32(b))
		if n > int64(len(b)-4) {
			break
		}
		var m map[string]any
		if json.Unmarshal(b[4:4+n], &m) != nil {
			break
		}
		m["build"] = 0
		j, _ := json.Marshal(m)
		return string(j) + string(b[4+n:])
	}
	return string(b)
}

func conv(r *Req, b *strings.Builder) {
	var d *inf.IpData
	if r.Table != nil {
		d = r.Table.data()
	} else {
		var err error
		d, err = format.GetDumpFormat(r.Kind)(r.Data, export.ParseRule(r.Rule))
		if err != nil {
			b.WriteString("error")
			return
		}
		noTime(r.Kind, d)
	}
	for _, o := range r.Ops {
		switch o {
		case "merge":
			operate.MergeNearNetwork(d)
		case "replace":
			operate.ReplaceShortage(d)
		case "trim":
			operate.TrimAsnIspDup(d)
		case "district":
			operate.AttachDistrict(d)
		case "asn":
			operate.AttachLineByAsn(d, r.Asn, "lines")
		case "line", "line=":
			db, e := query.NewDbFromBytes(".ipdb", r.Line)
			if e != nil {
				b.WriteString("line refused\n")
				continue
			}
			if o == "line" {
				operate.AttachLineByCidr(d, query.GetIntern(db))
			} else {
				operate.ReplaceLineByCidr(d, query.GetIntern(db))
			}
		}
	}
	b.WriteString(table(d))
	for _, k := range r.To {
		o, err := convert.PackBytes(k, d)
		var w bytes.Buffer
		err2 := convert.PackWriter(k, d, &w)
		fmt.Fprintf(b, "%s %v %v\n%q\n%v\n", k, err == nil, err2 == nil, mask(k, o), mask(k, o) == mask(k, w.Bytes()))
	}
}

// value renders what a reader put into an any; maps in the order of their keys.
func value(v any) string {
	switch x := v.(type) {
	case map[string]any:
		var l []string
		for k := range x {
			l = append(l, k)
		}
		sort.Strings(l)
		var b strings.Builder
		for _, k := range l {
			fmt.Fprintf(&b, "%q:%s,", k, value(x[k]))
		}
		return "{" + b.String() + "}"
	case []any:
		var b strings.Builder
		for _, e := range x {
			b.WriteString(value(e) + ",")
		}
		return "[" + b.String() + "]"
	}
	return fmt.Sprintf("%T %q", v, fmt.Sprint(v))
}

func typed(r *Req, b *strings.Builder) {
	a, err := awdb.FromBytes(r.Data)
	if err != nil {
		b.WriteString("refused")
		return
	}
	m := a.Metadata
	fmt.Fprintf(b, "%d %d %d %d %q %q %q\n", m.NodeCount, m.RecordSize, m.IPVersion, m.BuildEpoch, m.DatabaseType, m.Languages, m.Description)
	for _, ip := range r.IPs {
		var x any
		n, ok, err := a.LookupNetwork(net.IP(ip), &x)
		fmt.Fprintf(b, "%s %v %v %s\n", ipNet(n), ok, err == nil, value(x))
		var s struct {
			Country string            `awdb:"country"`
			City    string            `awdb:"city"`
			X       uint64            `awdb:"x"`
			Y       int64             `awdb:"y"`
			Z       float64           `awdb:"z"`
			W       uint16            `awdb:"long"`
			Names   map[string]string `awdb:"Names"`
		}
		err = a.Lookup(net.IP(ip), &s)
		if err != nil {
			b.WriteString("error\n")
		} else {
			fmt.Fprintf(b, "%q %q %d %d %v %d %s\n", s.Country, s.City, s.X, s.Y, s.Z, s.W, fmt.Sprintf("%q", s.Names))
		}
	}
	ns := a.Networks()
	for i := 0; i < 400 && ns.Next(); i++ {
		var x any
		n, err := ns.Network(&x)
		fmt.Fprintf(b, "%s %v %s\n", ipNet(n), err == nil, value(x))
	}
	fmt.Fprintf(b, "%v\n", ns.Err() == nil)
}

func nets(r *Req, b *strings.Builder) {
	var l []*net.IPNet
	for i := 0; i+1 < len(r.IPs); i += 2 {
		l = append(l, &net.IPNet{IP: r.IPs[i], Mask: r.IPs[i+1]})
	}
	cp := func(n *net.IPNet) *net.IPNet {
		return &net.IPNet{IP: append(net.IP{}, n.IP...), Mask: append(net.IPMask{}, n.Mask...)}
	}
	rg := func(x *ipnet.Range) {
		if x == nil {
			b.WriteString("none\n")
			return
		}
		fmt.Fprintf(b, "%x-%x", []byte(x.Start), []byte(x.End))
		for _, n := range x.IPNets() {
			b.WriteString(" " + ipNet(n))
		}
		b.WriteString("\n")
	}
	for i, x := range l {
		y := l[(i+1)%len(l)]
		rg(ipnet.NewRange(cp(x)))
		a := ipnet.NewRange(cp(x))
		ok := a.JoinIPNet(cp(y))
		fmt.Fprintf(b, "%v ", ok)
		rg(a)
		a = ipnet.NewRange(cp(x))
		ok = a.CommonRange(append(net.IP{}, y.IP...), ipnet.NewRange(cp(y)))
		fmt.Fprintf(b, "%v ", ok)
		rg(a)
		rg(&ipnet.Range{Start: append(net.IP{}, x.IP...), End: ipnet.LastIP(cp(y))})
		fmt.Fprintf(b, "%x %x %x %v %v %v %v %d\n", []byte(ipnet.LastIP(cp(x))), []byte(ipnet.NextIP(append(net.IP{}, x.IP...))), []byte(ipnet.NextStart(cp(x))),
			ipnet.MaskLess(x, y), ipnet.IPLess(x.IP, y.IP), ipnet.Contains(x.IP, ipnet.LastIP(cp(x)), y.IP), ipnet.IsAllMask(x.IP), ipnet.SuffixZeroLength(x.IP))
	}
	for _, u := range r.U32s {
		fmt.Fprintf(b, "%x %d %x %x\n", []byte(ipnet.Uint32ToIPv4(u)), ipnet.IPv4ToUint32(ipnet.Uint32ToIPv4(u)), []byte(ipnet.Uint64ToIP(uint64(u)<<32|uint64(^u))), []byte(ipnet.Uint64ToIP2(uint64(^u)<<31, uint64(u))))
	}
}
